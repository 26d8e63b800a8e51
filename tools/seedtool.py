"""Build, confirm and try planted bugs.

  seedtool.py build SPEC.py [id ...]   make /verif/seeded/<id>/ from the specs (confirmed in a scratch copy)
  seedtool.py check [id ...]           run the check of each bug's property against a scratch copy with the bug
  seedtool.py check --prop C01,C02 id  run the given checks instead

Everything happens in scratch copies of /repo that are removed afterwards; /repo itself is never touched."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
BASE = '87a64a2'
ENV = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent/pyc', 'PYTHONHASHSEED': '0',
       'OPENBLAS_NUM_THREADS': '1'}


def sh(cmd, cwd, timeout=400, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired as e:
        return 124, 'TIMEOUT ' + str(e.stdout)[-300:]
    return r.returncode, r.stdout


def demo(cwd, d, timeout=300):
    # as vcheck does: the folder lies elsewhere, without the patch and meta.json, and PYTHONHASHSEED is not set
    tmp = tempfile.mkdtemp(prefix='seeddemo')
    try:
        for f in os.listdir(d):
            if f not in ('patch.diff', 'meta.json'):
                shutil.copy(os.path.join(d, f), tmp)
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        return sh(['bash', os.path.join(tmp, 'demo.sh')], cwd, timeout, env)
    finally:
        shutil.rmtree(tmp)


def copy():
    d = tempfile.mkdtemp(prefix='seedrepo')
    subprocess.run(['cp', '-a', '/repo/.', d], check=True)
    return d


def tests(cwd):
    return sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300'], cwd)


def build(spec):
    d = copy()
    try:
        for file, edits in spec['edits'].items():
            p = os.path.join(d, file)
            s = open(p).read()
            blame = subprocess.run(['git', 'blame', '-s', '--abbrev=7', file], cwd=d, stdout=subprocess.PIPE, text=True).stdout.splitlines()
            for old, new in edits:
                if s.count(old) != 1:
                    return spec['id'], f'BAD EDIT: {s.count(old)} matches of {old!r}'
            for old, new in edits:
                s = s.replace(old, new)
            open(p, 'w').write(s)
            diff = subprocess.run(['git', 'diff', '-U0', file], cwd=d, stdout=subprocess.PIPE, text=True).stdout
            removed, bad = 0, []
            ln = 0
            for line in diff.splitlines():
                if line.startswith('@@'):
                    ln = int(line.split()[1][1:].split(',')[0])
                elif line.startswith('-') and not line.startswith('---'):
                    b = blame[ln - 1].split()[0].lstrip('^')
                    removed += 1
                    if not b.startswith(BASE[:6]):
                        bad.append((ln, b))
                    ln += 1
            if not removed or bad:
                return spec['id'], f'LINES NOT ORIGINAL: removed={removed} bad={bad}'
        diff = subprocess.run(['git', 'diff'], cwd=d, stdout=subprocess.PIPE, text=True).stdout
        out = os.path.join(SEEDED, spec['id'])
        tmp = tempfile.mkdtemp(prefix='seedout')
        open(os.path.join(tmp, 'patch.diff'), 'w').write(diff)
        open(os.path.join(tmp, 'demo.py'), 'w').write(
            'import os\nimport sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n' + ''.join(l[2:] if l.startswith('  ') else l for l in spec['demo'].lstrip('\n').splitlines(True)))
        open(os.path.join(tmp, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
                  open(os.path.join(tmp, 'meta.json'), 'w'), indent=1, ensure_ascii=False)
        rc, o = tests(d)
        if rc != 0:
            return spec['id'], 'TESTS FAIL: ' + ' | '.join(l for l in o.splitlines() if 'FAILED' in l or 'rror' in l)[:400]
        rc, o = demo('/repo', tmp)
        if rc != 0:
            return spec['id'], 'DEMO FAILS ON CLEAN TREE: ' + o[-500:]
        rc, o = demo(d, tmp)
        if rc == 0:
            return spec['id'], 'DEMO PASSES WITH BUG'
        if os.path.exists(out):
            shutil.rmtree(out)
        shutil.copytree(tmp, out)
        shutil.rmtree(tmp)
        return spec['id'], 'ok   demo says: ' + (o.strip().splitlines() or ['?'])[-1][:160]
    finally:
        shutil.rmtree(d)


def check(i, props=None, tier='quick'):
    meta = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
    d = copy()
    res = []
    try:
        rc, o = sh(['git', 'apply', os.path.join(SEEDED, i, 'patch.diff')], d)
        assert rc == 0, o
        for prop in props or [meta['property']]:
            t = time.time()
            rc, o = sh([os.path.join(VERIF, 'run.sh'), prop, tier], VERIF, 1000, {**os.environ, 'VERIF_REPO': d, 'VERIF_SEED': '1'})
            v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            res.append((prop, rc, round(time.time() - t), 'CAUGHT' if rc == 1 and v and f'property={prop} ' in v[0] else 'MISSED' if rc == 0 else 'BROKEN',
                        '' if rc == 0 else o[-400:].replace('\n', ' / ')))
    finally:
        shutil.rmtree(d)
    return i, res


if __name__ == '__main__':
    mode, *rest = sys.argv[1:]
    if mode == 'build':
        ns = {}
        exec(open(rest[0]).read(), ns)
        specs = [s for s in ns['SPECS'] if not rest[1:] or s['id'] in rest[1:]]
        with cf.ThreadPoolExecutor(6) as ex:
            for i, r in ex.map(build, specs):
                print(i, r, flush=True)
    else:
        props = None
        if rest and rest[0] == '--prop':
            props = rest[1].split(',')
            rest = rest[2:]
        ids = rest or sorted(os.listdir(SEEDED))
        for i in ids:
            i, res = check(i, props)
            path = os.path.join(VERIF, 'seed_results.json')
            book = json.load(open(path)) if os.path.exists(path) else {}
            for r in res:
                book.setdefault(i, {})[r[0]] = r[3].lower()
            with open(path, 'w') as fh:
                json.dump(book, fh, indent=0, sort_keys=True)
            for r in res:
                print(i, *r[:4], r[4][-250:], flush=True)

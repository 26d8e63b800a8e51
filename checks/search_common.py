"""Running search.py under observation, and a reference model of what a search with room enough does."""
import ast
import os
import re
import runpy
import shutil
import signal
import sqlite3
import sys
import tempfile
import time
import traceback
from contextlib import contextmanager

from peyl import GNF
from checks import track_common as TC
from vlib import ref_braid as R
from vlib.core import REPO

SCRIPT = os.path.join(REPO, 'search.py')


class StopSearch(BaseException):
    """Raised inside the script when it has got as far as we want to look."""


@contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='search-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Output:
    """Stands in for stdout: keeps everything in a file, and stops the script when a given length is reached."""

    def __init__(self, fd, stop_at, hook=None):
        self.fd, self.stop_at, self.line, self.hook = fd, stop_at, '', hook
        self.encoding, self.errors = 'utf-8', 'strict'

    def write(self, text):
        os.write(self.fd, text.encode('utf-8', 'replace'))
        if self.hook:
            self.hook(text)
        self.line += text
        while '\n' in self.line:
            line, self.line = self.line.split('\n', 1)
            m = re.match(r'^-+ *Length (-?\d+)', line)
            if m and self.stop_at is not None and int(m.group(1)) >= self.stop_at:
                raise StopSearch()
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False


def forked(body, timeout=240):
    """Run body() in a forked child; returns (status word, exit code or signal).  body returns an exit code."""
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            signal.alarm(timeout)
            code = body()
        except BaseException:
            traceback.print_exc(file=sys.__stderr__)
        finally:
            os._exit(code)
    try:
        _, status = os.waitpid(pid, 0)
        pid = None
    finally:
        if pid is not None:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
    if os.WIFSIGNALED(status):
        return 'signal', os.WTERMSIG(status)
    return 'exit', os.WEXITSTATUS(status)


DONE, STOPPED, FAILED, INTERRUPTED, KILLED, REFUSED = 0, 10, 11, 12, 13, 14


def script_body(argv, fd, stop_at, prepare=None, hook=None):
    """Run search.py in this process as if from the command line."""
    sys.argv = [SCRIPT] + [str(a) for a in argv]
    sys.stdout = Output(fd, stop_at, hook)
    time.sleep = lambda *a: None
    if prepare:
        prepare()
    try:
        runpy.run_path(SCRIPT, run_name='__main__')
        return DONE
    except StopSearch:
        return STOPPED
    except KeyboardInterrupt:
        return INTERRUPTED
    except SystemExit as e:
        return DONE if e.code in (None, 0) else REFUSED
    except AssertionError:
        os.write(fd, traceback.format_exc().encode())
        return REFUSED
    except BaseException:
        os.write(fd, traceback.format_exc().encode())
        return FAILED


def run_search(argv, stop_at=None, prepare=None, hook=None, where=None, timeout=240):
    """Returns (exit word, stdout text)."""
    with scratch() as d:
        out = os.path.join(where or d, 'stdout.txt')
        fd = os.open(out, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
        null = os.open(os.devnull, os.O_WRONLY)

        def body():
            os.chdir(where or d)
            os.dup2(null, 2)
            return script_body(argv, fd, stop_at, prepare, hook)
        try:
            how, code = forked(body, timeout)
        finally:
            os.close(fd)
            os.close(null)
        text = open(out, encoding='utf-8').read()
    word = {DONE: 'done', STOPPED: 'stopped', FAILED: 'failed', INTERRUPTED: 'interrupted', KILLED: 'killed', REFUSED: 'refused'}.get(code, f'code {code}') if how == 'exit' else f'signal {code}'
    return word, text


def argv(n, r, p, b=None, cap=None, use=None, save=None, step=None, seed=None, db=None, stop=False):
    a = [n, r, p]
    for name, v in (('bootstrap-length', b), ('bucket-size', cap), ('use-best', use), ('save-best', save), ('step-size', step), ('seed', seed), ('database', db)):
        if v is not None:
            a += ['--' + name, v]
    return a + (['--stop-at-projlen-1'] if stop else [])


def read_db(path):
    """All rows in order of insertion, as (n, r, p, length, projlen, normal form)."""
    if not os.path.exists(path):
        return None
    c = sqlite3.connect(path)
    try:
        c.execute('PRAGMA query_only = ON')
        ok = c.execute('PRAGMA integrity_check').fetchall()
        if ok != [('ok',)]:
            raise ValueError(f'integrity check: {ok}')
        if not c.execute("SELECT name FROM sqlite_master WHERE name = 'good_braids'").fetchall():
            return None
        return c.execute('SELECT n, r, p, length, projlen, gnf FROM good_braids ORDER BY rowid').fetchall()
    finally:
        c.close()


def row_nf(row):
    """The normal form a row names; None if it does not name one."""
    try:
        n, power, factors = ast.literal_eval(row[5])
        nf = TC.nf_of(GNF(n, power, tuple(factors)))
    except Exception:
        return None
    return nf


def steps_of(text):
    """[(length, [printed near-kernel elements as (length, normal form)], section text)]"""
    out = []
    cur = None
    for line in text.split('\n'):
        m = re.match(r'^-+ *Length (-?\d+)', line)
        if m:
            cur = [int(m.group(1)), [], []]
            out.append(cur)
            continue
        if cur is None:
            continue
        cur[2].append(line)
        if 'near-kernel element' in line:
            m = re.match(r'^\(n=(\d+), r=(\d+), p=(\d+)\) near-kernel element: Garside length (\d+), Garside form (.*)$', line)
            if not m:
                cur[1].append((None, None, line))
                continue
            n = int(m.group(1))
            power, words = ast.literal_eval(m.group(5))
            nf = ('GNF', n, int(power), tuple(tuple(w) for w in words))
            cur[1].append(((int(m.group(1)), int(m.group(2)), int(m.group(3))), int(m.group(4)), nf))
    return [(a, b, '\n'.join(c)) for a, b, c in out]


def reference(n, r, p, b, step, use, save, upto):
    """What a search with room enough does: [(length, held elements of projlen one, saved {projlen: set}, all {projlen: set})]."""
    held = {}
    for L in range(1, b + 1):
        for nf in TC.all_nfs('GNF', n, L):
            held.setdefault(L, {}).setdefault(TC.projlen(nf, r, p), set()).add(nf)
    out = []
    for L in range(b - step + 1, upto):
        near = {nf for g in held.values() for nf in g.get(1, ())}

        def best(limit):
            pick, total = {}, 0
            for d in sorted(held.get(L, {})):
                total += len(held[L][d])
                if total > limit:
                    break
                pick[d] = set(held[L][d])
            return pick
        used, saved = best(use), best(save)
        out.append((L, near, saved, {d: set(v) for d, v in held.get(L, {}).items()}))
        for d in used.values():
            for nf in d:
                for k in range(1, step + 1):
                    for e in TC.extensions(nf, k):
                        held.setdefault(len(e[3]), {}).setdefault(TC.projlen(e, r, p), set()).add(e)
        for l in [l for l in held if l <= L]:
            del held[l]
    return out

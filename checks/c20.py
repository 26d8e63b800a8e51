"""C20: the search script reports and saves only true results, reproducibly."""
import os
import re
import subprocess
import sys
from collections import Counter

from checks import search_common as S
from checks import track_common as TC
from vlib import ref_braid as R
from vlib.core import REPO, VERIF, Family

PROPERTY = 'C20'
ASSUMPTIONS = ['the script is stopped from outside after a few lengths (its own limit is 500)',
               'time.sleep is replaced by a no-op']


def check_output(ctx, n, r, p, text, what):
    """Every near-kernel line is true; returns the steps."""
    steps = S.steps_of(text)
    for L, near, _ in steps:
        for head, length, nf in near:
            if head is None:
                ctx.fail(f'{what}: near-kernel line without a braid: {nf}')
            if head != (n, r, p):
                ctx.fail(f'{what}: near-kernel element printed for {head}')
            if len(nf[3]) != length or not R.is_normal_form('GNF', n, nf[3]):
                ctx.fail(f'{what}: near-kernel element {nf} printed with length {length}')
            if TC.projlen(nf, r, p) != 1:
                ctx.fail(f'{what}: {nf} is printed as near-kernel element, its projective length is {TC.projlen(nf, r, p)}')
            ctx.step()
    return steps


def check_rows(ctx, n, r, p, rows, what):
    """Every row is true; returns [(length, projlen, normal form)]."""
    out = []
    for row in rows:
        nf = S.row_nf(row)
        if nf is None or not R.is_normal_form('GNF', n, nf[3]) or nf[1] != n:
            ctx.fail(f'{what}: row {row} does not name a braid of B_{n} in normal form')
        if not all(type(x) is int for x in row[:5]) or tuple(row[:3]) != (n, r, p) or row[3] != len(nf[3]) or row[4] != TC.projlen(nf, r, p):
            ctx.fail(f'{what}: row {row}; the braid has length {len(nf[3])} and projective length {TC.projlen(nf, r, p)}')
        out.append((row[3], row[4], nf))
        ctx.step()
    return out


def run_room(ctx, chunk):
    """Buckets that never overflow: the whole run is determined."""
    n, r, p, b, step, use, save, upto, stop = chunk
    what = f'search {n} {r} {p} --bootstrap-length {b} --step-size {step} --use-best {use} --save-best {save}' + (' --stop-at-projlen-1' if stop else '')
    ref = S.reference(n, r, p, b, step, use, save, upto)
    if stop:
        first = next((i for i, x in enumerate(ref) if x[1]), None)
        if first is not None:
            ref = ref[:first + 1]
    cap = 2 + max([len(v) for x in ref for v in x[3].values()] + [4 * (R.count_normal_forms('GNF', n, b) if b else 1)]) * 20
    with S.scratch() as d:
        db = os.path.join(d, 'braids.db')
        word, text = S.run_search(S.argv(n, r, p, b, cap, use, save, step, 1, db, stop), upto)
        ctx.check(word == ('done' if stop and ref and ref[-1][1] else 'stopped'), lambda: f'{what}: the script ended as "{word}" {text[-600:]}')
        rows = S.read_db(db)
    steps = check_output(ctx, n, r, p, text, what)
    done = [s for s in steps if s[0] < upto]
    ctx.check([s[0] for s in done] == [x[0] for x in ref], lambda: f'{what}: processed the lengths {[s[0] for s in done]}, should be {[x[0] for x in ref]}')
    got = check_rows(ctx, n, r, p, rows, what)
    for (L, near, saved, held), (_, printed, _) in zip(ref, done):
        c = Counter(nf for _, _, nf in printed)
        if c != Counter(near):
            ctx.fail(f'{what}: at length {L} printed {sorted(c)[:4]}, near-kernel elements held are {sorted(near)[:4]} ({sum(c.values())} / {len(near)})')
        ctx.fresh_states(1)
    i = 0
    for L, near, saved, held in ref:
        for D in sorted(saved):
            part = got[i:i + len(saved[D])]
            if Counter(x[2] for x in part) != Counter(saved[D]):
                ctx.fail(f'{what}: row {i}: the {len(saved[D])} braids of length {L} and projective length {D} should be saved next, found '
                         f'{[x for x in part if x[2] not in saved[D]][:2] or part[:2]} ({len(part)} rows left)')
            i += len(part)
    if i != len(got):
        ctx.fail(f'{what}: {len(got) - i} rows too many: {got[i:i + 3]}')
    ctx.outcome((n, r, p, stop, len(got)))
    ctx.trace()
    ctx.sample({'arguments': what, 'rows': len(got), 'lengths': [x[0] for x in ref]})


def run_tight(ctx, chunk):
    """Overflowing buckets: rows are true, and each bucket holds as many as it should."""
    n, r, p, b, step, cap, use, save, seed, upto, stop = chunk
    what = f'search {n} {r} {p} --bootstrap-length {b} --step-size {step} --bucket-size {cap} --use-best {use} --save-best {save} --seed {seed}' + (' --stop-at-projlen-1' if stop else '')
    with S.scratch() as d:
        db = os.path.join(d, 'braids.db')
        word, text = S.run_search(S.argv(n, r, p, b, cap, use, save, step, seed, db, stop), upto)
        rows = S.read_db(db)
        # once more without a database, and once more with another
        word2, text2 = S.run_search(S.argv(n, r, p, b, cap, use, save, step, seed, None, stop), upto)
        word3, text3 = S.run_search(S.argv(n, r, p, b, cap, use, save, step, seed, os.path.join(d, 'other.db'), stop), upto)
        rows3 = S.read_db(os.path.join(d, 'other.db'))
        left = sorted(os.listdir(d))
    steps = check_output(ctx, n, r, p, text, what)
    steps2 = check_output(ctx, n, r, p, text2, what)
    if word not in ('stopped', 'done') or word2 != word or word3 != word:
        ctx.fail(f'{what}: the script ended as "{word}", without database "{word2}", again "{word3}" {text[-600:]}')
    if [(s[0], s[1]) for s in steps] != [(s[0], s[1]) for s in steps2]:
        ctx.fail(f'{what}: the near-kernel elements printed depend on whether a database is written')
    if quiet(text) != quiet(text3) or rows != rows3:
        ctx.fail(f'{what}: two runs differ')
    if word == 'done':
        ctx.check(stop and steps[-1][1], f'{what}: the search ended by itself')
    done = [s for s in steps if s[0] < upto]
    if stop and any(s[1] for s in done):
        ctx.check(word == 'done' and not any(s[1] for s in done[:-1]), f'{what}: did not stop at the first near-kernel element')
    want = list(range(b - step + 1, b - step + 1 + len(done)))
    ctx.check([s[0] for s in done] == want and (word == 'done' or (want[-1:] or [b - step])[0] == max(upto - 1, b - step)), lambda: f'{what}: processed the lengths {[s[0] for s in done]}')
    got = check_rows(ctx, n, r, p, rows, what)
    # rows come in whole buckets, shortest braids and smallest projective length first, within the limit
    keys = [(L, D) for L, D, _ in got]
    ctx.check(keys == sorted(keys), f'{what}: rows are not saved best bucket first')
    count = Counter(keys)
    for L, D in count:
        if count[L, D] > cap:
            ctx.fail(f'{what}: {count[L, D]} rows of length {L} and projective length {D} from a bucket of {cap}')
    perlen = Counter(L for L, _, _ in got)
    for L in perlen:
        ctx.check(perlen[L] <= save, f'{what}: {perlen[L]} rows saved at length {L}, the limit is {save}')
    dup = [k for k, c in Counter(got).items() if c > 1]
    if step == 1:
        ctx.check(not dup, lambda: f'{what}: saved twice: {dup[:2]}')
    # near-kernel elements of this length in the buckets are printed at this step and saved (projlen one comes first)
    bylen, complete = {}, {}
    for L, D, nf in got:
        bylen.setdefault(L, {}).setdefault(D, []).append(nf)
    for L, printed, _ in done:
        mine = [nf for _, length, nf in printed if length == L]
        if len(mine) <= save and Counter(mine) != Counter(bylen.get(L, {}).get(1, [])):
            ctx.fail(f'{what}: at length {L} printed {mine} and saved {bylen.get(L, {}).get(1, [])}')
    if step == 1:
        # how many braids each bucket of the next length was offered follows from what was saved
        for L in range(max(b, 1), done[-1][0] + 1 if done else 0):
            if L == b:
                offers = Counter(TC.projlen(nf, r, p) for nf in TC.all_nfs('GNF', n, L))
            elif L - 1 in bylen and complete.get(L - 1):
                base, total = [], 0
                for D in sorted(bylen[L - 1]):
                    total += len(bylen[L - 1][D])
                    if total <= use:
                        base += bylen[L - 1][D]
                offers = Counter(TC.projlen(e, r, p) for nf in base for e in TC.extensions(nf, 1))
                offered = {e for nf in base for e in TC.extensions(nf, 1)}
                for D, nfs in bylen.get(L, {}).items():
                    for nf in nfs:
                        ctx.check(nf in offered, lambda: f'{what}: {nf} was saved but does not extend a braid moved forward')
            else:
                continue
            sizes = {D: min(cap, c) for D, c in offers.items()}
            complete[L] = sum(sizes.values()) <= save
            pick, total = {}, 0
            for D in sorted(sizes):
                total += sizes[D]
                if total > save:
                    break
                pick[D] = sizes[D]
            have = {D: len(v) for D, v in bylen.get(L, {}).items()}
            if have != pick:
                ctx.fail(f'{what}: at length {L} saved {have} braids by projective length, should be {pick}')
            ctx.step()
    ctx.check(left == ['braids.db', 'other.db'], f'{what}: files left beside the database: {left}')
    ctx.state((n, r, p, cap, seed, tuple(got)))
    ctx.outcome((n, r, p, cap, word))
    ctx.trace(3)


def quiet(text):
    """The output without its timings."""
    return re.sub(r'\d+\.\d+ seconds', 'some seconds', text)


CHILD = '''
import sys
sys.path[:0] = [{repo!r}, {verif!r}]
from checks import search_common as S
sys.exit(S.script_body({argv!r}, 1, {upto!r}))
'''


def run_hash(ctx, chunk):
    """Separate interpreters with different hash seeds."""
    n, r, p, b, step, cap, use, save, seed, upto, stop, seeds = chunk
    seen = {}
    for h in seeds:
        with S.scratch() as d:
            args = S.argv(n, r, p, b, cap, use, save, step, seed, 'braids.db', stop)
            env = dict(os.environ, PYTHONHASHSEED=str(h), PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO)
            res = subprocess.run([sys.executable, '-c', CHILD.format(repo=REPO, verif=VERIF, argv=args, upto=upto)], cwd=d, env=env, capture_output=True, timeout=200)
            key = (res.returncode, quiet(res.stdout.decode()), tuple(S.read_db(os.path.join(d, 'braids.db')) or ()))
        ctx.check(res.returncode in (S.DONE, S.STOPPED) and key[2], lambda: f'search {args}: failed {res.stdout[-300:]} {res.stderr[-500:]}')
        seen.setdefault(key, h)
        ctx.trace()
    if len(seen) > 1:
        (a, ha), (c, hc) = list(seen.items())[:2]
        ctx.fail(f'search {args}: output or rows differ between two processes (PYTHONHASHSEED {ha} and {hc}): {len(a[2])} and {len(c[2])} rows, output equal: {a[1] == c[1]}')
    ctx.fresh_states(1)
    ctx.step(len(key[2]))


def run_unseeded(ctx, chunk):
    """The seed has a default: the search is the same every time when none is named."""
    n, r, p, b, cap, upto = chunk
    seen = []
    for k in range(3):
        with S.scratch() as d:
            db = os.path.join(d, 'braids.db')
            word, text = S.run_search(S.argv(n, r, p, b, cap, None, None, None, None, db), upto)
            rows = S.read_db(db)
        ctx.check(word == 'stopped', lambda: f'search {n} {r} {p} without a seed ended as "{word}": {text[-400:]}')
        check_output(ctx, n, r, p, text, f'search {n} {r} {p} without a seed')
        check_rows(ctx, n, r, p, rows, f'search {n} {r} {p} without a seed')
        seen.append((quiet(text), rows))
        ctx.trace()
    ctx.check(seen[0] == seen[1] == seen[2], f'search {n} {r} {p} --bootstrap-length {b} --bucket-size {cap}: two runs without a seed differ')
    ctx.fresh_states(1)


def run_refuse(ctx, chunk):
    for args in [[2, 1, 2], [8, 1, 2], [0, 0, 2], [4, 3, 2], [4, -1, 2], [3, 2, 5], [5, 3, 2], [4, 1, 0], [4, 1, -3], ['x', 1, 2], [4, 1], [4, 1, 2, '--bogus'], [4, 1, 2, '--seed', 'x'], [4, 1, 2.5]]:
        with S.scratch() as d:
            word, text = S.run_search(args + ['--database', os.path.join(d, 'f.db'), '--bootstrap-length', 1], 3)
            ctx.check(word == 'refused', lambda: f'search.py {args} is not refused: {word}')
            ctx.check(os.listdir(d) == [], f'search.py {args} was refused but left a database')
        ctx.trace()
        ctx.fresh_states(1)


def families(tier):
    q = tier == 'quick'
    big = 10 ** 6
    ch = []
    for n, r, p, bs, upto in [(3, 1, 2, (0, 1, 2, 3, 4), 6), (3, 1, 5, (1, 3), 6), (3, 0, 2, (1, 2), 4), (4, 2, 2, (0, 1, 2), 3), (4, 2, 3, (1, 2), 3), (4, 1, 2, (1, 2), 3), (4, 1, 5, (2,), 3), (4, 0, 3, (1,), 3), (5, 2, 2, (1,), 2), (5, 1, 3, (1,), 2)] + \
            ([] if q else [(3, 1, 3, (1, 2, 5), 9), (4, 2, 3, (1, 2, 3), 4), (4, 1, 3, (1, 3), 4), (6, 3, 2, (1,), 2)]):
        total = R.count_normal_forms('GNF', n, upto - 1)
        for b in bs:
            for step in (1, 2, 3):
                if step > b + 1 or b - step + 1 >= upto or (b == 0 and step == 1 and n != 3):
                    continue
                lims = [(big, big), (big, 5), (total // 3, big), (20, 30)] + ([(0, 0), (big, 0), (7, 1), (total - 1, total - 1), (total, total)] if n == 3 else [])
                for use, save in lims:
                    for stop in (False, True):
                        ch.append([n, r, p, b, step, use, save, upto - (step > 1 and n > 3 and upto > b + 1), stop])
    # more than 1000 braids in a step, more than 10,000 in a bootstrap
    for row in [[3, 1, 2, 10, 1, big, big, 12, False], [3, 1, 5, 11, 1, 1000, 1000, 12, False], [3, 1, 3, 10, 2, 1600, 1000, 11, True], [3, 0, 2, 10, 1, big, big, 11, True], [3, 0, 5, 10, 1, big, big, 11, False],
                [4, 2, 2, 3, 1, big, 2000, 4, False], [4, 1, 2, 3, 1, 2500, big, 4, False], [4, 1, 3, 3, 2, 900, big, 4, True], [3, 1, 2, 13, 1, 10, big, 14, False], [5, 2, 2, 2, 1, 30, big, 3, False]]:
        ch.append(row)
    F = [Family('room', ch, run_room, 'buckets with room: the whole run against a reference search')]
    ch = []
    for n, r, p, b, upto, caps in [(3, 1, 2, 2, 7, (1, 2, 5, 12)), (3, 1, 3, 3, 8, (3, 8)), (4, 2, 2, 1, 6, (1, 4, 9)), (4, 1, 2, 1, 6, (2, 10)), (4, 1, 3, 2, 5, (5,)), (5, 2, 3, 1, 3, (3, 10)), (6, 1, 2, 1, 3, (2,))]:
        for cap in caps:
            for use, save in [(big, big), (3 * cap, big), (big, 2 * cap), (2 * cap, 3 * cap)]:
                for seed in ((1, 2) if q else range(6)):
                    for step in (1, 2):
                        for stop in (False, True):
                            if not (step == 2 and (n > 4 or stop)) and not (n == 6 and stop):
                                ch.append([n, r, p, b, step, cap, use, save, seed, upto, stop])
    for seed in (0, -1, -7, 42, 255, 256, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 + 5):
        ch += [[3, 1, 2, 2, 1, 3, big, big, seed, 6, False], [4, 2, 2, 1, 1, 4, 12, 20, seed, 4, False]]
    ch.append([4, 1, 2, 3, 1, 10, 100, 50, 1, 60, True])
    ch += [[4, 1, 2, 3, 1, 10, 100, 50, s, 25, True] for s in (2, 3)] + [[4, 1, 3, 3, 1, 20, 100, 20, 1, 25, True]]
    # longer searches with small buckets and limits at, just below and just above whole buckets
    for n, r, p, b, cap, uses, upto in [(3, 1, 2, 2, 2, (2, 4, 5), 30), (3, 1, 5, 3, 3, (9, 10), 24), (4, 2, 3, 1, 2, (4, 7), 20), (4, 1, 2, 2, 3, (6,), 18), (4, 0, 2, 1, 2, (2, 3), 30)]:
        for use in uses:
            ch += [[n, r, p, b, step, cap, use, save, 1, upto, False] for step in (1, 2, 3) for save in ((big,) if step > 1 else (use, big)) if step <= b + 1]
    # long searches in which every braid is near the kernel
    ch += [[3, 0, 2, 2, 1, 3, big, big, 1, 120, False], [4, 0, 3, 1, 1, 3, 9, 20, 2, 70, False], [5, 0, 2, 1, 1, 2, big, big, 3, 30, False], [6, 0, 2, 1, 1, 2, big, big, 1, 20, False], [3, 0, 7, 13, 1, 2, big, big, 1, 30, True], [3, 0, 5, 3, 3, 3, big, big, 4, 40, False]]
    F.append(Family('tight', ch, run_tight, 'overflowing buckets: truth, counts and repeatability'))
    ch = [[n, r, p, b, step, cap, use, save, seed, upto, stop, [0, 1, 42] if q else [0, 1, 2, 3, 42, 1000]] for n, r, p, b, step, cap, use, save, seed, upto, stop in
          [(4, 2, 3, 1, 1, 4, 50, 50, 1, 5, False), (4, 1, 2, 2, 2, 6, 30, 40, 5, 6, False), (3, 1, 2, 2, 1, 3, 10, 10, 2, 9, False), (5, 2, 2, 1, 1, 8, 60, 100, 1, 3, True), (4, 1, 3, 1, 1, 5, 50, 50, 0, 4, False)]]
    F.append(Family('hashes', ch, run_hash, 'separate interpreters with different hash seeds'))
    F.append(Family('unseeded', [[3, 1, 2, 3, 2, 8], [4, 2, 3, 1, 3, 5], [4, 1, 2, 1, 4, 4]], run_unseeded, 'searches without a seed repeat themselves'))
    F.append(Family('refusals', [[0]], run_refuse, 'bad arguments are refused before anything is written'))
    return F

"""C18: with room enough, the search visits every braid exactly once."""
import itertools
import random
from collections import Counter

from peyl import DGNF, GNF, BraidGroup, Tracker, bucketing, braidsearch
from peyl.bucketing import Stats
from checks import track_common as TC
from vlib import ref_braid as R
from vlib import ref_rep as Q
from vlib.core import Family
from vlib.impl import CLS

PROPERTY = 'C18'
ASSUMPTIONS = []


def splits(total):
    """All ways (bootstrap length, step sizes) of reaching canonical length `total`, steps of 1 to 3 letters."""
    def parts(m):
        if m == 0:
            yield ()
        for a in range(1, min(m, 3) + 1):
            for rest in parts(m - a):
                yield (a,) + rest
    for b in range(0, total + 1):
        for steps in parts(total - b):
            yield b, steps


class Jones:
    kinds = ('GNF',)

    def __init__(self, n, r, p, cap, rand):
        self.args = n, r, p
        self.t = Tracker(TC.js(n, r, p), cap, ('length', 'projlen'), lambda x: x['length'] >= 0, rand=random.Random(3) if rand else None)

    def bootstrap(self, kind, L):
        self.t.bootstrap_exhaustive(L)

    def tags(self):
        return [TC.tidy(k) for k in self.t.buckets]

    def raw(self, tag):
        return next(k for k in self.t.buckets if TC.tidy(k) == tag)

    def where(self, tag):
        return ('GNF',) + tag

    def rows(self):
        out = {}
        for row in self.t.stats().to_dict('records'):
            out[TC.tidy(row['bucket'])] = (row['count'], row.get('reservoir_count', row['count']))
        return out


class Generic:
    def __init__(self, n, r, p, cap, method, kinds):
        self.args = n, r, p
        self.kinds = kinds
        self.t = bucketing.Tracker(TC.cell(n, r, p), cap, [Stats.NFKind, Stats.CanonicalLength, Stats.ProjectiveLength], [], reservoir_method=method, rand=random.Random(3))

    def bootstrap(self, kind, L):
        self.t.bootstrap_exhaustive(CLS[kind], L)

    tags = Jones.tags
    raw = Jones.raw
    rows = Jones.rows

    def where(self, tag):
        return tag


def expected(kind, n, r, p, L):
    out = {}
    for nf in TC.all_nfs(kind, n, L):
        out.setdefault((kind, L, TC.projlen(nf, r, p)), set()).add(nf)
    return out


def compare(ctx, s, kind, L, exact_counts, what):
    n, r, p = s.args
    want = expected(kind, n, r, p, L)
    rows = s.rows()
    seen = set()
    for tag in s.tags():
        w = s.where(tag)
        if w[0] != kind or w[1] != L:
            continue
        seen.add(w)
        if w not in want:
            ctx.fail(f'{what}: a bucket {w}, but no such braid exists')
        braids, images = s.t.bucket_braids_images(s.raw(tag))
        got = Counter(TC.nf_of(b) for b in braids)
        if got != Counter(want[w]):
            extra, gone = got - Counter(want[w]), Counter(want[w]) - got
            ctx.fail(f'{what}: bucket {w} misses {list(gone)[:3]} and has {list(extra.items())[:3]} too many')
        for b, im in zip(braids, images):
            if not Q.same_tensor(im, TC.image(TC.nf_of(b), r, p)):
                ctx.fail(f'{what}: the image of {b!r} is wrong')
        if rows[tag][0] != len(braids):
            ctx.fail(f'{what}: bucket {w} reports {rows[tag][0]} braids')
        if exact_counts and rows[tag][1] != len(braids):
            ctx.fail(f'{what}: bucket {w} holds {len(braids)} braids and reports {rows[tag][1]} seen')
        ctx.transitions += len(braids)
    if seen != set(want):
        ctx.fail(f'{what}: buckets {sorted(set(want) - seen)} are missing')
    ctx.state((what.split(' after ')[0], kind, L))


def start(s, kind, n, b):
    if b == 0:
        nf = (kind, n, 0, ())
        s.t.add_braids_images([TC.braid(nf)], TC.offer_images([nf], s.args[1], s.args[2]))
    else:
        s.bootstrap(kind, b)


def run_splits(ctx, chunk):
    which, n, r, p, total, opts = chunk
    for b, steps in splits(total):
        for rand in opts:
            room = 1 + max(len(v) for kind in (('GNF',) if which == 'jones' else ('GNF', 'DGNF')) for L in range(total + 1) for v in expected(kind, n, r, p, L).values()) * 4
            if which == 'jones':
                s = Jones(n, r, p, room, rand)
            elif which == 'both':
                s = Generic(n, r, p, room, rand, ('GNF', 'DGNF'))
            else:
                s = Generic(n, r, p, room, rand, (which,))
            name = f'{which} {s.t.rep!r} ({rand}) after bootstrap {b} and steps {steps}'
            for kind in s.kinds:
                start(s, kind, n, b)
            L = b
            one = True
            for kind in s.kinds:
                for l in range(1, b + 1):
                    compare(ctx, s, kind, l, True, name)
            for step in steps:
                todo = [tag for tag in s.tags() if s.where(tag)[1] == L]
                # alternate the order of the buckets moved forward
                for tag in (sorted(todo) if step % 2 else sorted(todo, reverse=True)):
                    s.t.nf_descendants(s.raw(tag), step)
                one = one and step == 1
                L += step
                for kind in s.kinds:
                    compare(ctx, s, kind, L, one or which != 'jones', name)
                    if which == 'jones':
                        # the letters passed on the way are covered too
                        for l in range(L - step + 1, L):
                            compare(ctx, s, kind, l, False, name)
            ctx.trace()
    ctx.sample({'tracker': which, 'n': n, 'r': r, 'p': p, 'length': total, 'splits': len(list(splits(total)))})


def run_discard(ctx, chunk):
    """The shape of a search: move a length forward, discard it, and go on; buckets moved one at a time."""
    which, n, r, p, b, total, step = chunk
    room = 1 + max(len(v) for kind in ('GNF', 'DGNF') for L in range(total + step) for v in expected(kind, n, r, p, L).values() if which != 'jones' or kind == 'GNF') * 4
    s = Jones(n, r, p, room, True) if which == 'jones' else Generic(n, r, p, room, 'Uniform', (which,))
    kind = s.kinds[0]
    start(s, kind, n, b)
    for L in range(max(0, b - step + 1), total):
        for tag in [t for t in s.tags() if s.where(t)[1] == L]:
            s.t.nf_descendants(s.raw(tag), step)
        for tag in [t for t in s.tags() if s.where(t)[1] <= L]:
            s.t.discard_bucket(s.raw(tag))
        ctx.check(all(s.where(t)[1] > L for t in s.tags()), f'buckets of length {L} survive being discarded')
        for l in range(L + 1, L + step + 1):
            compare(ctx, s, kind, l, step == 1, f'{which} {s.t.rep!r} after bootstrap {b}, moving {L} forward by {step}')
    ctx.trace()
    ctx.sample({'tracker': which, 'n': n, 'r': r, 'p': p, 'bootstrap': b, 'upto': total})


def run_turns(ctx, chunk):
    """One tracker whose buckets of one length are moved forward by several numbers of letters in turn."""
    which, n, r, p, b, turns, method = chunk
    top = b + max(turns)
    room = 1 + max(len(v) for kind in ('GNF', 'DGNF') for L in range(top + 1) for v in expected(kind, n, r, p, L).values() if which != 'jones' or kind == 'GNF') * 8
    for order in itertools.permutations(turns):
        s = Jones(n, r, p, room, method) if which == 'jones' else Generic(n, r, p, room, method, ('GNF', 'DGNF') if which == 'both' else (which,))
        for kind in s.kinds:
            s.bootstrap(kind, b)
        reached = set()
        for step in order:
            for tag in sorted(t for t in s.tags() if s.where(t)[1] == b):
                s.t.nf_descendants(s.raw(tag), step)
            reached |= set(range(b + 1, b + step + 1)) if which == 'jones' else {b + step}
            for kind in s.kinds:
                for l in sorted(reached):
                    compare(ctx, s, kind, l, False, f'{which} {s.t.rep!r} ({method}) after bootstrap {b}, moving length {b} forward by {order} in turn, now {step}')
        ctx.fresh_states(1)
        ctx.trace()
    ctx.sample({'tracker': which, 'n': n, 'r': r, 'p': p, 'bootstrap': b, 'steps': list(turns)})


WINDOWS = (63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 998, 999, 1000, 1001, 1002, 1003, 1023, 1024, 1025, 1998, 1999, 2000, 2001, 2002, 2003, 2047, 2048, 2049)
DEEP = (2999, 3000, 3001, 4095, 4096, 4097, 4999, 5000, 5001, 9999, 10000, 10001)


def pick(nfs, weight, total):
    """Some of the normal forms, in order, with weights adding up to exactly `total` (None if impossible)."""
    nfs = [nf for nf in nfs if weight(nf)]
    top = max(map(weight, nfs))
    out = []
    while nfs and total >= 4 * top:       # the bulk in order, the rest by subset sums
        out.append(nfs.pop(0))
        total -= weight(out[-1])
    sums = {0: []}
    for nf in nfs:
        for x, sel in list(sums.items()):
            if x + weight(nf) <= total:
                sums.setdefault(x + weight(nf), sel + [nf])
        if total in sums:
            return out + sums[total]
    return None


def run_crowded(ctx, chunk):
    """One crowded bucket moved forward: exactly `total` candidates in all, or exactly `total` braids."""
    which, n, r, p, L, step, mode, totals = chunk
    nfs = TC.crowd(which if which != 'jones' else 'GNF', n, r, p, L)
    follow = {}

    def weight(nf):
        k = nf[3][-1]
        if k not in follow:
            follow[k] = len(TC.extensions((nf[0], n, 0, (k,)), step))
        return follow[k]
    for total in totals:
        for method in ([False, True] if which == 'jones' else ['GreedyFirst', 'EvictMin']):
            if mode == 'candidates':
                chosen = pick(nfs, weight, total)
            elif mode == 'heads':
                chosen = pick(nfs, lambda nf: 1, total)
            else:           # all with one last factor
                last = nfs[0][3][-1]
                chosen = pick([nf for nf in nfs if nf[3][-1] == last], lambda nf: 1, total)
            if chosen is None:
                ctx.outcome(('cannot be arranged', mode, total))
                continue
            room = 20 * len(chosen) + 2 * sum(map(weight, chosen)) + 10
            s = Jones(n, r, p, room, method) if which == 'jones' else Generic(n, r, p, room, method, (which,))
            kind = s.kinds[0]
            s.t.add_braids_images([TC.braid(nf) for nf in chosen], TC.offer_images(chosen, r, p))
            tags = s.tags()
            held = Counter(TC.nf_of(b) for tag in tags for b in s.t.bucket_braids_images(s.raw(tag))[0])
            if held != Counter(chosen):
                ctx.fail(f'{which} {s.t.rep!r} ({method}): {sum(held.values())} braids held after offering {len(chosen)}')
            for tag in tags:
                s.t.nf_descendants(s.raw(tag), step)
            got = {}
            for tag in s.tags():
                w = s.where(tag)
                if w[1] <= L:
                    continue
                braids, images = s.t.bucket_braids_images(s.raw(tag))
                for b, im in zip(braids, images):
                    nf = TC.nf_of(b)
                    got.setdefault(w, Counter())[nf] += 1
                    if not Q.same_tensor(im, TC.image(nf, r, p)):
                        ctx.fail(f'{which} {s.t.rep!r} ({method}): {total} {mode} of length {L} moved forward by {step}: the image of {b!r} is wrong')
                ctx.check(len(images) == len(braids) == s.rows()[tag][0], lambda: f'{which} {s.t.rep!r}: bucket {w} holds {len(braids)} braids, {len(images)} images, reports {s.rows()[tag]}')
                ctx.transitions += len(braids)
            want = {}
            for st in (range(1, step + 1) if which == 'jones' else [step]):
                for nf in {x for c in chosen for x in TC.extensions(c, st)}:
                    want.setdefault((kind, L + st, TC.projlen(nf, r, p)), set()).add(nf)
            if set(got) != set(want) or any(set(got[w]) != want[w] for w in want) or any(got[w][x] != 1 for w in want if w[1] == L + step for x in got[w]):
                missing = [x for w in want for x in want[w] if x not in got.get(w, ())]
                twice = [x for w in got if w[1] == L + step for x, c in got[w].items() if c > 1 or x not in want.get(w, ())]
                ctx.fail(f'{which} {s.t.rep!r} ({method}): {len(chosen)} braids of length {L} ({total} {mode}) moved forward by {step}: '
                         f'{len(missing)} braids missing ({missing[:1]}), {len(twice)} extra ({twice[:1]})')
            ctx.fresh_states(1)
            ctx.trace()
    ctx.sample({'tracker': which, 'n': n, 'length': L, 'step': step, mode: list(totals)})


def run_bootstrap_long(ctx, chunk):
    """Bootstrapping a long way in one bucket per length."""
    which, n, r, p, L, *only = chunk
    for method in only or ([False, True] if which == 'jones' else ['GreedyFirst', 'Uniform', 'AChao', 'EvictMin']):
        room = 10 ** 6
        s = Jones(n, r, p, room, method) if which == 'jones' else Generic(n, r, p, room, method, (which,))
        s.bootstrap(s.kinds[0], L)
        for l in range(1, L + 1):
            compare(ctx, s, s.kinds[0], l, True, f'{which} {s.t.rep!r} ({method}) after bootstrap {L}')
        ctx.trace()


def run_below(ctx, chunk):
    """all_of_length_below_1 returns exactly the braids with rhogap / length below one."""
    n, r, p, L = chunk
    js = TC.js(n, r, p)
    want = {nf for nf in TC.all_nfs('GNF', n, L) if TC.projlen(nf, r, p) - 1 < 2 * L}
    braids, images = braidsearch.all_of_length_below_1(js, L)
    got = [TC.nf_of(b) for b in braids]
    ctx.check(Counter(got) == Counter(want), lambda: f'{js!r}, length {L}: {len(got)} braids, should be {len(want)}; missing {sorted(want - set(got))[:3]}, extra {sorted(set(got) - want)[:3]}')
    ctx.check(len(images) == len(got), f'{len(images)} images for {len(got)} braids')
    for nf, im in zip(got, images):
        if not Q.same_tensor(im, TC.image(nf, r, p)):
            ctx.fail(f'{js!r}: the image of {nf} is wrong')
        ctx.step()
    ctx.fresh_states(R.count_normal_forms('GNF', n, L))
    ctx.outcome((n, r, p, L, len(want)))
    ctx.trace()


def families(tier):
    q = tier == 'quick'
    ch = []
    for n, r, ps, total in [(3, 1, [0, 2, 3], 4), (3, 0, [2], 3), (4, 1, [2], 2), (4, 2, [3], 2), (2, 1, [2], 3)] + ([] if q else [(3, 1, [0, 2, 3, 5], 6), (4, 1, [2, 0], 3), (4, 2, [3], 3)]):
        for p in ps:
            for t in range(0, total + 1):
                ch.append(['jones', n, r, p, t, [False, True]])
    for n, r, ps, total in [(3, 1, [0, 2], 4), (4, 1, [2], 2), (4, 2, [3], 2), (2, 1, [3], 3)] + ([] if q else [(3, 1, [3], 6), (4, 1, [5], 3)]):
        for p in ps:
            for t in range(0, total + 1):
                ch.append(['GNF', n, r, p, t, ['GreedyFirst', 'Uniform', 'AChao', 'EvictMin']])
                ch.append(['both', n, r, p, t, ['Uniform', 'EvictMin']])
    for n, r, ps, total in [(3, 1, [0, 2, 5], 5), (4, 1, [2, 0], 3), (4, 2, [3], 3), (5, 1, [2], 2), (5, 2, [3], 1), (2, 1, [3], 2), (6, 1, [2], 1)] + ([] if q else [(3, 1, [3], 8), (4, 1, [5], 4), (5, 2, [2], 2)]):
        for p in ps:
            for t in range(0, total + 1):
                ch.append(['DGNF', n, r, p, t, ['GreedyFirst', 'Uniform'] if n >= 5 else ['GreedyFirst', 'Uniform', 'AChao', 'EvictMin']])
    F = [Family('splits', ch, run_splits, 'every split into bootstrap and forward steps of up to three letters, both trackers and normal forms')]
    ch = []
    for n, r, p, total, dtotal in [(3, 1, 2, 6, 7), (3, 1, 0, 5, 6), (4, 1, 2, 2, 4), (4, 2, 3, 2, 4), (5, 2, 2, 1, 2)] + ([] if q else [(3, 1, 3, 8, 9), (4, 2, 2, 3, 5), (5, 1, 3, 1, 3)]):
        for which in ('jones', 'GNF', 'DGNF'):
            for b in (0, 1, 2, 3):
                for step in (1, 2):
                    T = dtotal if which == 'DGNF' else total
                    if b <= T and (b == 0 or b - step + 1 >= 1) and not (which != 'jones' and step == 2) and not (n >= 4 and which != 'DGNF' and b > 2) and not (n == 5 and b > 1):
                        ch.append([which, n, r, p, b, T - (step - 1), step])
    F.append(Family('searches', ch, run_discard, 'the shape of a search: forward, discard, repeat'))
    ch = []
    for n, r, p, b, turns in [(3, 1, 2, 1, (1, 2, 3, 4)), (3, 1, 5, 2, (1, 2, 3)), (4, 1, 2, 1, (1, 2)), (4, 2, 3, 1, (1, 2))] + ([] if q else [(3, 1, 0, 1, (1, 2, 3, 4, 5)), (3, 1, 3, 3, (1, 2, 3, 4)), (4, 1, 3, 1, (1, 2, 3))]):
        for which in ('jones', 'GNF', 'DGNF', 'both'):
            t = turns if n < 4 or which != 'DGNF' else turns + (max(turns) + 1,)
            ch += [[which, n, r, p, b, t, m] for m in ([False, True] if which == 'jones' else ['Uniform', 'GreedyFirst'] if which != 'both' else ['EvictMin'])]
    for which in ('DGNF',):
        ch += [[which, 5, 1, 2, 1, (1, 2), 'Uniform'], [which, 4, 1, 5, 2, (1, 2, 3), 'EvictMin']]
    F.append(Family('turns', ch, run_turns, 'one tracker, buckets of one length moved forward by several numbers of letters in every order'))
    ch = []
    for total in WINDOWS:
        ch += [['jones', 4, 0, 2, 3, 1, 'candidates', [total]], ['GNF', 4, 0, 2, 3, 1, 'candidates', [total]], ['DGNF', 4, 0, 2, 4, 1, 'candidates', [total]]]
        ch += [['jones', 4, 0, 2, 2, 2, 'candidates', [total]]] if total > 100 else []
        ch += [[w, 4, 0, 2, 4, 1, 'heads', [total]] for w in (['GNF', 'jones'] if total < 600 else [])]
        ch += [[w, 3, 0, 2, 12, 1, 'heads', [total]] for w in ('jones', 'GNF', 'DGNF')]
        ch += [[w, 3, 0, 2, 12, 1, 'braids with one last factor', [total]] for w in (['jones', 'GNF', 'DGNF'] if total < 2048 else [])]
    for total in ([63, 64, 65, 125, 127, 128, 129, 250, 251, 255, 256, 257] if q else WINDOWS):     # images that differ within the bucket
        for w in ('jones', 'GNF', 'DGNF'):
            ch += [[w, 3, 1, 5, 9 if total < 1000 else 11, 1, 'heads', [total]], [w, 4, 1, 5, 3 if w != 'DGNF' else 4, 1, 'candidates', [total]]]
        ch += [['jones', 3, 1, 5, 8, step, 'heads', [total]] for step in (2, 3, 4) if total * 2 ** step <= 2100]
    for total in (499, 500, 501, 511, 512, 513, 1000, 1001):
        ch += [[w, 3, 1, 5, 10, 1, 'heads', [total]] for w in ('jones', 'GNF')]
    ch += [['jones', 3, 1, 5, 6, 3, 'heads', [124, 125, 126, 128]], ['jones', 3, 1, 5, 5, 4, 'heads', [62, 63, 64]], ['jones', 3, 1, 5, 4, 5, 'heads', [31, 32]], ['jones', 3, 0, 2, 7, 3, 'heads', [125, 126, 251, 256]],
           ['jones', 3, 0, 2, 7, 5, 'heads', [31, 32, 63, 64]], ['jones', 4, 1, 5, 2, 3, 'heads', [2, 3]], ['GNF', 3, 1, 5, 7, 3, 'heads', [125, 126, 256]], ['DGNF', 3, 1, 5, 7, 3, 'heads', [125, 126]]]
    BULK = (4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 10001, 12289)
    for total in BULK:
        ch += [['jones', 4, 0, 2, 4, 1, 'candidates', [total]], ['GNF', 4, 0, 2, 4, 1, 'candidates', [total]], ['DGNF', 4, 0, 2, 6, 1, 'candidates', [total]]]
    # one group of braids with a great many continuations
    ch += [[w, 3, 0, 2, 9, 6, 'braids with one last factor', [k]] for w in ('jones', 'GNF', 'DGNF') for k in (63, 64, 65, 100, 127, 129)]
    ch += [[w, 3, 0, 2, 6, 9, 'braids with one last factor', [k]] for w in ('GNF', 'DGNF') for k in (7, 9, 15, 16, 17, 19)]
    if not q:
        for total in DEEP:
            ch += [['jones', 4, 0, 2, 4, 1, 'candidates', [total]], ['GNF', 4, 0, 2, 4, 1, 'candidates', [total]], ['DGNF', 4, 0, 2, 6, 1, 'candidates', [total]]]
            ch += [[w, 3, 0, 2, 13, 1, 'heads', [total]] for w in ('jones', 'GNF', 'DGNF')]
    F.append(Family('crowded', ch, run_crowded, 'crowded buckets: numbers of braids and of candidates around every power of two and thousand'))
    ch = [['jones', 3, 0, 2, 11], ['GNF', 3, 0, 2, 11], ['DGNF', 3, 0, 2, 11], ['jones', 4, 0, 3, 4], ['DGNF', 4, 0, 3, 6], ['jones', 2, 0, 2, 40], ['DGNF', 2, 1, 2, 40],
          ['jones', 4, 0, 2, 5, True], ['GNF', 4, 0, 2, 5, 'GreedyFirst']] + \
         ([] if q else [['jones', 3, 0, 2, 13], ['GNF', 3, 0, 2, 13], ['DGNF', 3, 0, 2, 13], ['jones', 3, 1, 2, 13], ['DGNF', 4, 2, 2, 6], ['DGNF', 5, 0, 2, 4]])
    F.append(Family('bootstrap', ch, run_bootstrap_long, 'bootstrapping thousands of braids at once'))
    ch = [[3, 0, 2, L] for L in ((9, 10, 11) if q else (10, 11, 12, 13))] + [[4, 0, 2, 4]]
    ch += [[n, r, p, L] for n, Ls in [(3, range(1, 8 if q else 10)), (4, range(1, 3 if q else 4)), (2, range(1, 4))] for r in range(n // 2 + 1) for p in [0, 2, 3, 5] for L in Ls] + \
         [[5, 2, 2, 1], [5, 1, 3, 1], [6, 1, 2, 1]]
    F.append(Family('below_one', ch, run_below, 'all_of_length_below_1 against direct filtering'))
    return F

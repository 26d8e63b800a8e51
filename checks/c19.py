"""C19: reservoir sampling is exactly fair: the complete outcome tree with exact probabilities."""
import copy
import itertools
from collections import Counter
from fractions import Fraction
from math import comb, lcm

import numpy as np

from peyl import Tracker, bucketing
from peyl.bucketing import Stats
from checks import c17
from checks import track_common as TC
from vlib.core import Family
from vlib.impl import CLS
from vlib.rng import Chooser, outcomes

PROPERTY = 'C19'
ASSUMPTIONS = ['draws from the random number generator are independent and uniform (comparisons of random() with a number branch with the exact probabilities)',
               ]


class Jones:
    method = 'Uniform'

    def __init__(self, kind, n, r, p, cap, method, wname):
        self.args, self.cap, self.wname = (n, r, p), cap, None
        self.rng = Chooser()
        self.rng.lazy = True
        self.t = Tracker(TC.js(n, r, p), cap, ('length', 'projlen'), lambda x: x['length'] >= 0, rand=self.rng)

    def copy(self):
        c = copy.copy(self)
        c.t = copy.deepcopy(self.t)
        return c

    def contents(self):
        return {TC.tidy(k): [TC.nf_of(b) for b in self.t.bucket_braids_images(k)[0]] for k in self.t.buckets}

    def raw(self, tag):
        return next(k for k in self.t.buckets if TC.tidy(k) == tag)

    def seen(self):
        return {TC.tidy(row['bucket']): row['reservoir_count'] for row in self.t.stats().to_dict('records')}

    def grid(self, counts, offers):
        return 1

    def boot(self, kind, L):
        self.t.bootstrap_exhaustive(L)

    def sound(self, ctx):
        for k in self.t.buckets:
            for b, im in zip(*self.t.bucket_braids_images(k)):
                if not (im.shape == TC.image(TC.nf_of(b), *self.args[1:]).shape and (im == TC.image(TC.nf_of(b), *self.args[1:])).all()):
                    ctx.fail(f'the image kept beside {b!r} is not its own')


class Generic(Jones):
    def __init__(self, kind, n, r, p, cap, method, wname):
        self.args, self.cap, self.wname, self.method = (n, r, p), cap, wname, method
        self.rng = Chooser()
        self.rng.lazy = True
        self.t = bucketing.Tracker(TC.cell(n, r, p), cap, [Stats.CanonicalLength, Stats.ProjectiveLength], [], reservoir_method=method,
                                   reservoir_weight=c17.WEIGHTS[wname], rand=self.rng)

    def boot(self, kind, L):
        self.t.bootstrap_exhaustive(CLS[kind], L)

    def grid(self, counts, offers):
        """Fine enough for every count (or total weight) met on the way, and for the slot numbers."""
        r, p = self.args[1:]
        counts = {k: list(v) for k, v in counts.items()}
        g = self.cap
        for nf in offers:
            fed = counts.setdefault((len(nf[3]), TC.projlen(nf, r, p)), [])
            fed.append(nf)
            if len(fed) > self.cap:
                if self.method == 'Uniform':
                    g = lcm(g, len(fed))
                elif self.wname is None:
                    g = lcm(g, len(fed))
                else:
                    g = lcm(g, max(1, int(2 * sum(c17.weight(self.wname, x) for x in fed))))
        return g


def make(which, kind, n, r, p, cap, method, wname):
    return Jones(kind, n, r, p, cap, method, wname) if which == 'jones' else Generic(kind, n, r, p, cap, method, wname)


class Dist:
    """A probability distribution over tracker states; equal states are merged."""

    def __init__(self, s=None):
        self.states = {} if s is None else {TC.digest(s.t): (s, Fraction(1))}
        self.fed = {}     # tag -> offers since the bucket came into being

    def fork(self):
        d = Dist()
        d.states, d.fed = dict(self.states), {k: list(v) for k, v in self.fed.items()}
        return d


def advance(ctx, dist, op, offers):
    """The distribution after op(system); `offers` are the braids it offers."""
    out = dist.fork()
    out.states = {}
    for s, prob in dist.states.values():
        def step():
            c = s.copy()
            op(c)
            return c
        total = Fraction(0)
        for c, q, _ in outcomes(s.rng, step, s.grid(dist.fed, offers)):
            k = TC.digest(c.t)
            if k in out.states:
                out.states[k] = (out.states[k][0], out.states[k][1] + prob * q)
            else:
                out.states[k] = (c, prob * q)
                c.sound(ctx)
            total += q
            ctx.step()
        if total != 1:
            raise RuntimeError(f'outcome probabilities add up to {total}')
    some = next(iter(dist.states.values()))[0]
    r, p = some.args[1:]
    for nf in offers:
        out.fed.setdefault((len(nf[3]), TC.projlen(nf, r, p)), []).append(nf)
    ctx.fresh_states(len(out.states))
    return out


def offer(nfs, pad=0):
    def op(c):
        c.t.add_braids_images([TC.braid(x) for x in nfs], TC.offer_images(nfs, *c.args[1:], pad=pad))
    return op


def fair(ctx, dist, cap, what, tags=None):
    """Every subset of the right size is equally likely to be each bucket's content."""
    for s, _ in dist.states.values():
        now, seen = s.contents(), s.seen()
        if set(now) != set(dist.fed):
            ctx.fail(f'{what}: buckets are {sorted(now)}, should be {sorted(dist.fed)}')
        for tag, fed in dist.fed.items():
            if seen[tag] != len(fed):
                ctx.fail(f'{what}: bucket {tag} counts {seen[tag]} offers, there were {len(fed)}')
    for tag, fed in dist.fed.items():
        law = {}
        for s, prob in dist.states.values():
            k = frozenset(Counter(s.contents()[tag]).items())
            law[k] = law.get(k, 0) + prob
        size = min(cap, len(fed))
        want = {frozenset(Counter(c).items()): Fraction(1, comb(len(fed), size)) for c in itertools.combinations(fed, size)}
        if law != want:
            odd = sorted(((str(law.get(k, 0)), str(want.get(k, 0)), sorted(k)) for k in set(law) | set(want) if law.get(k, 0) != want.get(k, 0)), key=str)[0]
            ctx.fail(f'{what}: bucket {tag} of capacity {cap} after {len(fed)} offers: content {odd[2]} has probability {odd[0]}, should be {odd[1]}')
        ctx.outcome((cap, len(fed)))
    ctx.state((what.split(':')[0], tuple(sorted((k, len(v)) for k, v in dist.fed.items())), cap))
    ctx.trace()


def pool(kind, n, r, p, N, maxlen):
    """N braids for one bucket, and two other buckets' contents."""
    g = TC.menu_by_key(kind, n, r, p, maxlen, powers=(0, 2))
    for k in g:
        # distinct braids of power zero first
        g[k].sort(key=lambda x: (x[2], x))
    key = min((k for k in g if len(g[k]) >= N), default=None)
    if key is None:
        raise RuntimeError('no bucket is large enough')
    others = sorted((k for k in g if k != key), key=lambda k: (k[0] != key[0], -len(g[k]), k))
    return g[key], g[others[0]], g[others[1]]


def compositions(N, biggest):
    if N == 0:
        yield ()
    for a in range(1, min(N, biggest) + 1):
        for rest in compositions(N - a, biggest):
            yield (a,) + rest


def effort(which, cap, lo, hi):
    """Number of outcomes of offering a batch that takes the count from lo to hi."""
    out = 1
    for c in range(max(lo, cap) + 1, hi + 1):
        out *= c if which == 'jones' else cap + 1
    return out


def run_batches(ctx, chunk):
    """All ways of splitting N offers into batches; the distributions are judged after every batch."""
    which, kind, n, r, p, method, cap, N, biggest, maxlen, first, limit = chunk
    main, other, third = pool(kind, n, r, p, N, maxlen)
    fed = main[:N]
    name = f'{which} {method} {TC.js(n, r, p)!r}, capacity {cap}'

    def go(dist, at, split):
        for a in ([first] if at == 0 else range(1, min(biggest, N - at) + 1)):
            if at + a > N:
                continue
            part = fed[at:at + a]
            if effort(which, cap, at, at + a) > limit:
                continue
            d = advance(ctx, dist, offer(part, pad=a % 2), part)
            fair(ctx, d, cap, f'{name}: batches {split + (a,)}')
            go(d, at + a, split + (a,))
    go(Dist(make(which, kind, n, r, p, cap, method, None)), 0, ())
    ctx.sample({'tracker': name, 'offers': N, 'batches up to': biggest, 'first batch': first})


def run_traffic(ctx, chunk):
    """Offers for one bucket with traffic for other buckets (also overflowing) between and within the batches."""
    which, kind, n, r, p, method, cap, A, B, maxlen, shape = chunk
    main, other, third = pool(kind, n, r, p, A, maxlen)
    name = f'{which} {method} {TC.js(n, r, p)!r}, capacity {cap}'
    letters = [('a', x) for x in main[:A]] + [('b', x) for x in other[:B]] + [('c', third[0])]
    B = min(B, len(other))
    # every interleaving of the two streams (the third bucket's single item last or first)
    for places in itertools.combinations(range(A + B), A):
        a, b = iter(main[:A]), iter(other[:B])
        seq = [next(a) if i in places else next(b) for i in range(A + B)]
        seq = [third[0]] + seq if sum(places) % 2 else seq + [third[0]]
        parts = [[x] for x in seq] if shape == 1 else [seq[i:i + shape] for i in range(0, len(seq), shape)]
        d = Dist(make(which, kind, n, r, p, cap, method, None))
        for part in parts:
            d = advance(ctx, d, offer(part), part)
        fair(ctx, d, cap, f'{name}: interleaving {places} in batches of {shape}')
    ctx.sample({'tracker': name, 'streams': [A, B], 'batch': shape})


def run_discard(ctx, chunk):
    """A bucket that was discarded starts afresh."""
    which, kind, n, r, p, method, cap, N, M, maxlen = chunk
    main, other, third = pool(kind, n, r, p, N, maxlen)
    name = f'{which} {method} {TC.js(n, r, p)!r}, capacity {cap}'
    d = Dist(make(which, kind, n, r, p, cap, method, None))
    for x in main[:N] + other[:1]:
        d = advance(ctx, d, offer([x]), [x])
    tag = (len(main[0][3]), TC.projlen(main[0], r, p))

    def drop(c):
        c.t.discard_bucket(c.raw(tag))
    fed = d.fed
    d = advance(ctx, d, drop, [])
    d.fed.pop(tag)
    fair(ctx, d, cap, f'{name}: {N} offers, then discarded')
    for k, x in enumerate(main[:M]):
        d = advance(ctx, d, offer([x]), [x])
        fair(ctx, d, cap, f'{name}: {N} offers, discarded, then {k + 1} more offers')


def run_moves(ctx, chunk):
    """Offers made by bootstrapping and by moving forward are sampled as fairly."""
    which, kind, n, r, p, method, cap, bootL, moves = chunk
    name = f'{which} {method} {TC.js(n, r, p)!r}, capacity {cap}'
    d = Dist(make(which, kind, n, r, p, cap, method, None))
    if bootL:
        off = [nf for L in range(1, bootL + 1) for nf in TC.all_nfs(kind, n, L)]
        d = advance(ctx, d, lambda c: c.boot(kind, bootL), off)
        fair(ctx, d, cap, f'{name}: bootstrap to length {bootL}')
    else:
        ident = (kind, n, 0, ())
        d = advance(ctx, d, offer([ident]), [ident])
    for step in moves:
        # move a bucket forward which holds all it was offered
        tag = max(t for t, fed in d.fed.items() if len(fed) <= cap and t[0] == max(d.fed)[0])
        off = [e for nf in d.fed[tag] for e in TC.extensions(nf, step)]
        d = advance(ctx, d, lambda c: c.t.nf_descendants(c.raw(tag), step), off)
        fair(ctx, d, cap, f'{name}: bootstrap {bootL}, then moving {tag} forward by {step}')
    ctx.sample({'tracker': name, 'bootstrap': bootL, 'moves': moves, 'counts': sorted(len(v) for v in d.fed.values())})


def run_late(ctx, chunk):
    """A bucket after many offers: the exact law of one more arrival, from two histories."""
    which, kind, n, r, p, method, cap, wname, N, maxlen = chunk
    main, other, third = pool(kind, n, r, p, 12, maxlen)
    tag = (len(main[0][3]), TC.projlen(main[0], r, p))
    full = 2 if kind == 'GNF' else n                # a central power of the Garside element
    main = list(dict.fromkeys((k, m, e + full * j, f) for j in range(30) for k, m, e, f in main[:12]))
    assert len(main) > cap and all(TC.projlen(x, r, p) == tag[1] for x in main)
    fed = [main[i % len(main)] for i in range(N)]
    x = main[N % len(main)]
    weigh = (lambda y: Fraction(c17.weight(wname, y))) if wname else (lambda y: Fraction(1))
    W = sum(map(weigh, fed + [x]))
    name = f'{which} {method} {TC.js(n, r, p)!r}, capacity {cap}, weights {wname}'
    for default in ('first', 'last'):
        s = make(which, kind, n, r, p, cap, method, wname)
        step, at = 100 if which == 'jones' else 7, 0
        while at < N:
            s.rng.load((), 2 * N, default)
            offer(fed[at:at + step])(s)
            at += step
            ctx.step()
        old = s.contents()[tag]
        ctx.check(len(old) == min(cap, N) and s.seen()[tag] == N, lambda: f'{name}: after {N} offers the bucket holds {len(old)} and counts {s.seen()[tag]}')
        law = {}

        def more():
            c = s.copy()
            offer([x])(c)
            return c
        for c, q, _ in outcomes(s.rng, more, s.grid({tag: fed}, [x])):
            k = frozenset(Counter(c.contents()[tag]).items())
            if k not in law:
                c.sound(ctx)
                ctx.check(c.seen()[tag] == N + 1, lambda: f'{name}: {N + 1} offers are counted as {c.seen()[tag]}')
            law[k] = law.get(k, 0) + q
            ctx.step()
        want = {}
        share = Fraction(1) if N < cap else min(Fraction(1), cap * weigh(x) / W)
        if N < cap:
            want[frozenset(Counter(old + [x]).items())] = Fraction(1)
        else:
            for i in range(cap):
                new = frozenset(Counter(old[:i] + old[i + 1:] + [x]).items())
                want[new] = want.get(new, 0) + share / cap
            stay = frozenset(Counter(old).items())
            want[stay] = want.get(stay, 0) + 1 - share
        want = {k: v for k, v in want.items() if v}
        if law != want:
            ctx.fail(f'{name}: arrival {N + 1} at a bucket holding {len(old)} enters with total probability {1 - law.get(frozenset(Counter(old).items()), Fraction(0))}, '
                     f'should be {share} spread evenly over the places; outcomes {sorted(map(str, law.values()))[:8]}, should be {sorted(map(str, want.values()))[:8]}')
        ctx.state((name, N, default))
        ctx.trace()
    ctx.sample({'tracker': name, 'arrival': N + 1})


def run_weighted(ctx, chunk):
    """One weighted arrival at a full bucket, from every reachable state."""
    kind, n, r, p, cap, wname, N, maxlen, lo, hi = chunk
    main, other, third = pool(kind, n, r, p, N, maxlen)
    name = f'AChao {TC.js(n, r, p)!r}, capacity {cap}, weights {wname}'
    tag = (len(main[0][3]), TC.projlen(main[0], r, p))
    # choose offers of as many different weights as possible
    seen, order = Counter(), []
    for i, x in enumerate(main):
        order.append((seen[c17.weight(wname, x)], i))
        seen[c17.weight(wname, x)] += 1
    pick = [main[i] for _, i in sorted(order)]
    for perm in list(itertools.permutations(pick[:N]))[lo:hi]:
        layer = {}
        s = make('generic', kind, n, r, p, cap, 'AChao', wname)
        layer = {TC.digest(s.t): s}
        fed = {}
        for at, x in enumerate(perm):
            w = Fraction(c17.weight(wname, x))
            W = w + sum(Fraction(c17.weight(wname, y)) for y in perm[:at])
            nxt = {}
            for s in layer.values():
                old = s.contents().get(tag, [])

                def step():
                    c = s.copy()
                    offer([x])(c)
                    return c
                law = {}
                for c, q, _ in outcomes(s.rng, step, s.grid({tag: list(perm[:at])}, [x])):
                    got = c.contents()[tag]
                    law[tuple(got)] = law.get(tuple(got), 0) + q
                    k = TC.digest(c.t)
                    if k not in nxt:
                        nxt[k] = c
                        c.sound(ctx)
                        row = c.t.stats().to_dict('records')[0]
                        ctx.check(row['reservoir_count'] == at + 1, f'{name}: {row["reservoir_count"]} offers counted after {perm[:at + 1]}')
                        ctx.check(abs(row['reservoir_weight_avg_seen'] - float(W) / (at + 1)) < 1e-9, f'{name}: weight seen is wrong after {perm[:at + 1]}')
                    ctx.step()
                if len(old) < cap:
                    ctx.check(len(law) == 1 and Counter(next(iter(law))) == Counter(old + [x]), lambda: f'{name}: {x} arrives at a bucket with room, holding {old}: {law}')
                else:
                    share = Fraction(0) if W == 0 else min(Fraction(1), cap * w / W)
                    want = {}
                    for i in range(cap):
                        new = frozenset(Counter(old[:i] + old[i + 1:] + [x]).items())
                        want[new] = want.get(new, 0) + share / cap
                    stay = frozenset(Counter(old).items())
                    want[stay] = want.get(stay, 0) + 1 - share
                    want = {k: v for k, v in want.items() if v}
                    got = {}
                    for k, v in law.items():
                        fs = frozenset(Counter(k).items())
                        got[fs] = got.get(fs, 0) + v
                    if got != want:
                        ctx.fail(f'{name}: {x} of weight {w} arrives after {perm[:at]} (total weight {W}) at a bucket holding {old}: '
                                 f'outcomes {[(sorted(k), str(v)) for k, v in got.items()]}, should be {[(sorted(k), str(v)) for k, v in want.items()]}')
                    ctx.outcome((wname, cap, str(share)))
                ctx.trace()
            ctx.fresh_states(len(nxt))
            layer = nxt
    ctx.sample({'tracker': name, 'arrivals': perm})


def families(tier):
    q = tier == 'quick'
    F = []
    ch = []
    G, D = 'GNF', 'DGNF'
    # (capacity, offers, biggest batch)
    jplan = [(1, 6, 6), (2, 6, 6), (3, 6, 6), (4, 6, 3), (2, 7, 2), (1, 7, 3)] + ([] if q else [(3, 7, 7), (2, 8, 3), (5, 8, 3), (1, 8, 8)])
    gplan = [(1, 4, 4), (2, 4, 4), (3, 5, 5), (2, 5, 3), (1, 5, 2), (4, 6, 6), (2, 6, 1), (3, 6, 1), (1, 6, 1)] + ([] if q else [(2, 5, 5), (3, 6, 3), (2, 7, 1), (4, 7, 2), (5, 7, 7), (1, 8, 1)])
    for cap, N, big in jplan:
        for n, r, p, L in [(3, 1, 2, 3), (4, 2, 3, 2)]:
            ch += [['jones', G, n, r, p, 'Uniform', cap, N, big, L, first, 400 if q else 20000] for first in range(1, min(big, N) + 1)]
    for cap, N, big in gplan:
        for kind, n, r, p, L in [(G, 3, 1, 2, 3), (D, 4, 1, 0, 3)]:
            for method in ('Uniform', 'AChao'):
                ch += [['generic', kind, n, r, p, method, cap, N, big, L, first, 400 if q else 20000] for first in range(1, min(big, N) + 1)]
    F.append(Family('batches', ch, run_batches, 'exact distribution after every batch of every split of N offers into batches'))
    ch = []
    for cap, A, B, shape in [(1, 3, 2, 1), (2, 4, 2, 1), (1, 3, 3, 2), (2, 3, 3, 3), (3, 5, 2, 1)] + ([] if q else [(2, 4, 4, 1), (1, 4, 3, 1), (3, 4, 4, 2)]):
        ch.append(['jones', G, 3, 1, 2, 'Uniform', cap, A, B, 3, shape])
        ch.append(['jones', G, 4, 1, 3, 'Uniform', cap, A, B, 2, shape])
        for method in ('Uniform', 'AChao'):
            if A + B < 7:
                ch.append(['generic', G, 3, 1, 2, method, cap, A, B, 3, shape])
            ch.append(['generic', D, 4, 2, 3, method, cap, A, min(B, 2), 3, min(shape, 2)])
    F.append(Family('traffic', ch, run_traffic, 'every interleaving of the offers for two buckets'))
    ch = []
    for cap, N, M in [(1, 3, 3), (2, 3, 4), (2, 5, 4)] + ([] if q else [(3, 5, 6)]):
        ch.append(['jones', G, 3, 1, 2, 'Uniform', cap, N, M, 3])
        for method in ('Uniform', 'AChao'):
            ch.append(['generic', D, 4, 1, 2, method, cap, N, M, 3])
            ch.append(['generic', G, 3, 1, 0, method, cap, N, M, 3])
    F.append(Family('discards', ch, run_discard, 'offers, a discard, and more offers'))
    ch = []
    jmoves = [(3, 1, 2, c, 1, []) for c in (1, 2, 3)] + [(3, 1, 3, c, 0, [1]) for c in (1, 2, 3)] + [(3, 1, 3, 5, 2, []), (3, 1, 3, 6, 1, [1]), (3, 1, 2, 5, 1, [1]), (3, 1, 2, 5, 0, [1, 1])] + \
             ([] if q else [(3, 1, 5, 4, 2, []), (3, 1, 5, 4, 0, [1, 1])])
    gmoves = jmoves[:6] + [(3, 1, 3, c, 2, []) for c in (4, 5, 6)] + [(3, 1, 2, c, 0, [2]) for c in (1, 2, 3, 4)] + [(3, 1, 2, c, 1, [1]) for c in (4, 5, 6)] + [(3, 1, 2, 5, 0, [1, 1])]
    dmoves = [(3, 1, 2, 1, 1, []), (3, 1, 2, 1, 2, []), (3, 1, 3, 2, 2, []), (3, 1, 3, 1, 0, [2]), (3, 1, 3, 2, 0, [2]), (4, 2, 2, 4, 1, []), (4, 2, 3, 5, 0, [1])] + [(4, 1, 3, c, 1, []) for c in (1, 2, 3)] + \
             [(4, 1, 2, c, 0, [1]) for c in (1, 2, 3)] + [(4, 1, 3, c, 1, [1]) for c in (4, 5)] + ([] if q else [(4, 2, 2, c, 1, []) for c in (1, 3)] + [(4, 1, 2, 2, 0, [1, 1]), (4, 1, 2, 3, 1, [1])])
    for which, method, kind, plan in [('jones', 'Uniform', G, jmoves)] + [('generic', m, k, pl) for m in ('Uniform', 'AChao') for k, pl in ((G, gmoves), (D, dmoves))]:
        for n, r, p, cap, bootL, moves in plan:
            ch.append([which, kind, n, r, p, method, cap, bootL, moves])
    F.append(Family('moves', ch, run_moves, 'offers made by bootstraps and forward moves'))
    ch = []
    late = []
    for N in [15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025] + ([] if q else [2047, 2048, 2049, 4095, 4096, 4097, 9999, 10000]):
        for cap in (1, 3, 16, 100, 128):
            if N < 40 and cap > 40 or (cap > 3 and N > 300 and q and N % 100):
                continue
            late.append(['jones', G, 3, 1, 2, 'Uniform', cap, None, N, 4])
            if (N + cap) % 2 or cap < 3 or not q:
                late.append(['generic', G, 3, 1, 2, 'Uniform', cap, None, N, 4])
                late.append(['generic', D, 4, 1, 3, 'AChao', cap, None, N, 3])
            if cap in (3, 16) and N < 130:
                late.append(['generic', G, 3, 1, 2, 'AChao', cap, 'height', N, 4])
    F.append(Family('late', late, run_late, 'one more arrival at a bucket which has had many offers'))
    from math import factorial
    for kind, n, r, p, cap, w, N, L in [(G, 3, 1, 2, 1, 'height', 4, 3), (G, 3, 1, 2, 2, 'height', 5, 3), (D, 4, 1, 3, 2, 'falling', 4, 3), (G, 4, 2, 2, 3, 'array', 5, 2), (D, 3, 1, 0, 1, 'array', 4, 3)] + \
            ([] if q else [(G, 4, 1, 2, 3, 'falling', 6, 2), (D, 4, 2, 2, 2, 'height', 6, 3)]):
        T = factorial(N)
        ch += [[kind, n, r, p, cap, w, N, L, lo, min(T, lo + 12)] for lo in range(0, T, 12)]
    F.append(Family('weighted', ch, run_weighted, 'one weighted arrival at every reachable state, every order of arrival'))
    return F

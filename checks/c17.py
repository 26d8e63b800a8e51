"""C17: the generic tracker: contents, weights and retention rules."""
import contextlib
import copy
import io
import itertools
import random
import zlib
from collections import Counter
from fractions import Fraction

import numpy as np

from peyl import bucketing
from peyl.bucketing import BraidStatBase, Stats
from checks import track_common as TC
from checks.c18 import WINDOWS as W18, run_crowded
from vlib import ref_braid as R
from vlib import ref_rep as Q
from vlib.core import Family
from vlib.impl import CLS
from vlib.rng import Chooser, deviations, outcomes

PROPERTY = 'C17'
ASSUMPTIONS = ['buckets holding both normal forms at once are kept apart by the NFKind statistic, as forward moves need a uniform kind',
               'ties in evict-minimum retention may be broken either way']
METHODS = ['GreedyFirst', 'Uniform', 'AChao', 'EvictMin']
SOUND = 'All bucket entries are sound.'


class Infimum(BraidStatBase):
    """A user-defined statistic."""
    name = 'inf'

    @staticmethod
    def calculate(rep, braids, images):
        return [b.inf() for b in braids]


class Height(BraidStatBase):
    """A user-defined weight: small multiples of one half, zero included."""
    name = 'height'

    @staticmethod
    def calculate(rep, braids, images):
        return [weight('height', TC.nf_of(b)) for b in braids]


class Falling(BraidStatBase):
    name = 'falling'

    @staticmethod
    def calculate(rep, braids, images):
        return [weight('falling', TC.nf_of(b)) for b in braids]


class Array(BraidStatBase):
    """Weights as a numpy array of integers."""
    name = 'array'

    @staticmethod
    def calculate(rep, braids, images):
        return np.array([int(weight('array', TC.nf_of(b))) for b in braids])


class Spread(BraidStatBase):
    """Weights that are all over the place, hardly any two alike."""
    name = 'spread'

    @staticmethod
    def calculate(rep, braids, images):
        return [weight('spread', TC.nf_of(b)) for b in braids]


class Fine(BraidStatBase):
    """Weights that differ by very little (but are exact, and so are their sums)."""
    name = 'fine'

    @staticmethod
    def calculate(rep, braids, images):
        return [weight('fine', TC.nf_of(b)) for b in braids]


def _rank(nf):
    kind, n, e, f = nf
    x = 7 * len(f) + 3 * e
    for i, y in enumerate(f):
        for j, z in enumerate(y):
            x += (i + 2) * (j + 1) * (sum((k + 1) * t for k, t in enumerate(z)) if isinstance(z, tuple) else z + 1)
    return x


def weight(name, nf):
    if name is None:
        return 1.0
    k = _rank(nf)
    if name == 'height':
        return (k % 5) / 2
    if name == 'falling':
        return 8.0 - (k % 7)
    if name == 'array':
        return float(k % 3)
    if name == 'fine':
        return 3 + (k % 5) / 2 ** 30
    if name == 'spread':
        return (zlib.crc32(repr(nf).encode()) % 100003) / 4
    raise KeyError(name)


WEIGHTS = {None: None, 'spread': Spread, 'height': Height, 'falling': Falling, 'array': Array, 'fine': Fine}
STATS = {'LP': [Stats.CanonicalLength, Stats.ProjectiveLength], 'PL': [Stats.ProjectiveLength, Stats.CanonicalLength],
         'KLP': [Stats.NFKind, Stats.CanonicalLength, Stats.ProjectiveLength], 'LZPK': [Stats.CanonicalLength, Stats.NonzeroTerms, Stats.ProjectiveLength, Stats.NFKind],
         'ILP': [Infimum, Stats.CanonicalLength, Stats.ProjectiveLength]}


def stat_value(stat, nf, r, p):
    if stat is Stats.CanonicalLength:
        return len(nf[3])
    if stat is Stats.ProjectiveLength:
        return TC.projlen(nf, r, p)
    if stat is Stats.NFKind:
        return nf[0]
    if stat is Stats.NonzeroTerms:
        return int(np.count_nonzero(TC.image(nf, r, p)))
    if stat is Infimum:
        return nf[2]
    if stat is Height:
        return weight('height', nf)
    raise KeyError(stat)


class Sys:
    def __init__(self, n, r, p, cap, method, stats, wname, rng=None):
        self.n, self.r, self.p, self.cap, self.method, self.stats, self.wname = n, r, p, cap, method, stats, wname
        self.rng = rng or Chooser(grid=1)
        self.t = bucketing.Tracker(TC.cell(n, r, p), cap, STATS[stats], [Height, Stats.NonzeroTerms], reservoir_method=method,
                                   reservoir_weight=WEIGHTS[wname], rand=self.rng)
        self.fed = {}       # tag -> list of offers since the bucket came into being
        self.order = {}     # tag -> whether the order of the offers is known

    def copy(self):
        c = copy.copy(self)
        c.t = copy.deepcopy(self.t)
        c.fed = {k: list(v) for k, v in self.fed.items()}
        c.order = dict(self.order)
        return c

    def tag(self, nf):
        return tuple(stat_value(s, nf, self.r, self.p) for s in STATS[self.stats])

    def raw(self, tag):
        return next(k for k in self.t.buckets if TC.tidy(k) == tag)

    def contents(self):
        out = {}
        for raw, b in self.t.buckets.items():
            braids, images = self.t.bucket_braids_images(raw)
            out[TC.tidy(raw)] = ([TC.nf_of(x) for x in braids], np.array(images), [float(w) for w in b.weights[:len(braids)]])
        return out


def judge(ctx, s, before, offers, what, ordered=True, stats=True):
    """The tracker after an operation that offered exactly `offers` (in that order, if ordered)."""
    r, p, cap = s.r, s.p, s.cap
    fail = lambda m: ctx.fail(f'{what() if callable(what) else what}: {m}')
    touched = set()
    for nf in offers:
        tag = s.tag(nf)
        touched.add(tag)
        s.order[tag] = s.order.get(tag, True) and ordered
        s.fed.setdefault(tag, []).append(nf)
    now = s.contents()
    if set(now) != set(s.fed):
        fail(f'buckets are {sorted(now)}, should be {sorted(s.fed)}')
    for tag, (nfs, images, weights) in now.items():
        fed = s.fed[tag]
        b = s.t.buckets[s.raw(tag)]
        if b.size() != len(nfs) or len(images) != len(nfs) or len(weights) != len(nfs) or b.is_full() != (len(nfs) == cap):
            fail(f'bucket {tag}: sizes disagree')
        if len(nfs) != min(cap, len(fed)):
            fail(f'bucket {tag} of capacity {cap} holds {len(nfs)} of {len(fed)} offers')
        for i, nf in enumerate(nfs):
            if not Q.same_tensor(images[i], TC.image(nf, r, p)):
                fail(f'bucket {tag} stores for {nf} the image {images[i].tolist()}, should be {TC.image(nf, r, p).tolist()}')
            if weights[i] != weight(s.wname, nf):
                fail(f'bucket {tag} stores for {nf} the weight {weights[i]}, should be {weight(s.wname, nf)}')
        extra = Counter(nfs) - Counter(fed)
        if extra:
            fail(f'bucket {tag} holds {list(extra)}, which was not offered to it (so often)')
        if b.reservoir_count != len(fed) or b.reservoir_weight != sum(weight(s.wname, x) for x in fed):
            fail(f'bucket {tag} has seen {b.reservoir_count} items of weight {b.reservoir_weight}, should be {len(fed)} of weight {sum(weight(s.wname, x) for x in fed)}')
        if s.method == 'GreedyFirst':
            if s.order[tag] and Counter(nfs) != Counter(fed[:cap]):
                fail(f'bucket {tag} holds {nfs}, the first arrivals were {fed[:cap]}')
        if s.method == 'EvictMin':
            want = sorted((weight(s.wname, x) for x in fed), reverse=True)[:cap]
            if sorted(weights, reverse=True) != want:
                fail(f'bucket {tag} holds weights {weights}, the heaviest arrivals have weights {want}')
        if tag in before and tag not in touched:
            if nfs != before[tag][0] or not np.array_equal(images, before[tag][1]):
                fail(f'bucket {tag} changed although nothing was offered to it')
    if stats:
        rows = s.t.stats().to_dict('records')
        if Counter(TC.tidy(x['bucket']) for x in rows) != Counter(list(now)):
            fail(f'stats() lists the buckets {[x["bucket"] for x in rows]}, there are {sorted(now)}')
        for row in rows:
            tag = TC.tidy(row['bucket'])
            fed, ws = s.fed[tag], now[tag][2]
            want = {'count': len(ws), 'reservoir_count': len(fed), 'reservoir_weight_avg': sum(ws) / len(ws),
                    'reservoir_weight_avg_seen': sum(weight(s.wname, x) for x in fed) / len(fed)}
            want.update({st.name: v for st, v in zip(STATS[s.stats], tag)})
            for k, v in want.items():
                if (abs(row[k] - v) > 1e-9) if not isinstance(v, str) else row[k] != v:
                    fail(f'stats(): {k} of bucket {tag} is {row[k]}, should be {v}')
    ctx.transitions += 1
    ctx.state((s.n, s.r, s.p, s.method, tuple(sorted((k, tuple(v[0])) for k, v in now.items()))))
    return now


def judge_final(ctx, s, now, what):
    for tag, (nfs, images, weights) in now.items():
        rows = s.t.bucket_stats(s.raw(tag)).to_dict('records')
        ctx.check(len(rows) == len(nfs), f'bucket_stats({tag}) has {len(rows)} rows')
        for nf, row in zip(nfs, rows):
            ctx.check(TC.nf_of(row['braid']) == nf, f'bucket_stats({tag}) rows are out of order')
            for st in STATS[s.stats] + [Height, Stats.NonzeroTerms]:
                v = stat_value(st, nf, s.r, s.p)
                ctx.check(row[st.name] == v, lambda: f'{what}: bucket_stats({tag}): {st.name} of {nf} is {row[st.name]}, should be {v}')
        groups = s.t.hash_bucket(s.raw(tag))
        got = sorted(sorted(map(str, (TC.nf_of(b) for b in g))) for g in groups.values())
        want = {}
        for nf in nfs:
            want.setdefault(TC.image(nf, s.r, s.p).tobytes(), []).append(str(nf))
        ctx.check(got == sorted(sorted(g) for g in want.values()), lambda: f'hash_bucket({tag}) groups {got}')
    with contextlib.redirect_stdout(io.StringIO()):
        v = s.t.valiate_buckets()
    ctx.check(isinstance(v, str) and v == SOUND, lambda: f'{what}: self-validation says {v!r}')
    ctx.raises(lambda: s.t.bucket_stats((99,) * len(STATS[s.stats])), 'statistics of a bucket that does not exist')


def apply_offer(ctx, s, nfs, pad):
    imgs = TC.offer_images(nfs, s.r, s.p, pad)
    keep = imgs.copy()
    braids = [TC.braid(x) for x in nfs]
    s.t.add_braids_images(braids, imgs)
    ctx.check(np.array_equal(imgs, keep) and len(braids) == len(nfs), 'the offered arrays were changed')


def ident(s, extra=()):
    return (TC.digest(s.t), tuple(sorted((k, tuple(v)) for k, v in s.fed.items())), extra)


def grid_of(s, nfs):
    """A grid fine enough to resolve every comparison of a uniform draw with capacity / count or a weight share."""
    from math import lcm
    cnt = {k: len(v) for k, v in s.fed.items()}
    tot = {k: sum(weight(s.wname, x) for x in v) for k, v in s.fed.items()}
    g = 1
    for nf in nfs:
        tag = s.tag(nf)
        cnt[tag] = cnt.get(tag, 0) + 1
        tot[tag] = tot.get(tag, 0) + weight(s.wname, nf)
        if cnt[tag] > s.cap:
            g = lcm(g, cnt[tag] if s.method == 'Uniform' else max(1, int(2 * tot[tag])) if s.method == 'AChao' else 1)
    return g


# ------------------------------------------------------------------ offers
def menu(n, r, p, kinds, maxlen, powers, stats):
    """Offers: several for one bucket with distinct and equal weights, and some for others."""
    out = []
    for kind in kinds:
        g = {}
        for L in range(1, maxlen + 1):
            for nf in TC.all_nfs(kind, n, L, powers):
                g.setdefault((L, TC.projlen(nf, r, p)), []).append(nf)
        top = max(g, key=lambda k: (min(len(g[k]), 4), -k[0], -k[1]))
        out += g[top][:4]
        others = [g[k][0] for k in sorted(g) if k != top and (k[0] == top[0] or k[1] == top[1])]
        out += others[:1 if len(kinds) > 1 else 2]
    return out


def run_offers(ctx, chunk):
    n, r, p, cap, method, stats, wname, kinds, maxlen, powers, which, depth, dev, limit = chunk
    base = menu(n, r, p, kinds, maxlen, powers, stats)
    if which == 'single':
        choices = [[x] for x in base]
    elif which == 'crowd':
        choices = [[x] for x in base[:4]]
    elif which == 'pairs':
        choices = [list(c) for c in itertools.product(base[:5], repeat=2)] + [base[:3] + base[2:], base[::-1]]
    else:
        choices = [base, base[::-1], base[::2] + base[:3], base[:2]]
    s0 = Sys(n, r, p, cap, method, stats, wname)
    ctx.check(len(s0.t.stats()) == 0 and s0.contents() == {}, 'a new tracker is not empty')
    layer = {0: (s0, ())}
    for d in range(depth):
        nxt = {}
        for s, trail in layer.values():
            before = s.contents()
            for ci, nfs in enumerate(choices):
                def step():
                    c = s.copy()
                    apply_offer(ctx, c, nfs, (ci + d) % 3)
                    return c
                if dev is None:
                    runs = outcomes(s.rng, step, grid_of(s, nfs))
                else:
                    runs = (x for dd in ('first', 'last') for x in deviations(s.rng, step, dd, dev, 2))
                for c, _, script in runs:
                    what = lambda: f'{s.t.rep!r} {method} capacity {cap} weights {wname} after {trail} then offering {nfs} with random outcomes {script}'
                    now = judge(ctx, c, before, nfs, what, stats=False)
                    k = ident(c)
                    ctx.trace()
                    if k not in nxt:
                        nxt[k] = (c, trail + ((nfs, script),))
                        judge(ctx, c, now, [], what)
                        judge_final(ctx, c, now, what())
                        ctx.outcome((method, tuple(sorted(len(v[0]) for v in now.values()))))
            for tag in sorted(before)[:1]:
                c = s.copy()
                c.t.discard_bucket(c.raw(tag))
                c.fed.pop(tag)
                c.order.pop(tag)
                rest = {k: v for k, v in before.items() if k != tag}
                what = lambda: f'{trail} then discarding {tag}'
                now = judge(ctx, c, rest, [], what)
                ctx.check(all(now[k][0] == rest[k][0] for k in rest), f'{what()} disturbed other buckets')
                c.t.discard_bucket(c.raw(sorted(rest)[0]) + (7,) if rest else (7,))
                judge(ctx, c, rest, [], what)
                nxt.setdefault(ident(c), (c, trail + (('discard', tag),)))
        ctx.fresh_states(len(nxt))
        layer = nxt
        if len(layer) > limit:
            break
    ctx.sample({'n': n, 'r': r, 'p': p, 'method': method, 'capacity': cap, 'weights': wname, 'depth': d + 1, 'trail': list(layer.values())[-1][1]})


# ------------------------------------------------------------------ bootstraps and forward moves
def run_ops(ctx, chunk):
    n, r, p, cap, method, stats, wname, kinds, depth, default, dev, head, bigL = chunk
    small = [nf for kind in kinds for nf in [(kind, n, 0, ()), (kind, n, 2, ()), (kind, n, -1, TC.all_nfs(kind, n, 1)[0][3])] + TC.all_nfs(kind, n, 1)[1:3] + TC.all_nfs(kind, n, 2)[-3:]]
    if stats in ('LP', 'PL'):
        small = [nf for nf in small if nf[0] == kinds[0]]
    ops = [('offer', small), ('offer', small[::-1][:4])] + [('boot', kind, L) for kind in kinds for L in (1, bigL)][:4] + \
          [('desc', k, L) for k in (0, 1, 2, 3) for L in (1, 2)] + [('desc', 5, 1), ('desc', 1, 0), ('disc', 0), ('disc', 2)]
    s0 = Sys(n, r, p, cap, method, stats, wname)
    layer = {0: (s0, (), dev)}
    if head >= len(ops):
        return
    for d in range(depth):
        nxt = {}
        for s, trail, left in layer.values():
            before = s.contents()
            for op in ([ops[head]] if d == 0 else ops):
                if op[0] == 'boot' and stats in ('LP', 'PL') and op[1] != kinds[0]:
                    continue

                def step():
                    c = s.copy()
                    b = dict(before)
                    if op[0] == 'offer':
                        apply_offer(ctx, c, op[1], 0)
                        return c, b, list(op[1]), True
                    if op[0] == 'boot':
                        c.t.bootstrap_exhaustive(CLS[op[1]], op[2])
                        return c, b, [nf for L in range(1, op[2] + 1) for nf in TC.all_nfs(op[1], n, L)], False
                    ks = sorted(before)
                    if op[1] >= len(ks):
                        return c, b, None, False
                    tag = ks[op[1]]
                    if op[0] == 'disc':
                        c.t.discard_bucket(c.raw(tag))
                        c.fed.pop(tag)
                        c.order.pop(tag)
                        b.pop(tag)
                        return c, b, [], True
                    if op[2] == 0:
                        # a move of no letters offers the bucket to itself
                        return c, b, None, False
                    c.t.nf_descendants(c.raw(tag), op[2])
                    return c, b, [e for nf in before[tag][0] for e in TC.extensions(nf, op[2])], False
                for (c, b, off, ordered), used, script in deviations(s.rng, step, default, left, 2):
                    if off is None:
                        break
                    what = lambda: f'{s.t.rep!r} {method} capacity {cap}: {trail} then {op} with random outcomes {script}'
                    now = judge(ctx, c, b, off, what, ordered=ordered, stats=False)
                    ctx.outcome((method, op[0]))
                    ctx.trace()
                    k = ident(c, left - used)
                    if k not in nxt:
                        nxt[k] = (c, trail + (op + (script,) if used else op,), left - used)
                        judge(ctx, c, now, [], what)
                        judge_final(ctx, c, now, what())
        ctx.fresh_states(len(nxt))
        layer = nxt
    ctx.sample({'n': n, 'r': r, 'p': p, 'method': method, 'capacity': cap, 'kinds': kinds, 'first operation': str(ops[head])[:200], 'depth': depth})


def run_arrivals(ctx, chunk):
    """Every order of arrival of weighted offers, one by one and in one batch: what is kept."""
    n, r, p, cap, method, wname, m, lo, hi = chunk
    g = TC.menu_by_key('GNF', n, r, p, 3 if n == 3 else 2)
    key = max(g, key=lambda k: (min(len(g[k]), m), -k[0]))
    pool = g[key][:m]
    perms = list(itertools.permutations(pool))[lo:hi]
    for perm in perms:
        for split in ('single', 'batch', 'half', 'twice'):
            s = Sys(n, r, p, cap, method, 'LP', wname)
            s.rng.load((), 2, 'last')
            now = {}
            parts = {'single': [[x] for x in perm], 'batch': [perm], 'half': [perm[:len(perm) // 2], perm[len(perm) // 2:]], 'twice': [perm, perm]}[split]
            for part in parts:
                if part:
                    apply_offer(ctx, s, list(part), 0)
                    now = judge(ctx, s, now, list(part), lambda: f'{method} capacity {cap}: arrivals {perm} ({split})', stats=False)
            ctx.trace()
    ctx.fresh_states(len(perms))


def arrangements(pool, w):
    up = sorted(pool, key=w)
    half = len(up) // 2
    zig = [x for pair in itertools.zip_longest(up[:half], up[half:][::-1]) for x in pair if x is not None]
    return {'as listed': pool, 'rising': up, 'falling': up[::-1], 'zigzag': zig, 'light then heavy then light': up[:half:2] + up[half:] + up[1:half:2]}


def run_heavy(ctx, chunk):
    """One bucket, many arrivals: capacities around every power of two."""
    n, r, p, kind, L, method, wname, cap, N = chunk
    pool = TC.crowd(kind, n, r, p, L)[:N]
    N = len(pool)
    for name, arr in arrangements(pool, lambda x: weight(wname, x)).items():
        if method in ('GreedyFirst', 'Uniform') and name not in ('as listed', 'zigzag'):
            continue
        for batch in ([1, 17] if N <= 40 else [17] if N <= 100 else [128]) + [N]:
            s = Sys(n, r, p, cap, method, 'LP', wname, random.Random(len(arr) * 31 + batch))
            now, todo = {}, []
            what = lambda: f'{method} capacity {cap}, weight {wname}: {N} braids of length {L} arriving {name} by {batch}'
            for at in range(0, len(arr), batch):
                part = arr[at:at + batch]
                apply_offer(ctx, s, part, 0)
                todo = todo + part
                if N <= 100 or at + batch >= len(arr):
                    now = judge(ctx, s, now, todo, what, stats=at + batch >= len(arr))
                    todo = []
            if batch == N:
                part = arr[::2]
                apply_offer(ctx, s, part, 1)
                now = judge(ctx, s, now, part, lambda: what() + ', half of them twice')
                key = next(iter(now))
                s.t.discard_bucket(s.raw(key))
                s.fed.pop(key), s.order.pop(key)
                apply_offer(ctx, s, part, 0)
                judge(ctx, s, {}, part, lambda: what() + ', discarded, then half of them again')
            ctx.trace()
    ctx.sample({'method': method, 'capacity': cap, 'arrivals': N, 'weight': wname})


def run_validate(ctx, chunk):
    """Self-validation notices every single corrupted entry."""
    n, r, p, cap, method, stats, kinds, L = chunk
    s = Sys(n, r, p, cap, method, stats, None)
    now = {}
    for kind in kinds:
        s.t.bootstrap_exhaustive(CLS[kind], L)
        now = judge(ctx, s, now, [nf for l in range(1, L + 1) for nf in TC.all_nfs(kind, n, l)], 'bootstrap', ordered=False)
    judge_final(ctx, s, now, 'bootstrap')
    for tag in sorted(now):
        raw = s.raw(tag)
        braids, images = s.t.bucket_braids_images(raw)
        places = [(0, 0, 0), tuple(k - 1 for k in images.shape[1:])]
        for i in range(len(braids)):
            for at in places:
                old = images[i].copy()
                images[(i,) + at] += 1
                if not np.array_equal(s.t.bucket_braids_images(raw)[1][i], old):
                    with contextlib.redirect_stdout(io.StringIO()):
                        v = s.t.valiate_buckets()
                    ctx.check(not (isinstance(v, str) and v == SOUND), f'self-validation did not notice a wrong image of {TC.nf_of(braids[i])} in bucket {tag}')
                images[i] = old
                ctx.step()
    judge_final(ctx, s, now, 'restored')
    ctx.trace()
    ctx.fresh_states(1)


def run_refuse(ctx, chunk):
    rep = TC.cell(3, 1, 2)
    for st in ([Stats.CanonicalLength], [Stats.ProjectiveLength], []):
        ctx.raises(lambda: bucketing.Tracker(rep, 3, st, []), f'bucket statistics {st}')
        ctx.step()
    B = bucketing.Bucket.create(tag=(1, 1), capacity=2, image_shape=(2, 2, 3), image_dtype=np.int32)
    im = np.ones((2, 2, 3), dtype=np.int32)
    a, b, c = (TC.braid(nf) for nf in TC.all_nfs('GNF', 3, 1)[:3])
    ctx.raises(lambda: B.replace_braid(0, a, im, 1.0), 'replacing in an empty bucket')
    ctx.check(B.append_braid(a, im, 1.0) == 0 and B.append_braid(b, 2 * im, 2.0) == 1 and B.is_full(), 'append_braid')
    ctx.raises(lambda: B.append_braid(c, im, 1.0), 'appending to a full bucket')
    for i in (-1, 2):
        ctx.raises(lambda: B.replace_braid(i, c, im, 1.0), f'replacing entry {i} of 2')
    B.replace_braid(1, c, 3 * im, 5.0)
    bs, ims = B.braids_images()
    ctx.check(bs == [a, c] and ims.tolist() == [im.tolist(), (3 * im).tolist()] and list(B.weights[:2]) == [1.0, 5.0], 'replace_braid')
    ctx.trace()
    ctx.fresh_states(1)


def run_hashes(ctx, chunk):
    """hash_bucket puts two braids together exactly when their stored images are equal: images that differ in one entry."""
    p, D, delta, at = chunk
    rep = TC.cell(3, 1, p)
    base = (np.arange(4 * D).reshape(2, 2, D) * 7 + 1) % 5 + 1
    base = base.astype(np.int32 if p else np.int64)
    images = [base, base.copy()]
    places = sorted({0, 1, D // 2, D - 1} | {d for d in (31, 32, 63, 64, 127, 128, 255, 256, 511, 512) if d < D}) if D > 1 else [0]
    for i, j, d in itertools.product(range(2), range(2), places):
        im = base.copy()
        im[i, j, d] += delta
        images += [im] * (1 + (i + j + d + at) % 2)
    images = images[at:] + images[:at]
    nfs = TC.all_nfs('GNF', 3, 8)[:len(images)]
    ctx.check(len(nfs) == len(images), 'not enough braids')
    t = bucketing.Tracker(rep, len(images), STATS['LP'], [])
    t.add_braids_images([TC.braid(nf) for nf in nfs], np.array(images))
    tag, = t.buckets
    groups = t.hash_bucket(tag)
    got = sorted(sorted(map(str, (TC.nf_of(b) for b in g))) for g in groups.values())
    want = {}
    for nf, im in zip(nfs, images):
        want.setdefault(im.tobytes(), []).append(str(nf))
    ctx.check(got == sorted(map(sorted, want.values())), lambda: f'hash_bucket makes {len(got)} groups, there are {len(want)} different images (they differ by {delta} in single entries of width {D})')
    ctx.trace()
    ctx.fresh_states(len(images))


def run_strides(ctx, chunk):
    """Forward moves by one to six letters, in every order of two, of every bucket of a bootstrap."""
    n, r, p, method, stats, kinds, L0, strides = chunk
    s = Sys(n, r, p, 10 ** 5, method, stats, 'height', random.Random(L0))
    now = {}
    for kind in kinds:
        s.t.bootstrap_exhaustive(CLS[kind], L0)
        now = judge(ctx, s, now, [nf for L in range(1, L0 + 1) for nf in TC.all_nfs(kind, n, L)], 'bootstrap', ordered=False)
    for L in strides:
        for tag in sorted(now):
            nfs = now[tag][0]
            if TC.length(nfs[0]) > L0:
                continue
            s.t.nf_descendants(s.raw(tag), L)
            now = judge(ctx, s, now, [e for nf in nfs for e in TC.extensions(nf, L)], lambda: f'{s.t.rep!r} {method}: moving bucket {tag} by {L}, one of the strides {strides}', ordered=False, stats=False)
            ctx.trace()
    judge_final(ctx, s, now, f'strides {strides}')


def long_crowds(kind, n, L, step):
    """For every simple element: the braids made of any two factors, then one fixed run of L factors that begins with it."""
    for first in R.normal_forms(kind, n, 1):
        mid = tuple(first)
        while len(mid) < L:
            nxt = list(R.normal_forms(kind, n, 1, after=mid[-1]))
            mid += nxt[(len(mid) * step) % len(nxt)]
        heads = [h for h in R.normal_forms(kind, n, 2) if mid[:1] in set(R.normal_forms(kind, n, 1, after=h[-1]))]
        yield [(kind, n, 0, h + mid) for h in heads], [(kind, n, 0, mid + t) for t in R.normal_forms(kind, n, 2, after=mid[-1])]


def run_long(ctx, chunk):
    """Buckets of long braids: images of several thousand bytes that agree for a long way."""
    n, r, p, kind, L, step, method, lo = chunk
    for by_head, by_tail in list(long_crowds(kind, n, L, step))[lo::3]:
        for nfs in (by_head[:60], by_tail[:60]):
            if not nfs:
                continue
            s = Sys(n, r, p, 40, method, 'LP', 'height', random.Random(L))
            apply_offer(ctx, s, nfs, 0)
            what = lambda: f'{s.t.rep!r} {method}: {len(nfs)} braids of length {L + 2} such as {nfs[0]}'
            now = judge(ctx, s, {}, nfs, what)
            judge_final(ctx, s, now, what)
            apply_offer(ctx, s, nfs[:5], 1)
            judge(ctx, s, now, nfs[:5], what, stats=False)
            ctx.trace()
    ctx.sample({'n': n, 'r': r, 'p': p, 'kind': kind, 'factors': L + 2, 'method': method})


def families(tier):
    q = tier == 'quick'
    G, D = 'GNF', 'DGNF'
    lim = 3000 if q else 40000
    ch = []
    plan = []
    for method in METHODS:
        rand = method in ('Uniform', 'AChao')
        for wname in ([None, 'height', 'falling', 'array'] if method in ('AChao', 'EvictMin') else [None, 'height']):
            plan.append((3, 1, 2, 2, method, 'LP', wname, [G], 3, (0,), 'single', (3 if rand else 4) + (not q), None if not (method == 'AChao' and wname) else 1))
            plan.append((3, 1, 3, 2, method, 'KLP', wname, [G, D], 3, (0, 1), 'big', 2 + (not q), 1))
        plan.append((3, 1, 5, 1, method, 'ILP', 'height', [D], 3, (0, 1, -1), 'single', 4, 1 if rand else None))
        plan.append((4, 2, 2, 3, method, 'LZPK', 'falling', [G], 2, (0,), 'crowd', 5 if not q else 4, 1 if rand else None))
        plan.append((4, 1, 0, 2, method, 'PL', 'array', [D], 3, (0, 2), 'pairs', 2, 1 if rand else None))
        plan.append((3, 1, 2, 1, method, 'LP', None, [G], 3, (0,), 'crowd', 5 + (not q), None))
    F = [Family('offers', [list(x) + [lim] for x in plan], run_offers, 'all reachable states under offers and discards, every method, statistic choice and weight')]
    ch = []
    plan = []
    for method in METHODS:
        w = None if method in ('GreedyFirst', 'Uniform') else 'height'
        plan += [(3, 1, 2, 100, method, 'KLP', w, [G, D], 3, 'first', 0, 2), (3, 1, 3, 2, method, 'LP', 'falling', [G], 3, 'last', 0, 3), (3, 1, 0, 2, method, 'PL', w, [D], 3, 'first', 0, 3),
                 (4, 2, 3, 3, method, 'KLP', 'array', [D, G], 2, 'first', 0, 1), (4, 1, 5, 50, method, 'LZPK', w, [D], 2, 'last', 0, 2)]
    if not q:
        plan += [(3, 1, 2, 100, m, 'KLP', 'height', [G, D], 4, 'first', 0, 2) for m in METHODS] + [(4, 1, 2, 3, m, 'KLP', 'falling', [G, D], 3, d, 1, 1) for m in METHODS for d in ('first', 'last')] + \
                [(5, 2, 2, 10, m, 'KLP', None, [G, D], 2, 'first', 0, 1) for m in METHODS]
    for x in plan:
        for head in range(6):
            ch.append(list(x[:11]) + [head, x[11]])
    F.append(Family('moves', ch, run_ops, 'all sequences of offers, bootstraps, forward moves and discards in both normal forms'))
    ch = []
    from math import factorial
    for method in ('GreedyFirst', 'EvictMin', 'AChao', 'Uniform'):
        for n, r, p, cap, w, m in [(3, 1, 2, 2, 'height', 5), (3, 1, 2, 3, 'falling', 6), (4, 1, 2, 4, 'height', 6), (4, 2, 3, 1, 'array', 5)] + ([(3, 1, 2, 2, 'fine', 5), (4, 1, 2, 3, 'fine', 5)] if method in ('EvictMin', 'AChao') else []) + ([] if q else [(4, 1, 2, 3, 'falling', 7)]):
            tot = factorial(m)
            ch += [[n, r, p, cap, method, w, m, lo, min(tot, lo + 240)] for lo in range(0, tot, 240)]
    F.append(Family('arrivals', ch, run_arrivals, 'every arrival order of weighted offers, several splits'))
    ch = []
    caps = [1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]
    for method, ws in [('GreedyFirst', [None]), ('EvictMin', ['spread', 'height']), ('Uniform', [None]), ('AChao', ['spread', 'height'])]:
        for w in ws:
            ch += [[3, 0, 2, G, 10, method, w, c, N] for c in caps for N in sorted({40, c, c + 1, 2 * c + 3, 300} | ({2000} if c > 100 else set())) if N >= c and (w != 'height' or N == 300)]
            ch += [[3, 0, 3, D, 11, method, w, c, N] for c in caps[::4] for N in (2 * c + 1, 200) if N >= c]
    for method, w in [('GreedyFirst', None), ('EvictMin', 'height'), ('EvictMin', 'spread'), ('Uniform', None), ('AChao', 'spread')]:
        for n, r, p, kind, L in [(3, 1, 5, G, 8), (4, 1, 5, D, 3), (4, 2, 7, G, 3)]:
            ch += [[n, r, p, kind, L, method, w, c, N] for c in ((1, 3, 4, 5, 8, 17, 33) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65)) for N in (40, 100) if N > c]
    F.append(Family('heavy', ch, run_heavy, 'one bucket with capacity around every power of two and many more arrivals, in rising, falling and mixed order'))
    ch = []
    for total in (W18 if not q else [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2001, 2049]):
        ch += [[G, 4, 0, 2, 3, 1, 'candidates', [total]], [D, 4, 0, 2, 4, 1, 'candidates', [total]]]
        ch += [[w, 3, 0, 2, 12, 1, mode, [total]] for w in (G, D) for mode in (['heads', 'braids with one last factor'] if total < 2048 else ['heads'])]
    for total in (63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001):
        ch += [[G, 4, 1, 5, 3, 1, 'candidates', [total]], [D, 4, 1, 5, 4, 1, 'candidates', [total]]] + [[G, 3, 1, 5, 10, 1, 'heads', [total]]]
    F.append(Family('crowded', ch, run_crowded, 'forward moves of crowded buckets: counts of braids and candidates around every power of two and thousand'))
    F.append(Family('long', [[n, r, p, kind, L, step, m, lo] for n, r, p, kind, L in [(4, 1, 2, G, 20), (4, 1, 2, D, 60), (4, 2, 3, G, 24), (3, 1, 0, D, 30), (4, 1, 0, G, 16), (4, 1, 2, G, 100)] + ([] if q else [(5, 1, 2, D, 40), (4, 1, 3, D, 120)])
                              for step in ((1, 3) if q else (1, 2, 3, 5)) for m in (('GreedyFirst', 'EvictMin') if q else METHODS) for lo in range(3)
                              if not q or L < 60 or (step, m) == (3, 'GreedyFirst')], run_long,
                    'buckets of long braids: images of thousands of bytes that differ only at their beginning or at their end'))
    F.append(Family('hashing', [[p, D, delta, at] for p, deltas in ((0, (1, -7, 2, 256, 65536, 2 ** 31, 2 ** 32, 2 ** 53, -2 ** 40)), (8191, (1, 256, 4096)), (2, (1, 8))) for delta in deltas
                                for D in (1, 2, 3, 17, 64, 65, 100, 300, 513) for at in (0, 3)], run_hashes, 'hash_bucket on images differing in one entry'))
    ch = [[n, r, p, m, st, kinds, L0, [a, b]] for n, r, p, kinds, L0, M in [(3, 1, 2, [G], 2, 5), (3, 1, 0, [D], 2, 5), (3, 1, 5, [G, D], 2, 5), (4, 1, 3, [D], 1, 3), (4, 2, 2, [G], 1, 2), (4, 1, 2, [G, D], 1, 2)]
          for m, st in (('GreedyFirst', 'KLP'),) for a in range(1, M + 1 if q else M + 2) for b in range(1, M + 1) if a != b]
    F.append(Family('strides', ch, run_strides, 'forward moves by several letters, in every order of two different strides'))
    ch = [[3, 1, 2, 100, 'GreedyFirst', 'LP', [G], 2], [3, 1, 3, 2, 'EvictMin', 'LP', [D], 3], [4, 1, 2, 3, 'GreedyFirst', 'KLP', [G, D], 1], [3, 0, 2, 1, 'GreedyFirst', 'KLP', [D, G], 3], [4, 2, 0, 5, 'GreedyFirst', 'PL', [D], 2]]
    F.append(Family('validate', ch, run_validate, 'self-validation after every single corruption of a stored image'))
    F.append(Family('refusals', [[0]], run_refuse, 'bucket interface'))
    return F

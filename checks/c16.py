"""C16: the search tracker's buckets hold only true, correctly filed braids."""
import contextlib
import copy
import io
import itertools
import random as pyrandom
from collections import Counter

import numpy as np

from peyl import Tracker
from checks import track_common as TC
from checks.c18 import WINDOWS as W18, run_crowded
from vlib import ref_braid as R
from vlib import ref_rep as Q
from vlib.core import Family, slices
from vlib.rng import Chooser, deviations, outcomes

PROPERTY = 'C16'
ASSUMPTIONS = ['offers carry images that are projective (each with a constant term), as every producer of the library delivers them',
               'which substrings the substring expansion offers is left open']
KEYS = ('length', 'projlen')
SOUND = 'All bucket entries are sound.'

CRITERIA = {
    'all': (lambda x: x['length'] >= 0, lambda nf, r, p: True),
    'nonempty': (lambda x: x['length'] >= 1, lambda nf, r, p: len(nf[3]) >= 1),
    'short': (lambda x: x['projlen'] <= 3, lambda nf, r, p: TC.projlen(nf, r, p) <= 3),
    'ratio': (lambda x: (x['rhogap/length'] < 0.9) & (x['length'] >= 1),
              lambda nf, r, p: len(nf[3]) >= 1 and (TC.projlen(nf, r, p) - 1) / 2 / len(nf[3]) < 0.9),
    'terms': (lambda x: x['nz_terms'] % 2 == 0, lambda nf, r, p: int(np.count_nonzero(TC.image(nf, r, p))) % 2 == 0),
    'none': (lambda x: x['length'] < 0, lambda nf, r, p: False),
}


class Sys:
    """A tracker under test together with the model of what it was fed."""

    def __init__(self, n, r, p, cap, random, criterion, rng=None):
        self.n, self.r, self.p, self.cap = n, r, p, cap
        self.rng = rng or Chooser()
        self.random = random
        self.crit = CRITERIA[criterion]
        self.t = Tracker(TC.js(n, r, p), cap, KEYS, self.crit[0], rand=self.rng if random else None)
        self.fed = {}        # key -> Counter of accepted offers since the bucket came into being
        self.loose = set()   # keys whose exact feed is unknown (substrings)

    def copy(self):
        c = copy.copy(self)
        c.t = copy.deepcopy(self.t)
        c.fed = {k: Counter(v) for k, v in self.fed.items()}
        c.loose = set(self.loose)
        return c

    def key(self, nf):
        return (len(nf[3]), TC.projlen(nf, self.r, self.p))

    def raw(self, key):
        return next(k for k in self.t.buckets if TC.tidy(k) == key)

    def contents(self):
        out = {}
        for raw in list(self.t.buckets):
            braids, images = self.t.bucket_braids_images(raw)
            out[TC.tidy(raw)] = ([TC.nf_of(b) for b in braids], np.array(images))
        return out


_STAT = {}


def stat_row(nf, r, p):
    k = (nf, r, p)
    if k not in _STAT:
        A = TC.image(nf, r, p)
        D, L = A.shape[-1], len(nf[3])
        _STAT[k] = {'length': L, 'nz_terms': int(np.count_nonzero(A)), 'degmax': D - 1, 'valmin': 0, 'rhogap': (D - 1) / 2,
                    'projlen': D, 'rhogap/length': (D - 1) / 2 / max(L, 1), 'projrank2': TC.projrank2(nf, r, p)}
    return _STAT[k]


def judge(ctx, s, before, offers, what, stats=True):
    """The tracker after an operation that offered the given multiset (None: any subset of a set is `offers`)."""
    r, p, cap = s.r, s.p, s.cap
    exact = isinstance(offers, Counter)
    acc = {}
    for nf in offers:
        if s.crit[1](nf, r, p):
            acc.setdefault(s.key(nf), Counter())[nf] += offers[nf] if exact else 10 ** 6
    for key, c in acc.items():
        if not exact:
            s.loose.add(key)
        s.fed.setdefault(key, Counter()).update(c)
    now = s.contents()
    fail = lambda m: ctx.fail(f'{what() if callable(what) else what}: {m}')
    ctx.check(len(now) == len(set(s.t.buckets)), 'two buckets with one key')
    for key, (nfs, images) in now.items():
        if key not in s.fed:
            fail(f'bucket {key} appeared although nothing was offered for it')
        if not 1 <= len(nfs) <= cap:
            fail(f'bucket {key} holds {len(nfs)} braids, its capacity is {cap}')
        if images.ndim != 4 or len(images) != len(nfs):
            fail(f'bucket {key} has {len(nfs)} braids and images of shape {images.shape}')
        fed = s.fed[key]
        for i, nf in enumerate(nfs):
            if nf not in fed:
                fail(f'bucket {key} holds {nf}, which was not offered to it and accepted (or belongs elsewhere)')
            if not Q.same_tensor(images[i], TC.image(nf, r, p)):
                fail(f'bucket {key} stores for {nf} the image {images[i].tolist()}, should be {TC.image(nf, r, p).tolist()}')
        if len(set(nfs)) != len(nfs) and (len(nfs) < cap or all(c == 1 for c in fed.values())):
            fail(f'bucket {key} holds a duplicate: {nfs}')
    for key, (nfs, images) in before.items():
        if key not in acc:
            if key not in now:
                fail(f'bucket {key} vanished')
            if nfs != now[key][0]:
                fail(f'bucket {key} changed from {nfs} to {now[key][0]} although nothing was offered for it')
        else:
            # each offer may displace at most one entry, and only when the bucket is full
            got = now.get(key, ([], None))[0]
            lost = sum((Counter(nfs) - Counter(got)).values())
            room = cap - len(nfs)
            if lost > max(0, sum(acc[key].values()) - room):
                fail(f'bucket {key} lost {lost} entries to {sum(acc[key].values())} offers with room for {room}: {nfs} -> {got}')
    if stats:
        df = s.t.stats()
        rows = df.to_dict('records')
        if Counter(TC.tidy(x['bucket']) for x in rows) != Counter(list(now)):
            fail(f'stats() lists the buckets {[x["bucket"] for x in rows]}, there are {sorted(now)}')
        for row in rows:
            key = TC.tidy(row['bucket'])
            if row['count'] != len(now[key][0]) or row['length'] != key[0] or row['projlen'] != key[1]:
                fail(f'stats() row {row} for bucket {key} holding {len(now[key][0])} braids')
            if key[0] and abs(row['rhogap/length'] - (key[1] - 1) / 2 / key[0]) > 1e-12:
                fail(f'stats() row {row}: rhogap/length')
            if s.random and key not in s.loose and row['reservoir_count'] != sum(s.fed[key].values()):
                fail(f'bucket {key} reports {row["reservoir_count"]} seen, {sum(s.fed[key].values())} were offered')
    ctx.transitions += 1
    ctx.state(tuple(sorted((k, tuple(v[0])) for k, v in now.items())))
    return now


def judge_final(ctx, s, now, what):
    """Statistics per bucket and self-validation."""
    for key, (nfs, images) in now.items():
        df = s.t.bucket_stats(s.raw(key))
        rows = df.to_dict('records')
        ctx.check(len(rows) == len(nfs), f'{what}: bucket_stats({key}) has {len(rows)} rows')
        for nf, row in zip(nfs, rows):
            for k, v in stat_row(nf, s.r, s.p).items():
                ctx.check(abs(row[k] - v) < 1e-9, lambda: f'{what}: bucket_stats({key}): {k} of {nf} is {row[k]}, should be {v}')
    res = {TC.tidy(x['bucket']): x for x in s.t.stats_reservoir().to_dict('records')}
    for key in now:
        ctx.check(key in res, f'stats_reservoir() does not mention {key}')
        if key not in s.loose and s.random:
            ctx.check(res[key]['reservoir_count'] == sum(s.fed[key].values()) and (res[key]['length'], res[key]['projlen']) == key,
                      lambda: f'stats_reservoir() says {res[key]} for {key}')
    with contextlib.redirect_stdout(io.StringIO()):
        v = s.t.valiate_buckets()
    ctx.check(isinstance(v, str) and v == SOUND, lambda: f'{what}: self-validation says {v!r}')
    missing = (99, 99)
    ctx.raises(lambda: s.t.bucket_stats(missing), 'statistics of a bucket that does not exist')


# ------------------------------------------------------------------ offers
def menu(kind, n, r, p, maxlen, powers=(0,)):
    """Braids crowding one bucket, plus neighbours of the same length and of the same projective length."""
    g = TC.menu_by_key(kind, n, r, p, maxlen, powers)
    top = max((k for k in g if k[0] >= 1), key=lambda k: (min(len(g[k]), 5), -k[0], -k[1]))
    main = g[top][:5]
    same_len = [g[k][0] for k in sorted(g) if k[0] == top[0] and k != top][:2]
    same_proj = [g[k][0] for k in sorted(g) if k[1] == top[1] and k != top][:2]
    ident = [(kind, n, 0, ())]
    return main, same_len, same_proj, ident


def apply_offer(ctx, s, nfs, pad, what):
    imgs = TC.offer_images(nfs, s.r, s.p, pad)
    keep = imgs.copy()
    braids = [TC.braid(x) for x in nfs]
    s.t.add_braids_images(braids, imgs)
    ctx.check(np.array_equal(imgs, keep) and braids == [TC.braid(x) for x in nfs], f'{what}: the offered arrays were changed')


def do_discard(ctx, s, before, trail):
    if not before:
        return False
    key = max(before, key=lambda k: (len(before[k][0]), k))
    s.t.discard_bucket(key)
    seen = s.fed.pop(key)
    if s.random and key not in s.loose:
        # reservoir counts outlive their buckets
        res = {TC.tidy(x['bucket']): x for x in s.t.stats_reservoir().to_dict('records')}
        ctx.check(key in res and res[key]['reservoir_count'] == sum(seen.values()), lambda: f'after discarding {key}, which saw {sum(seen.values())} offers, stats_reservoir() says {res.get(key)}')
    s.loose.discard(key)
    now = s.contents()
    ctx.check(key not in now, f'bucket {key} is still there after being discarded')
    want = {k: v for k, v in before.items() if k != key}
    ctx.check(set(now) == set(want) and all(now[k][0] == want[k][0] and np.array_equal(now[k][1], want[k][1]) for k in want),
              f'discarding {key} disturbed other buckets')
    s.t.discard_bucket((98, 98))
    ctx.check(set(s.contents()) == set(want), 'discarding a missing bucket changed something')
    judge(ctx, s, now, Counter(), lambda: f'{trail} then discarding {key}')
    return True


def offer_choices(n, r, p, maxlen, which):
    main, sl, sp, ident = menu('GNF', n, r, p, maxlen, (0, 1) if which == 'powers' else (0,))
    if which in ('single', 'powers'):
        xs = main[:3] + sl[:1] + sp[:1]
        return [('offer', [x], i % 3) for i, x in enumerate(xs)] + [('discard',)]
    if which == 'crowd':
        return [('offer', [x], 0) for x in main[:4]]
    if which == 'batch':
        xs = main[:3] + sl[:1] + sp[:1]
        return [('offer', list(c), len(c) % 2) for k in (2, 3) for c in itertools.product(xs, repeat=k) if k == 2 or c[0] == main[0]] + [('discard',)]
    if which == 'bigbatch':
        xs = main[:4] + sl[:2] + sp[:2] + ident
        return [('offer', xs, 0), ('offer', xs[::-1], 2), ('offer', xs[::2] + xs, 1), ('offer', ident, 0), ('discard',)]


def identity_of(s, extra=()):
    return (TC.digest(s.t), tuple(sorted((k, tuple(sorted(v.items()))) for k, v in s.fed.items())), tuple(sorted(s.loose)), extra)


def run_offers(ctx, chunk):
    """Breadth-first over all states of tracker and model, every random outcome of every offer."""
    n, r, p, cap, rand, crit, maxlen, which, depth, budget, limit = chunk
    choices = offer_choices(n, r, p, maxlen, which)
    s0 = Sys(n, r, p, cap, rand, crit)
    ctx.check(len(s0.t.stats()) == 0 and len(s0.t.stats_reservoir()) == 0 and s0.contents() == {}, 'a new tracker is not empty')
    layer = {identity_of(s0): (s0, ())}
    for d in range(depth):
        nxt = {}
        for s, trail in layer.values():
            before = s.contents()
            for ci, ch in enumerate(choices):
                if ch[0] == 'discard':
                    c = s.copy()
                    if do_discard(ctx, c, before, trail):
                        nxt.setdefault(identity_of(c), (c, trail + (('discard',),)))
                    continue
                nfs, pad = ch[1], ch[2]

                def step():
                    c = s.copy()
                    apply_offer(ctx, c, nfs, pad, trail)
                    return c
                runs = outcomes(s.rng, step) if budget is None else (x for dd in ('first', 'last') for x in deviations(s.rng, step, dd, budget))
                for c, _, script in runs:
                    what = lambda: f'{s.t.rep!r} capacity {s.cap} after {trail} then offering {nfs} with random outcomes {script}'
                    now = judge(ctx, c, before, Counter(nfs), what, stats=False)
                    k = identity_of(c)
                    if k not in nxt:
                        nxt[k] = (c, trail + ((ci, script),))
                        judge(ctx, c, now, Counter(), what)
                        judge_final(ctx, c, now, what())
                        ctx.outcome(tuple(sorted(len(v[0]) for v in now.values())))
                    ctx.trace()
        ctx.fresh_states(len(nxt))
        layer = nxt
        if len(layer) > limit:
            break       # the next layer would leave the stated bound
    ctx.sample({'n': n, 'r': r, 'p': p, 'capacity': cap, 'depth': d + 1, 'trail': list(layer.values())[-1][1]})


# ------------------------------------------------------------------ all operations
def nth_key(contents, k):
    ks = sorted(contents)
    return ks[k] if k < len(ks) else None


def do_op(ctx, s, op, before):
    """Run one operation on s; return the multiset of offers (or a set, if only an upper bound is known)."""
    n, r, p = s.n, s.r, s.p
    name = op[0]
    if name == 'offer':
        apply_offer(ctx, s, op[1], op[2], op)
        return Counter(op[1])
    if name == 'boot':
        s.t.bootstrap_exhaustive(op[1])
        return Counter(nf for L in range(1, op[1] + 1) for nf in TC.all_nfs('GNF', n, L))
    key = nth_key(before, op[1])
    if key is None:
        return None
    if name == 'desc':
        s.t.nf_descendants(s.raw(key), op[2])
        out = Counter()
        for nf in before[key][0]:
            for ext in TC.extensions(nf, op[2]):
                for i in range(1, op[2] + 1):
                    out[ext[:3] + (ext[3][:len(nf[3]) + i],)] += 1
        return out
    if name == 'prod':
        key2 = nth_key(before, op[2])
        if key2 is None:
            return None
        s.t.bucket_product(s.raw(key), s.raw(key2))
        return Counter(TC.nf_product(a, b) for a in before[key][0] for b in before[key2][0])
    if name == 'subs':
        s.t.substrings(s.raw(key))
        return {TC.nf_of(TC.braid(nf).substring(i, j)) for nf in before[key][0] for i in range(len(nf[3]) + 1) for j in range(i, len(nf[3]) + 1)}
    if name == 'disc':
        s.t.discard_bucket(s.raw(key))
        s.fed.pop(key)
        s.loose.discard(key)
        before.pop(key)
        return Counter()
    raise KeyError(name)


def op_menu(n, r, p, which):
    main, sl, sp, ident = menu('GNF', n, r, p, 3 if n == 3 else 2, (0, 1))
    long = [nf for nf in TC.all_nfs('GNF', n, 5 if n > 3 else 6)][::37][:3]
    A = main[:2] + sl[:1]
    B = main[1:4] + sp[:1] + ident
    base = [('offer', A, 0), ('offer', B, 1), ('boot', 1), ('desc', 0, 1), ('desc', 1, 1), ('prod', 0, 1), ('prod', 0, 0), ('disc', 0)]
    if which == 'more':
        base += [('desc', 0, 2), ('desc', 2, 2), ('prod', 1, 0), ('prod', 1, 2), ('disc', 1), ('boot', 2), ('offer', long, 0), ('subs', 0), ('subs', 1)]
    if which == 'subs':
        base = [('offer', long, 0), ('offer', long[1:], 0), ('subs', 0), ('subs', 1), ('disc', 0), ('prod', 0, 0), ('boot', 2)]
    return base


def run_ops(ctx, chunk):
    n, r, p, cap, rand, crit, which, depth, budget, default, head = chunk
    ops = op_menu(n, r, p, which)
    s0 = Sys(n, r, p, cap, rand, crit)
    layer = {0: (s0, (), budget)}
    for d in range(depth):
        nxt = {}
        for s, trail, left in layer.values():
            before = s.contents()
            for op in ([ops[head]] if d == 0 else ops):
                def step():
                    c = s.copy()
                    b = dict(before)
                    off = do_op(ctx, c, op, b)
                    return c, b, off
                for (c, b, off), used, script in deviations(s.rng, step, default, left):
                    if off is None:
                        break
                    what = lambda: f'{s.t.rep!r} capacity {cap}: {trail} then {op} with random outcomes {script}'
                    now = judge(ctx, c, b, off, what, stats=False)
                    ctx.outcome(op[0])
                    ctx.trace()
                    k = identity_of(c, left - used)
                    if k not in nxt:
                        nxt[k] = (c, trail + (op + (script,) if used else op,), left - used)
                        judge(ctx, c, now, Counter(), what)
                        judge_final(ctx, c, now, what())
        ctx.fresh_states(len(nxt))
        layer = nxt
    ctx.sample({'n': n, 'r': r, 'p': p, 'capacity': cap, 'first operation': ops[head], 'depth': depth, 'states in the last layer': len(layer)})


# ------------------------------------------------------------------ products of long braids, self-validation, criterion
def run_longprod(ctx, chunk):
    """Products of buckets of long braids, doubling the length every time."""
    n, r, p, cycle, rounds, cap = chunk
    cyc = [nf for nf in TC.all_nfs('GNF', n, 2) if R.is_normal_form('GNF', n, nf[3] + nf[3][:1])][cycle]
    s = Sys(n, r, p, cap, False, 'all')
    start = (cyc[0], cyc[1], 0, cyc[3] * 3)
    offers = [start]
    before = {}
    apply_offer(ctx, s, offers, 0, 'start')
    now = judge(ctx, s, before, Counter(offers), 'start')
    key = s.key(start)
    nf = start
    for k in range(rounds):
        nf = (nf[0], nf[1], 0, nf[3] * 2)
        s.t.bucket_product(s.raw(key), s.raw(key))
        now = judge(ctx, s, now, Counter([nf]), f'{s.t.rep!r}: product of two braids of length {key[0]} with period {cyc}')
        key = s.key(nf)
        ctx.check(key in now, f'the product of length {key[0]} was not kept')
    judge_final(ctx, s, now, 'after products')
    ctx.trace()


def run_validate(ctx, chunk):
    """Self-validation notices every single corrupted entry."""
    n, r, p, cap = chunk
    s = Sys(n, r, p, cap, False, 'all')
    s.t.bootstrap_exhaustive(2)
    now = judge(ctx, s, {}, Counter(nf for L in (1, 2) for nf in TC.all_nfs('GNF', n, L)), 'bootstrap')
    judge_final(ctx, s, now, 'bootstrap')
    for key in sorted(now):
        braids, images = s.t.bucket_braids_images(s.raw(key))
        for i in range(len(braids)):
            old = images[i].copy()
            images[i, 0, 0, 0] += 1
            if not np.array_equal(s.t.bucket_braids_images(s.raw(key))[1][i], old):
                with contextlib.redirect_stdout(io.StringIO()):
                    v = s.t.valiate_buckets()
                ctx.check(not (isinstance(v, str) and v == SOUND), f'self-validation did not notice a wrong image in bucket {key}')
            images[i] = old
            ctx.step()
    judge_final(ctx, s, now, 'restored')
    ctx.trace()
    ctx.fresh_states(1)


def run_criterion(ctx, chunk):
    """The criterion is shown true statistics, in the order of the offers, and decides exactly what is kept."""
    n, r, p, maxlen, crit = chunk
    seen = []
    s = Sys(n, r, p, 1000, False, crit)

    def spy(x):
        seen.append(x.copy())
        return s.crit[0](x)
    s.t = Tracker(TC.js(n, r, p), 1000, KEYS, spy)
    pool = [nf for L in range(maxlen + 1) for nf in TC.all_nfs('GNF', n, L, (0, 1, -1))]
    now = {}
    for nfs in (pool, pool[::-1], pool[::3], pool[:1]):
        seen.clear()
        apply_offer(ctx, s, nfs, 1, crit)
        rows = [row for df in seen for row in df.to_dict('records')]
        ctx.check(len(rows) == len(nfs), f'the criterion saw {len(rows)} of {len(nfs)} offers')
        for nf, row in zip(nfs, rows):
            for k, v in stat_row(nf, r, p).items():
                ctx.check(k in row and abs(row[k] - v) < 1e-9, lambda: f'the criterion was told {k}={row.get(k)} for {nf}, should be {v}')
        now = judge(ctx, s, now, Counter(nfs), f'criterion {crit}')
        kept = {nf for v in now.values() for nf in v[0]}
        ctx.check(all(s.crit[1](nf, r, p) for nf in kept), f'criterion {crit}: kept a refused braid')
        ctx.trace()


def run_heavy(ctx, chunk):
    """One bucket, many arrivals: capacities around every power of two."""
    n, r, p, L, cap, rand, N = chunk
    pool = TC.crowd('GNF', n, r, p, L)[:N]
    N = len(pool)
    for batch in ([1] if N <= 40 else []) + [17, 128, N]:
        s = Sys(n, r, p, cap, rand, 'all', pyrandom.Random(N * 31 + batch))
        now = {}
        what = lambda: f'capacity {cap} ({"random" if rand else "first come"}): {N} braids of length {L} arriving by {batch}'
        for at in range(0, N, batch):
            part = pool[at:at + batch]
            apply_offer(ctx, s, part, 0, what())
            now = judge(ctx, s, now, Counter(part), what, stats=at + batch >= N)
        key = next(iter(now))
        ctx.check(len(now) == 1 and len(now[key][0]) == min(cap, N), lambda: f'{what()}: holds {len(now[key][0])}')
        judge_final(ctx, s, now, what())
        do_discard(ctx, s, now, what())
        apply_offer(ctx, s, pool[::3], 1, what())
        judge(ctx, s, {}, Counter(pool[::3]), lambda: what() + ', discarded, then a third of them again')
        ctx.trace()
    ctx.sample({'capacity': cap, 'random': rand, 'arrivals': N})


def run_crowdedprod(ctx, chunk):
    """Products of buckets with given numbers of braids."""
    n, r, p, L1, L2, k1, k2, cap = chunk
    A = TC.crowd('GNF', n, r, p, L1)
    B = TC.crowd('GNF', n, r, p, L2)
    if (L1, k1) != (L2, k2):
        B = B[::-1]
    ctx.check(len(A) >= k1 and len(B) >= k2, 'not enough braids')
    A, B = A[:k1], B[:k2]
    s = Sys(n, r, p, cap, False, 'all')
    now = {}
    what = f'{s.t.rep!r} capacity {cap}: product of {k1} braids of length {L1} with {k2} of length {L2}'
    for part in ([A] if L1 == L2 else [A, B]):
        apply_offer(ctx, s, part, 0, what)
        now = judge(ctx, s, now, Counter(part), what)
    s.t.bucket_product(s.raw(s.key(A[0])), s.raw(s.key(B[0])))
    now = judge(ctx, s, now, Counter(TC.nf_product(a, b) for a in A for b in (A if L1 == L2 else B)), what)
    judge_final(ctx, s, now, what)
    ctx.trace()
    ctx.fresh_states(1)


def families(tier):
    q = tier == 'quick'
    ch = []
    plan = [  # n r p cap rand crit maxlen which depth budget limit
        (3, 1, 2, 1, True, 'all', 3, 'single', 5, None), (3, 1, 0, 2, True, 'all', 3, 'single', 5, None), (3, 1, 5, 2, False, 'all', 3, 'single', 5, None),
        (3, 1, 2, 1, False, 'all', 3, 'single', 5, None), (3, 1, 2, 2, True, 'all', 3, 'crowd', 5, None), (3, 1, 3, 1, True, 'short', 2, 'powers', 5, None),
        (4, 2, 3, 2, True, 'terms', 2, 'powers', 5, None), (4, 1, 2, 3, True, 'all', 2, 'crowd', 5, None), (4, 1, 3, 1, True, 'all', 2, 'batch', 2, 1), (3, 1, 0, 2, True, 'all', 3, 'batch', 2, 1),
        (3, 1, 2, 2, True, 'nonempty', 3, 'bigbatch', 2, 1), (4, 1, 0, 2, False, 'all', 2, 'bigbatch', 4, None), (4, 2, 2, 1, True, 'all', 2, 'bigbatch', 2, 1), (3, 0, 2, 2, True, 'all', 3, 'single', 5, None),
        (5, 2, 3, 2, True, 'all', 1, 'bigbatch', 2, 1), (3, 1, 3, 4, True, 'all', 2, 'powers', 3, None), (4, 1, 2, 3, False, 'all', 2, 'powers', 4, None)]
    if not q:
        plan += [(3, 1, 2, 2, True, 'all', 3, 'crowd', 6, None), (4, 1, 3, 1, True, 'all', 2, 'batch', 2, None), (3, 1, 0, 2, True, 'all', 3, 'batch', 2, None), (4, 2, 2, 1, True, 'all', 2, 'bigbatch', 3, 1), (5, 2, 3, 2, True, 'all', 1, 'bigbatch', 2, 2),
                 (3, 1, 2, 1, True, 'all', 3, 'single', 7, None), (3, 1, 2, 2, True, 'all', 3, 'single', 6, None), (3, 1, 3, 2, True, 'all', 3, 'crowd', 8, None), (4, 1, 2, 1, True, 'all', 2, 'batch', 3, 2),
                 (3, 1, 2, 2, True, 'nonempty', 3, 'bigbatch', 3, 1), (4, 2, 5, 3, True, 'all', 2, 'crowd', 7, None), (3, 1, 5, 2, False, 'all', 3, 'single', 7, None), (4, 1, 2, 2, True, 'all', 2, 'single', 6, None)]
    ch = [list(x) + [4000 if q else 60000] for x in plan]
    F = [Family('offers', ch, run_offers, 'all reachable states under offers (single, batches, padded) and discards, every random outcome')]
    ch = []
    plan = [  # n r p cap rand crit which depth budget defaults
        (3, 1, 2, 2, True, 'all', 'base', 4, 0, ('first', 'last')), (3, 1, 3, 1, True, 'nonempty', 'base', 3, 1, ('first', 'last')), (3, 1, 0, 3, False, 'all', 'base', 4, 0, ('first',)),
        (3, 1, 5, 2, True, 'all', 'more', 3, 0, ('first', 'last')), (4, 2, 2, 2, True, 'nonempty', 'base', 3, 0, ('first', 'last')), (3, 1, 2, 4, False, 'all', 'subs', 4, 0, ('first',)), (3, 1, 3, 1, True, 'subs', 'subs', 3, 1, ('last',)),
        (4, 1, 3, 1, True, 'all', 'subs', 2, 0, ('first', 'last')), (4, 1, 2, 2, False, 'ratio', 'more', 2, 0, ('first',))]
    plan[6] = (3, 1, 3, 1, True, 'all', 'subs', 3, 1, ('last',))
    if not q:
        plan += [(3, 1, 2, 2, True, 'all', 'base', 5, 1, ('first', 'last')), (3, 1, 5, 2, True, 'all', 'more', 4, 0, ('first', 'last')), (4, 1, 2, 2, True, 'nonempty', 'base', 4, 1, ('first', 'last')),
                 (4, 2, 3, 3, True, 'all', 'more', 3, 0, ('first', 'last')), (3, 1, 3, 2, True, 'all', 'subs', 5, 1, ('first', 'last'))]
    for n, r, p, cap, rand, crit, which, depth, budget, defaults in plan:
        for head in range(len(op_menu(n, r, p, which))):
            for d in defaults:
                ch.append([n, r, p, cap, rand, crit, which, depth, budget, d, head])
    F.append(Family('operations', ch, run_ops, 'all sequences of offers, bootstraps, forward moves, products, substrings and discards; bounded random deviations'))
    ch = []
    for n, r, ps, rounds in [(3, 1, [2, 3, 8191], 4), (4, 1, [8191], 4), (4, 2, [8191], 4 if q else 5)]:
        m = len([nf for nf in TC.all_nfs('GNF', n, 2) if R.is_normal_form('GNF', n, nf[3] + nf[3][:1])])
        for p in ps:
            ch += [[n, r, p, c, rounds, 2] for c in range(m if n == 3 or not q else min(m, 40))]
    F.append(Family('long_products', ch, run_longprod, 'bucket products of long braids'))
    ch = []
    caps = [1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]
    ch = [[3, 0, 2, 10, c, rand, N] for c in caps for rand in (True, False) for N in sorted({40, c, c + 1, 2 * c + 3, 300} | ({2000} if c > 100 else set())) if N >= c]
    for n, r, p, L in [(3, 1, 5, 8), (4, 1, 5, 2), (4, 2, 7, 3)] + ([] if q else [(3, 1, 3, 7), (4, 1, 7, 3), (5, 2, 3, 1)]):
        ch += [[n, r, p, L, c, rand, N] for c in (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 65) for rand in (True, False) for N in (40, 2 * c + 3, 250) if N >= c and (rand or N == 40)]
    F.append(Family('heavy', ch, run_heavy, 'one bucket with capacity around every power of two and many more arrivals'))
    ch = []
    for total in (W18 if not q else [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2001, 2049]):
        ch += [['jones', 4, 0, 2, 3, 1, 'candidates', [total]]]
        ch += [['jones', 3, 0, 2, 12, 1, mode, [total]] for mode in (['heads', 'braids with one last factor'] if total < 2048 else ['heads'])]
    ch += [['jones', 3, 1, 5, 10, 1, 'heads', [total]] for total in (499, 500, 501, 512, 1000, 1001)] + [['jones', 4, 1, 5, 3, 1, 'candidates', [total]] for total in (255, 256, 257, 999, 1000, 1001, 2001)] + \
          [['jones', 3, 1, 5, 6, 3, 'heads', [125, 126, 128]]]
    F.append(Family('crowded', ch, run_crowded, 'forward moves of crowded buckets: counts of braids and candidates around every power of two and thousand'))
    ks = [1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17] + ([] if q else [11, 13, 31, 32, 33, 40])
    ch = []
    for n, r, p, L1, L2 in [(3, 1, 5, 8, 9), (4, 1, 3, 2, 3), (4, 2, 7, 3, 2)]:
        room = {L: len(TC.crowd('GNF', n, r, p, L)) for L in (L1, L2)}
        ch += [[n, r, p, L1, L1, k, k, cap] for k in ks if k <= room[L1] for cap in (10 ** 6,)]
        ch += [[n, r, p, L1, L2, k, m, 10 ** 6] for k in ks for m in (ks if not q else {1, k, 12, 17}) if k <= room[L1] and m <= room[L2] and k * m <= 600]
    F.append(Family('crowded_products', ch, run_crowdedprod, 'products of buckets with 1 to 40 braids'))
    F.append(Family('validation', [[3, 1, 2, 3], [3, 1, 0, 100], [4, 1, 3, 2], [4, 2, 5, 4]], run_validate, 'self-validation against every single corrupted entry'))
    F.append(Family('criterion', [[n, r, p, ml, c] for n, r, p, ml in [(3, 1, 2, 3), (3, 1, 0, 2), (4, 2, 3, 1), (4, 1, 5, 1), (2, 1, 3, 4), (3, 0, 2, 2)] for c in CRITERIA], run_criterion,
                    'what the criterion is shown and what it keeps'))
    return F

"""C15: every bulk evaluation route against exact evaluation up to a power of v."""
import itertools

import numpy as np

from peyl import DGNF, GNF, BraidGroup, JonesCellRep, JonesSummand, braidsearch, polymat
from checks import c14
from vlib import ref_braid as R
from vlib import ref_poly as RP
from vlib import ref_rep as Q
from vlib.core import Family, slices
from vlib.impl import CLS, factor_impl, factor_ref, lift_seq, read, simples
from vlib.rng import explore

PROPERTY = 'C15'
ASSUMPTIONS = ['over the integers, images whose coefficients fit 64 bits',
               'the order of a basis is the one tl.cell_basis lists']
PRIMES = [0, 2, 3, 5, 7, 13, 8191]

_REP = {}


def cell(n, r, p):
    if (n, r, p) not in _REP:
        _REP[n, r, p] = JonesCellRep(n, r, p)
    return _REP[n, r, p]


_JS = {}


def summand(n, r, p):
    if (n, r, p) not in _JS:
        _JS[n, r, p] = JonesSummand(n, r, p)
    return _JS[n, r, p]


def labels(n):
    return range(n // 2 + 1)


def garside(kind, n):
    return lift_seq(kind, n, [tuple(reversed(range(n))) if kind == 'GNF' else (tuple(range(n)),)])


_OBJ = {}


def braid(kind, n, power, factors):
    k = (kind, n, power, factors)
    if k not in _OBJ:
        _OBJ[k] = garside(kind, n) ** power * lift_seq(kind, n, factors)
    return _OBJ[k]


def same(ctx, A, W, what):
    if not Q.same_tensor(A, W):
        ctx.fail(f'{what() if callable(what) else what} is\n{A!r}\nshould be\n{W.tolist()}')
    ctx.transitions += 1


def batch(ctx, imgs, wants, what):
    """A 4-dimensional batch of images."""
    w = what() if callable(what) else what
    if not isinstance(imgs, np.ndarray) or imgs.ndim != 4 or imgs.shape[0] != len(wants):
        ctx.fail(f'{w}: result has shape {getattr(imgs, "shape", None)} for {len(wants)} braids')
    for i, want in enumerate(wants):
        same(ctx, imgs[i], want, lambda: f'{w}: entry {i}')


def image(kind, n, r, p, b):
    return Q.nf_image(kind, n, r, p, *b)


# ------------------------------------------------------------------ generators and simple elements
def run_gens(ctx, chunk):
    n, r = chunk
    for p in PRIMES:
        rep, js = cell(n, r, p), summand(n, r, p)
        d = len(Q.basis(n, r))
        ctx.check(js.dimension() == d, f'dimension of {js!r} is {js.dimension()}')
        I = Q.tensor_of(RP.mat_id(d))
        same(ctx, rep.polymat_id(), I, f'polymat_id of {rep!r}')
        same(ctx, js.id(), I, f'id of {js!r}')
        for name, (gens, invs), exact in (('polymat_artin_gens_invs', rep.polymat_artin_gens_invs(), True),
                                          ('JonesSummand.artin_gens_invs', js.artin_gens_invs(), False)):
            for A, e in ((gens, 1), (invs, -1)):
                ctx.check(A.ndim == 4 and A.shape[:3] == (n - 1, d, d), f'{name} of {rep!r} has shape {A.shape}')
                for i in range(n - 1):
                    want = Q.tensor_of(Q.start(n, r).letter(i, e).proj(p))
                    got = A[i]
                    if not exact and p:
                        got = np.array(Q.tensor_of(RP.mat_mod(Q.rows_from_tensor(got), p)))
                    same(ctx, got, want, f'{name} of {rep!r}: generator {i}^{e}')
                    ctx.state((n, r, p, i, e))
        ctx.trace()
    ctx.sample({'n': n, 'r': r})


def run_simple(ctx, chunk):
    kind, n, r, ps, lo, hi = chunk
    S = simples(kind, n)
    for p in ps:
        rep, js = cell(n, r, p), summand(n, r, p)
        table = braidsearch.symmetric_table(js) if kind == 'GNF' else None
        if table is not None:
            ctx.check(len(table) == len(S), f'symmetric_table of {js!r} has {len(table)} entries')
        for s in S[lo:hi]:
            want = Q.tensor_of(Q.image(n, r, R.factor_word(kind, s)).proj(p))
            f = factor_impl(kind, n, s)
            same(ctx, rep.polymat_evaluate(f), want, lambda: f'{rep!r}: polymat_evaluate({f!r})')
            if table is not None:
                same(ctx, table[f], want, lambda: f'symmetric_table of {js!r} at {f!r}')
            ctx.state((kind, n, r, p, s))
            ctx.trace()


# ------------------------------------------------------------------ single braids
def singles(ctx, kind, n, r, p, b):
    rep, js = cell(n, r, p), summand(n, r, p)
    want = image(kind, n, r, p, b)
    x = braid(kind, n, *b)
    same(ctx, rep.polymat_evaluate_braid(x), want, lambda: f'{rep!r}: polymat_evaluate_braid({x!r})')
    same(ctx, rep.polymat_evaluate(x), want, lambda: f'{rep!r}: polymat_evaluate({x!r})')
    batch(ctx, rep.polymat_evaluate_braids_of_same_length([x]), [want], lambda: f'{rep!r}: polymat_evaluate_braids_of_same_length([{x!r}])')
    if kind == 'GNF':
        same(ctx, braidsearch.evaluate_braid_factors(js, x), want, lambda: f'{js!r}: evaluate_braid_factors({x!r})')
        batch(ctx, braidsearch.evaluate_braids_of_same_length(js, [x]), [want], lambda: f'{js!r}: evaluate_braids_of_same_length([{x!r}])')
        got = braidsearch.evaluate_braids(js, [x])
        ctx.check(len(got) == 1, 'evaluate_braids of one braid')
        same(ctx, got[0], want, lambda: f'{js!r}: evaluate_braids([{x!r}])')


def run_singles(ctx, chunk):
    kind, n, r, p, L, powers, lo, hi = chunk
    for f in list(R.normal_forms(kind, n, L))[lo:hi]:
        for e in powers:
            singles(ctx, kind, n, r, p, (e, f))
            ctx.state((kind, n, r, p, e, f))
            ctx.trace()
    ctx.sample({'kind': kind, 'n': n, 'r': r, 'p': p, 'factors': f})


def run_words(ctx, chunk):
    n, r, L, exps, ps, lo, hi = chunk
    letters = [(i, e) for i in range(n - 1) for e in exps]
    base = Q.start(n, r, max(4, L * max(map(abs, exps))))
    w = []
    for idx in range(lo, hi):
        w, x = [], idx
        for _ in range(L):
            w.append(letters[x % len(letters)])
            x //= len(letters)
        rows = base.run(w).dicts()
        for p in ps:
            want = Q.tensor_of(RP.mat_proj(RP.mat_mod(rows, p)))
            same(ctx, cell(n, r, p).polymat_evaluate_artin_word(w), want, lambda: f'({n},{r}) mod {p}: polymat_evaluate_artin_word({w})')
        ctx.trace()
    ctx.fresh_states(hi - lo)


def run_exponents(ctx, chunk):
    """Words with great exponents."""
    n, r, es, ps = chunk
    for e in es:
        for i in range(n - 1):
            for w in ([(i, e)], [((i + 1) % (n - 1), 1), (i, e), (i, 2)], [(i, 1), ((i + 1) % (n - 1), e), (i, -1)]):
                x = Q.image(n, r, w).dicts()
                for p in ps:
                    want = Q.tensor_of(RP.mat_proj(RP.mat_mod(x, p)))
                    same(ctx, cell(n, r, p).polymat_evaluate_artin_word(w), want, lambda: f'({n},{r}) mod {p}: polymat_evaluate_artin_word({w})')
            ctx.n_states += 1
    ctx.trace()


# ------------------------------------------------------------------ batches
def pool(kind, n, L, powers, count):
    """A spread of normal forms of a length with varied powers."""
    fs = list(R.normal_forms(kind, n, L))
    step = max(1, len(fs) // count)
    fs = fs[::step][:count]
    return [(powers[i % len(powers)], f) for i, f in enumerate(fs)] + [(powers[(i + 1) % len(powers)], f) for i, f in enumerate(fs[:2])]


def same_length_routes(ctx, kind, n, r, p, bs):
    rep, js = cell(n, r, p), summand(n, r, p)
    xs = [braid(kind, n, *b) for b in bs]
    wants = [image(kind, n, r, p, b) for b in bs]
    what = lambda name: lambda: f'({n},{r}) mod {p}: {name}({xs!r})'
    batch(ctx, rep.polymat_evaluate_braids_of_same_length(xs), wants, what('polymat_evaluate_braids_of_same_length'))
    if kind == 'GNF':
        batch(ctx, braidsearch.evaluate_braids_of_same_length(js, xs), wants, what('evaluate_braids_of_same_length'))
        pre = braidsearch.evaluate_prefixes_of_same_length(js, xs)
        L = len(bs[0][1])
        ctx.check(len(pre) == L + 1, f'{len(pre)} prefixes of braids of length {L}')
        for k in range(L + 1):
            batch(ctx, pre[k], [image(kind, n, r, p, (e, f[:k])) for e, f in bs], what(f'prefix {k} of evaluate_prefixes_of_same_length'))
    ctx.state((kind, n, r, p, tuple(bs)))
    ctx.trace()


def run_batches(ctx, chunk):
    kind, n, r, p, L, powers, count, size, lo, hi = chunk
    P = pool(kind, n, L, powers, count)
    for bs in list(itertools.product(P, repeat=size))[lo:hi]:
        same_length_routes(ctx, kind, n, r, p, list(bs))
    ctx.sample({'kind': kind, 'n': n, 'r': r, 'p': p, 'batch': bs})


def run_bigbatch(ctx, chunk):
    kind, n, r, p, L, powers = chunk
    allb = [(e, f) for f in R.normal_forms(kind, n, L) for e in powers]
    same_length_routes(ctx, kind, n, r, p, allb)
    same_length_routes(ctx, kind, n, r, p, allb[::-1])
    same_length_routes(ctx, kind, n, r, p, allb[1::2] + allb[::2])


def run_mixed(ctx, chunk):
    """evaluate_braids on all ordered tuples from a pool of mixed lengths."""
    n, r, p, lengths, count, size, lo, hi = chunk
    js = summand(n, r, p)
    P = [b for L in lengths for b in pool('GNF', n, L, [0, -1, 3, 2, 1], count)]
    for bs in list(itertools.product(P, repeat=size))[lo:hi]:
        xs = [braid('GNF', n, *b) for b in bs]
        got = braidsearch.evaluate_braids(js, xs)
        ctx.check(len(got) == len(bs), f'{len(got)} images for {len(bs)} braids')
        for i, b in enumerate(bs):
            same(ctx, got[i], image('GNF', n, r, p, b), lambda: f'{js!r}: entry {i} of evaluate_braids({xs!r})')
        ctx.state((n, r, p, bs))
        ctx.trace()
    if lo == 0:
        ctx.check(len(braidsearch.evaluate_braids(js, [])) == 0, 'evaluate_braids of nothing')
        xs = [braid('GNF', n, *b) for b in P]
        for order in (P, P[::-1], P[::2] + P[1::2]):
            got = braidsearch.evaluate_braids(js, [braid('GNF', n, *b) for b in order])
            for i, b in enumerate(order):
                same(ctx, got[i], image('GNF', n, r, p, b), lambda: f'{js!r}: entry {i} of evaluate_braids of {order!r}')
            ctx.trace()


def run_longlist(ctx, chunk):
    """evaluate_braids on hundreds of braids of few lengths, sorted and interleaved."""
    n, r, p, sizes, order = chunk
    js = summand(n, r, p)
    groups = [[(k % 3 - 1, f) for k, f in enumerate(itertools.islice(R.normal_forms('GNF', n, L), size))] for L, size in sizes]
    ctx.check(all(len(g) == size for g, (_, size) in zip(groups, sizes)), f'not enough normal forms for {sizes}')
    if order == 'sorted':
        bs = [b for g in groups for b in g]
    elif order == 'reversed':
        bs = [b for g in groups for b in g][::-1]
    else:
        bs = [b for row in itertools.zip_longest(*groups) for b in row if b is not None]
    xs = [braid('GNF', n, *b) for b in bs]
    got = braidsearch.evaluate_braids(js, xs)
    ctx.check(len(got) == len(bs), f'{len(got)} images for {len(bs)} braids')
    wants = [image('GNF', n, r, p, b) for b in bs]
    for i, (b, want) in enumerate(zip(bs, wants)):
        same(ctx, got[i], want, lambda: f'{js!r}: entry {i} of evaluate_braids of {len(bs)} braids ({sizes}, {order}), the image of {xs[i]!r}')
    ctx.fresh_states(len(bs))
    frame_rows(ctx, js, bs, xs, got, wants)
    ctx.trace()


# ------------------------------------------------------------------ integer sequences
def factor_map(ctx, kind, n, r, p):
    """factor index -> word, resolving the trivial and Garside indices by their images."""
    cls = CLS[kind]
    S = simples(kind, n)
    words = {}
    rest = []
    for i in range(len(S)):
        try:
            b = cls(n, 0, (i,))
        except Exception:
            rest.append(i)
            continue
        words[i] = R.factor_word(kind, factor_ref(n, b.canonical_factor(0)))
    ctx.check(len(rest) == 2, f'{len(rest)} factor indices of {kind} on {n} strands are not proper simple elements')
    rep = cell(n, r, p)
    imgs = rep.polymat_evaluate_braid_integers_of_same_length(cls, [[i] for i in rest])
    I = Q.tensor_of(RP.mat_id(len(Q.basis(n, r))))
    gw = R.garside_word(kind, n)
    G = Q.tensor_of(Q.image(n, r, gw).proj(p))
    if Q.same_tensor(imgs[0], I) and Q.same_tensor(imgs[1], G):
        words[rest[0]], words[rest[1]] = [], gw
    elif Q.same_tensor(imgs[0], G) and Q.same_tensor(imgs[1], I):
        words[rest[0]], words[rest[1]] = gw, []
    else:
        ctx.fail(f'({n},{r}) mod {p}: images of the indices {rest} are not those of the trivial and Garside elements')
    return words


def run_integers(ctx, chunk):
    kind, n, r, p, L, size, lo, hi = chunk
    words = factor_map(ctx, kind, n, r, p)
    order = len(words)
    rep, cls = cell(n, r, p), CLS[kind]
    memo = {}

    def want(seq):
        if seq not in memo:
            w = [x for i in seq for x in words[i]]
            memo[seq] = Q.tensor_of(Q.image(n, r, w).proj(p))
        return memo[seq]
    seqs = list(itertools.product(range(order), repeat=L))
    part = seqs[lo:hi]
    for k in range(0, len(part), size):
        ss = part[k:k + size]
        got = rep.polymat_evaluate_braid_integers_of_same_length(cls, [list(s) for s in ss])
        batch(ctx, got, [want(s) for s in ss], lambda: f'({n},{r}) mod {p}: {kind} integer sequences {ss}')
        ctx.trace()
    if lo == 0:
        for s in ([[order]], [[0], [order]], [[-1]], [[0], [0, 0]]):
            ctx.raises(lambda: rep.polymat_evaluate_braid_integers_of_same_length(cls, s), f'{kind} integer sequences {s}')
    ctx.fresh_states(len(part))


# ------------------------------------------------------------------ products of images
def run_products(ctx, chunk):
    """mul of every pair of images, pairwise and broadcast over whole batches."""
    kind, n, r, p, L1, L2, count, powers = chunk
    rep, js = cell(n, r, p), summand(n, r, p)
    A, B = pool(kind, n, L1, powers, count), pool(kind, n, L2, powers[::-1], count)
    XA = [braid(kind, n, *b) for b in A]
    XB = [braid(kind, n, *b) for b in B]
    want = {}
    for i, a in enumerate(A):
        for j, b in enumerate(B):
            w = R.nf_word(kind, n, *a) + R.nf_word(kind, n, *b)
            want[i, j] = Q.tensor_of(Q.image(n, r, w).proj(p))
            if not Q.fits(want[i, j]):
                ctx.fail('pool too long')
    IA = rep.polymat_evaluate_braids_of_same_length(XA)
    IB = rep.polymat_evaluate_braids_of_same_length(XB)
    dt = js.dtype()
    for name, fn, IA, IB in (('polymat_mul', rep.polymat_mul, IA, IB), ('JonesSummand.mul', js.mul, IA.astype(dt), IB.astype(dt))):
        for i in range(len(A)):
            for j in range(len(B)):
                same(ctx, fn(IA[i], IB[j]), want[i, j], lambda: f'({n},{r}) mod {p}: {name} of the images of {A[i]} and {B[j]}')
        big = fn(IA[:, None, ...], IB[None, ...])
        ctx.check(big.shape[:2] == (len(A), len(B)), f'{name} broadcast to {big.shape}')
        for (i, j), w in want.items():
            same(ctx, big[i, j], w, lambda: f'({n},{r}) mod {p}: broadcast {name} of the images of {A[i]} and {B[j]}')
        one = fn(IA[0], IB)
        batch(ctx, one, [want[0, j] for j in range(len(B))], f'{name} of one image with a batch')
        ctx.trace()
    ctx.fresh_states(len(want))


# ------------------------------------------------------------------ long braids
def cycles(kind, n, plen):
    """All closed walks of a length in the normal form automaton, one per rotation class."""
    out, seen = [], set()
    for f in R.normal_forms(kind, n, plen):
        if plen > 1 and len(set(f)) == 1:
            continue
        if not R.is_normal_form(kind, n, f + f[:1]):
            continue
        if min(f[i:] + f[:i] for i in range(plen)) != f:
            continue
        out.append(f)
    return out


def run_long(ctx, chunk):
    """Periodic normal forms of great length, all prefixes; then products of two long images."""
    kind, n, r, p, plen, total, lo, hi = chunk
    rep, js = cell(n, r, p), summand(n, r, p)
    cyc = cycles(kind, n, plen)[lo:hi]
    if not cyc:
        return
    for power in (0, 1):
        nfs = [(power, (c * total)[:total]) for c in cyc]
        ok = []
        for b in nfs:
            L = total
            while p == 0 and L > 0 and not all(Q.fits(image(kind, n, r, p, (b[0], b[1][:k]))) for k in range(L, 0, -6)):
                L -= 6
            ok.append(L)
        L = min(ok)
        bs = [(e, f[:L]) for e, f in nfs]
        xs = [CLS[kind](n, 0, braid(kind, n, 0, c).factors * (total // plen + 1)) for c in cyc]
        xs = [garside(kind, n) ** power * x.substring(0, L) for x in xs]
        for x, b in zip(xs, bs):
            ctx.check(read(x) == b, f'{x!r} is not {b}')
        wants = [image(kind, n, r, p, b) for b in bs]
        imgs = rep.polymat_evaluate_braids_of_same_length(xs)
        batch(ctx, imgs, wants, lambda: f'{rep!r}: polymat_evaluate_braids_of_same_length of {bs}')
        if kind == 'GNF':
            pre = braidsearch.evaluate_prefixes_of_same_length(js, xs)
            for k in range(L + 1):
                batch(ctx, pre[k], [image(kind, n, r, p, (e, f[:k])) for e, f in bs], lambda: f'{js!r}: prefix {k} of {bs}')
        if p:
            # two long images: the product of the two braids
            for i in range(len(bs)):
                for j in (i, (i + 1) % len(bs)):
                    w = R.nf_word(kind, n, *bs[i]) + R.nf_word(kind, n, *bs[j])
                    want = Q.tensor_of(Q.image(n, r, w).proj(p))
                    same(ctx, rep.polymat_mul(imgs[i], imgs[j]), want, lambda: f'{rep!r}: product of the images of {bs[i]} and {bs[j]}')
                    dt = js.dtype()
                    same(ctx, js.mul(imgs[i].astype(dt), imgs[j].astype(dt)), want, lambda: f'{js!r}: product of the images of {bs[i]} and {bs[j]}')
        for b in bs:
            ctx.state((kind, n, r, p, b))
        ctx.trace(len(bs))


MODULI = [2, 3, 5, 7, 11, 13, 17, 29, 31, 37, 61, 67, 83, 89, 97, 113, 127, 131, 151, 179, 181, 191, 211, 241, 251, 257, 359, 367, 509, 521, 727, 1021, 1031, 1447, 1451, 2039, 2053, 2887, 2897, 4093, 4099, 5791, 5801, 8179, 8191]


def run_moduli(ctx, chunk):
    """Long words and normal forms modulo primes around every power of two and every root of one, through all routes."""
    n, r, p, lo, hi, total = chunk
    run_long(ctx, ['GNF', n, r, p, 1, total, 0, 10 ** 6])
    run_long(ctx, ['DGNF', n, r, p, 1, total, 0, 10 ** 6])
    rep, js = cell(n, r, p), summand(n, r, p)
    for u in list(itertools.product([(i, e) for i in range(n - 1) for e in (1, -1)], repeat=2))[lo:hi] + [((0, 1), (n - 2, -1), (0, 1)), ((0, -1), (n - 2, -1), (0, 1), (n - 2, 2))]:
        base = Q.start(n, r, 2 * total)
        w = (list(u) * total)[:total]
        x = base
        for k, l in enumerate(w):
            x = x.run([l])
            if k + 1 in (3, total // 2, total - 1, total):
                want = Q.tensor_of(RP.mat_proj(RP.mat_mod(x.dicts(), p)))
                same(ctx, rep.polymat_evaluate_artin_word(w[:k + 1]), want, lambda: f'{rep!r}: polymat_evaluate_artin_word({w[:k + 1]})')
                b = GNF.from_artin_word(n, w[:k + 1])
                singles_want(ctx, n, r, p, b, want)
                d = DGNF.from_artin_word(n, w[:k + 1])
                same(ctx, rep.polymat_evaluate_braid(d), want, lambda: f'{rep!r}: polymat_evaluate_braid({d!r})')
        ctx.trace()
    ctx.fresh_states(1)


def run_long_factors(ctx, chunk):
    """Products of two dense images in great dimension: entries are sums of very many products of residues."""
    n, r, ps, totals = chunk
    for p in ps:
        for total in totals:
            long_factors(ctx, n, r, p, total)
    ctx.sample({'n': n, 'r': r, 'p': ps, 'letters': totals})


def long_factors(ctx, n, r, p, total):
    rep, js = cell(n, r, p), summand(n, r, p)
    words = [tuple((tuple(((s + i) % (n - 1), e if (s + i) % 2 else -e) for i in range(n - 1))) * total)[:total] for s in range(n - 1) for e in (1, -1)]
    words += [tuple((tuple((i, e) for i in range(n - 1)) * total)[:total]) for e in (1, -1)]
    imgs = [rep.polymat_evaluate_artin_word(w) for w in words]
    dt = js.dtype()
    for w, got in zip(words, imgs):
        want = Q.tensor_of(Q.image(n, r, w).proj(p))
        same(ctx, got, want, lambda: f'{rep!r}: image of {w}')
        if n < 7:       # the tables of S7 are refused by the library
            same(ctx, rep.polymat_evaluate_braid(GNF.from_artin_word(n, w)), want, lambda: f'{rep!r}: normal form of {w}')
            same(ctx, braidsearch.evaluate_braid_factors(js, GNF.from_artin_word(n, w)), want, lambda: f'{js!r}: image of {w}')
        ctx.fresh_states(1)
    pairs = [(i, j) for i in range(len(words)) for j in range(len(words)) if j in (i, (i + 1) % len(words))]
    for i, j in pairs:
        want = Q.tensor_of(Q.image(n, r, words[i] + words[j]).proj(p))
        same(ctx, rep.polymat_mul(imgs[i], imgs[j]), want, lambda: f'{rep!r}: product of the images of {words[i]} and {words[j]}')
        same(ctx, js.mul(imgs[i].astype(dt), imgs[j].astype(dt)), want, lambda: f'{js!r}: product of the images of {words[i]} and {words[j]}')
        ctx.trace()


def singles_want(ctx, n, r, p, x, want):
    rep, js = cell(n, r, p), summand(n, r, p)
    same(ctx, rep.polymat_evaluate_braid(x), want, lambda: f'{rep!r}: polymat_evaluate_braid({x!r})')
    batch(ctx, rep.polymat_evaluate_braids_of_same_length([x]), [want], lambda: f'{rep!r}: polymat_evaluate_braids_of_same_length([{x!r}])')
    same(ctx, braidsearch.evaluate_braid_factors(js, x), want, lambda: f'{js!r}: evaluate_braid_factors({x!r})')
    batch(ctx, braidsearch.evaluate_braids_of_same_length(js, [x]), [want], lambda: f'{js!r}: evaluate_braids_of_same_length([{x!r}])')
    got = braidsearch.evaluate_braids(js, [x])
    same(ctx, got[0], want, lambda: f'{js!r}: evaluate_braids([{x!r}])')


def run_crowd(ctx, chunk):
    """Batches of many braids: sizes around every power of two."""
    kind, n, r, p, L, sizes = chunk
    rep, js = cell(n, r, p), summand(n, r, p)
    allb = [(i % 5 - 1, f) for i, f in enumerate(R.normal_forms(kind, n, L))]
    xs = [braid(kind, n, *b) for b in allb]
    wants = [image(kind, n, r, p, b) for b in allb]
    for size in sizes:
        for at in sorted({0, len(xs) - size}):
            if at < 0:
                raise AssertionError('internal: pool too small')
            X, W = xs[at:at + size], wants[at:at + size]
            batch(ctx, rep.polymat_evaluate_braids_of_same_length(X), W, f'{rep!r}: polymat_evaluate_braids_of_same_length of {size} braids')
            if kind == 'GNF':
                batch(ctx, braidsearch.evaluate_braids_of_same_length(js, X), W, f'{js!r}: evaluate_braids_of_same_length of {size} braids')
                batch(ctx, braidsearch.evaluate_prefixes_of_same_length(js, X)[-1], W, f'{js!r}: last prefixes of {size} braids')
                got = braidsearch.evaluate_braids(js, X)
                ctx.check(len(got) == size, f'{len(got)} images of {size} braids')
                for i in range(size):
                    same(ctx, got[i], W[i], lambda: f'{js!r}: entry {i} of evaluate_braids of {size} braids')
            ctx.trace()
        ctx.fresh_states(1)


# ------------------------------------------------------------------ sampling and tables
def run_samples(ctx, chunk):
    n, r, p, mode, args = chunk
    js = summand(n, r, p)
    import random

    def fn(rng):
        if mode == 'one':
            return braidsearch.sample_braids_images(js, length=args[0], count=args[1], rand=rng)
        return braidsearch.sample_braids_images_upto_length(js, from_length=args[0], upto_length=args[1], count=args[2], rand=rng)

    def judge(res):
        braids, images = res
        lens = [args[0]] * args[1] if mode == 'one' else [l for l in range(args[0], args[1] + 1) for _ in range(args[2])]
        ctx.check([b.garside_length() for b in braids] == lens and all(b.inf() == 0 for b in braids),
                  f'sampled {braids!r}, asked for lengths {lens}')
        batch(ctx, images, [image('GNF', n, r, p, read(b)) for b in braids], lambda: f'{js!r}: images of the sample {braids!r}')
        ctx.state((n, r, p, tuple(read(b) for b in braids)))
        ctx.trace()
    if mode == 'one' and n == 3 and args[0] <= 2:
        for res, prob, script in explore(fn, limit=100000):
            judge(res)
    for seed in range(20):
        judge(fn(random.Random(seed)))
    judge(fn(None))


def frame_rows(ctx, js, bs, xs, arg, wants):
    """The statistics table of braids and images, row by row."""
    df = braidsearch.braids_images_to_dataframe(xs, arg)
    ctx.check(len(df) == len(xs), 'number of rows')
    for i, (b, want, row) in enumerate(zip(bs, wants, df.to_dict('records'))):
        L, D = len(b[1]), want.shape[-1]
        w = {'length': L, 'nz_terms': int(np.count_nonzero(want)), 'degmax': D - 1, 'valmin': 0, 'rhogap': (D - 1) / 2}
        ctx.check(row['braid'] == xs[i], f'row {i} is about {row["braid"]!r}, should be {xs[i]!r}')
        same(ctx, row['image'], want, f'image in row {i}')
        for k, v in w.items():
            ctx.check(row[k] == v, lambda: f'{k} of {xs[i]!r} in {js!r} is {row[k]}, should be {v}')
        if L:
            ctx.check(abs(row['rhogap/length'] - (D - 1) / 2 / L) < 1e-12, f'rhogap/length of {xs[i]!r} is {row["rhogap/length"]}')


def run_frame_mixed(ctx, chunk):
    """The statistics table of lists of braids of different lengths: all ordered tuples from a pool."""
    n, r, p, lengths, count, size = chunk
    js = summand(n, r, p)
    P = [b for L in lengths for b in pool('GNF', n, L, [0, 1, -1], count)]
    for bs in list(itertools.product(P, repeat=size)) + [tuple(P), tuple(P[::-1]), tuple(P[::2] + P[1::2])]:
        xs = [braid('GNF', n, *b) for b in bs]
        frame_rows(ctx, js, bs, xs, braidsearch.evaluate_braids(js, xs), [image('GNF', n, r, p, b) for b in bs])
        ctx.trace()
        ctx.state((n, r, p, bs))


def run_frame(ctx, chunk):
    """braids_images_to_dataframe against reference statistics, arrays and lists."""
    n, r, p, L, lo, hi = chunk
    js = summand(n, r, p)
    bs = [(e, f) for e in (0, 1) for f in list(R.normal_forms('GNF', n, L))[lo:hi]]
    for sub in (bs, bs[::-1], bs[:1]):
        xs = [braid('GNF', n, *b) for b in sub]
        imgs = braidsearch.evaluate_braids_of_same_length(js, xs)
        for arg in (imgs, [imgs[i] for i in range(len(xs))], braidsearch.evaluate_braids(js, xs)):
            frame_rows(ctx, js, sub, xs, arg, [image('GNF', n, r, p, b) for b in sub])
        ctx.trace()
    if lo == 0:
        ctx.raises(lambda: braidsearch.braids_images_to_dataframe(xs + xs, imgs), 'more braids than images')
        ctx.raises(lambda: braidsearch.braids_images_to_dataframe(xs, 'images'), 'images of unknown type')
    ctx.fresh_states(len(bs))


LKBS = [((1, 1), (1, 1)), ((1, 1), (-1, 3)), ((-1, -1), (1, 2)), ((1, -2), (-1, -1)), ((-1, 2), (-1, 0)), ((1, 0), (1, 1))]


def run_lkb(ctx, chunk):
    """The packed routes of the Lawrence-Krammer-Bigelow representation against exact products of its own generators (which C14 decides)."""
    what, n, p, q, t, arg, lo, hi = chunk
    rep, d, gens, invs = c14.lkb_mats(ctx, n, p, tuple(q), tuple(t))
    name = f'LKB n={n} p={p} q={q} t={t}'
    proj = lambda M: Q.tensor_of(RP.mat_proj(RP.mat_mod(M, p)))
    img = lambda w: c14.lkb_word(gens, invs, d, w, p)
    memo = {}

    def nf(kind, power, factors):
        k = kind, power, factors
        if k not in memo:
            memo[k] = RP.mat_mod(RP.mat_mul(nf(kind, power, factors[:-1]), img(R.factor_word(kind, factors[-1]))), p) if factors else img(R.pow_word(R.garside_word(kind, n), power))
        return memo[k]
    if what == 'gens':
        same(ctx, rep.polymat_id(), Q.tensor_of(RP.mat_id(d)), f'{name}: polymat_id')
        for A, e in zip(rep.polymat_artin_gens_invs(), (1, -1)):
            ctx.check(A.ndim == 4 and A.shape[:3] == (n - 1, d, d), f'{name}: generators have shape {A.shape}')
            for i in range(n - 1):
                same(ctx, A[i], proj(img([(i, e)])), f'{name}: generator {i}^{e}')
                same(ctx, rep.polymat_evaluate_artin_word([(i, e)]), proj(img([(i, e)])), f'{name}: the word of generator {i}^{e}')
        for kind in ('GNF', 'DGNF'):
            for s in simples(kind, n)[:60]:
                f = factor_impl(kind, n, s)
                same(ctx, rep.polymat_evaluate(f), proj(img(R.factor_word(kind, s))), lambda: f'{name}: polymat_evaluate({f!r})')
                ctx.state((name, kind, s))
        for w in arg:
            w = [tuple(x) for x in w]
            same(ctx, rep.polymat_evaluate_artin_word(w), proj(img(w)), lambda: f'{name}: polymat_evaluate_artin_word({w})')
            for i in range(n - 1):
                A, B = rep.polymat_evaluate_artin_word(w), rep.polymat_artin_gens_invs()[1][i]
                same(ctx, rep.polymat_mul(A, B), proj(img(w + [(i, -1)])), lambda: f'{name}: polymat_mul of the image of {w} with the inverse of generator {i}')
            ctx.state((name, tuple(w)))
    else:
        kind, L, powers = arg
        bs = [(e, f) for f in list(R.normal_forms(kind, n, L))[lo:hi] for e in powers]
        xs = [braid(kind, n, *b) for b in bs]
        wants = [proj(nf(kind, *b)) for b in bs]
        batch(ctx, rep.polymat_evaluate_braids_of_same_length(xs), wants, f'{name}: a batch of {len(xs)} {kind} of length {L}')
        batch(ctx, rep.polymat_evaluate_braids_of_same_length(xs[::-3]), wants[::-3], f'{name}: a batch of {kind} of length {L}')
        for x, want in zip(xs, wants):
            same(ctx, rep.polymat_evaluate_braid(x), want, lambda: f'{name}: polymat_evaluate_braid({x!r})')
            same(ctx, rep.polymat_evaluate(x), want, lambda: f'{name}: polymat_evaluate({x!r})')
            ctx.state((name, kind, x))
        for i in range(0, len(xs) - 1):
            batch(ctx, rep.polymat_evaluate_braids_of_same_length([xs[i], xs[-1 - i]]), [wants[i], wants[-1 - i]], lambda: f'{name}: the batch {[xs[i], xs[-1 - i]]!r}')
    ctx.trace()


def families(tier):
    q = tier == 'quick'
    F = [Family('generators', [[n, r] for n in range(2, 8 if q else 9) for r in labels(n)], run_gens, 'generators, identity, dimension')]
    ch = []
    for kind, ns in (('GNF', range(2, 6 if q else 7)), ('DGNF', range(2, 7))):
        for n in ns:
            for r in labels(n):
                ps = PRIMES if n <= 4 else [0, 2, 5]
                if n == 6:
                    ps = [3]
                ch += [[kind, n, r, ps, lo, hi] for lo, hi in slices(len(simples(kind, n)), 40)]
    F.append(Family('simple_elements', ch, run_simple, 'every permutation and noncrossing partition'))
    ch = []
    plan = [('GNF', 2, 3, range(-3, 4), PRIMES), ('DGNF', 2, 0, range(-3, 4), PRIMES), ('GNF', 3, 0, range(-4, 5), PRIMES), ('DGNF', 3, 0, range(-7, 8), PRIMES), ('DGNF', 4, 0, range(-9, 10), PRIMES),
            ('DGNF', 5, 0, range(-11, 12), PRIMES), ('GNF', 4, 0, range(-3, 4), PRIMES), ('GNF', 5, 0, range(-3, 4), PRIMES), ('DGNF', 6, 0, range(0, 7), [2, 5, 8191]),
            ('GNF', 3, 1, range(-3, 4), PRIMES), ('DGNF', 3, 1, range(-4, 5), PRIMES), ('GNF', 3, 3, [0, -1], [0, 2, 3]), ('DGNF', 3, 3, [0, -2], [0, 2, 3]),
            ('GNF', 4, 1, range(-2, 3), PRIMES), ('DGNF', 4, 1, range(-5, 5), PRIMES), ('DGNF', 4, 2, [0, -1], [0, 2, 3]), ('GNF', 4, 2, [-1], [2]), ('DGNF', 5, 1, [-3, 0, 1, 2, 4], [0, 2, 3]), ('GNF', 5, 1, [1], [2, 3])]
    if not q:
        plan += [('GNF', 3, 6, [0, 1], [0, 2, 3, 5]), ('DGNF', 3, 6, [0, 1], [0, 2, 3]), ('GNF', 4, 2, [0, 1], [0, 2, 3, 8191]), ('DGNF', 4, 4, [0, -1], [0, 2, 3]), ('GNF', 5, 1, [0, -1], [0, 2, 8191]),
                 ('DGNF', 5, 2, [0, 1], [0, 2]), ('DGNF', 6, 1, [0, 1], [0, 2])]
    for kind, n, L, powers, ps in plan:
        m = R.count_normal_forms(kind, n, L)
        for r in labels(n):
            for p in ps:
                ch += [[kind, n, r, p, L, list(powers), lo, hi] for lo, hi in slices(m, 200)]
    F.append(Family('single_braids', ch, run_singles, 'all normal forms of a length with all small powers, every single-braid route'))
    ch = []
    for n, L, ex, ps in [(2, 4, [1, -1, 2, -3, 0], PRIMES), (3, 5, [1, -1], [0, 2, 3, 8191]), (3, 3, [-3, -2, 0, 1, 2, 3], [0, 2, 5]), (4, 4, [1, -1], [0, 3]), (5, 3, [1, -1], [2]), (6, 2, [1, -2], [0, 2])] + (
            [] if q else [(3, 8, [1, -1], [0, 2, 3]), (4, 5, [1, -1], [0, 2]), (5, 4, [1, -1], [0, 2])]):
        for r in labels(n):
            for l in range(L + 1):
                ch += [[n, r, l, ex, ps, lo, hi] for lo, hi in slices(((n - 1) * len(ex)) ** l, 400)]
    F.append(Family('artin_words', ch, run_words, 'polymat_evaluate_artin_word on all words'))
    ES = (5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129) + (() if q else (255, 256, 257, 511, 513, 1000))
    F.append(Family('exponents', [[n, r, [e, -e], ps] for n, top, ps in ((2, 2000, [0, 2, 8191]), (3, 300, [0, 2, 8191]), (4, 70, [0, 3]), (5, 17, [2])) for r in labels(n) for e in ES if e < top], run_exponents, 'polymat_evaluate_artin_word on words with great exponents'))
    ch = []
    for kind, n, rs, ps, L, powers, count, size in [
            ('GNF', 3, [1], [0, 2, 3], 3, [0, -1, 2, 1, 5], 6, 2), ('GNF', 4, [1, 2], [0, 2, 5], 2, [0, -1, 2, 1, 5], 6, 2), ('GNF', 4, [1], [2, 3], 3, [0, 1], 3, 3), ('GNF', 4, [0, 1], [2], 0, range(-2, 3), 1, 3),
            ('GNF', 5, [1, 2], [3], 2, [0, 1], 5, 2), ('DGNF', 3, [1], [0, 2, 3], 3, [0, -1, 2, 1, 5], 6, 2), ('DGNF', 4, [1, 2], [0, 2, 5], 3, [0, -1, 2, 1, 7], 6, 2), ('DGNF', 4, [1], [2], 4, [0, 1, 3], 3, 3),
            ('DGNF', 5, [1, 2], [3], 2, [0, 1, 6, -2], 5, 2)] + ([] if q else [
                ('GNF', 3, [1], [0, 2, 3], 4, [0, 1], 4, 4), ('GNF', 4, [1, 2], [0, 2, 3], 3, [0, 1, -1], 9, 2), ('DGNF', 4, [1, 2], [0, 2, 3], 4, [0, 1, -1, 2], 9, 2), ('GNF', 4, [1], [2], 5, [0, 1], 4, 3)]):
        m = len(pool(kind, n, L, list(powers), count)) ** size
        for r in rs:
            for p in ps:
                ch += [[kind, n, r, p, L, list(powers), count, size, lo, hi] for lo, hi in slices(m, 150)]
    F.append(Family('batches', ch, run_batches, 'all ordered same-length batches from a pool; prefixes'))
    ch = [[k, n, r, p, L, pw] for k, n, L, pw in [('GNF', 3, 4, [0, 1]), ('GNF', 4, 2, [0, 1]), ('DGNF', 3, 4, [0, 1, 2]), ('DGNF', 4, 3, [0, 1, 2, 3]), ('DGNF', 5, 1, [0, 1, 2, 3, 4]), ('GNF', 5, 1, [0, -1])]
          for r in labels(n) for p in ([0, 2, 3, 8191] if n <= 4 else [2])]
    ch += [['GNF', 6, 1, 2, 1, [0]], ['DGNF', 7, 1, 2, 1, [0, 3]]]
    F.append(Family('whole_batches', ch, run_bigbatch, 'every normal form of a length in one batch, in three orders'))
    ch = []
    for n, r, ps, lengths, count, size in [(3, 1, [0, 2, 3], [0, 1, 2, 3], 2, 2), (3, 1, [2], [0, 1, 3], 1, 3), (4, 1, [0, 2], [0, 1, 2], 3, 2), (4, 2, [3], [0, 1, 2], 2, 2), (4, 1, [5], [0, 1, 2, 3], 1, 3)]:
        m = sum(len(pool('GNF', n, L, [0, -1, 3, 2, 1], count)) for L in lengths) ** size
        for p in ps:
            ch += [[n, r, p, lengths, count, size, lo, hi] for lo, hi in slices(m, 250)]
    F.append(Family('mixed_lengths', ch, run_mixed, 'evaluate_braids on all ordered tuples from a pool of mixed lengths'))
    ch = []
    for order in ('sorted', 'reversed', 'interleaved'):
        for size in (63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512) + (() if q else (513, 999, 1000, 1001, 1023, 1024)):
            ch.append([3, 1, (2, 3, 5, 0)[size % 4] if size < 400 else 5, [(10, size), (8, 40), (0, 1)], order])
        ch += [[4, 1, 3, [(2, 120), (1, 22), (3, 300)], order], [4, 2, 5, [(3, 257), (2, 129)], order], [3, 1, 7, [(L, 2 ** L) for L in range(1, 9)], order]]
    F.append(Family('long_lists', ch, run_longlist, 'evaluate_braids and its statistics table on lists of hundreds of braids of few lengths'))
    ch = [['GNF', 6, 1, 2, 1, 1000, 0, 1000], ['GNF', 6, 0, 3, 1, 100, 0, 1000], ['DGNF', 6, 2, 3, 1, 1000, 0, 1000], ['DGNF', 7, 1, 2, 1, 400, 0, 1000], ['DGNF', 7, 0, 2, 1, 1000, 0, 1000]]
    for kind, n, L, ps, size in [('GNF', 2, 4, PRIMES, 7), ('GNF', 3, 3, PRIMES, 9), ('GNF', 4, 1, PRIMES, 1), ('GNF', 4, 2, [0, 2], 36), ('GNF', 5, 1, [3], 13), ('DGNF', 3, 3, PRIMES, 9), ('DGNF', 4, 2, [0, 2, 5], 13),
                                 ('DGNF', 5, 1, [0, 3], 5), ('DGNF', 5, 2, [2], 42), ('GNF', 3, 0, PRIMES, 1), ('DGNF', 4, 0, PRIMES, 1)] + ([] if q else [('GNF', 3, 5, [0, 2], 31), ('DGNF', 4, 3, [0, 2], 31), ('GNF', 4, 3, [2], 50)]):
        m = len(simples(kind, n)) ** L
        for r in labels(n):
            for p in ps:
                ch += [[kind, n, r, p, L, size, lo, hi] for lo, hi in slices(m, 600)]
    F.append(Family('integer_sequences', ch, run_integers, 'polymat_evaluate_braid_integers_of_same_length on all sequences'))
    ch = [[k, n, r, p, a, b, 5, [0, 1, 3]] for k in ('GNF', 'DGNF') for n, a, b in [(3, 4, 4), (3, 1, 5), (4, 2, 2), (4, 3, 0), (5, 1, 1)] + ([] if q else [(4, 5, 5), (5, 2, 2), (3, 9, 9)])
          for r in labels(n) for p in ([0, 2, 3, 8191] if n <= 4 else [0, 2, 8191])]
    F.append(Family('products', ch, run_products, 'products of images, one by one and broadcast'))
    ch = []
    for kind, n, rs, ps, plen, total in [('GNF', 3, [1], [0, 2, 3, 8179, 8191], 1, 60), ('GNF', 3, [1], [0, 2, 3, 8191], 2, 60), ('GNF', 3, [1], [2, 8191], 3, 48), ('GNF', 4, [1, 2], [0, 2, 8191], 1, 60), ('GNF', 4, [1], [8191], 2, 42),
                                         ('GNF', 4, [2], [8191, 8179], 2, 30), ('DGNF', 3, [1], [0, 2, 3, 8191], 1, 60), ('DGNF', 3, [1], [0, 2, 8191], 2, 60), ('DGNF', 4, [1, 2], [0, 2, 8191], 1, 60), ('DGNF', 4, [1], [8191], 2, 48),
                                         ('DGNF', 5, [2], [8191], 1, 40), ('GNF', 5, [2], [8191], 1, 24)] + ([] if q else [
                                             ('GNF', 4, [1, 2], [8191, 2], 2, 80), ('GNF', 5, [1, 2], [8191], 1, 60), ('DGNF', 4, [1, 2], [8191, 3], 3, 60), ('DGNF', 5, [1, 2], [8191], 1, 80), ('GNF', 3, [1], [8191, 0], 4, 80)]):
        m = len(cycles(kind, n, plen))
        for r in rs:
            for p in ps:
                ch += [[kind, n, r, p, plen, total, lo, hi] for lo, hi in slices(m, 12)]
    for kind, n, r, p, total in [('GNF', 3, 1, 2, 130), ('GNF', 3, 1, 8191, 130), ('DGNF', 3, 1, 2, 130), ('DGNF', 3, 1, 8191, 130), ('GNF', 4, 2, 3, 66), ('DGNF', 4, 2, 8191, 66), ('GNF', 3, 0, 0, 260), ('DGNF', 4, 0, 0, 260), ('GNF', 2, 1, 2, 10)] + \
            ([] if q else [('GNF', 3, 1, 2, 260), ('DGNF', 3, 1, 5, 260), ('GNF', 4, 1, 8191, 130), ('DGNF', 5, 2, 2, 130)]):
        m = len(cycles(kind, n, 1))
        ch += [[kind, n, r, p, 1, total, lo, hi] for lo, hi in slices(m, 3)]
    F.append(Family('long_braids', ch, run_long, 'every periodic normal form of small period, to great length: prefixes and products'))
    ch = [[3, 1, p, 0, 8, 20] for p in MODULI] + [[4, 1, p, 3, 5, 14] for p in MODULI[::2]] + [[4, 2, p, 9, 12, 14] for p in MODULI[1::4]] + [[5, 2, p, 3, 4, 8] for p in MODULI[3::8]]
    if not q:
        ch += [[3, 1, p, 0, 16, 40] for p in MODULI] + [[4, 2, p, 0, 36, 20] for p in MODULI] + [[5, 1, p, 0, 20, 20] for p in MODULI]
    F.append(Family('moduli', ch, run_moduli, 'long words and normal forms modulo primes around every power of two, through all routes'))
    ch = []
    for n, r, ps, totals in [(4, 2, [8191], [60, 120]), (5, 1, [8191, 8179], [40, 80, 160]), (5, 2, [8191, 4099], [20, 40, 80]), (6, 1, [8191], [32, 64]), (6, 2, [8191, 5801], [16, 20, 24, 32]), (6, 3, [8191], [24, 32]),
                             (7, 1, [8191], [40, 80]), (7, 2, [8191], [12, 14, 16, 18, 20, 24, 32]), (7, 3, [8191], [12, 14, 16, 20]), (8, 3, [8191], [6, 8, 10, 12]), (8, 4, [8191], [8, 12])] + \
            ([] if q else [(6, 2, [8179, 4099, 1447, 2897], [24, 32, 48, 96]), (6, 3, [5801, 8179], [24, 32, 48, 64, 96]), (7, 2, [8179, 5801], [24, 32, 48, 64]), (7, 3, [8191], [24, 32, 48]), (8, 3, [5801], [8, 12, 16, 20, 24])]):
        ch += [[n, r, [p], [t]] for p in ps for t in totals] if n != 6 else [[n, r, ps, totals]]      # the tables of S6 take their time
    F.append(Family('long_factors', ch, run_long_factors, 'products of two long dense images in the greatest dimensions'))
    sizes = [15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129]
    more = [255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]
    ch = [[k, 3, r, p, L, [x]] for k, L in (('GNF', 7), ('DGNF', 8)) for r in (0, 1) for p in (0, 2, 8191) for x in sizes] + \
         [[k, 3, 0, 2, 12, [x]] for k in ('GNF', 'DGNF') for x in more] + [[k, 4, 1, 3, L, [x]] for k, L in (('GNF', 2), ('DGNF', 4)) for x in sizes[::2]]
    F.append(Family('crowded_batches', ch, run_crowd, 'batches of sizes around every power of two'))
    ch = [[3, 1, 2, 'one', [1, 2]], [3, 1, 3, 'one', [2, 1]], [3, 1, 0, 'one', [2, 2]], [4, 1, 2, 'one', [3, 4]], [4, 2, 3, 'one', [5, 3]], [3, 1, 2, 'upto', [1, 4, 3]], [4, 1, 5, 'upto', [0, 3, 2]], [4, 2, 0, 'upto', [2, 2, 4]],
          [5, 2, 2, 'upto', [1, 3, 2]], [3, 1, 2, 'upto', [3, 2, 2]], [4, 1, 0, 'upto', [4, 2, 1]]]
    F.append(Family('samples', ch, run_samples, 'sampled braids come with their images; complete outcome trees for small lengths'))
    ch = []
    for n, L in [(3, 0), (3, 1), (3, 3), (4, 1), (4, 2)]:
        m = R.count_normal_forms('GNF', n, L)
        for r in labels(n):
            for p in [0, 2, 3]:
                ch += [[n, r, p, L, lo, hi] for lo, hi in slices(m, 80)]
    F.append(Family('dataframe', ch, run_frame, 'statistics table of braids and images'))
    F.append(Family('dataframe_mixed', [[n, r, p, ls, c, size] for n, r, p, ls, c, size in [(3, 1, 2, [0, 1, 3, 5], 2, 2), (3, 1, 0, [1, 2, 4], 1, 3), (4, 1, 3, [0, 1, 2, 3], 2, 2), (4, 2, 5, [2, 0, 1], 3, 2), (5, 2, 2, [0, 1, 2], 2, 2)]],
                    run_frame_mixed, 'statistics table of lists of braids of different lengths'))
    ch = []
    for n, ps in ((2, [0, 2, 5, 8191]), (3, [0, 2, 3, 8191]), (4, [0, 2, 8191]), (5, [0, 3])):
        letters = [(i, e) for i in range(n - 1) for e in (1, -1, 2, -3)]
        ws = [list(w) for L in range(3 if n < 5 else 2) for w in itertools.product(letters, repeat=L)] + [[((k * k) % (n - 1), (1, -1, 1, 1, -1)[(k * j) % 5]) for k in range(14 if n < 5 else 6)] for j in range(1, 4)]
        for p in ps:
            for j, (a, b) in enumerate(LKBS if n < 4 else LKBS[:3] if n == 4 else LKBS[1:2]):
                ch += [['gens', n, p, a, b, ws[k::4], 0, 0] for k in range(4)]
                for kind, L, powers in ((('GNF', 0, range(-4, 5)), ('DGNF', 0, range(-2 * n - 1, 2 * n + 2)), ('GNF', 1, (0, -1, 3)), ('DGNF', 1, (0, -1, n - 1, 2 * n + 1)), ('DGNF', 2, (0, -1))) + ((('GNF', 2, (0, -1, 2)), ('GNF', 3, (0, -3)), ('DGNF', 3, (0, -2))) if n < 4 else ())):
                    if n == 5:
                        powers = list(powers)[-2:]
                    if n < 5 or L < 2:
                        ch += [['nf', n, p, a, b, [kind, L, list(powers)], lo, hi] for lo, hi in slices(R.count_normal_forms(kind, n, L), 30 if n < 5 else 12)]
                if n < 4 and p in (0, 8191):
                    ch += [['nf', n, p, a, b, [kind, L, [-1, 2]], 0, 3] for kind in ('GNF', 'DGNF') if n > 2 for L in ((6, 12) if q else (6, 12, 24))]
    F.append(Family('lkb', ch, run_lkb, 'every packed route of the Lawrence-Krammer-Bigelow representation'))
    return F

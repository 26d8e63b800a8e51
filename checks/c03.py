"""C03: conversions between presentations."""
import itertools
import math

from peyl import BraidGroup, DGNF, GNF
from vlib import ref_braid as R
from vlib.core import Family, slices
from vlib.impl import CLS, NFJudge, lift_seq, read

PROPERTY = 'C03'
ASSUMPTIONS = ['the Dynnikov action is faithful (cross-checked in C01)']
BOUNDS = {'quick': 'n=2..6, infima -4..4, balls and all short normal forms', 'thorough': 'larger balls, longer normal forms'}

_B = {}


def ball(n, r):
    if (n, r) not in _B:
        _B[n, r] = R.cayley_ball(n, r)[0]
    return _B[n, r]


def check_letters(ctx, n, word, what):
    for l in word:
        ok = len(l) == 2 and 0 <= l[0] < n - 1 and isinstance(l[1], int)
        ctx.check(ok, f'{what}: letter {l} in artin word')


def convert_all(ctx, Js, n, b, k, what, deep=True):
    """Every conversion of b, which denotes the braid with key k."""
    J = Js[type(b).__name__]
    J.judge(b, k, what)
    cls = type(b)
    other = DGNF if cls is GNF else GNF
    w = b.artin_word()
    check_letters(ctx, n, w, what)
    ctx.check(R.key(n, w) == k, lambda: f'{what}: artin_word of {b!r} is {w}, a different braid')
    back = cls.from_artin_word(n, w)
    ctx.check(back == b and hash(back) == hash(b), lambda: f'{what}: {b!r} via its Artin word becomes {back!r}')
    m = b.magma_artin_word()
    ctx.check(all(isinstance(x, int) and 1 <= abs(x) <= n - 1 for x in m), lambda: f'{what}: magma word {m}')
    ctx.check(R.key(n, [(abs(x) - 1, 1 if x > 0 else -1) for x in m]) == k, lambda: f'{what}: magma word {m} of {b!r} is a different braid')
    c = b.to_DGNF() if cls is GNF else b.to_GNF()
    Js[other.__name__].judge(c, k, f'{what} converted to {other.__name__}')
    d = c.to_GNF() if cls is GNF else c.to_DGNF()
    ctx.check(type(d) is cls and d == b and hash(d) == hash(b), lambda: f'{what}: {b!r} converted to {c!r} and back is {d!r}')
    x = other.from_artin_word(n, w)
    ctx.check(x == c, lambda: f'{what}: the Artin word of {b!r} gives {x!r} in the other form, conversion gives {c!r}')
    g = b if cls is GNF else c
    power, factors = read(g)
    for pair in ((power, tuple(factors)), (power, [tuple(f) for f in factors])):
        h = BraidGroup(n).from_gnf_pair(pair)
        ctx.check(type(h) is GNF and h == g, lambda: f'{what}: from_gnf_pair({pair}) = {h!r}')
    ctx.step(7)
    ctx.trace()
    return c


def judges(ctx, n):
    return {'GNF': NFJudge(ctx, 'GNF', n), 'DGNF': NFJudge(ctx, 'DGNF', n)}


def run_ball(ctx, chunk):
    n, r, powers, lo, hi = chunk
    Js = judges(ctx, n)
    for k, word in ball(n, r)[lo:hi]:
        for kind in ('GNF', 'DGNF'):
            for p in powers:
                w = R.pow_word(R.garside_word(kind, n), p) + list(word)
                kk = R.key(n, w) if p else k
                b = CLS[kind].from_artin_word(n, w)
                c = convert_all(ctx, Js, n, b, kk, f'n={n} word {w}')
                if p == 0:
                    # inverses commute with conversion
                    bi, ci = b.inv(), c.inv()
                    e = bi.to_DGNF() if kind == 'GNF' else bi.to_GNF()
                    ctx.check(e == ci, lambda: f'n={n} word {w}: inverse then convert gives {e!r}, convert then inverse {ci!r}')
        ctx.outcome((n, read(CLS['GNF'].from_artin_word(n, list(word)))[0]))
    ctx.sample({'n': n, 'word': list(word), 'powers': powers})


def run_nfs(ctx, chunk):
    kind, n, length, powers, lo, hi = chunk
    Js = judges(ctx, n)
    for f in itertools.islice(R.normal_forms(kind, n, length), lo, hi):
        base = lift_seq(kind, n, f)
        for p in powers:
            b = CLS[kind](n, p, base.factors)
            convert_all(ctx, Js, n, b, R.key(n, R.nf_word(kind, n, p, f)), f'{kind} normal form ({p}; {f})')
        for J in Js.values():
            J.good.clear()
    ctx.sample({'kind': kind, 'n': n, 'factors': f, 'powers': powers})


LENGTHS = (16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129)


def run_long(ctx, chunk):
    """Long powers of short words, and great Garside powers, through every conversion."""
    n, ulen, lengths, lo, hi = chunk
    Js = judges(ctx, n)
    letters = [(i, e) for i in range(n - 1) for e in (1, -1)]
    for u in itertools.islice(itertools.product(letters, repeat=ulen), lo, hi):
        for k in lengths:
            w = (list(u) * k)[:k]
            kk = R.key(n, w)
            c = convert_all(ctx, Js, n, GNF.from_artin_word(n, w), kk, f'n={n} word {u} repeated to length {k}')
            convert_all(ctx, Js, n, DGNF.from_artin_word(n, w), kk, f'n={n} word {u} repeated to length {k}')
            b = GNF.from_artin_word(n, w)
            ctx.check(b.inv().to_DGNF() == c.inv() and c.inv().to_GNF() == b.inv(), lambda: f'n={n} word {u} repeated to length {k}: inverses')
            ctx.check((b * b).to_DGNF() == c * c and (c * c).to_GNF() == b * b, lambda: f'n={n} word {u} repeated to length {k}: squares')
            for J in Js.values():
                J.good.clear()
    ctx.sample({'n': n, 'period': u, 'lengths': list(lengths)})


def run_far(ctx, chunk):
    """Great Garside powers of both kinds."""
    n, ps = chunk
    Js = judges(ctx, n)
    for kind in CLS:
        gw = R.garside_word(kind, n)
        fs = [()] + list(R.normal_forms(kind, n, 1))[:6]
        for p in ps:
            for f in fs:
                b = CLS[kind](n, p, lift_seq(kind, n, f).factors)
                convert_all(ctx, Js, n, b, R.key(n, R.nf_word(kind, n, p, f)), f'{kind} normal form ({p}; {f})')
            for J in Js.values():
                J.good.clear()


FAR = (1000, 1001, 2 ** 15, 2 ** 16 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 2 ** 53 + 1, 2 ** 63, 2 ** 64 + 1, 10 ** 30, 10 ** 30 + 1)


def run_astronomical(ctx, chunk):
    """Astronomical Garside powers: the full twist is Delta^2 = delta^n in either form."""
    n, = chunk
    for kind, order in (('GNF', 2), ('DGNF', n)):
        other = 'DGNF' if kind == 'GNF' else 'GNF'
        oo = n if kind == 'GNF' else 2
        for f in [()] + list(R.normal_forms(kind, n, 1))[:5] + list(R.normal_forms(kind, n, 2))[:5]:
            base = lift_seq(kind, n, f)
            small = {q: read(CLS[kind](n, q, base.factors).to_DGNF() if kind == 'GNF' else CLS[kind](n, q, base.factors).to_GNF()) for q in range(order)}
            for P in FAR:
                for P in (P, -P):
                    b = CLS[kind](n, P, base.factors)
                    c = b.to_DGNF() if kind == 'GNF' else b.to_GNF()
                    q = P % order
                    want = (small[q][0] + (P - q) // order * oo, small[q][1])
                    ctx.check(type(c) is CLS[other] and read(c) == want, lambda: f'{kind} n={n} ({P}; {f}) converts to {c!r}, should be {want}')
                    d = c.to_GNF() if kind == 'GNF' else c.to_DGNF()
                    ctx.check(d == b, lambda: f'{kind} n={n} ({P}; {f}) converted twice is {d!r}')
                    if kind == 'GNF':
                        h = BraidGroup(n).from_gnf_pair((P, f))
                        ctx.check(h == b, lambda: f'from_gnf_pair({(P, f)}) = {h!r}')
                    ctx.step(3)
                    ctx.state((kind, n, P, f))
            ctx.trace()


def run_products(ctx, chunk):
    n, r, lo, hi = chunk
    els = ball(n, r)
    obj = {kind: [CLS[kind].from_artin_word(n, list(w)) for _, w in els] for kind in CLS}
    conv = {'GNF': [b.to_DGNF() for b in obj['GNF']], 'DGNF': [b.to_GNF() for b in obj['DGNF']]}
    for a in range(lo, hi):
        for b in range(len(els)):
            for kind in CLS:
                p = obj[kind][a] * obj[kind][b]
                c = p.to_DGNF() if kind == 'GNF' else p.to_GNF()
                want = conv[kind][a] * conv[kind][b]
                ctx.check(c == want, lambda: f'n={n}: converting the product of {obj[kind][a]!r} and {obj[kind][b]!r} gives {c!r}, '
                          f'multiplying the conversions gives {want!r}')
                ctx.step()
    ctx.fresh_states((hi - lo) * len(els))
    ctx.trace(hi - lo)


def run_pairs(ctx, chunk):
    """from_gnf_pair multiplies out any list of permutations, normal or not, the identity and the longest element included."""
    n, L, powers, lo, hi = chunk
    J = NFJudge(ctx, 'GNF', n)
    G = BraidGroup(n)
    for f in itertools.islice(itertools.product(R.perms(n), repeat=L), lo, hi):
        for p in powers:
            g = G.from_gnf_pair((p, f))
            ctx.check(type(g) is GNF, lambda: f'from_gnf_pair({(p, f)}) is {g!r}')
            J.judge(g, R.key(n, R.nf_word('GNF', n, p, f)), lambda: f'from_gnf_pair({(p, f)})')
            ctx.step()
        J.good.clear()
    ctx.trace()


def families(tier):
    q = tier == 'quick'
    F = []
    ch = []
    for n, r, P in [(2, 9, 4), (3, 7 if q else 10, 4), (4, 5 if q else 6, 4), (5, 3 if q else 5, 3), (6, 2 if q else 4, 2)]:
        powers = sorted(range(-P, P + 1), key=abs)
        ch += [[n, r, powers, lo, hi] for lo, hi in slices(len(ball(n, r)), 30)]
    F.append(Family('ball', ch, run_ball, 'every conversion of every ball element times every small Garside power'))
    ch = []
    for kind, n, L, P in [('GNF', 3, 6, 3), ('GNF', 4, 2, 3), ('GNF', 4, 3, 1), ('GNF', 5, 1, 3), ('GNF', 6, 1, 1), ('DGNF', 3, 7, 3), ('DGNF', 4, 3, 3),
                          ('DGNF', 5, 2, 3), ('DGNF', 6, 1, 5)] + \
            ([] if q else [('GNF', 4, 4, 1), ('GNF', 5, 2, 2), ('DGNF', 4, 5, 2), ('DGNF', 5, 3, 2), ('DGNF', 6, 2, 3)]):
        powers = sorted(range(-P, P + 1), key=abs)
        for l in range(0, L + 1):
            ch += [[kind, n, l, powers, lo, hi] for lo, hi in slices(R.count_normal_forms(kind, n, l), 200)]
    F.append(Family('normal_forms', ch, run_nfs, 'every conversion of every short normal form with every small power'))
    ch = []
    for n, ul, ls in [(2, 1, LENGTHS), (3, 1, LENGTHS + (257,)), (3, 2, LENGTHS), (3, 3, (33, 65)), (4, 1, LENGTHS), (4, 2, (17, 33, 65)), (5, 1, (33, 65)), (5, 2, (33,)), (6, 1, (33, 65))] \
            + ([] if q else [(3, 3, LENGTHS), (4, 2, LENGTHS), (4, 3, (33, 65)), (5, 2, (65,)), (6, 2, (65,))]):
        ch += [[n, ul, list(ls), lo, hi] for lo, hi in slices((2 * n - 2) ** ul, 4)]
    F.append(Family('long', ch, run_long, 'every conversion of long powers of short words'))
    P = [5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129]
    F.append(Family('far', [[n, [s * p]] for n in range(2, 7) for p in (P if n < 5 else P[1::5]) for s in (1, -1)], run_far, 'every conversion of great Garside powers'))
    F.append(Family('astronomical', [[n] for n in range(2, 7)], run_astronomical, 'conversions at astronomical Garside powers'))
    ch = []
    for n, r in [(2, 6), (3, 4 if q else 6), (4, 3 if q else 4), (5, 2 if q else 3), (6, 2)]:
        ch += [[n, r, lo, hi] for lo, hi in slices(len(ball(n, r)), 20)]
    F.append(Family('products', ch, run_products, 'conversion of products against product of conversions'))
    ch = []
    for n, L, powers in [(2, 5, [0, -3, 4]), (3, 1, [0, 1]), (3, 2, [0, -1, 2]), (3, 3, [0, 1, -3]), (4, 1, [0, 3]), (4, 2, [0, -1, 2]), (5, 1, [0, -1])] + ([(3, 4, [0]), (4, 3, [0]), (5, 2, [0])] if q else [(3, 5, [0, 1]), (4, 3, [0, 1]), (5, 2, [0, -1])]):
        m = math.factorial(n) ** L
        ch += [[n, L, powers, lo, hi] for lo, hi in slices(m, 500)]
    F.append(Family('gnf_pairs', ch, run_pairs, 'from_gnf_pair on every list of permutations'))
    return F


def prepare(tier):
    for n in range(2, 7):
        DGNF.from_artin_word(n, [(0, 1)] * 3).to_GNF()
        GNF.from_artin_word(n, [(0, 1)] * 3).to_DGNF()

"""C14: representations are homomorphisms with the right matrices."""
import itertools

from peyl import DGNF, GNF, BraidGroup, JonesCellRep, LPoly, Matrix
from peyl.jonesrep import LKBRep
from checks.braid_common import ball
from vlib import ref_braid as R
from vlib import ref_poly as RP
from vlib import ref_rep as Q
from vlib.core import Family, slices
from vlib.impl import CLS, factor_impl, lift_seq, simples

PROPERTY = 'C14'
ASSUMPTIONS = ['the order of a basis is the one tl.cell_basis lists']
PRIMES = [0, 2, 3, 5, 7, 13, 8191]

_REP = {}


def rep_of(n, r, p):
    if (n, r, p) not in _REP:
        _REP[n, r, p] = JonesCellRep(n, r, p)
    return _REP[n, r, p]


def labels(n):
    return range(n // 2 + 1)


def same(ctx, M, want, p, what, reduced=True):
    """Matrix M of the implementation is exactly `want` (rows of sparse polynomials)."""
    d = len(want)
    if not isinstance(M, Matrix) or (M.nrows, M.ncols) != (d, d):
        ctx.fail(f'{what() if callable(what) else what}: {M!r} is not a {d}x{d} matrix')
    got = RP.read_matrix(M)
    if got != want:
        ctx.fail(f'{what() if callable(what) else what} is\n{got}\nshould be\n{want}')
    ctx.transitions += 1


def run_gens(ctx, chunk):
    n, r = chunk
    for p in PRIMES:
        for rep in (JonesCellRep(n, r, p), rep_of(n, r, p)):
            B = Q.basis(n, r)
            ctx.check(rep.dimension() == len(B) == len(rep.tl_basis()), f'dimension of ({n},{r}) is {rep.dimension()}')
            same(ctx, rep.id(), RP.mat_id(len(B)), p, f'id of {rep!r}')
            gens, invs = rep.artin_gens_invs()
            gens, invs = list(gens), list(invs)
            ctx.check(len(gens) == len(invs) == n - 1, f'number of generators of {rep!r}')
            for i in range(n - 1):
                for M, e in ((gens[i], 1), (invs[i], -1)):
                    want = Q.start(n, r).letter(i, e).mod(p)
                    same(ctx, M, want, p, f'{rep!r}: image of generator {i}^{e}')
                    if r == 1:
                        bur = RP.mat_mod(Q.burau(n, i, e < 0), p)
                        # rename the cup basis
                        cup = [next(s for s in range(n - 1) if any({('t', s), ('t', s + 1)} == set(x) for x in b)) for b in B]
                        ctx.check(want == [[bur[cup[a]][cup[b]] for b in range(n - 1)] for a in range(n - 1)],
                                  f'Burau matrix of generator {i}^{e} of B_{n} mod {p}')
                    ctx.state((n, r, p, i, e))
            ctx.trace()
    if r == 0:
        for p in (0, 2, 7):
            d = lkb(n, p, (1, 1), (-1, 2)).dimension()
            ctx.check(d == n * (n - 1) // 2, f'Lawrence-Krammer-Bigelow representation of B_{n} has dimension {d}')
    ctx.sample({'n': n, 'r': r})


def run_words(ctx, chunk):
    n, r, L, exps, ps, lo, hi = chunk
    letters = [(i, e) for i in range(n - 1) for e in exps]
    base = Q.start(n, r, L * max(map(abs, exps)))
    w = []
    for idx in range(lo, hi):
        w, x = [], idx
        for _ in range(L):
            w.append(letters[x % len(letters)])
            x //= len(letters)
        s = base.run(w)
        want = s.dicts()
        for p in ps:
            M = rep_of(n, r, p).evaluate_artin_word(w if idx % 2 else tuple(w))
            same(ctx, M, RP.mat_mod(want, p), p, lambda: f'({n},{r}) mod {p} on the word {w}')
        ctx.trace()
    ctx.fresh_states(hi - lo)
    ctx.sample({'n': n, 'r': r, 'word': w})


def run_simple(ctx, chunk):
    """Permutations, noncrossing partitions and their braids."""
    kind, n, r, ps, lo, hi = chunk
    for s in simples(kind, n)[lo:hi]:
        word = R.factor_word(kind, s)
        want = Q.image(n, r, word).dicts()
        f = factor_impl(kind, n, s)
        b = lift_seq(kind, n, [s])
        for p in ps:
            m = RP.mat_mod(want, p)
            same(ctx, rep_of(n, r, p).evaluate(f), m, p, lambda: f'({n},{r}) mod {p} on {f!r}')
            same(ctx, rep_of(n, r, p).evaluate(b), m, p, lambda: f'({n},{r}) mod {p} on {b!r}')
        ctx.state((kind, n, r, s))
        ctx.trace()


def run_ball(ctx, chunk):
    """Every element of a ball in both normal forms, its inverse, and its products with generators: the image
    depends on the braid only and multiplies."""
    n, r, p, radius, lo, hi = chunk
    rep = rep_of(n, r, p)
    gens = [Q.start(n, r).letter(i, e).dicts() for i in range(n - 1) for e in (1, -1)]
    base = Q.start(n, r, 3 * radius + 4)
    one = rep.evaluate(GNF.identity(n))
    for k, word in ball(n, radius)[lo:hi]:
        want = RP.mat_mod(base.run(word).dicts(), p)
        winv = RP.mat_mod(base.run(R.inv_word(word)).dicts(), p)
        got = []
        for cls in (GNF, DGNF):
            b = cls.from_artin_word(n, word)
            M = rep.evaluate(b)
            same(ctx, M, want, p, lambda: f'({n},{r}) mod {p} on {b!r}')
            N = rep.evaluate(b.inv())
            same(ctx, N, winv, p, lambda: f'({n},{r}) mod {p} on {b.inv()!r}')
            got.append(M)
            prod = RP.mat_mod(RP.read_matrix(M * N), p)
            ctx.check(prod == RP.mat_id(len(want)), lambda: f'({n},{r}) mod {p}: images of {b!r} and its inverse multiply to {prod}')
        ctx.check(got[0] == got[1] and not (got[0] != got[1]), 'images of the same braid in the two normal forms compare unequal')
        same(ctx, rep.evaluate_artin_word(b.artin_word()), want, p, 'artin_word')
        ctx.trace()
    ctx.fresh_states(hi - lo)
    ctx.sample({'n': n, 'r': r, 'p': p, 'word': word})


def run_nfs(ctx, chunk):
    """All normal forms of a length and all small powers of the Garside element."""
    kind, n, r, L, powers, ps, lo, hi = chunk
    cls = CLS[kind]
    gar = lift_seq(kind, n, [tuple(reversed(range(n))) if kind == 'GNF' else (tuple(range(n)),)])
    gw = R.garside_word(kind, n)
    for f in list(R.normal_forms(kind, n, L))[lo:hi]:
        A = lift_seq(kind, n, f)
        for e in powers:
            b = gar ** e * A
            want = Q.image(n, r, R.pow_word(gw, e) + R.nf_word(kind, n, 0, f)).dicts()
            for p in ps:
                same(ctx, rep_of(n, r, p).evaluate(b), RP.mat_mod(want, p), p, lambda: f'({n},{r}) mod {p} on {b!r}')
            ctx.state((kind, n, r, e, f))
            ctx.trace()


def run_products(ctx, chunk):
    """evaluate(a * b) = evaluate(a) evaluate(b) over the implementation's own matrices."""
    kind, n, r, p, radius, lo, hi = chunk
    rep = rep_of(n, r, p)
    els = ball(n, radius)
    cls = CLS[kind]
    objs = [cls.from_artin_word(n, w) for _, w in els]
    mats = [rep.evaluate(b) for b in objs]
    plain = [RP.read_matrix(m) for m in mats]
    for i in range(lo, hi):
        for j in range(len(els)):
            got = RP.read_matrix(rep.evaluate(objs[i] * objs[j]))
            want = RP.mat_mod(RP.mat_mul(plain[i], plain[j]), p)
            ctx.check(got == want, lambda: f'({n},{r}) mod {p}: image of the product of {objs[i]!r} and {objs[j]!r} is not the product of the images')
            ctx.step()
        ctx.trace()
    ctx.fresh_states((hi - lo) * len(els))


def long_words(n, L):
    """A fixed list of long words: periodic ones and a few without pattern."""
    a, b = 0, n - 2
    out = [[(a, 1), (b, -1)], [(a, 1)], [(b, -1)], [(a, 2), (b, 1)], [(i, 1) for i in range(n - 1)], [(i, -1) for i in reversed(range(n - 1))],
           [(i, (-1) ** i) for i in range(n - 1)], [(a, 1), (b, -2), (a, 3)], [(i, 1) for i in range(n - 1)] + [(i, -1) for i in range(n - 1)]]
    out = [(w * L)[:L] for w in out]
    x = 77 + n
    for _ in range(3):
        w = []
        for _ in range(L):
            x = (x * 1103515245 + 12345) % 2**31
            w.append(((x >> 9) % (n - 1), 1 if (x >> 20) % 2 else -1))
        out.append(w)
    return out


MODULI = [2, 3, 5, 11, 13, 31, 37, 61, 67, 127, 131, 181, 191, 251, 257, 1021, 1031, 8191]


def run_long(ctx, chunk):
    n, r, L, i = chunk
    w = long_words(n, L)[i]
    for cut in (L - i % 2,):
        word = w[:cut]
        want = Q.image(n, r, word).dicts()
        forms = [cls.from_artin_word(n, word) for cls in (GNF, DGNF)]
        turn = MODULI[(i * 4 + L) % len(MODULI):][:4]
        for p in [0] + turn:
            m = RP.mat_mod(want, p)
            same(ctx, rep_of(n, r, p).evaluate_artin_word(word), m, p, lambda: f'({n},{r}) mod {p} on the word {word}')
            if p in (0, turn[0]):
                for b in forms[i % 2::2]:
                    same(ctx, rep_of(n, r, p).evaluate(b), m, p, lambda: f'({n},{r}) mod {p} on {b!r}')
        ctx.n_states += 1
        ctx.trace()


def run_exponents(ctx, chunk):
    """Artin words with large exponents."""
    n, r, es = chunk
    for e in es:
        for i in range(n - 1):
            words = [[(i, e)], [((i + 1) % (n - 1), 1), (i, e), (i, 2)]] if n > 2 else [[(i, e)], [(i, e), (i, -2), (i, 1)]]
            for w in words:
                want = Q.image(n, r, w).dicts()
                for p in PRIMES if i == 0 else (0, 2):
                    same(ctx, rep_of(n, r, p).evaluate_artin_word(w), RP.mat_mod(want, p), p, lambda: f'({n},{r}) mod {p} on the word {w}')
            ctx.n_states += 1
    ctx.trace()


# ------------------------------------------------------------------ Lawrence-Krammer-Bigelow
def units(m):
    return [(s, k) for k in range(-m, m + 1) for s in (1, -1)]


def unit(u):
    return LPoly(u[1], (u[0],))


_LKB = {}


def lkb(n, p, q, t):
    if (n, p, q, t) not in _LKB:
        _LKB[n, p, q, t] = LKBRep(n, p, unit(q), unit(t))
    return _LKB[n, p, q, t]


def lkb_word(gens, invs, d, word, p):
    M = RP.mat_id(d)
    for i, e in word:
        for _ in range(abs(e)):
            M = RP.mat_mod(RP.mat_mul(M, gens[i] if e > 0 else invs[i]), p)
    return M


def lkb_mats(ctx, n, p, q, t):
    rep = lkb(n, p, q, t)
    d = n * (n - 1) // 2
    ctx.check(rep.dimension() == d, f'dimension {rep.dimension()} of the representation of B_{n}')
    gens, invs = rep.artin_gens_invs()
    gens, invs = [RP.read_matrix(g) for g in gens], [RP.read_matrix(g) for g in invs]
    ctx.check(len(gens) == len(invs) == n - 1 and all(len(g) == d for g in gens + invs), 'number of generators')
    return rep, d, gens, invs


def run_lkb(ctx, chunk):
    n, p, qs, ts, maxword = chunk
    for q in qs:
        for t in ts:
            rep, d, gens, invs = lkb_mats(ctx, n, p, q, t)
            what = f'LKB n={n} p={p} q={unit(q)} t={unit(t)}'
            qd, td = {q[1]: q[0]}, {t[1]: t[0]}
            mul, add = RP.mul, RP.add
            tqq = mul(td, mul(qd, qd))
            I = RP.mat_id(d)
            mm = lambda A, B: RP.mat_mod(RP.mat_mul(A, B), p)
            trace = add(add(tqq, RP.scale(add({0: 1}, qd, -1), n - 2)), {0: (n - 2) * (n - 3) // 2})
            for i in range(n - 1):
                ctx.check(mm(gens[i], invs[i]) == I and mm(invs[i], gens[i]) == I, f'{what}: generator {i} and its inverse do not multiply to 1')
                tr = {}
                for k in range(d):
                    tr = add(tr, gens[i][k][k])
                ctx.check(RP.mod(tr, p) == RP.mod(trace, p), f'{what}: trace of generator {i} is {tr}')
                f = [[[add(gens[i][a][b], c, -1) if a == b else gens[i][a][b] for b in range(d)] for a in range(d)]
                     for c in ({0: 1}, RP.neg(qd), tqq)]
                z = mm(mm(f[0], f[1]), f[2])
                ctx.check(not any(x for row in z for x in row), f'{what}: generator {i} does not satisfy (s - 1)(s + q)(s - tq^2) = 0')
                for j in range(n - 1):
                    a, b = gens[i], gens[j]
                    if abs(i - j) == 1:
                        ctx.check(mm(mm(a, b), a) == mm(mm(b, a), b), f'{what}: braid relation of generators {i}, {j}')
                    elif i != j:
                        ctx.check(mm(a, b) == mm(b, a), f'{what}: generators {i}, {j} do not commute')
                ctx.step()
            # words, both normal forms, inverses: products of the generators; equal braids get equal matrices
            seen = {}
            letters = [(i, e) for i in range(n - 1) for e in (1, -1, 2, -3)]
            for L in range(maxword + 1):
                for w in itertools.product(letters, repeat=L):
                    M = RP.read_matrix(rep.evaluate_artin_word(list(w)))
                    want = lkb_word(gens, invs, d, w, p)
                    ctx.check(M == want, lambda: f'{what} on the word {w} is {M}, should be {want}')
                    k = R.key(n, w)
                    ctx.check(seen.setdefault(k, want) == want, lambda: f'{what}: equal braids with unequal matrices, word {w}')
                    ctx.step()
            ctx.state((n, p, q, t))
            ctx.trace()
    ctx.sample({'n': n, 'p': p, 'q': str(unit(q)), 't': str(unit(t))})


def run_lkb_eval(ctx, chunk):
    """Faithful evaluation of braids of both kinds over a ball."""
    n, p, q, t, radius, lo, hi = chunk
    rep, d, gens, invs = lkb_mats(ctx, n, p, tuple(q), tuple(t))
    for k, word in ball(n, radius)[lo:hi]:
        want = lkb_word(gens, invs, d, word, p)
        for cls in (GNF, DGNF):
            b = cls.from_artin_word(n, word)
            same(ctx, rep.evaluate(b), want, p, lambda: f'LKB n={n} p={p} q={q} t={t} on {b!r}')
        ctx.trace()
    for s in simples('GNF', n):
        f = factor_impl('GNF', n, s)
        same(ctx, rep.evaluate(f), lkb_word(gens, invs, d, R.factor_word('GNF', s), p), p, f'LKB on {f!r}')
    for s in simples('DGNF', n):
        f = factor_impl('DGNF', n, s)
        same(ctx, rep.evaluate(f), lkb_word(gens, invs, d, R.factor_word('DGNF', s), p), p, f'LKB on {f!r}')
    ctx.fresh_states(hi - lo)


def run_lkb_long(ctx, chunk):
    """Large exponents and long words."""
    n, p, q, t, words = chunk
    rep, d, gens, invs = lkb_mats(ctx, n, p, tuple(q), tuple(t))
    for w in words:
        want = lkb_word(gens, invs, d, w, p)
        same(ctx, rep.evaluate_artin_word(w), want, p, lambda: f'LKB n={n} p={p} q={q} t={t} on the word {w}')
    ctx.fresh_states(len(words))
    ctx.trace()


def run_refuse(ctx, chunk):
    for n in range(1, 6):
        for r in range(n // 2 + 1, n + 2):
            ctx.raises(lambda: JonesCellRep(n, r, 0), f'label ({n - r}, {r})')
            ctx.step()
    for q, t in ((LPoly(0, (1, 1)), LPoly(1, (1,))), (LPoly(1, (1,)), LPoly(0, (2,))), (LPoly(0, ()), LPoly(0, (1,)))):
        ctx.raises(lambda: LKBRep(3, 0, q, t), f'LKB with non-unit parameters {q}, {t}')
        ctx.step()
    ctx.trace()
    ctx.fresh_states(1)


def families(tier):
    q = tier == 'quick'
    F = [Family('generators', [[n, r] for n in range(1, 8 if q else 9) for r in (labels(n) if n > 1 else [0])], run_gens,
                'generator matrices, dimension, identity, all moduli; reduced Burau for r = 1'),
         Family('refuse', [[0]], run_refuse, 'impossible labels and parameters')]
    ch = []
    plan = [(2, 5, [1, -1, 2, -3, 0], PRIMES), (3, 5, [1, -1], PRIMES), (3, 3, [-3, -2, -1, 0, 1, 2, 3], [0, 2, 8191]), (4, 4, [1, -1], [0, 3]), (4, 2, [-3, -2, -1, 0, 1, 2, 3], [0, 2, 5]),
            (5, 3, [1, -1], [0, 2]), (5, 2, [-2, 2, 3], [0, 7]), (6, 2, [1, -1], [0, 2])]
    if not q:
        plan += [(3, 7, [1, -1], [0, 2, 3, 8191]), (3, 4, [-3, -2, -1, 0, 1, 2, 3], [0, 2, 8191]), (4, 5, [1, -1], [0, 2, 3]), (4, 3, [-3, -2, -1, 1, 2, 3], [0, 3]), (5, 4, [1, -1], [0, 2]), (6, 3, [1, -1], [0, 2])]
    for n, L, ex, ps in plan:
        for r in labels(n):
            for l in range(L + 1):
                tot = ((n - 1) * len(ex)) ** l
                ch += [[n, r, l, ex, ps, lo, hi] for lo, hi in slices(tot, 200)]
    F.append(Family('words', ch, run_words, 'evaluate_artin_word on all words'))
    ES = [e for k in (*range(4, 36), 40, 48, 50, 63, 64, 65) for e in (k, -k)]
    ch = [[n, r, [e, -e]] for n in (2, 3, 4) for r in labels(n) for e in ES if e > 0]
    ch += [[n, r, [e]] for n in (2, 3) for r in labels(n) for e in (99, 100, -100, 127, -128, 129, 255, -256, 257)]
    ch += [[n, r, [e, -e]] for n in (5, 6) for r in labels(n) for e in (5, 8, 11, 16)]
    F.append(Family('exponents', ch, run_exponents, 'Artin words with large exponents'))
    ch = [[n, r, L, i] for n, Ls in ((2, (17, 33, 66, 130)), (3, (17, 33, 66)), (4, (17, 34)), (5, (18,)), (6, (12,))) for r in labels(n) for L in Ls for i in range(12)]
    if not q:
        ch += [[n, r, L, i] for n, Ls in ((3, (200,)), (4, (80,)), (5, (40,)), (6, (26,)), (7, (16,))) for r in labels(n) for L in Ls for i in range(12)]
    F.append(Family('long_words', ch, run_long, 'long words and their normal forms, modulo primes around powers of two'))
    ch = []
    for kind, ns in (('GNF', range(2, 6)), ('DGNF', range(2, 7))):
        for n in ns:
            for r in labels(n):
                ps = PRIMES if n <= 4 else [0, 2, 5]
                ch += [[kind, n, r, ps, lo, hi] for lo, hi in slices(len(simples(kind, n)), 20)]
    if not q:
        for r in labels(6):
            ch += [['GNF', 6, r, [0, 3], lo, hi] for lo, hi in slices(720, 20)]
    F.append(Family('simple_elements', ch, run_simple, 'every permutation and noncrossing partition'))
    ch = []
    for n, rad, ps in [(2, 5, PRIMES), (3, 5 if q else 7, PRIMES), (4, 3 if q else 5, [0, 2, 3]), (5, 2 if q else 3, [0, 2, 5])]:
        m = len(ball(n, rad))
        for r in labels(n):
            for p in ps:
                ch += [[n, r, p, rad, lo, hi] for lo, hi in slices(m, 60)]
    F.append(Family('ball', ch, run_ball, 'every element of a ball in both normal forms, with inverses'))
    ch = []
    for kind, n, L, powers, ps in [('GNF', 3, 2, range(-3, 4), [0, 2, 3]), ('DGNF', 3, 2, range(-4, 5), [0, 2, 3]),
                                   ('GNF', 4, 1, range(-3, 4), [0, 2, 5]), ('DGNF', 4, 2, [-1, 3], [0, 2]), ('DGNF', 4, 1, range(-5, 6), [0, 3]),
                                   ('DGNF', 5, 1, [-6, -1, 0, 2], [0, 2]), ('GNF', 4, 0, range(-3, 4), PRIMES), ('DGNF', 5, 0, range(-6, 7), PRIMES)] + ([] if q else [
                                       ('GNF', 4, 2, [-1, 0], [0, 2]), ('DGNF', 4, 3, [0, -1], [0, 2]), ('GNF', 3, 5, [0, -1], [0, 2, 3]), ('GNF', 5, 1, [-1, 0, 1], [0, 2]), ('DGNF', 5, 2, [0], [0, 2])]):
        m = R.count_normal_forms(kind, n, L)
        for r in labels(n):
            ch += [[kind, n, r, L, list(powers), ps, lo, hi] for lo, hi in slices(m, 20)]
    F.append(Family('normal_forms', ch, run_nfs, 'all normal forms of a length with all small Garside powers'))
    ch = []
    for kind in ('GNF', 'DGNF'):
        for n, rad, ps in [(3, 2 if q else 3, [0, 2, 3, 8191]), (4, 1 if q else 2, [0, 2])]:
            m = len(ball(n, rad))
            for r in labels(n):
                for p in ps:
                    ch += [[kind, n, r, p, rad, lo, hi] for lo, hi in slices(m, 10)]
    F.append(Family('products', ch, run_products, 'all pairs from a ball'))
    U = units(2)
    ch = []
    for n, pl, us, mw in [(2, [0, 2, 5], U, 2), (3, [0, 2, 3, 5], U, 1 if q else 2), (4, [0, 2, 3], U if not q else units(1), 1), (5, [0, 3], [(1, 1), (-1, 1), (1, -2)], 0), (6, [0, 2], [(1, 1), (-1, 2)], 0), (7, [5], [(-1, 1)], 0)]:
        for p in pl:
            for u in us:
                ch.append([n, p, [u], us, mw])
    # parameters of larger degree
    ch += [[n, p, [(1, a)], [(-1, b)], 0] for n in (3, 4) for p in (0, 3) for a in (-7, -3, 0, 5, 9) for b in (-8, 4, 16)]
    F.append(Family('lkb_relations', ch, run_lkb, 'Lawrence-Krammer-Bigelow: inverses, relations, cubic, trace, words, for all unit parameters'))
    ch = []
    for n, rad in [(2, 4), (3, 3 if q else 5), (4, 2 if q else 3)]:
        for qq, tt in [((1, 1), (1, 1)), ((1, 1), (-1, 3)), ((-1, -1), (1, 2))]:
            for p in (0, 3):
                m = len(ball(n, rad))
                ch += [[n, p, qq, tt, rad, lo, hi] for lo, hi in slices(m, 40)]
    lw = []
    for n, Es, Ls in ((2, (8, 17, 40), (20,)), (3, (4, 5, 7, 8, 9, 12, 16, 17), (8, 12, 18)), (4, (4, 8), (8,))):
        ws = [[(i, s * e)] for i in range(n - 1) for e in Es for s in (1, -1)] + [[((k * k) % (n - 1), (1, -1, 1, 1, -1)[(k * j) % 5]) for k in range(L)] for L in Ls for j in range(1, 4)]
        for p in (0, 2, 5):
            for qq, tt in (((1, 1), (1, 1)), ((-1, -1), (1, 2))):
                lw += [[n, p, qq, tt, ws[k::4]] for k in range(4)]
    F.append(Family('lkb_long', lw, run_lkb_long, 'Lawrence-Krammer-Bigelow on large exponents and long words'))
    F.append(Family('lkb_braids', ch, run_lkb_eval, 'Lawrence-Krammer-Bigelow on braids of both kinds, permutations and partitions'))
    return F

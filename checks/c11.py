"""C11: integer polynomials, division, and the special families."""
import itertools
import math
from fractions import Fraction

from peyl import LPoly
from peyl.poly import Poly
from vlib import ref_poly as RP
from vlib.core import Family, slices

PROPERTY = 'C11'
ASSUMPTIONS = ['minimal cosine polynomials are characterised by psi_n(v + 1/v) = v^(-phi(n)/2) Phi_n(v)']


def dense(d):
    return tuple(d.get(i, 0) for i in range(max(d) + 1)) if d else ()


def mkp(d):
    return Poly(*dense(d))


def universe(sets):
    seen = {}
    for k, vals in sets:
        for cs in itertools.product(vals, repeat=k):
            d = RP.clean(dict(enumerate(cs)))
            seen.setdefault(RP.key(d), d)
    return sorted(seen.values(), key=lambda d: (max(d, default=-1), RP.key(d)))


SETS = {'quick': [(4, (-2, -1, 0, 1, 2)), (5, (-1, 0, 1))],
        'thorough': [(4, (-3, -2, -1, 0, 1, 2, 3)), (5, (-2, -1, 0, 1, 2))]}
_U = {}


def U(t):
    if t not in _U:
        _U[t] = universe(SETS[t])
    return _U[t]


def eq(ctx, got, want, what):
    if RP.read(got) != want or (isinstance(got, Poly) and (not (got == mkp(want)) or got.deg() != max(want, default=-1))):
        ctx.fail(f'{what() if callable(what) else what} is {got!r}, should be {want}')
    ctx.transitions += 1


def eqv(ctx, got, want, what):
    if got != want:
        ctx.fail(f'{what() if callable(what) else what} is {got!r}, should be {want!r}')
    ctx.transitions += 1


def ref_divmod(n, d):
    """Integer quotient and remainder, or None."""
    if not d:
        return None
    q, r = {}, dict(n)
    D = max(d)
    while r and max(r) >= D:
        e = max(r)
        if r[e] % d[D]:
            return None
        t = r[e] // d[D]
        q[e - D] = t
        r = RP.add(r, RP.scale(RP.shift(d, e - D), t), -1)
    return RP.clean(q), r


def run_unary(ctx, chunk):
    tier, lo, hi = chunk
    for d in U(tier)[lo:hi]:
        a = mkp(d)
        for k in range(3):
            eq(ctx, Poly(*dense(d), *(0,) * k), d, lambda: f'{d} written with padding')
        eqv(ctx, bool(a.is_zero()), not d, lambda: f'is_zero({a!r})')
        eq(ctx, -a, RP.neg(d), lambda: f'-({a!r})')
        for k in (-3, -1, 0, 1, 2):
            i = RP.clean({0: k})
            eq(ctx, a + k, RP.add(d, i), lambda: f'{a!r} + {k}')
            eq(ctx, k + a, RP.add(d, i), lambda: f'{k} + {a!r}')
            eq(ctx, a - k, RP.add(d, i, -1), lambda: f'{a!r} - {k}')
            eq(ctx, a * k, RP.scale(d, k), lambda: f'{a!r} * {k}')
            eq(ctx, k * a, RP.scale(d, k), lambda: f'{k} * {a!r}')
        for k in range(0, 6):
            eq(ctx, a ** k, RP.power(d, k), lambda: f'({a!r}) ** {k}')
        for k in (-1, -2):
            ctx.raises(lambda: a ** k, f'({a!r}) ** {k}')
            ctx.transitions += 1
        text = repr(a)
        ctx.check(text.startswith("Poly('") and text.endswith("')"), f'repr {text}')
        try:
            ctx.check(RP.parse(text[6:-2], 'x') == d, f'{d} is printed as {text}')
        except ValueError as e:
            ctx.fail(f'{d} is printed as {text}: {e}')
        for x in (0, 1, -1, 2, -3, 10, Fraction(1, 2), Fraction(-5, 3)):
            eqv(ctx, a.evaluate(x), sum(c * x ** e for e, c in d.items()), lambda: f'{a!r} at {x}')
        for s in ({1: 1}, {0: 1, 1: 1}, {1: 2}, {2: 1}, {}, {0: -1}, {0: 1, 2: -1}):
            eq(ctx, a.evaluate(mkp(s)), RP.subst(d, s), lambda: f'{a!r} at {mkp(s)!r}')
        for s in ({1: 1, -1: 1}, {-2: 1}):
            eqv(ctx, RP.read(a.evaluate(RP.lpoly(s))), RP.subst(d, s), lambda: f'{a!r} at {RP.lpoly(s)!r}')
        eq(ctx, a, d, 'an operation changed its argument')
        ctx.n_states += 1
        ctx.outcome(len(d))
        ctx.trace()


def run_pairs(ctx, chunk):
    tier, lo, hi = chunk
    us = U(tier)
    ps = [mkp(d) for d in us]
    for i in range(lo, min(hi, len(us))):
        a, A = us[i], ps[i]
        for b, B in zip(us, ps):
            eq(ctx, A + B, RP.add(a, b), lambda: f'({A!r}) + ({B!r})')
            eq(ctx, A - B, RP.add(a, b, -1), lambda: f'({A!r}) - ({B!r})')
            m = A * B
            eq(ctx, m, RP.mul(a, b), lambda: f'({A!r}) * ({B!r})')
            if (A == B) != (a == b):
                ctx.fail(f'({A!r}) == ({B!r}) is {A == B}')
            w = ref_divmod(a, b)
            if w is None:
                ctx.raises(lambda: divmod(A, B), f'divmod({A!r}, {B!r})')
                ctx.raises(lambda: A / B, f'({A!r}) / ({B!r})')
                ctx.transitions += 2
                ctx.outcome('refused')
            else:
                q, r = divmod(A, B)
                eq(ctx, q, w[0], lambda: f'quotient of {A!r} by {B!r}')
                eq(ctx, r, w[1], lambda: f'remainder of {A!r} by {B!r}')
                if w[1]:
                    ctx.raises(lambda: A / B, f'({A!r}) / ({B!r})')
                    ctx.outcome('remainder')
                else:
                    eq(ctx, A / B, w[0], lambda: f'({A!r}) / ({B!r})')
                    ctx.outcome('exact')
            if b:
                eq(ctx, m / B, a, lambda: f'({m!r}) / ({B!r})')
        ctx.trace(len(us))
    ctx.fresh_states((min(hi, len(us)) - lo) * len(us))


def pmul(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return r


def mobius(n):
    m, p = 1, 2
    while n > 1:
        if n % p == 0:
            n //= p
            if n % p == 0:
                return 0
            m = -m
        p += 1
    return m


def ref_cyclotomic(n):
    """prod (x^d - 1)^mu(n/d), multiplying first and dividing by binomials afterwards."""
    num = [1]
    for d in range(1, n + 1):
        if n % d == 0 and mobius(n // d) == 1:
            num = pmul(num, [-1] + [0] * (d - 1) + [1])
    for d in range(1, n + 1):
        if n % d == 0 and mobius(n // d) == -1:
            q = [0] * (len(num) - d)
            r = list(num)
            for i in range(len(num) - 1, d - 1, -1):
                q[i - d] = r[i]
                r[i - d] += r[i]
                r[i] = 0
            assert not any(r)
            num = q
    return RP.clean(dict(enumerate(num)))


def ref_chebyshev(n):
    if n == 0:
        return {0: 1}
    out = {}
    for k in range(n // 2 + 1):
        c = Fraction(n, 2) * (-1) ** k * Fraction(math.factorial(n - k - 1), math.factorial(k) * math.factorial(n - 2 * k)) * 2 ** (n - 2 * k)
        assert c.denominator == 1
        out[n - 2 * k] = int(c)
    return RP.clean(out)


def run_special(ctx, chunk):
    kind, idx = chunk
    for n in idx:
        if kind == 'cyclotomic':
            eq(ctx, Poly.cyclotomic(n), ref_cyclotomic(n), f'cyclotomic({n})')
        elif kind == 'chebyshev':
            eq(ctx, Poly.chebyshevT(n), ref_chebyshev(n), f'chebyshevT({n})')
        else:
            p = Poly.minpolycos(n)
            got = RP.read(p)
            if n == 1:
                want = {1: 1, 0: -2}
            elif n == 2:
                want = {1: 1, 0: 2}
            else:
                phi = ref_cyclotomic(n)
                half = max(phi) // 2
                # Phi_n is palindromic: express v^(-half) Phi_n in the basis (v + 1/v)^k
                sym = RP.shift(phi, -half)
                want = {}
                for k in range(half, -1, -1):
                    c = sym.get(k, 0)
                    if c:
                        want[k] = c
                        sym = RP.add(sym, RP.scale(RP.power({1: 1, -1: 1}, k), c), -1)
                assert not sym
            eq(ctx, p, want, f'minpolycos({n})')
        ctx.n_states += 1
    ctx.trace()


def run_refuse(ctx, chunk):
    for n in (0, -1, -2, -7):
        ctx.raises(lambda: Poly.cyclotomic(n), f'cyclotomic({n})')
        ctx.raises(lambda: Poly.minpolycos(n), f'minpolycos({n})')
        if n < 0:
            ctx.raises(lambda: Poly.chebyshevT(n), f'chebyshevT({n})')
        ctx.step(3)
    big = [{0: 10 ** 30, 3: -1}, {0: 1, 40: 2 ** 70}, {7: 1}]
    for a in big:
        for b in big:
            eq(ctx, mkp(a) * mkp(b), RP.mul(a, b), 'big product')
            eq(ctx, mkp(RP.mul(a, b)) / mkp(b), a, 'big quotient')
    ctx.trace()


def long_ones():
    out = []
    for n in (9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200):
        out += [{i: 1 for i in range(n)}, {i: (-1) ** i for i in range(n)}]
        if n in (33, 64, 129):
            out += [RP.clean({i: i % 7 - 3 for i in range(n)}), {0: 1, n: -1}, {n: 1}, {n - 1: 2, n: 1}, {i: 3 ** i for i in range(n)}, {i: math.comb(n, i) for i in range(n + 1)}]
    for b in (2 ** 15, 2 ** 31, 2 ** 53, 2 ** 63, 2 ** 64, 10 ** 30):
        for c in (b - 1, b, -b - 1):
            out += [{0: c}, {0: c, 1: 1}, {0: 1, 2: c}]
    return [RP.clean(d) for d in out]


def run_long(ctx, chunk):
    lo, hi = chunk
    us = long_ones()
    ps = [mkp(d) for d in us]
    for a, A in list(zip(us, ps))[lo:hi]:
        eq(ctx, A, a, 'construction')
        eq(ctx, Poly(*dense(a), *(0,) * 300), a, 'padded construction')
        ctx.check(RP.parse(repr(A)[6:-2], 'x') == a, lambda: f'{a} is printed as {A!r}')
        eq(ctx, A - A, {}, lambda: f'{A!r} minus itself')
        for k in (0, -1, 255, 2 ** 63, -10 ** 25):
            eq(ctx, A * k, RP.scale(a, k), lambda: f'{A!r} * {k}')
            eq(ctx, A + k, RP.add(a, RP.clean({0: k})), lambda: f'{A!r} + {k}')
            eq(ctx, A - k, RP.add(a, RP.clean({0: k}), -1), lambda: f'{A!r} - {k}')
        for x in (0, 1, -1, 2, Fraction(1, 2), Fraction(-3), 10 ** 10):
            eqv(ctx, A.evaluate(x), sum(c * x ** e for e, c in a.items()), lambda: f'{A!r} at {x}')
        for s in ({1: -1}, {3: 1}, {}):
            eq(ctx, A.evaluate(mkp(s)), RP.subst(a, s), lambda: f'{A!r} at {mkp(s)!r}')
        for b, B in zip(us, ps):
            eq(ctx, A + B, RP.add(a, b), lambda: f'({A!r}) + ({B!r})')
            eq(ctx, A - B, RP.add(a, b, -1), lambda: f'({A!r}) - ({B!r})')
            w = ref_divmod(a, b) if (max(a) - max(b)) * len(b) < 2000 else 0
            if w is None:
                ctx.raises(lambda: divmod(A, B), f'divmod({A!r}, {B!r})')
                ctx.raises(lambda: A / B, f'({A!r}) / ({B!r})')
            elif w:
                q, r = divmod(A, B)
                eq(ctx, q, w[0], lambda: f'quotient of {A!r} by {B!r}')
                eq(ctx, r, w[1], lambda: f'remainder of {A!r} by {B!r}')
            if len(a) * len(b) < 3000:
                m = A * B
                eq(ctx, m, RP.mul(a, b), lambda: f'({A!r}) * ({B!r})')
                if max(a) * len(b) < 2000:
                    eq(ctx, m / B, a, lambda: f'({m!r}) / ({B!r})')
        ctx.n_states += len(us)
    ctx.trace()


HUGE = [2 ** 31 + 11, 2 ** 53 - 1, 2 ** 53 + 1, 2 ** 63 + 29, 10 ** 19 + 51, 3 ** 60]


def run_huge(ctx, chunk):
    """Factors all of whose coefficients are huge: quotient and remainder are exact to the last digit."""
    i, = chunk
    shapes = [lambda x, y: {0: x}, lambda x, y: {0: 1, 2: x}, lambda x, y: {0: -x, 3: y}, lambda x, y: {0: x, 1: -y, 2: y - 1, 5: -x - 2}]
    x = HUGE[i]
    for y in HUGE:
        for u, z in itertools.product(HUGE, (7, 2 ** 40 - 1, HUGE[-1 - i])):
            for s, t in itertools.product(shapes, repeat=2):
                a, b = s(x, y), t(u, z)
                A, B = mkp(a), mkp(b)
                ab = RP.mul(a, b)
                m = mkp(ab)
                eq(ctx, A * B, ab, lambda: f'({A!r}) * ({B!r})')
                eq(ctx, m / B, a, lambda: f'({m!r}) / ({B!r})')
                if max(b):
                    q, r = divmod(m + 1, B)
                    eq(ctx, q, a, lambda: f'quotient of {m!r} + 1 by {B!r}')
                    eq(ctx, r, {0: 1}, lambda: f'remainder of {m!r} + 1 by {B!r}')
                    ctx.raises(lambda: (m + 1) / B, f'({m!r} + 1) / ({B!r})')
                else:
                    ctx.raises(lambda: (m + 1) / B, f'({m!r} + 1) / ({B!r})')
                ctx.n_states += 1
    ctx.trace()


def run_powers(ctx, chunk):
    d, top = chunk
    d = {int(e): c for e, c in d}
    a, acc = mkp(d), {0: 1}
    for k in range(top + 1):
        eq(ctx, a ** k, acc, lambda: f'({a!r}) ** {k}')
        ctx.n_states += 1
        acc = RP.mul(acc, d)
    ctx.trace()


def families(tier):
    q = tier == 'quick'
    n = len(U(tier))
    F = [Family('unary', [[tier, lo, hi] for lo, hi in slices(n, 40)], run_unary, 'every polynomial: integers, powers, printing, evaluation'),
         Family('pairs', [[tier, lo, hi] for lo, hi in slices(n, 10)], run_pairs, 'every pair: ring operations, division with remainder, exact division')]
    F.append(Family('long', [[lo, hi] for lo, hi in slices(len(long_ones()), 3)], run_long, 'long polynomials and large coefficients: everything, and every pair'))
    F.append(Family('huge', [[i] for i in range(len(HUGE))], run_huge, 'products, quotients and remainders of polynomials with huge coefficients'))
    F.append(Family('powers', [[list(d.items()), 70] for d in ({0: 1, 1: 1}, {0: -1, 2: 1}, {1: 1}, {0: -2}, {0: 1, 1: 1, 2: 1}, {0: 1, 5: 2})], run_powers, 'every power up to a high one'))
    ch = []
    for kind, N in (('cyclotomic', 260 if q else 600), ('chebyshev', 140 if q else 400), ('minpolycos', 140 if q else 260)):
        lo = 0 if kind == 'chebyshev' else 1
        all_ = list(range(lo, N + 1))
        ch.append([kind, list(range(lo, 31))])
        ch += [[kind, [i]] for i in all_[-6:]]                     # first touched at a large index
        ch += [[kind, all_[i::4]] for i in range(4)]               # ascending
        ch += [[kind, all_[::-1][i::4]] for i in range(4)]         # descending
    # the first indices with a coefficient 3, and ones whose coefficients outgrow machine words
    ch += [['cyclotomic', [k]] for k in (385, 512, 595, 665, 770)] + [['minpolycos', [k]] for k in (199, 211, 257, 256, 303, 401, 509)] + [['chebyshev', [k]] for k in (255, 256, 257, 400)]
    F.append(Family('special', ch, run_special, 'cyclotomic, Chebyshev and minimal cosine polynomials, several orders of asking'))
    F.append(Family('refusals', [[0]], run_refuse, 'out-of-range indices, large coefficients'))
    return F

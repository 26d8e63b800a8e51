"""C10: Laurent polynomials against sparse dictionaries."""
import itertools
import math
from fractions import Fraction

from peyl import LPoly
from peyl.poly import Poly
from vlib import ref_poly as RP
from vlib.core import Family, slices

PROPERTY = 'C10'
ASSUMPTIONS = []


def universe(tier_sets):
    """All values with exponents in a window and coefficients in a range, without repetition, smallest first."""
    seen = {}
    for lo, hi, vals in tier_sets:
        for cs in itertools.product(vals, repeat=hi - lo + 1):
            d = RP.clean({lo + i: c for i, c in enumerate(cs)})
            seen.setdefault(RP.key(d), d)
    return sorted(seen.values(), key=lambda d: (len(d), sum(map(abs, d.values())), RP.key(d)))


SETS = {
    'quick': [(-2, 2, (-1, 0, 1)), (-1, 1, (-2, -1, 0, 1, 2)), (0, 1, (-3, -1, 0, 2, 3)), (-3, -2, (-2, -1, 0, 1, 2)), (2, 3, (-2, 0, 1, 3))],
    'thorough': [(-3, 3, (-1, 0, 1)), (-2, 2, (-2, 0, 1, 2)), (-1, 1, (-3, -2, -1, 0, 1, 2, 3)), (0, 2, (-3, -1, 0, 2, 3)), (-4, -3, (-2, -1, 0, 1, 2)), (3, 4, (-2, 0, 1, 3))],
}
_U = {}


def U(tier):
    if tier not in _U:
        _U[tier] = universe(SETS[tier])
    return _U[tier]


def eq(ctx, got, want, what):
    """got (implementation value) must be exactly the reference polynomial `want`, in canonical form."""
    r = RP.read(got)
    if r != want:
        ctx.fail(f'{what() if callable(what) else what} is {got!r}, should be {want}')
    if isinstance(got, LPoly):
        w = RP.lpoly(want)
        if not (got == w) or got != w or hash(got) != hash(w):
            ctx.fail(f'{what() if callable(what) else what}: {got!r} does not equal or hash like the same polynomial written down directly')
    ctx.transitions += 1


def eqv(ctx, got, want, what):
    if got != want:
        ctx.fail(f'{what() if callable(what) else what} is {got!r}, should be {want!r}')
    ctx.transitions += 1


def exact_quotient(a, b):
    """The Laurent polynomial q over the integers with q b = a, or None."""
    if not b:
        return None
    q, r = {}, dict(a)
    hb = max(b)
    lb = min(b)
    la = min(a) if a else 0
    while r:
        e = max(r)
        if e - hb < la - lb:
            return None
        c = Fraction(r[e], b[hb])
        if c.denominator != 1:
            return None
        c = int(c)
        q[e - hb] = c
        r = RP.add(r, RP.scale(RP.shift(b, e - hb), c), -1)
    return RP.clean(q)


def run_unary(ctx, chunk):
    tier, lo, hi = chunk
    for d in U(tier)[lo:hi]:
        a = RP.lpoly(d)
        eq(ctx, a, d, 'construction')
        # padding the coefficient list changes nothing
        for l in range(3):
            for r in range(3):
                b = LPoly(a.val - l, (0,) * l + tuple(a.coeffs) + (0,) * r)
                eq(ctx, b, d, lambda: f'{d} written with padding')
                eq(ctx, LPoly(a.val - l, [0] * l + list(a.coeffs) + [0] * r), d, lambda: f'{d} written with padding')
        eqv(ctx, bool(a.is_zero()), not d, lambda: f'is_zero({a!r})')
        eqv(ctx, bool(a.is_unit()), len(d) == 1 and abs(list(d.values())[0]) == 1, lambda: f'is_unit({a!r})')
        if d:
            eqv(ctx, (a.valuation(), a.degree()), (min(d), max(d)), lambda: f'valuation, degree of {a!r}')
        eq(ctx, -a, RP.neg(d), lambda: f'-({a!r})')
        for k in (-3, -1, 0, 1, 2):
            i = RP.clean({0: k})
            eq(ctx, a + k, RP.add(d, i), lambda: f'{a!r} + {k}')
            eq(ctx, k + a, RP.add(d, i), lambda: f'{k} + {a!r}')
            eq(ctx, a - k, RP.add(d, i, -1), lambda: f'{a!r} - {k}')
            eq(ctx, k - a, RP.add(i, d, -1), lambda: f'{k} - {a!r}')
            eq(ctx, a * k, RP.scale(d, k), lambda: f'{a!r} * {k}')
            eq(ctx, k * a, RP.scale(d, k), lambda: f'{k} * {a!r}')
        for k in range(0, 8 if len(d) <= 2 else 6):
            eq(ctx, a ** k, RP.power(d, k), lambda: f'({a!r}) ** {k}')
        for k in range(-6, 0):
            if len(d) == 1 and abs(list(d.values())[0]) == 1:
                (e, c), = d.items()
                eq(ctx, a ** k, {e * k: c ** (-k)}, lambda: f'({a!r}) ** {k}')
            else:
                ctx.raises(lambda: a ** k, f'({a!r}) ** {k}')
                ctx.transitions += 1
        # coefficient maps fixing zero
        for name, f in (('mod 2', lambda x: x % 2), ('mod 3', lambda x: x % 3), ('double', lambda x: 2 * x), ('sign', lambda x: (x > 0) - (x < 0)),
                        ('kill', lambda x: 0), ('square', lambda x: x * x), ('keep 2', lambda x: x if x == 2 else 0)):
            eq(ctx, a.map(f), RP.clean({e: f(c) for e, c in d.items()}), lambda: f'{a!r}.map({name})')
        # a map not fixing zero acts on every coefficient from the lowest term to the highest
        for name, f in (('plus one', lambda x: x + 1), ('two minus', lambda x: 2 - x), ('is zero', lambda x: int(x == 0))):
            eq(ctx, a.map(f), RP.clean({e: f(d.get(e, 0)) for e in range(min(d), max(d) + 1)}) if d else {}, lambda: f'{a!r}.map({name})')
        # printing
        for text in (repr(a), a.fmt(), a.fmt('latex'), a._repr_latex_()):
            t = text[len("LPoly('"):-2] if text.startswith('LPoly') else text
            try:
                got = RP.parse(t)
            except ValueError as e:
                ctx.fail(f'{d} is printed as {text!r}: {e}')
            ctx.check(got == d, f'{d} is printed as {text!r}')
            ctx.transitions += 1
        ctx.check(repr(a).startswith("LPoly('") and repr(a).endswith("')"), f'repr {a!r}')
        # substitution
        for x in (1, -1, 2, -3, 0):
            if not d or min(d) >= 0 or x in (1, -1):
                want = sum(c * Fraction(x) ** e for e, c in d.items()) if x or not d or min(d) >= 0 else None
                eqv(ctx, a.evaluate(x), want, lambda: f'{a!r} at {x}')
        for x in (Fraction(1, 2), Fraction(-3), Fraction(2, 3)):
            eqv(ctx, a.evaluate(x), sum((c * x ** e for e, c in d.items()), Fraction(0)), lambda: f'{a!r} at {x}')
        for s in ({1: 1}, {-1: 1}, {1: -1}, {2: 1}, {-3: -1}, {0: 1}, {0: -1}):
            eq(ctx, a.evaluate(RP.lpoly(s)), RP.subst(d, s), lambda: f'{a!r} at {RP.lpoly(s)!r}')
        for s in ({0: 1, 1: 1}, {1: 2}, {-1: 1, 1: 1}, {}):
            if not d or min(d) >= 0:
                eq(ctx, a.evaluate(RP.lpoly(s)), RP.subst(d, s), lambda: f'{a!r} at {RP.lpoly(s)!r}')
            else:
                ctx.raises(lambda: a.evaluate(RP.lpoly(s)), f'{a!r} at the non-unit {RP.lpoly(s)!r}')
                ctx.transitions += 1
        eqv(ctx, LPoly.coerce(a), a, 'coerce')
        eq(ctx, a, d, lambda: f'an operation changed its argument {d}')
        ctx.n_states += 1
        ctx.outcome(len(d))
        ctx.trace()


def run_pairs(ctx, chunk):
    tier, lo, hi = chunk
    us = U(tier)
    ls = [RP.lpoly(d) for d in us]
    for i in range(lo, min(hi, len(us))):
        a, A = us[i], ls[i]
        for b, B in zip(us, ls):
            s = A + B
            eq(ctx, s, RP.add(a, b), lambda: f'({A!r}) + ({B!r})')
            eq(ctx, A - B, RP.add(a, b, -1), lambda: f'({A!r}) - ({B!r})')
            m = A * B
            ab = RP.mul(a, b)
            eq(ctx, m, ab, lambda: f'({A!r}) * ({B!r})')
            if (A == B) != (a == b):
                ctx.fail(f'({A!r}) == ({B!r}) is {A == B}')
            if b:
                eq(ctx, m / B, a, lambda: f'({m!r}) / ({B!r})')
        ctx.trace(len(us))
    ctx.fresh_states((min(hi, len(us)) - lo) * len(us))


def run_divide(ctx, chunk):
    tier, lo, hi = chunk
    us = U(tier)
    step = 1
    for i in range(lo, min(hi, len(us))):
        a, A = us[i], RP.lpoly(us[i])
        for b in us[::step]:
            B = RP.lpoly(b)
            q = exact_quotient(a, b)
            if q is None:
                ctx.raises(lambda: A / B, f'({A!r}) / ({B!r})')
                ctx.transitions += 1
                ctx.outcome('inexact')
            else:
                eq(ctx, A / B, q, lambda: f'({A!r}) / ({B!r})')
                ctx.outcome('exact')
    ctx.fresh_states((min(hi, len(us)) - lo) * len(us))
    ctx.trace()


def run_laws(ctx, chunk):
    lo, hi = chunk
    us = [RP.lpoly(d) for d in universe([(-1, 1, (-1, 0, 1))])]
    for a in us[lo:hi]:
        for b in us:
            for c in us:
                eqv(ctx, (a + b) + c, a + (b + c), 'associativity')
                eqv(ctx, (a * b) * c, a * (b * c), 'associativity')
                eqv(ctx, a * (b + c), a * b + a * c, 'distributivity')
                eqv(ctx, len({a * (b + c), a * b + a * c}), 1, 'hash')
    ctx.fresh_states(len(us[lo:hi]) * len(us) ** 2)
    ctx.trace()


def run_special(ctx, chunk):
    for n in list(range(-70, 71)) + [sg * k for sg in (1, -1) for k in (99, 100, 127, 128, 129, 255, 256, 257, 500, 1000)]:
        eq(ctx, LPoly.quantum_integer(n), RP.qint(n) if n else {}, f'quantum integer [{n}]')
    for k in range(-5, 6):
        eq(ctx, LPoly.coerce(k), RP.clean({0: k}), f'coerce({k})')
    for bad in ('v', None, 1.5):
        ctx.raises(lambda: LPoly.coerce(bad), f'coerce({bad!r})')
        ctx.raises(lambda: LPoly(0, (1,)) + bad, f'adding {bad!r}')
        ctx.raises(lambda: LPoly(0, (1,)) * bad, f'multiplying by {bad!r}')
    # large coefficients and exponents are exact
    big = [{-40: 10 ** 30, 40: -1}, {0: 2 ** 70}, {100: 1, -100: 1}]
    for a in big:
        for b in big:
            A, B = RP.lpoly(a), RP.lpoly(b)
            eq(ctx, A * B, RP.mul(a, b), 'big product')
            eq(ctx, A + B, RP.add(a, b), 'big sum')
            eq(ctx, (A * B) / B, a, 'big quotient')
            ctx.check(RP.parse(A.fmt()) == a, 'big printing')
    ctx.fresh_states(51)
    ctx.trace()


def long_ones():
    """A fixed list of long and large polynomials (as sparse dictionaries)."""
    out = []
    for n in (9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 256, 257):
        out += [{i: 1 for i in range(n)}, {i - n // 2: (-1) ** i for i in range(n)}]
        if n in (33, 64, 129, 257):
            out += [RP.clean({i - n: i % 7 - 3 for i in range(n)}), {0: 1, n: -1}, {-n: 1, n: 1}, {-n: 2, -n + 1: 1},
                    {i: 3 ** i for i in range(n)}, {i: math.comb(n, i) for i in range(n + 1)}]
    for b in (2 ** 15, 2 ** 16, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64, 10 ** 30):
        for c in (b - 1, b, b + 1, -b, 1 - b, -b - 1):
            out += [{0: c}, {0: 1, 1: c}, {-1: c, 2: c}]
    return [RP.clean(d) for d in out]


MONO = [0, 1, -1, 9, 10, 11, 99, 100, 127, 128, -10, -100, -128, 255, 256, 1000, -1000, 2 ** 15, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 63, -2 ** 63 - 1, 10 ** 20]


def run_long(ctx, chunk):
    lo, hi = chunk
    us = long_ones()
    ls = [RP.lpoly(d) for d in us]
    for a, A in list(zip(us, ls))[lo:hi]:
        eq(ctx, A, a, 'construction')
        eq(ctx, LPoly(A.val - 300, [0] * 300 + list(A.coeffs) + [0] * 300), a, 'padded construction')
        for text in (A.fmt(), A.fmt('latex')):
            ctx.check(RP.parse(text) == a, lambda: f'{a} is printed as {text!r}')
        eqv(ctx, (A.valuation(), A.degree(), A.is_zero(), A.is_unit()), (min(a), max(a), False, len(a) == 1 and abs(list(a.values())[0]) == 1), lambda: f'shape of {A!r}')
        eq(ctx, -A, RP.neg(a), lambda: f'-({A!r})')
        eq(ctx, A - A, {}, lambda: f'{A!r} minus itself')
        for k in (0, 1, -1, 255, 2 ** 63, -10 ** 25):
            eq(ctx, A * k, RP.scale(a, k), lambda: f'{A!r} * {k}')
            eq(ctx, A + k, RP.add(a, RP.clean({0: k})), lambda: f'{A!r} + {k}')
            eq(ctx, k - A, RP.add(RP.clean({0: k}), a, -1), lambda: f'{k} - {A!r}')
        for p in (2, 3, 5, 97, 2 ** 31 - 1):
            eq(ctx, A.map(lambda c: c % p), RP.clean({e: c % p for e, c in a.items()}), lambda: f'{A!r}.map(mod {p})')
        eq(ctx, A.map(lambda c: 1 - c), RP.clean({e: 1 - a.get(e, 0) for e in range(min(a), max(a) + 1)}), lambda: f'{A!r}.map(one minus)')
        for x in (Fraction(1), Fraction(-1), Fraction(1, 2), Fraction(-3)):
            eqv(ctx, A.evaluate(x), sum((c * Fraction(x) ** e for e, c in a.items()), Fraction(0)), lambda: f'{A!r} at {x}')
        for x in (0, 1, -1, 2, -3) if min(a) >= 0 else ():
            eqv(ctx, A.evaluate(x), sum(c * x ** e for e, c in a.items()), lambda: f'{A!r} at {x}')
        for s in ({1: -1}, {-1: 1}, {3: 1}, {-2: -1}):
            eq(ctx, A.evaluate(RP.lpoly(s)), RP.subst(a, s), lambda: f'{A!r} at {RP.lpoly(s)!r}')
        for e in MONO:                                  # shifting far away
            M = LPoly(e, (-1,))
            eq(ctx, A * M, RP.neg(RP.shift(a, e)), lambda: f'({A!r}) * ({M!r})')
            eq(ctx, (A * M) / A, {e: -1}, lambda: f'({A!r}) * ({M!r}) divided back')
            eq(ctx, A / M, RP.neg(RP.shift(a, -e)), lambda: f'({A!r}) / ({M!r})')
        for b, B in zip(us, ls):
            eq(ctx, A + B, RP.add(a, b), lambda: f'({A!r}) + ({B!r})')
            eq(ctx, A - B, RP.add(a, b, -1), lambda: f'({A!r}) - ({B!r})')
            if len(a) * len(b) < 2000:
                m = A * B
                eq(ctx, m, RP.mul(a, b), lambda: f'({A!r}) * ({B!r})')
                eq(ctx, m / B, a, lambda: f'({m!r}) / ({B!r})')
                if len(b) > 1:
                    ctx.raises(lambda: (m + LPoly(min(a) + min(b), (1,))) / B, f'({m!r} + lowest term) / ({B!r})')
        ctx.n_states += len(us)
    ctx.trace()


HUGE = [2 ** 31 + 11, 2 ** 53 - 1, 2 ** 53 + 1, 2 ** 63 + 29, 10 ** 19 + 51, 3 ** 60]


def run_huge(ctx, chunk):
    """Factors all of whose coefficients are huge: the quotient is exact to the last digit."""
    i, = chunk
    shapes = [lambda x, y: {0: x}, lambda x, y: {-1: 1, 2: x}, lambda x, y: {-3: -x, 0: y}, lambda x, y: {0: x, 1: -y, 2: y - 1, 5: -x - 2}]
    x = HUGE[i]
    for y in HUGE:
        for u, z in itertools.product(HUGE, (7, 2 ** 40 - 1, HUGE[-1 - i])):
            for s, t in itertools.product(shapes, repeat=2):
                a, b = s(x, y), t(u, z)
                A, B = RP.lpoly(a), RP.lpoly(b)
                ab = RP.mul(a, b)
                m = RP.lpoly(ab)
                eq(ctx, A * B, ab, lambda: f'({A!r}) * ({B!r})')
                eq(ctx, m / B, a, lambda: f'({m!r}) / ({B!r})')
                if len(b) > 1:
                    ctx.raises(lambda: (m + LPoly(min(ab), (1,))) / B, f'({m!r} + lowest term) / ({B!r})')
                ctx.n_states += 1
    ctx.trace()


def run_powers(ctx, chunk):
    d, top = chunk
    d = {int(e): c for e, c in d}
    a, acc = RP.lpoly(d), {0: 1}
    for k in range(top + 1):
        eq(ctx, a ** k, acc, lambda: f'({a!r}) ** {k}')
        if len(d) == 1 and abs(list(d.values())[0]) == 1 and k:
            eq(ctx, a ** -k, RP.subst(acc, {-1: 1}), lambda: f'({a!r}) ** {-k}')
        ctx.n_states += 1
        acc = RP.mul(acc, d)
    for e in MONO:
        for k in (0, 1, 2, 3, 7, 64, 1000, 2 ** 40):
            eq(ctx, LPoly(e, (1,)) ** k, {e * k: 1}, lambda: f'v^{e} ** {k}')
            eq(ctx, LPoly(e, (-1,)) ** -k, {-e * k: (-1) ** k}, lambda: f'(-v^{e}) ** {-k}')
    ctx.trace()


def families(tier):
    n = len(U(tier))
    return [
        Family('unary', [[tier, lo, hi] for lo, hi in slices(n, 16)], run_unary, 'every polynomial: integers, powers, maps, printing, substitution'),
        Family('pairs', [[tier, lo, hi] for lo, hi in slices(n, 8)], run_pairs, 'every pair: sum, difference, product, division of the product'),
        Family('division', [[tier, lo, hi] for lo, hi in slices(n, 8)], run_divide, 'every pair: exact quotient or refusal'),
        Family('laws', [[lo, hi] for lo, hi in slices(27, 4)], run_laws, 'ring laws on all triples'),
        Family('long', [[lo, hi] for lo, hi in slices(len(long_ones()), 4)], run_long, 'long polynomials, large coefficients and exponents: everything, and every pair'),
        Family('huge', [[i] for i in range(len(HUGE))], run_huge, 'products and exact quotients of polynomials with huge coefficients'),
        Family('powers', [[list(d.items()), 70 if len(d) > 1 else 260] for d in ({0: 1, 1: 1}, {-1: 1, 1: -1}, {1: 1}, {-1: -1}, {3: 1}, {0: 2}, {-1: 1, 0: 1, 1: 1}, {0: 1, 5: 2})], run_powers, 'every power up to a high one'),
        Family('special', [[0]], run_special, 'quantum integers, coercion, large values'),
    ]

"""C08: Temperley-Lieb diagrams and their linear combinations against pictures."""
import itertools

from peyl import LPoly, tl
from vlib import ref_poly as RP
from vlib import ref_tl as T
from vlib.core import Family, slices, split_list

PROPERTY = 'C08'
ASSUMPTIONS = ['points are numbered as the module documentation says (bottom left to right, then top right to left)']

COEFFS = [{0: 1}, {0: -1}, {1: 1}, {-1: 2, 2: -1}]


def eq(ctx, got, want, what):
    if got != want:
        ctx.fail(f'{what() if callable(what) else what}: got {got!r}, should be {want!r}')
    ctx.transitions += 1


def rd(d):
    return (d.top, d.bot, T.picture(d.top, d.bot, d.seq))


def mk(cls, top, bot, pic):
    return cls(top, bot, T.seq_of(top, bot, pic))


def shape_ok(ctx, d, what):
    ctx.check(T.is_planar(d.top, d.bot, d.seq), lambda: f'{what}: {d!r} is not a diagram')


def readmor(m):
    return (m.top, m.bot, {T.picture(m.top, m.bot, d.seq): RP.read(c) for d, c in m.terms.items()})


def mkmor(top, bot, terms):
    return tl.TLMor(top, bot, {mk(tl.TLDiag, top, bot, p): RP.lpoly(c) for p, c in terms.items()})


def clean(t):
    return {p: c for p, c in t.items() if c}


def mor_mul(A, B, mid):
    out = {}
    for p, c in A.items():
        for q, d in B.items():
            r, loops = T.stack(p, q, mid)
            out[r] = RP.add(out.get(r, {}), RP.mul(RP.mul(c, d), RP.power(RP.LOOP, loops)))
    return clean(out)


def mor_add(A, B, s=1):
    out = dict(A)
    for q, d in B.items():
        out[q] = RP.add(out.get(q, {}), d, s)
    return clean(out)


# ------------------------------------------------------------------ diagrams
def run_stack(ctx, chunk):
    top, mid, bot, lo, hi = chunk
    low = [(p, mk(tl.TLDiag, mid, bot, p), mk(tl.TLExtDiag, mid, bot, p)) for p in T.pictures(mid, bot)]
    for u in T.pictures(top, mid)[lo:hi]:
        U, UE = mk(tl.TLDiag, top, mid, u), mk(tl.TLExtDiag, top, mid, u)
        for k, (l, L, LE) in enumerate(low):
            want, loops = T.stack(u, l, mid)
            d, b = U * L
            what = lambda: f'{U!r} on top of {L!r}'
            eq(ctx, (rd(d), b), ((top, bot, want), loops), what)
            x = UE * LE
            eq(ctx, (rd(x), x.bubbles), ((top, bot, want), loops), lambda: f'{UE!r} on top of {LE!r}')
            if k % 7 == 0:
                shape_ok(ctx, d, 'product')
                y = UE.add_bubbles(2) * LE.add_bubbles(3)
                eq(ctx, (rd(y), y.bubbles), ((top, bot, want), loops + 5), lambda: f'{UE!r} with 2 bubbles on top of {LE!r} with 3')
                pure, nb = y.split_bubbles()
                eq(ctx, (rd(pure), pure.bubbles, nb), ((top, bot, want), 0, loops + 5), 'split_bubbles')
            m = tl.TLMor.from_tldiag(U) * tl.TLMor.from_tldiag(L)
            eq(ctx, readmor(m), (top, bot, {want: RP.power(RP.LOOP, loops)}), lambda: f'morphism {U!r} on top of {L!r}')
            ctx.outcome(loops)
        ctx.trace(len(low))
    ctx.fresh_states((min(hi, len(T.pictures(top, mid))) - lo) * len(low))
    ctx.sample({'top': top, 'mid': mid, 'bot': bot})


def run_beside(ctx, chunk):
    (ta, ba), shapes = chunk
    for a in T.pictures(ta, ba):
        A, AE = mk(tl.TLDiag, ta, ba, a), mk(tl.TLExtDiag, ta, ba, a)
        for tb, bb in shapes:
            for b in T.pictures(tb, bb):
                B, BE = mk(tl.TLDiag, tb, bb, b), mk(tl.TLExtDiag, tb, bb, b)
                want = (ta + tb, ba + bb, T.beside(a, ta, ba, b))
                eq(ctx, rd(A @ B), want, lambda: f'{A!r} beside {B!r}')
                x = AE.add_bubbles(1) @ BE.add_bubbles(2)
                eq(ctx, (rd(x), x.bubbles), (want, 3), lambda: f'{AE!r} beside {BE!r}')
                ctx.n_states += 1
        ctx.trace()


def run_bubbles(ctx, chunk):
    """Extended diagrams: every pair of loop counts, stacked and side by side, split off and added."""
    a, b = chunk
    for i in range(6):
        for j in range(6):
            for (t, m) in [(0, 0), (1, 1), (2, 2), (0, 2), (2, 0), (3, 1), (3, 3)]:
                for u in T.pictures(t, m):
                    for s in range(m % 2, 4, 2):
                        for l in T.pictures(m, s):
                            U, L = mk(tl.TLExtDiag, t, m, u).add_bubbles(a * i), mk(tl.TLExtDiag, m, s, l).add_bubbles(b * j)
                            eq(ctx, (U.bubbles, L.bubbles), (a * i, b * j), 'add_bubbles')
                            want, loops = T.stack(u, l, m)
                            x = U * L
                            eq(ctx, (rd(x), x.bubbles), ((t, s, want), loops + a * i + b * j), lambda: f'{U!r} on top of {L!r}')
                            y = U @ L
                            eq(ctx, (rd(y), y.bubbles), ((t + m, m + s, T.beside(u, t, m, l)), a * i + b * j), lambda: f'{U!r} beside {L!r}')
                            pure, nb = y.split_bubbles()
                            eq(ctx, (rd(pure), pure.bubbles, nb), (rd(y), 0, a * i + b * j), 'split_bubbles')
                            z = U.add_bubbles(b * j)
                            eq(ctx, (rd(z), z.bubbles), ((t, m, u), a * i + b * j), lambda: f'{U!r} with {b * j} more bubbles')
                            eq(ctx, (U.bubbles, L.bubbles, rd(U), rd(L)), (a * i, b * j, (t, m, u), (m, s, l)), 'operands after use')
                            ctx.n_states += 1
    ctx.trace()


def run_single(ctx, chunk):
    top, bot = chunk
    pics = T.pictures(top, bot)
    for p in pics:
        d = mk(tl.TLDiag, top, bot, p)
        eq(ctx, rd(d), (top, bot, p), 'construction')
        eq(ctx, rd(d.flip()), (bot, top, T.flip(p)), lambda: f'flip of {d!r}')
        eq(ctx, d.flip().flip(), d, lambda: f'double flip of {d!r}')
        eq(ctx, tl.through_strands(d), T.through(p), lambda: f'through strands of {d!r}')
        if top == bot:
            eq(ctx, tl.trace_count(d.seq), T.closure(p, top), lambda: f'closure loops of {d!r}')
            eq(ctx, RP.read(tl.TLMor.from_tldiag(d).trace()), RP.power(RP.LOOP, T.closure(p, top)), lambda: f'trace of {d!r}')
        eq(ctx, readmor(tl.TLMor.from_tldiag(d)), (top, bot, {p: {0: 1}}), 'from_tldiag')
        ctx.n_states += 1
        ctx.trace()
    got = tl.tl_basis(top, bot)
    ctx.check(len(got) == len(pics) and {rd(d) for d in got} == {(top, bot, p) for p in pics}, f'tl_basis({top}, {bot}) is wrong: {got!r:.500}')
    gm = list(tl.TLMor.basis(top, bot))
    ctx.check(len(gm) == len(pics) and {tuple(readmor(m)[2]) for m in gm} == {(p,) for p in pics}
              and all(list(readmor(m)[2].values()) == [{0: 1}] for m in gm), f'TLMor.basis({top}, {bot}) is wrong')
    if bot <= top:
        want = {(top, bot, p) for p in pics if T.through(p) == bot}
        got = tl.tl_tableaux_basis(top, bot)
        ctx.check(len(got) == len(want) and {rd(d) for d in got} == want, f'tl_tableaux_basis({top}, {bot}) is wrong')
    ctx.step(3)
    if len(pics) <= 14:      # equality, hashing
        ds = [mk(tl.TLDiag, top, bot, p) for p in pics]
        for i, a in enumerate(ds):
            for j, b in enumerate(ds):
                c = mk(tl.TLDiag, top, bot, pics[j])
                eq(ctx, (a == c, hash(a) == hash(c) or a != c), (i == j, True), 'equality of diagrams')
        eq(ctx, len(set(ds)), len(pics), 'distinct diagrams')
        eq(ctx, sorted(ds), sorted(reversed(ds)), 'sorting')


def run_special(ctx, chunk):
    n, = chunk
    eq(ctx, rd(tl.TLDiag.id(n)), (n, n, T.identity(n)), f'TLDiag.id({n})')
    eq(ctx, rd(tl.TLExtDiag.id(n)), (n, n, T.identity(n)), f'TLExtDiag.id({n})')
    eq(ctx, tl.TLExtDiag.id(n).bubbles, 0, 'bubbles of the identity')
    eq(ctx, readmor(tl.TLMor.id(n)), (n, n, {T.identity(n): {0: 1}}), f'TLMor.id({n})')
    for i in range(n - 1):
        eq(ctx, (rd(tl.TLExtDiag.e(i, n)), tl.TLExtDiag.e(i, n).bubbles), ((n, n, T.cupcap(i, n)), 0), f'TLExtDiag.e({i}, {n})')
        eq(ctx, readmor(tl.TLMor.e(i, n)), (n, n, {T.cupcap(i, n): {0: 1}}), f'TLMor.e({i}, {n})')
    for i in (-1, n - 1, n):
        ctx.raises(lambda: tl.TLMor.e(i, n), f'e({i}, {n})')
        ctx.raises(lambda: tl.TLExtDiag.e(i, n), f'e({i}, {n})')
    # refusals: non-planar or mis-sized sequences
    if n <= 3:
        for top in range(2 * n + 1):
            bot = 2 * n - top
            good = set(T.matchings(2 * n))
            for s in itertools.product(range(2 * n), repeat=2 * n) if n <= 2 else itertools.permutations(range(2 * n)):
                if s not in good:
                    ctx.raises(lambda: tl.TLDiag(top, bot, s), f'TLDiag({top}, {bot}, {s})')
                    ctx.raises(lambda: tl.TLExtDiag(top, bot, s), f'TLExtDiag({top}, {bot}, {s})')
                    ctx.step(2)
            ctx.raises(lambda: tl.TLDiag(top + 1, bot, T.matchings(2 * n)[0]), 'wrong size')
            ctx.raises(lambda: tl.TLDiag(top, bot + 1, T.matchings(2 * n)[0]), 'wrong size')
    # incompatible shapes
    for (a, b), (c, d) in itertools.product([(t, s) for t in range(4) for s in range(4) if (t + s) % 2 == 0], repeat=2):
        if b != c:
            for x in T.pictures(a, b)[:2]:
                for y in T.pictures(c, d)[:2]:
                    for cls in (tl.TLDiag, tl.TLExtDiag):
                        ctx.raises(lambda: mk(cls, a, b, x) * mk(cls, c, d, y), f'stacking ({a},{b}) on ({c},{d})')
                    ctx.raises(lambda: mkmor(a, b, {x: {0: 1}}) * mkmor(c, d, {y: {0: 1}}), f'stacking ({a},{b}) on ({c},{d})')
                    ctx.step(3)
        if (a, b) != (c, d):
            x, y = T.pictures(a, b)[0], T.pictures(c, d)[0]
            ctx.raises(lambda: mkmor(a, b, {x: {0: 1}}) + mkmor(c, d, {y: {0: 1}}), f'adding ({a},{b}) and ({c},{d})')
            ctx.raises(lambda: mkmor(a, b, {x: {0: 1}}) - mkmor(c, d, {y: {0: 1}}), f'subtracting ({a},{b}) and ({c},{d})')
            ctx.raises(lambda: tl.TLMor(a, b, {mk(tl.TLDiag, c, d, y): RP.lpoly({0: 1})}), 'diagram of another type')
            ctx.raises(lambda: mkmor(a, b, {x: {0: 1}}).coefficient(mk(tl.TLDiag, c, d, y)), 'coefficient of a diagram of another type')
            ctx.step(4)
    ctx.fresh_states(1)
    ctx.trace()


def run_insert(ctx, chunk):
    a, b = chunk
    for o in T.matchings(a):
        for s in T.matchings(b):
            for i in range(a + 1):
                want = [None] * (a + b)
                up = lambda x: x if x < i else x + b
                for x, y in enumerate(o):
                    want[up(x)] = up(y)
                for x, y in enumerate(s):
                    want[i + x] = i + y
                eq(ctx, tuple(tl.insert(o, s, i)), tuple(want), f'insert({o}, {s}, {i})')
                ctx.n_states += 1
    ctx.trace()


# ------------------------------------------------------------------ linear combinations
def combos(pics, coeffs, terms):
    for k in range(terms + 1):
        for ps in itertools.combinations(pics, k):
            for cs in itertools.product(coeffs, repeat=k):
                yield dict(zip(ps, cs))


def run_unary_mor(ctx, chunk):
    top, bot, terms = chunk
    pics = T.pictures(top, bot)
    for t in combos(pics, COEFFS, terms):
        check_unary(ctx, top, bot, t)


def run_two(ctx, chunk):
    """Every combination of two of many diagrams, and of nearly all of them."""
    top, bot, lo, hi = chunk
    pics = T.pictures(top, bot)
    for p in pics[lo:hi]:
        for x in pics:
            if x != p:
                check_unary(ctx, top, bot, {p: {0: 1}, x: {-1: 2, 1: 1}})
    for pat in PATTERNS if lo % 3 == 0 else ():
        check_unary(ctx, top, bot, {x: pat(i) for i, x in enumerate(pics) if i != lo})


def check_unary(ctx, top, bot, t):
    pics = T.pictures(top, bot)
    m = mkmor(top, bot, t)
    what = lambda: f'{m!r}'
    eq(ctx, readmor(m), (top, bot, t), what)
    eq(ctx, bool(m.is_zero()), not t, lambda: f'is_zero of {m!r}')
    eq(ctx, {T.picture(top, bot, d.seq) for d in m.support()}, set(t), lambda: f'support of {m!r}')
    eq(ctx, {T.picture(top, bot, d.seq): RP.read(c) for d, c in m.pairs()}, t, lambda: f'pairs of {m!r}')
    for p in pics:
        eq(ctx, RP.read(m.coefficient(mk(tl.TLDiag, top, bot, p))), t.get(p, {}), lambda: f'coefficient in {m!r}')
    eq(ctx, readmor(m.flip()), (bot, top, {T.flip(p): RP.invert_v(c) for p, c in t.items()}), lambda: f'flip of {m!r}')
    eq(ctx, readmor(m.flip(twist_v=False)), (bot, top, {T.flip(p): c for p, c in t.items()}), lambda: f'untwisted flip of {m!r}')
    eq(ctx, readmor(-m), (top, bot, {p: RP.neg(c) for p, c in t.items()}), lambda: f'-{m!r}')
    for k in range(0, min(top, bot) + 2):
        eq(ctx, readmor(m.quotient(k)), (top, bot, {p: c for p, c in t.items() if T.through(p) >= k}), lambda: f'quotient({k}) of {m!r}')
    for s in (0, 1, -2, 3):
        want = (top, bot, clean({p: RP.scale(c, s) for p, c in t.items()}))
        eq(ctx, readmor(m * s), want, lambda: f'{m!r} * {s}')
        eq(ctx, readmor(s * m), want, lambda: f'{s} * {m!r}')
    for c0 in COEFFS + [{}]:
        want = (top, bot, clean({p: RP.mul(c, c0) for p, c in t.items()}))
        s = RP.lpoly(c0)
        eq(ctx, readmor(m * s), want, lambda: f'{m!r} * {s}')
        eq(ctx, readmor(s * m), want, lambda: f'{s} * {m!r}')
    if top == bot:
        one = {T.identity(top): {0: 1}}
        tr = {}
        for p, c in t.items():
            tr = RP.add(tr, RP.mul(c, RP.power(RP.LOOP, T.closure(p, top))))
        eq(ctx, RP.read(m.trace()), tr, lambda: f'trace of {m!r}')
        for s in (0, 1, -3):
            eq(ctx, readmor(m + s), (top, bot, mor_add(t, {T.identity(top): RP.clean({0: s})} if s else {})), lambda: f'{m!r} + {s}')
            eq(ctx, readmor(m - s), (top, bot, mor_add(t, {T.identity(top): RP.clean({0: -s})} if s else {})), lambda: f'{m!r} - {s}')
        for c0 in COEFFS:
            eq(ctx, readmor(m + RP.lpoly(c0)), (top, bot, mor_add(t, {T.identity(top): c0})), lambda: f'{m!r} + scalar')
            eq(ctx, readmor(m - RP.lpoly(c0)), (top, bot, mor_add(t, {T.identity(top): c0}, -1)), lambda: f'{m!r} - scalar')
        acc = one
        for k in range(0, 4 if len(t) < 3 else 3 if len(t) < 15 else 2):
            eq(ctx, readmor(m ** k), (top, bot, acc), lambda: f'{m!r} ** {k}')
            acc = mor_mul(acc, t, top)
        ctx.raises(lambda: m ** -1, 'negative power')
    else:
        ctx.raises(lambda: m ** 2, 'power of a non-square morphism')
        ctx.raises(lambda: m + 1, 'adding a scalar to a non-square morphism')
    eq(ctx, readmor(m), (top, bot, t), lambda: 'an operation changed its argument')
    ctx.n_states += 1
    ctx.trace()


def run_binary_mor(ctx, chunk):
    top, mid, bot, terms, lo, hi = chunk
    U = list(combos(T.pictures(top, mid), COEFFS[2:], terms))[lo:hi]
    L = list(combos(T.pictures(mid, bot), COEFFS[1:4:2], terms))
    Lm = [mkmor(mid, bot, b) for b in L]
    for a in U:
        A = mkmor(top, mid, a)
        for b, B in zip(L, Lm):
            eq(ctx, readmor(A * B), (top, bot, mor_mul(a, b, mid)), lambda: f'{A!r} * {B!r}')
        for p in T.pictures(mid, bot):
            D = mk(tl.TLDiag, mid, bot, p)
            eq(ctx, readmor(A * D), (top, bot, mor_mul(a, {p: {0: 1}}, mid)), lambda: f'{A!r} * {D!r}')
    ctx.fresh_states(len(U) * len(L))
    ctx.trace(len(U))


def run_sum_mor(ctx, chunk):
    top, bot, terms, lo, hi = chunk
    S = list(combos(T.pictures(top, bot), COEFFS[:3], terms))
    Sm = [mkmor(top, bot, b) for b in S]
    for a, A in list(zip(S, Sm))[lo:hi]:
        for b, B in zip(S, Sm):
            s = A + B
            want = mor_add(a, b)
            eq(ctx, readmor(s), (top, bot, want), lambda: f'{A!r} + {B!r}')
            d = A - B
            eq(ctx, readmor(d), (top, bot, mor_add(a, b, -1)), lambda: f'{A!r} - {B!r}')
            eq(ctx, (d.is_zero(), A == B), (a == b, a == b), lambda: f'{A!r} == {B!r}')
            eq(ctx, (readmor(A), readmor(B)), ((top, bot, a), (top, bot, b)), lambda: f'operands of {A!r} + {B!r} afterwards')
            eq(ctx, s == mkmor(top, bot, dict(reversed(list(want.items())))), True, lambda: f'equality of {s!r} with the same combination listed in another order')
    ctx.fresh_states((min(hi, len(S)) - lo) * len(S))
    ctx.trace()


# Coefficients with many terms, with great coefficients and exponents, and ones that vanish at small numbers.
WEIGHTY = [{0: -1, 1: 1}, {0: 1, 1: 1}, {0: -2, 1: 1}, {-1: -1, 1: 1}, {0: 2, 1: -3, 2: 1}, {0: 1, 1: 1, 2: 1}, {-2: 1, 0: -5, 2: 4}, {0: 10 ** 20}, {0: 2 ** 63, 1: -2 ** 63}, {-500: 1, 500: -1}, {4: 7},
           {i - 4: 1 for i in range(9)}, {i: i + 1 for i in range(17)}, {i - 30: (-1) ** i for i in range(33)}, {2 * i - 40: (i * i) % 7 - 3 or 1 for i in range(65)}, {i: 1 for i in range(130)}]


def run_weighty(ctx, chunk):
    """Combinations whose coefficients are any of the above: everything, against each other."""
    top, bot, i = chunk
    pics = T.pictures(top, bot)
    x = WEIGHTY[i]
    for y in WEIGHTY:
        for a in ({pics[0]: x}, {pics[-1]: x, pics[0]: y} if len(pics) > 1 else {pics[0]: y}):
            A = mkmor(top, bot, a)
            eq(ctx, bool(A.is_zero()), False, lambda: f'is_zero of {A!r}')
            eq(ctx, readmor(A.flip()), (bot, top, {T.flip(p): RP.invert_v(c) for p, c in a.items()}), lambda: f'flip of {A!r}')
            for k in range(min(top, bot) + 3):
                eq(ctx, readmor(A.quotient(k)), (top, bot, {p: c for p, c in a.items() if T.through(p) >= k}), lambda: f'quotient({k}) of {A!r}')
            s = RP.lpoly(y)
            want = (top, bot, clean({p: RP.mul(c, y) for p, c in a.items()}))
            eq(ctx, readmor(A * s), want, lambda: f'{A!r} * {s}')
            eq(ctx, readmor(s * A), want, lambda: f'{s} * {A!r}')
            for k in (10 ** 20, -1, 2 ** 31):
                eq(ctx, readmor(A * k), (top, bot, {p: RP.scale(c, k) for p, c in a.items()}), lambda: f'{A!r} * {k}')
            for b in ({pics[0]: y}, {pics[0]: RP.neg(x)}, {p: RP.neg(c) for p, c in a.items()}, {pics[-1]: y, pics[0]: x} if len(pics) > 1 else {pics[0]: x}):
                B = mkmor(top, bot, b)
                eq(ctx, readmor(A + B), (top, bot, mor_add(a, b)), lambda: f'{A!r} + {B!r}')
                D = A - B
                eq(ctx, readmor(D), (top, bot, mor_add(a, b, -1)), lambda: f'{A!r} - {B!r}')
                eq(ctx, (bool(D.is_zero()), A == B), (a == b, a == b), lambda: f'{A!r} == {B!r}')
                if top == bot:
                    eq(ctx, readmor(A * B), (top, bot, mor_mul(a, b, top)), lambda: f'{A!r} * {B!r}')
            if top == bot:
                tr = {}
                for p, c in a.items():
                    tr = RP.add(tr, RP.mul(c, RP.power(RP.LOOP, T.closure(p, top))))
                eq(ctx, RP.read(A.trace()), tr, lambda: f'trace of {A!r}')
                eq(ctx, readmor(A + s), (top, bot, mor_add(a, {T.identity(top): y})), lambda: f'{A!r} + scalar {s}')
                eq(ctx, readmor(A - s), (top, bot, mor_add(a, {T.identity(top): y}, -1)), lambda: f'{A!r} - scalar {s}')
            ctx.n_states += 1
    ctx.trace()


PATTERNS = [lambda i: {0: 1}, lambda i: {0: -1} if i % 2 else {0: 1}, lambda i: {i % 3 - 1: 1, 2: -1 - i % 2}]


def run_large(ctx, chunk):
    """Combinations of all (or all but a few) diagrams against combinations of none, one or all."""
    top, bot, k, skip = chunk
    pics = T.pictures(top, bot)
    a = {p: PATTERNS[k](i) for i, p in enumerate(pics) if i % skip or skip == 1}
    A = mkmor(top, bot, a)
    others = [{}] + [{p: c} for p in pics for c in COEFFS[:3]] + [{p: RP.neg(c)} for p, c in a.items()] + [{p: PATTERNS[j](i) for i, p in enumerate(pics)} for j in range(len(PATTERNS))] + [{p: RP.neg(PATTERNS[k](i)) for i, p in enumerate(pics) if i % 2} , a]
    for b in others:
        B = mkmor(top, bot, b) if b is not a else A
        for x, y, X, Y in ((a, b, A, B), (b, a, B, A)):
            s, d = X + Y, X - Y
            eq(ctx, readmor(s), (top, bot, mor_add(x, y)), lambda: f'{X!r} + {Y!r}')
            eq(ctx, readmor(d), (top, bot, mor_add(x, y, -1)), lambda: f'{X!r} - {Y!r}')
            eq(ctx, (X == Y, d.is_zero()), (x == y, x == y), lambda: f'{X!r} == {Y!r}')
            eq(ctx, readmor(s - Y), (top, bot, x), lambda: f'({X!r} + {Y!r}) - {Y!r}')
            eq(ctx, readmor(d + Y), (top, bot, x), lambda: f'({X!r} - {Y!r}) + {Y!r}')
            eq(ctx, readmor(A), (top, bot, a), lambda: f'an operand of {X!r} + {Y!r} afterwards')
            eq(ctx, readmor(B), (top, bot, b), lambda: f'an operand of {X!r} + {Y!r} afterwards')
            eq(ctx, readmor(s), (top, bot, mor_add(x, y)), lambda: f'the sum {X!r} + {Y!r} after further operations')
            eq(ctx, readmor(d), (top, bot, mor_add(x, y, -1)), lambda: f'the difference {X!r} - {Y!r} after further operations')
        if len(b) <= 1 and top == bot:
            eq(ctx, readmor(A * B), (top, bot, mor_mul(a, b, top)), lambda: f'{A!r} * {B!r}')
            eq(ctx, readmor(B * A), (top, bot, mor_mul(b, a, top)), lambda: f'{B!r} * {A!r}')
        ctx.fresh_states(2)
    # against every shape it can be stacked with: dense times dense
    for m in range(0, 5):
        if (bot + m) % 2 == 0:
            ps = T.pictures(bot, m)
            if len(ps) * len(pics) > 500:
                continue
            b = {p: PATTERNS[(k + 1) % 3](i) for i, p in enumerate(ps)}
            B = mkmor(bot, m, b)
            eq(ctx, readmor(A * B), (top, m, mor_mul(a, b, bot)), lambda: f'{A!r} * {B!r}')
            eq(ctx, (readmor(A), readmor(B)), ((top, bot, a), (bot, m, b)), lambda: f'operands of {A!r} * {B!r} afterwards')
            ctx.fresh_states(1)
    ctx.trace()


def run_wide(ctx, chunk):
    """Wide diagrams: every stacking of members of a pool of structured pictures, with their unary operations."""
    top, mid, bot = chunk
    ups, lows = T.wide_pool(top, mid), T.wide_pool(mid, bot)
    for p in ups:
        ctx.check(T.is_planar(top, mid, T.seq_of(top, mid, p)) if top + mid <= 40 else True, 'oracle self-check')
        d = mk(tl.TLDiag, top, mid, p)
        eq(ctx, rd(d), (top, mid, p), lambda: f'{d!r}')
        eq(ctx, rd(d.flip()), (mid, top, T.flip(p)), lambda: f'flip of {d!r}')
        eq(ctx, tl.through_strands(d), T.through(p), lambda: f'through strands of {d!r}')
        m = tl.TLMor.from_tldiag(d)
        for k in {T.through(p), T.through(p) + 1, max(T.through(p) - 1, 0)}:
            eq(ctx, readmor(m.quotient(k)), (top, mid, {p: {0: 1}} if T.through(p) >= k else {}), lambda: f'quotient({k}) of {d!r}')
        if top == mid:
            eq(ctx, RP.read(m.trace()), RP.power(RP.LOOP, T.closure(p, top)), lambda: f'trace of {d!r}')
    lowers = [(l, mk(tl.TLDiag, mid, bot, l), mk(tl.TLExtDiag, mid, bot, l)) for l in lows]
    for u in ups:
        U, UE = mk(tl.TLDiag, top, mid, u), mk(tl.TLExtDiag, top, mid, u)
        for l, L, LE in lowers:
            want, loops = T.stack(u, l, mid)
            what = lambda: f'{U!r} on top of {L!r}'
            d, b = U * L
            eq(ctx, (rd(d), b), ((top, bot, want), loops), what)
            x = UE.add_bubbles(1) * LE
            eq(ctx, (rd(x), x.bubbles), ((top, bot, want), loops + 1), lambda: f'{UE!r} on top of {LE!r}')
            m = tl.TLMor.from_tldiag(U) * tl.TLMor.from_tldiag(L)
            eq(ctx, readmor(m), (top, bot, {want: RP.power(RP.LOOP, loops)}), what)
            if mid <= 17:
                eq(ctx, rd(U @ L), (top + mid, mid + bot, T.beside(u, top, mid, l)), lambda: f'{U!r} beside {L!r}')
                y = UE @ LE
                eq(ctx, (rd(y), y.bubbles), ((top + mid, mid + bot, T.beside(u, top, mid, l)), 0), lambda: f'{UE!r} beside {LE!r}')
            ctx.outcome(loops)
            ctx.n_states += 1
    ctx.trace()
    ctx.sample({'top': top, 'mid': mid, 'bot': bot, 'upper diagrams': len(ups), 'lower diagrams': len(lows)})


def run_wide_mor(ctx, chunk):
    """Combinations of wide diagrams; high powers."""
    n, = chunk
    pool = T.wide_pool(n, n)
    one = T.identity(n)
    for i, p in enumerate(pool):
        q = pool[(i * 3 + 1) % len(pool)]
        t = {p: {0: 1}, q: {-1: 2, 3: -1}} if p != q else {p: {1: 1}}
        A = mkmor(n, n, t)
        tr = {}
        for r, c in t.items():
            tr = RP.add(tr, RP.mul(c, RP.power(RP.LOOP, T.closure(r, n))))
        eq(ctx, RP.read(A.trace()), tr, lambda: f'trace of {A!r}')
        for s in pool[::3]:
            b = {s: {0: 1}, one: {0: -1}} if s != one else {s: {2: 1}}
            B = mkmor(n, n, b)
            eq(ctx, readmor(A * B), (n, n, mor_mul(t, b, n)), lambda: f'{A!r} * {B!r}')
            eq(ctx, readmor(A - B), (n, n, clean(mor_add(t, b, -1))), lambda: f'{A!r} - {B!r}')
            ctx.n_states += 1
        ctx.trace()
    for k in (5, 9, 16, 17, 33):
        x = pool[k % len(pool)]
        t = {x: {0: 1}}
        acc = {one: {0: 1}}
        for _ in range(k):
            acc = mor_mul(acc, t, n)
        eq(ctx, readmor(mkmor(n, n, t) ** k), (n, n, acc), lambda: f'{mkmor(n, n, t)!r} ** {k}')
        t = {T.cupcap(k % (n - 1), n): {1: -1}, one: {0: 1}}
        acc = {one: {0: 1}}
        for _ in range(k):
            acc = mor_mul(acc, t, n)
        eq(ctx, readmor(mkmor(n, n, t) ** k), (n, n, acc), lambda: f'{mkmor(n, n, t)!r} ** {k}')


def families(tier):
    q = tier == 'quick'
    M = 6 if q else 7
    F = []
    ch = []
    for a in range(M + 1):
        for m in range(M + 1):
            for b in range(M + 1):
                if (a + m) % 2 or (m + b) % 2:
                    continue
                for lo, hi in slices(len(T.pictures(a, m)), 12):
                    ch.append([a, m, b, lo, hi])
    for a, m, b in [(0, 8, 0), (0, 10, 0), (2, 8, 0), (0, 8, 2), (1, 7, 1), (7, 1, 7), (0, 6, 6), (6, 6, 0)]:
        for lo, hi in slices(len(T.pictures(a, m)), 12):
            ch.append([a, m, b, lo, hi])
    ch.sort()
    F.append(Family('stacking', ch, run_stack, 'every pair of composable diagrams, three diagram types'))
    shapes = [(a, b) for a in range(M + 2) for b in range(M + 2) if (a + b) % 2 == 0 and a + b <= 2 * M - 2]
    F.append(Family('beside', [[list(s), [list(x) for x in shapes if sum(x) + sum(s) <= 2 * M + 2]] for s in shapes], run_beside, 'every pair of diagrams side by side'))
    F.append(Family('bubbles', [[a, b] for a in (1, 2, 50) for b in (1, 3)], run_bubbles, 'extended diagrams with every pair of loop counts'))
    F.append(Family('single', [[a, b] for a in range(10) for b in range(10) if (a + b) % 2 == 0 and a + b <= (12 if q else 14)], run_single,
                    'flip, through strands, closure, listings for every diagram'))
    F.append(Family('special', [[n] for n in range(0, 8)], run_special, 'identities, generators, refusals'))
    F.append(Family('insert', [[a, b] for a in range(0, 9, 2) for b in range(0, 9, 2)], run_insert, 'insertion of matchings at every point'))
    ch = [[0, 0, 1], [1, 1, 1], [2, 0, 1], [0, 2, 1], [2, 2, 2], [3, 1, 2], [1, 3, 2], [4, 0, 2], [0, 4, 2], [3, 3, 2], [2, 4, 2], [4, 2, 2], [5, 1, 2], [4, 4, 1]]
    if not q:
        ch += [[3, 3, 3], [2, 4, 3], [4, 2, 3], [4, 4, 2], [6, 2, 2], [5, 3, 2]]
    F.append(Family('combinations', ch, run_unary_mor, 'every combination of few diagrams: unary operations, scalars, powers, trace, quotient'))
    ch = [[a, b, lo, hi] for a, b in [(4, 4), (5, 5), (6, 2), (0, 8), (3, 5)] + ([] if q else [(5, 3), (2, 8), (0, 10), (6, 4)]) for lo, hi in slices(len(T.pictures(a, b)), 3)]
    F.append(Family('pairs', ch, run_two, 'every combination of two diagrams of larger shapes, and of all but one: unary operations'))
    ch = []
    for a, m, b, k in [(1, 1, 1, 1), (2, 2, 2, 2), (2, 2, 0, 2), (0, 2, 2, 2), (0, 4, 0, 2), (3, 1, 3, 2), (1, 3, 1, 2), (3, 3, 1, 2), (1, 3, 3, 2), (3, 3, 3, 2), (2, 4, 2, 2), (4, 2, 4, 1)] \
            + ([] if q else [(4, 4, 4, 1), (4, 4, 2, 2), (3, 3, 3, 3), (5, 3, 5, 1)]):
        n = len(list(combos(T.pictures(a, m), COEFFS[2:], k)))
        ch += [[a, m, b, k, lo, hi] for lo, hi in slices(n, 25)]
    F.append(Family('products', ch, run_binary_mor, 'every product of two small combinations'))
    ch = []
    for a, b, k in [(2, 2, 2), (3, 1, 2), (0, 4, 2), (3, 3, 2), (4, 2, 1)] + ([] if q else [(3, 3, 3), (4, 2, 2)]):
        n = len(list(combos(T.pictures(a, b), COEFFS[:3], k)))
        ch += [[a, b, k, lo, hi] for lo, hi in slices(n, 60)]
    F.append(Family('sums', ch, run_sum_mor, 'every sum and difference of two small combinations'))
    F.append(Family('weighty', [[a, b, i] for a, b in [(1, 1), (2, 2), (0, 4), (3, 1), (3, 3)] for i in range(len(WEIGHTY))], run_weighty, 'long, great and vanishing coefficients against each other'))
    shapes = [(1, 1), (2, 2), (0, 4), (3, 1), (3, 3), (2, 4), (4, 4), (6, 2), (0, 8)] + ([] if q else [(5, 3), (5, 5), (3, 7)])
    F.append(Family('large', [[a, b, k, skip] for a, b in shapes for k in range(len(PATTERNS)) for skip in ((1, 3) if q else (1, 2, 3, 5))], run_large, 'combinations of nearly all diagrams against none, one or all'))
    ch = [[a, m, b] for m in ((8, 9, 10, 11, 12, 15, 16, 17, 18, 20, 32, 33, 34) if q else (8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34, 48, 63, 64, 65, 66, 130))
          for a, b in ((m, m), (m % 2, m % 2), (m, m % 2), (m % 2, m), (m, m - 2), (m - 2, m), (m // 2 + (m - m // 2) % 2, m))]
    F.append(Family('wide', sorted(ch, key=lambda c: -c[1]), run_wide, 'every stacking and juxtaposition of structured wide diagrams'))
    F.append(Family('wide_combinations', [[n] for n in ((7, 8, 9, 10, 12, 16, 17) if q else (7, 8, 9, 10, 11, 12, 13, 16, 17, 24, 32, 33))], run_wide_mor, 'combinations and powers of wide diagrams'))
    return F

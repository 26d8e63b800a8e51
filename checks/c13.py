"""C13: packed polynomial tensors against sparse polynomial matrices."""
import itertools
from fractions import Fraction

import numpy as np

from peyl import LPoly, Matrix, polymat
from vlib import ref_poly as RP
from vlib.core import Family, slices

PROPERTY = 'C13'
ASSUMPTIONS = ['coefficients fit the integer type of the tensor', 'tensors have at least one degree slice']


def one(A):
    """A single (I, J, D) tensor as rows of sparse polynomials."""
    I, J, D = A.shape
    return [[{d: int(A[i, j, d]) for d in range(D) if A[i, j, d]} for j in range(J)] for i in range(I)]


def read(A):
    """{batch index: rows of sparse polynomials}."""
    return {ix: one(A[ix]) for ix in np.ndindex(A.shape[:-3])}


class Frozen:
    """Watches arrays for changes."""

    def __init__(self, *arrays):
        self.arrays = [(a, a.copy(), a.dtype, a.shape) for a in arrays]

    def check(self, ctx, what):
        for a, c, dt, sh in self.arrays:
            if a.dtype != dt or a.shape != sh or not np.array_equal(a, c):
                ctx.fail(f'{what() if callable(what) else what} changed its input from\n{c!r}\nto\n{a!r}')


def eqv(ctx, got, want, what):
    if got != want:
        ctx.fail(f'{what() if callable(what) else what} is {got!r}, should be {want!r}')
    ctx.transitions += 1


def show(A):
    return f'array({A.tolist()}, {A.dtype})'


def variants(A):
    """The same values with other memory layouts."""
    yield A
    yield np.asfortranarray(A)
    big = np.full(A.shape[:-1] + (A.shape[-1] + 2,), 7, dtype=A.dtype)
    big[..., 1:-1] = A
    yield big[..., 1:-1]


# ------------------------------------------------------------------ multiplication
def bshape(a, b):
    r = []
    for i in range(1, max(len(a), len(b)) + 1):
        x = a[-i] if i <= len(a) else 1
        y = b[-i] if i <= len(b) else 1
        if x != y and 1 not in (x, y):
            return None
        r.append(y if x == 1 else x)
    return tuple(reversed(r))


def bidx(ix, shape):
    k = len(shape)
    return tuple(0 if s == 1 else i for i, s in zip(ix[len(ix) - k:], shape))


def check_mul(ctx, A, B, quots=(None,)):
    a, b = read(A), read(B)
    pa, pb = A.shape[:-3], B.shape[:-3]
    pre = bshape(pa, pb)
    fz = Frozen(A, B)
    full = {}
    cache = {}
    for ix in np.ndindex(pre):
        k = (bidx(ix, pa), bidx(ix, pb))
        if k not in cache:
            cache[k] = RP.mat_mul(a[k[0]], b[k[1]])
        full[ix] = cache[k]
    for q in quots:
        what = lambda: f'mul({show(A)}, {show(B)}, quotdeg={q})'
        P = polymat.mul(A, B) if q is None else polymat.mul(A, B, q)
        ctx.check(P.shape[:-1] == pre + (A.shape[-3], B.shape[-2]), lambda: f'{what()} has shape {P.shape}')
        if q is not None:
            ctx.check(P.shape[-1] == q, lambda: f'{what()} has shape {P.shape}')
        want = full if q is None else {ix: [[{e: c for e, c in x.items() if e < q} for x in row] for row in M] for ix, M in full.items()}
        eqv(ctx, read(P), want, what)
        ctx.check(P.dtype == np.result_type(A, B), lambda: f'{what()} has type {P.dtype}')
        fz.check(ctx, what)
        ctx.check(not np.shares_memory(P, A) and not np.shares_memory(P, B), lambda: f'{what()} shares memory with an input')


def fill(shape, seed, dtype):
    """A deterministic tensor with varied entries, zero blocks and signs."""
    A = np.zeros(shape, dtype=dtype)
    for k, ix in enumerate(np.ndindex(shape)):
        A[ix] = ((k * 7 + seed * 3) % 11) - 5 if (k + seed) % 4 else 0
    return A


def run_mul_small(ctx, chunk):
    D, E, lo, hi = chunk
    vals = (-1, 0, 2)
    Bs = [np.array(e).reshape(1, 1, E) for e in itertools.product(vals, repeat=E)]
    for e in itertools.islice(itertools.product(vals, repeat=D), lo, hi):
        A = np.array(e).reshape(1, 1, D)
        for B in Bs:
            check_mul(ctx, A, B, [None] + list(range(0, D + E + 1)))
            ctx.n_states += 1
    ctx.trace()


def run_mul_shapes(ctx, chunk):
    pa, pb, dt = chunk
    pa, pb = tuple(pa), tuple(pb)
    ok = bshape(pa, pb) is not None
    for I, J, K in itertools.product((1, 2, 3), repeat=3):
        for D, E in itertools.product((1, 2, 3), repeat=2):
            A, B = fill(pa + (I, J, D), I + D, dt), fill(pb + (J, K, E), K + E + 5, dt)
            if ok:
                for X in variants(A):
                    check_mul(ctx, X, B, (None, 2))
                for Y in variants(B):
                    check_mul(ctx, A, Y, (None, 1, D + E + 1))
            else:
                ctx.raises(lambda: polymat.mul(A, B), f'product of batches {pa} and {pb}')
                ctx.step()
            for J2 in (1, 2, 3):
                if J2 != J:
                    ctx.raises(lambda: polymat.mul(A, fill(pb + (J2, K, E), 1, dt)), f'product of {I}x{J} and {J2}x{K}')
                    ctx.step()
            ctx.n_states += 1
    A = fill((2, 2, 2), 0, dt)
    ctx.raises(lambda: polymat.mul(A, A, -1), 'quotdeg=-1')
    ctx.raises(lambda: polymat.mul(A, A[0]), 'tensor with two axes')
    ctx.trace()


# ------------------------------------------------------------------ single tensors and batches: shape operations, statistics
def rank(rows):
    M = [[Fraction(x) for x in r] for r in rows]
    rk = 0
    for c in range(len(M[0]) if M else 0):
        p = next((i for i in range(rk, len(M)) if M[i][c]), None)
        if p is None:
            continue
        M[rk], M[p] = M[p], M[rk]
        for i in range(rk + 1, len(M)):
            f = M[i][c] / M[rk][c]
            M[i] = [x - f * y for x, y in zip(M[i], M[rk])]
        rk += 1
    return rk


def arr(x, ix):
    """Element ix of a statistic (a scalar for empty prefixes)."""
    x = np.asarray(x)
    return x[ix] if x.ndim else x[()]


def check_tensor(ctx, A):
    pre, (I, J, D) = A.shape[:-3], A.shape[-3:]
    R = read(A)
    fz = Frozen(A)
    ixs = list(R)
    val = {ix: RP.mat_val(M) for ix, M in R.items()}
    deg = {ix: RP.mat_deg(M) for ix, M in R.items()}
    nz = [ix for ix in ixs if val[ix] is not None]
    zero = len(nz) < len(ixs)
    name = lambda f: (lambda: f'{f}({show(A)})')

    def stat(f, want, fname, only=ixs):
        got = f(A)
        ctx.check(np.shape(got) == pre, lambda: f'{fname}({show(A)}) has shape {np.shape(got)}')
        for ix in only:
            g = arr(got, ix)
            if not g == want[ix]:
                ctx.fail(f'{fname}({show(A)})[{ix}] is {g}, should be {want[ix]}')
            ctx.transitions += 1
        fz.check(ctx, name(fname))

    stat(polymat.projlen, {ix: 0 if val[ix] is None else deg[ix] - val[ix] + 1 for ix in ixs}, 'projlen')
    stat(polymat.efflen, {ix: 0 if val[ix] is None else deg[ix] - val[ix] for ix in ixs}, 'efflen')
    stat(polymat.nz_terms, {ix: sum(len(x) for row in R[ix] for x in row) for ix in ixs}, 'nz_terms')
    stat(polymat.degmax, deg, 'degmax', nz)
    stat(polymat.valmin, val, 'valmin', nz)
    if nz:
        stat(polymat.rhogap, {ix: Fraction(deg[ix] - val[ix], 2) for ix in nz}, 'rhogap', nz)
    # trimming
    top = max([deg[ix] for ix in nz], default=-1) + 1
    low = min([val[ix] for ix in nz], default=D)
    T = polymat.trim(A)
    eqv(ctx, (T.shape, read(T)), (pre + (I, J, top), R), name('trim'))
    fz.check(ctx, name('trim'))
    if nz:
        s, T = polymat.trim_left(A)
        eqv(ctx, (int(s), T.shape, read(T)), (low, pre + (I, J, D - low), {ix: [[RP.shift(x, -low) for x in row] for row in M] for ix, M in R.items()}), name('trim_left'))
        fz.check(ctx, name('trim_left'))
    else:
        s, T = polymat.trim_left(A)
        eqv(ctx, (T.shape, read(T)), (pre + (I, J, 0), R), name('trim_left'))
        fz.check(ctx, name('trim_left'))
    for w in (D, D + 1, D + 3):
        Z = polymat.zeropad(A, w)
        eqv(ctx, (Z.shape, Z.dtype, read(Z)), (pre + (I, J, w), A.dtype, R), lambda: f'zeropad({show(A)}, {w})')
    if D > 0:
        ctx.raises(lambda: polymat.zeropad(A, D - 1), f'zeropad to a smaller width')
    fz.check(ctx, name('zeropad'))
    # projectivising
    if zero:
        ctx.raises(lambda: polymat.projectivise(A), f'projectivise({show(A)})')
        ctx.raises(lambda: polymat.proj_starts_ends(A), f'proj_starts_ends({show(A)})')
        ctx.step(2)
    else:
        s, e = polymat.proj_starts_ends(A)
        ctx.check(np.shape(s) == pre and np.shape(e) == pre, name('proj_starts_ends'))
        eqv(ctx, {ix: (int(arr(s, ix)), int(arr(e, ix))) for ix in ixs}, {ix: (val[ix], deg[ix] + 1) for ix in ixs}, name('proj_starts_ends'))
        P = polymat.projectivise(A)
        w = max(deg[ix] - val[ix] + 1 for ix in ixs)
        eqv(ctx, (P.shape, P.dtype, read(P)), (pre + (I, J, w), A.dtype, {ix: RP.mat_proj(M) for ix, M in R.items()}), name('projectivise'))
        fz.check(ctx, name('projectivise'))
        Q = polymat.projectivise(P)
        eqv(ctx, read(Q), read(P), name('projectivise twice'))
        for k in range(0, w + 2):
            want = {ix: sum(rank([[x.get(d, 0) for x in row] for row in RP.mat_proj(R[ix])]) for d in range(k)) for ix in ixs}
            got = np.broadcast_to(polymat.projrank(P, k), pre)
            for ix in ixs:
                eqv(ctx, int(arr(got, ix)), want[ix], lambda: f'projrank({show(P)}, {k})[{ix}]')
        if any(val.values()):
            ctx.raises(lambda: polymat.projrank(A, 1), f'projrank({show(A)}, 1)')
        ctx.raises(lambda: polymat.projrank(P, -1), 'projrank with -1 terms')
    # conversion
    if not pre:
        M = polymat.to_matrix(A)
        eqv(ctx, RP.read_matrix(M), R[()], name('to_matrix'))
        ctx.check((M.nrows, M.ncols) == (I, J), name('to_matrix'))
        B = polymat.from_matrix(M, dtype=A.dtype)
        eqv(ctx, (B.shape[:2], read(B)), ((I, J), R), name('from_matrix(to_matrix)'))
        fz.check(ctx, name('to_matrix'))
    ctx.n_states += 1
    ctx.outcome((len(pre), zero))


def run_all_tensors(ctx, chunk):
    shape, vals, lo, hi = chunk
    size = int(np.prod(shape))
    for e in itertools.islice(itertools.product(vals, repeat=size), lo, hi):
        check_tensor(ctx, np.array(e, dtype=np.int64).reshape(shape))
        ctx.trace()


def run_batches(ctx, chunk):
    """Batches assembled from every choice of single tensors."""
    pre, shape, vals, lo, hi, dt = chunk
    singles = [np.array(e, dtype=dt).reshape(shape) for e in itertools.product(vals, repeat=int(np.prod(shape)))]
    n = int(np.prod(pre))
    for combo in itertools.islice(itertools.product(singles, repeat=n), lo, hi):
        A = np.array(combo, dtype=dt).reshape(tuple(pre) + tuple(shape))
        check_tensor(ctx, A)
    for X in variants(A):
        check_tensor(ctx, X)
    ctx.trace()


# ------------------------------------------------------------------ joining
def widths(maxw, vals):
    return [np.array(e).reshape(1, 1, k) for k in range(1, maxw + 1) for e in itertools.product(vals, repeat=k)]


def run_pack(ctx, chunk):
    maxw, count, lo, hi = chunk
    S = widths(maxw, (0, 1, -2))
    for combo in itertools.islice(itertools.product(S, repeat=count), lo, hi):
        fz = Frozen(*combo)
        for conv in (list, tuple):
            P = polymat.pack(conv(combo))
            what = lambda: f'pack({[show(a) for a in combo]})'
            ctx.check(P.shape[:3] == (count, 1, 1), what)
            eqv(ctx, read(P), {(i,): one(a) for i, a in enumerate(combo)}, what)
        fz.check(ctx, what)
        four = [a[None] for a in combo] if count < 3 else [np.concatenate([combo[0], combo[0]])[:, None], *[a[None] for a in combo[1:]]]
        fz = Frozen(*four)
        C = polymat.concatenate(four)
        want, k = {}, 0
        for a in four:
            for i in range(a.shape[0]):
                want[(k,)] = one(a[i])
                k += 1
        what = lambda: f'concatenate({[show(a) for a in four]})'
        ctx.check(C.shape[:3] == (k, 1, 1), what)
        eqv(ctx, read(C), want, what)
        fz.check(ctx, what)
        ctx.n_states += 1
    ctx.trace()


def run_join_shapes(ctx, chunk):
    dt, = chunk
    ctx.raises(lambda: polymat.pack([]), 'pack([])')
    C = polymat.concatenate([])
    eqv(ctx, C.shape[0], 0, 'concatenate([])')
    shapes = [(I, J) for I in (1, 2, 3) for J in (1, 2, 3)]
    for s in shapes:
        for D1, D2, D3 in itertools.product((1, 2, 4), repeat=3):
            As = [fill(s + (D,), k, dt) for k, D in enumerate((D1, D2, D3))]
            fz = Frozen(*As)
            for order in itertools.permutations(range(3)):
                P = polymat.pack([As[i] for i in order])
                ctx.check(P.dtype == As[0].dtype, 'pack changes the type')
                eqv(ctx, read(P), {(k,): one(As[i]) for k, i in enumerate(order)}, f'pack of shapes {s} widths {D1, D2, D3}')
                Cs = [np.array([As[i]] * (k + 1)) for k, i in enumerate(order)]
                C = polymat.concatenate(Cs)
                eqv(ctx, [M for M in read(C).values()], [one(As[i]) for k, i in enumerate(order) for _ in range(k + 1)], 'concatenate')
                ctx.check(C.dtype == As[0].dtype, 'concatenate changes the type')
            fz.check(ctx, 'pack')
            ctx.n_states += 1
        for t in shapes:
            if s != t:
                ctx.raises(lambda: polymat.pack([fill(s + (2,), 1, dt), fill(t + (2,), 2, dt)]), f'packing shapes {s} and {t}')
                ctx.raises(lambda: polymat.concatenate([fill((2,) + s + (2,), 1, dt), fill((1,) + t + (2,), 2, dt)]), f'concatenating shapes {s} and {t}')
                ctx.step(2)
    ctx.raises(lambda: polymat.pack([fill((2, 2), 1, dt)]), 'packing tensors with two axes')
    ctx.raises(lambda: polymat.concatenate([fill((2, 2, 2), 1, dt)]), 'concatenating tensors with three axes')
    ctx.trace()


def run_mixed(ctx, chunk):
    """Operands of different widths: nothing may be cut down to the narrower of them."""
    d1, d2 = chunk
    top = {'int8': 100, 'int16': 30000, 'int32': 2 ** 31 - 5, 'int64': 2 ** 40 + 3, 'object': 10 ** 25}
    def tensor(shape, dt, k):
        A = fill(shape, k, dt)
        A[(0,) * len(shape)] = top[dt]
        return A
    for D, E in itertools.product((1, 2, 3), repeat=2):
        for I in (1, 2):
            A, B = tensor((I, I, D), d1, D), tensor((I, I, E), d2, E + 4)
            unit = fill((I, I, D), 0, d1) * 0
            unit[0, 0, 0], unit[I - 1, 0, D - 1] = 1, 1
            check_mul(ctx, unit, B, (None, 1, D + E))
            for X in (A, B), (B, A), (A, B, A), (A, A, B), (B, A, A):
                fz = Frozen(*X)
                P = polymat.pack(X)
                what = lambda: f'pack({[show(a) for a in X]})'
                eqv(ctx, read(P), {(i,): one(a) for i, a in enumerate(X)}, what)
                C = polymat.concatenate([a[None] for a in X])
                eqv(ctx, read(C), {(i,): one(a) for i, a in enumerate(X)}, lambda: f'concatenate({[show(a) for a in X]})')
                fz.check(ctx, what)
            ctx.n_states += 1
    ctx.trace()


SIZES = (1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129)


def big(shape, seed, dt):
    """Varied entries whose products and their sums still fit (about 2^24 each)."""
    A = np.zeros(shape, dtype=dt)
    x = 12345 + seed * 7919
    for ix in np.ndindex(shape):
        x = (x * 1103515245 + 12345) % 2 ** 31
        A[ix] = 0 if x % 5 == 0 else (x >> 7) % (2 ** 25) - 2 ** 24
    return A


def run_wide(ctx, chunk):
    """High degrees: products, statistics and conversions."""
    D, = chunk
    for E in SIZES if D != 257 else (1, 2, 257):
        check_mul(ctx, big((1, 1, D), 1, 'int64'), big((1, 1, E), 2, 'int64'), (None, D) if D < 100 else (None,))
        ctx.n_states += 1
    check_mul(ctx, big((2, 2, D), 3, 'int64'), big((2, 2, 3), 4, 'int64'), (None, 2))
    for lo in sorted({0, 1, D // 2, D - 1}):
        for hi in sorted({lo + 1, D - 1, D}):
            if lo < hi <= D:
                A = np.zeros((2, 2, D), dtype='int64')
                A[1, 0, lo], A[0, 1, hi - 1] = -3, 2 ** 40
                check_tensor(ctx, A)
                B = np.zeros((2, 2, 2, D), dtype='int64')
                B[0] = A
                B[1, 0, 0, D - 1 - lo] = 1
                check_tensor(ctx, B)
    ctx.trace()


def run_deep(ctx, chunk):
    """Long batches: every element is treated on its own."""
    L, = chunk
    A = np.zeros((L, 1, 2, 6), dtype='int64')
    for i in range(L):
        lo = (i * i + i // 7) % 5
        A[i, 0, i % 2, lo] = i + 1
        A[i, 0, (i // 3) % 2, lo + (i * 5 + i // 11) % (6 - lo)] -= 3 * i + 2
    A[L - 1] = 0
    A[L - 1, 0, 1, 5] = -1
    check_tensor(ctx, A)
    B = np.array(fill((2, 2, 3), 5, 'int64'))
    check_mul(ctx, A, B)
    eqv(ctx, read(polymat.pack(list(A))), read(A), f'pack of {L} tensors')
    for cut in sorted({1, L // 2, L - 1} - {0}):
        eqv(ctx, read(polymat.concatenate([A[:cut], A[cut:]])), read(A), f'concatenate of {cut} and {L - cut} tensors')
    eqv(ctx, read(polymat.concatenate([A[i:i + 1] for i in range(L)])), read(A), f'concatenate of {L} tensors')
    ctx.trace()


def run_square(ctx, chunk):
    """Matrices of many rows."""
    n, = chunk
    A, B = fill((n, n, 3), 1, 'int64'), fill((n, n, 2), 2, 'int64')
    check_mul(ctx, A, B, (None, 2))
    check_mul(ctx, A[None], np.array([B, B[:, ::-1]]))
    check_mul(ctx, A[:1], B[:, :1])
    check_tensor(ctx, A)
    ctx.trace()


def run_from_matrix(ctx, chunk):
    """Laurent polynomial and integer matrices to tensors, with and without shifting."""
    r, c, lo, hi = chunk
    alpha = [{}, {0: 1}, {1: -2}, {-1: 3}, {-2: 1, 1: -1}, {2: 1, 3: 5}]
    for e in itertools.islice(itertools.product(alpha, repeat=r * c), lo, hi):
        rows = [[e[i * c + j] for j in range(c)] for i in range(r)]
        M = Matrix(r, c, tuple(map(RP.lpoly, e)))
        v = RP.mat_val(rows)
        for dt in (np.int32, np.int64):
            what = lambda: f'from_matrix({M!r}, dtype={dt.__name__})'
            if v is not None and v < 0:
                ctx.raises(lambda: polymat.from_matrix(M, dtype=dt), what())
                P = polymat.from_matrix(M, proj=True, dtype=dt)
                eqv(ctx, one(P), [[RP.shift(x, -v) for x in row] for row in rows], what)
                ctx.check(P.dtype == dt, what)
            else:
                for P in (polymat.from_matrix(M, dtype=dt), polymat.from_matrix(M, proj=True, dtype=dt)):
                    eqv(ctx, (P.shape[:2], one(P)), ((r, c), rows), what)
        eqv(ctx, RP.read_matrix(M), rows, 'from_matrix changed its argument')
        ctx.n_states += 1
    for e in itertools.islice(itertools.product((-1, 0, 3), repeat=r * c), lo, hi):
        rows = [[RP.clean({0: e[i * c + j]}) for j in range(c)] for i in range(r)]
        P = polymat.from_matrix(Matrix(r, c, tuple(e)))
        eqv(ctx, (P.shape[:2], one(P)), ((r, c), rows), f'from_matrix of integers {e}')
        ctx.n_states += 1
    ctx.trace()


def run_onward(ctx, chunk):
    """Matrices unpacked from tensors are ordinary matrices: whatever is computed with them afterwards is exact."""
    dt, lo, hi = chunk
    top = int(np.iinfo(dt).max)
    vals = (0, 1, -1, top, -top, top // 2 + 1, 7) if np.iinfo(dt).min < 0 else (0, 1, 2, top, top - 1, top // 2 + 1, 7)
    for (r, c, D), code in itertools.islice(itertools.product([(1, 1, 1), (1, 1, 3), (2, 2, 2), (3, 3, 1), (2, 3, 2), (1, 4, 2), (4, 4, 3)], range(24)), lo, hi):
        A = np.array([vals[(code * 5 + i * (code % 6 + 1) + i * i) % 7] for i in range(r * c * D)], dtype=dt).reshape((r, c, D))
        rows = one(A)
        M = polymat.to_matrix(A)
        what = lambda s: lambda: f'{s}, where M = to_matrix({show(A)}),'
        T = M.transpose()
        eqv(ctx, RP.read_matrix(M * T), RP.mat_mul(rows, [list(x) for x in zip(*rows)]), what('M times its transpose'))
        big = [[RP.scale(x, 2 ** 40) for x in row] for row in rows]
        B = M * 2 ** 40
        eqv(ctx, RP.read_matrix(B), big, what('M * 2^40'))
        eqv(ctx, RP.read_matrix(B * (T * 2 ** 40)), RP.mat_mul(big, [list(x) for x in zip(*big)]), what('(M * 2^40)(M^T * 2^40)'))
        for i, j in np.ndindex(r, c):
            x, d = M[i, j], rows[i][j]
            eqv(ctx, RP.read(x + x + x), RP.scale(d, 3), what(f'three times entry {i}, {j} of M'))
            eqv(ctx, RP.read(x ** 5), RP.power(d, 5), what(f'fifth power of entry {i}, {j} of M'))
            eqv(ctx, RP.read(x.map(lambda k: k * 3 + 1)), RP.clean({e: d.get(e, 0) * 3 + 1 for e in range(min(d), max(d) + 1)}) if d else {}, what(f'entry {i}, {j} of M with its coefficients changed'))
            eqv(ctx, x.evaluate(10 ** 9), sum(k * 10 ** (9 * e) for e, k in d.items()), what(f'entry {i}, {j} of M at 10^9'))
        if r == c:
            want = RP.mat_id(r)
            for k in range(6):
                eqv(ctx, RP.read_matrix(M ** k), want, what(f'M^{k}'))
                want = RP.mat_mul(want, rows)
            tr = {}
            for i in range(r):
                tr = RP.add(tr, rows[i][i])
            eqv(ctx, RP.read(LPoly.coerce(M.trace())), tr, what('trace of M'))
        ctx.n_states += 1
    ctx.trace()


SHAPES = [(2, 3), (3, 2), (1, 7), (7, 1), (4, 4), (4, 5), (5, 4), (5, 5), (1, 17), (17, 1), (6, 6), (3, 11), (8, 8), (9, 7)]


def run_uneven(ctx, chunk):
    """One entry of a great degree, one very low, one long, each at every place in turn among short ones."""
    r, c, dt = chunk
    n = r * c
    odd = [{17: 3}, {-6: -2}, {i: i + 1 for i in range(9)}, {-3: 1, 12: 1}]
    for base in ({}, {0: 1}, {2: -1, 3: 4}):
        for k in range(n):
            e = [dict(base) for _ in range(n)]
            for j, x in enumerate(odd):
                e[(k + j * 3) % n] = x
            for e in ([e[i] if min(e[i], default=0) >= 0 else {} for i in range(n)], e):
                rows = [[e[i * c + j] for j in range(c)] for i in range(r)]
                M = Matrix(r, c, tuple(map(RP.lpoly, e)))
                v = RP.mat_val(rows)
                what = lambda: f'from_matrix({M!r}, dtype={dt})'
                if v is not None and v < 0:
                    ctx.raises(lambda: polymat.from_matrix(M, dtype=np.dtype(dt)), what())
                    P = polymat.from_matrix(M, proj=True, dtype=np.dtype(dt))
                    eqv(ctx, (P.shape[:2], one(P)), ((r, c), [[RP.shift(x, -v) for x in row] for row in rows]), what)
                else:
                    P = polymat.from_matrix(M, dtype=np.dtype(dt))
                    eqv(ctx, (P.shape[:2], one(P)), ((r, c), rows), what)
                    eqv(ctx, RP.read_matrix(polymat.to_matrix(P)), rows, lambda: f'to_matrix of {what()}')
                ctx.n_states += 1
    ctx.trace()


def run_heavy(ctx, chunk):
    """Products of many and of large tensors whose entries come near the greatest the type holds."""
    L, I, J, K, D, E, dt, flat = chunk
    bits = {'int32': 31, 'int64': 63}[dt] - 1 - (J * min(D, E)).bit_length()
    ba, bb = bits - bits // 2, bits // 2
    def tensor(shape, bits, seed):
        x = seed * 7919 + 12345
        A = np.zeros(shape, dtype=dt)
        for ix in np.ndindex(shape):
            x = (x * 6364136223846793005 + 1442695040888963407) % 2 ** 64
            A[ix] = ((x >> 20) % 2 ** (bits + 1)) - 2 ** bits + 1 if x >> 61 else 0
        return A
    A = tensor((L, I, J, D), ba, 1)
    B = tensor((J, K, E) if flat else (L, J, K, E), bb, 2)
    check_mul(ctx, A, B, (None, max(1, (D + E) // 2)))
    ctx.n_states += 1
    ctx.trace()


def run_special(ctx, chunk):
    n, = chunk
    E = polymat.eye(n)
    eqv(ctx, (E.shape, one(E)), ((n, n, 1), RP.mat_id(n)), f'eye({n})')
    for s in range(n - 1):
        G = polymat.burau_generator_v2(n, s)
        want = RP.mat_id(n - 1)
        want[s] = [{2: -1} if j == s else {1: -1} if abs(j - s) == 1 else {} for j in range(n - 1)]
        eqv(ctx, one(G), want, f'burau_generator_v2({n}, {s})')
    for s in (-1, n - 1, n):
        ctx.raises(lambda: polymat.burau_generator_v2(n, s), f'burau_generator_v2({n}, {s})')
    ctx.raises(lambda: polymat.to_matrix(fill((1, 2, 2, 2), 0, np.int64)), 'to_matrix of a batch')
    ctx.fresh_states(1)
    ctx.trace()


def families(tier):
    q = tier == 'quick'
    F = []
    ch = []
    for D in (1, 2, 3):
        for E in (1, 2, 3):
            ch += [[D, E, lo, hi] for lo, hi in slices(3 ** D, 5)]
    F.append(Family('mul_small', ch, run_mul_small, '1 x 1 polynomial products over a small alphabet with every truncation'))
    P = [[], [1], [2], [3], [2, 1], [1, 3], [2, 3], [3, 2]] + ([] if q else [[2, 2, 2], [1, 1, 2]])
    F.append(Family('mul_shapes', [[a, b, dt] for a in P for b in P for dt in ('int64', 'int32')], run_mul_shapes, 'matrix shapes x widths x batch broadcasts x memory layouts'))
    ch = []
    for shape, vals in [([1, 1, 1], (-1, 0, 2)), ([1, 1, 4], (-1, 0, 2)), ([2, 1, 3], (-1, 0, 1)), ([1, 2, 3], (-1, 0, 1)), ([2, 2, 2], (-1, 0, 1)), ([1, 1, 6], (0, 1))] \
            + ([] if q else [([2, 2, 3], (0, 1, -1)), ([3, 3, 1], (0, 1, -1)), ([1, 1, 10], (0, 1))]):
        n = len(vals) ** int(np.prod(shape))
        ch += [[shape, vals, lo, hi] for lo, hi in slices(n, 400 if q else 3000)]
    F.append(Family('tensors', ch, run_all_tensors, 'every small tensor: statistics, trimming, padding, projectivising, conversion'))
    ch = []
    for pre, shape, vals, dt in [([1], [1, 1, 3], (0, 1, -2), 'int64'), ([2], [1, 1, 3], (0, 1, -2), 'int64'), ([3], [1, 1, 3], (0, 1), 'int32'), ([2, 2], [1, 1, 3], (0, 1), 'int64'),
                                 ([2], [1, 2, 2], (0, 1, -1), 'int32'), ([2, 1], [1, 1, 3], (0, 1, -1), 'int64'), ([2], [1, 1, 5], (0, 1), 'int64')] \
            + ([] if q else [([3], [1, 1, 4], (0, 1), 'int64'), ([2], [2, 2, 2], (0, 1), 'int64'), ([4], [1, 1, 3], (0, 1), 'int64'), ([3], [1, 1, 3], (0, 1, -2), 'int64')]):
        n = (len(vals) ** int(np.prod(shape))) ** int(np.prod(pre))
        ch += [[pre, shape, vals, lo, hi, dt] for lo, hi in slices(n, 400 if q else 3000)]
    F.append(Family('batches', ch, run_batches, 'every batch assembled from small tensors'))
    ch = []
    for w, k in [(3, 1), (3, 2), (2, 3)] + ([] if q else [(3, 3)]):
        n = sum(3 ** i for i in range(1, w + 1)) ** k
        ch += [[w, k, lo, hi] for lo, hi in slices(n, 400)]
    F.append(Family('joining', ch, run_pack, 'pack and concatenate on every list of tensors of varying width'))
    F.append(Family('join_shapes', [['int64'], ['int32']], run_join_shapes, 'pack and concatenate over matrix shapes, orders; refusals'))
    ch = []
    for r, c in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] + ([] if q else [(2, 3)]):
        ch += [[r, c, lo, hi] for lo, hi in slices(6 ** (r * c), 200)]
    F.append(Family('from_matrix', ch, run_from_matrix, 'every small Laurent polynomial or integer matrix'))
    dts = ['int8', 'int16', 'int32', 'int64', 'object']
    F.append(Family('mixed', [[a, b] for a in dts for b in dts if a != b], run_mixed, 'operands of different element types: nothing is truncated'))
    F.append(Family('wide', [[D] for D in SIZES + (257,)], run_wide, 'degrees around every power of two up to 257'))
    F.append(Family('deep', [[L] for L in (2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257) + (() if q else (511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025))], run_deep, 'batches of lengths around every power of two'))
    F.append(Family('square', [[n] for n in range(1, 13)], run_square, 'square matrices up to 12 x 12'))
    F.append(Family('onward', [[dt, lo, hi] for dt in ('int64', 'int32', 'int16', 'int8', 'uint8') for lo, hi in slices(7 * 24, 42)], run_onward, 'arithmetic with matrices unpacked from tensors with entries of the greatest size'))
    F.append(Family('uneven', [[r, c, dt] for r, c in SHAPES for dt in ('int64', 'int32')], run_uneven, 'matrices with one entry of a great degree, one low and one long at every place'))
    big = [(1, 1, 1, 1, 1, 1), (2, 2, 2, 2, 3, 3), (40, 3, 3, 3, 4, 4), (300, 2, 2, 2, 3, 3), (2000, 1, 2, 1, 2, 3), (3000, 2, 2, 1, 2, 3), (3, 6, 6, 6, 12, 12), (1, 9, 9, 9, 12, 14), (1, 20, 4, 20, 4, 4), (1, 2, 2, 2, 80, 80), (50, 5, 5, 5, 6, 3)]
    F.append(Family('heavy', [[*b, dt, flat] for b in big for dt in ('int64', 'int32') for flat in (0, 1)], run_heavy, 'products of large tensors and batches with the greatest entries that fit'))
    F.append(Family('special', [[n] for n in range(1, 8)], run_special, 'identity and Burau generators'))
    return F

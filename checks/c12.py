"""C12: matrices of every shape against the definitions."""
import itertools

from peyl import LPoly, Matrix
from vlib import ref_poly as RP
from vlib.core import Family, slices

PROPERTY = 'C12'
ASSUMPTIONS = ['operations are entrywise polynomial, so agreement on generic (distinct monomial) entries plus small exhaustive entries covers a shape']


def eqv(ctx, got, want, what):
    if got != want:
        ctx.fail(f'{what() if callable(what) else what} is {got!r}, should be {want!r}')
    ctx.transitions += 1


def dims(M):
    return (M.nrows, M.ncols)


def rd(M):
    """(shape, entries as sparse polynomials) read from the public fields."""
    return (M.nrows, M.ncols, tuple(RP.key(RP.read(x)) for x in M.data))


def ref(r, c, rows):
    return (r, c, tuple(RP.key(rows[i][j]) for i in range(r) for j in range(c)))


def mk(r, c, rows, ints=False):
    conv = (lambda d: d.get(0, 0)) if ints else RP.lpoly
    return Matrix(r, c, tuple(conv(rows[i][j]) for i in range(r) for j in range(c)))


def generic(r, c, base):
    """Entries are distinct monomials with distinct coefficients."""
    return [[{base * 7 ** 0 + base * (i * c + j): i * c + j + 1} for j in range(c)] for i in range(r)]


def check_one(ctx, r, c, rows, ints):
    M = mk(r, c, rows, ints)
    R = ref(r, c, rows)
    what = lambda: f'{M!r}'
    eqv(ctx, rd(M), R, what)
    eqv(ctx, list(M.indices()), [(i, j) for i in range(r) for j in range(c)], 'indices')
    for i in range(-2, r + 2):
        for j in range(-2, c + 2):
            if 0 <= i < r and 0 <= j < c:
                eqv(ctx, RP.read(M[i, j]), rows[i][j], lambda: f'entry {i, j} of {M!r}')
            else:
                ctx.raises(lambda: M[i, j], f'entry {i, j} of a {r} x {c} matrix', (IndexError, KeyError))
                ctx.transitions += 1
    for i in range(-2, max(r, c) + 2):
        if 0 <= i < r:
            eqv(ctx, rd(M.row(i)), ref(1, c, [rows[i]]), lambda: f'row {i} of {M!r}')
        else:
            ctx.raises(lambda: M.row(i), f'row {i} of a {r} x {c} matrix', IndexError)
        if 0 <= i < c:
            eqv(ctx, rd(M.column(i)), ref(r, 1, [[rows[k][i]] for k in range(r)]), lambda: f'column {i} of {M!r}')
        else:
            ctx.raises(lambda: M.column(i), f'column {i} of a {r} x {c} matrix', IndexError)
        ctx.transitions += 2
    eqv(ctx, [[RP.read(x) for x in row] for row in M.rows()], [[rows[i][j] for j in range(c)] for i in range(r)], lambda: f'rows of {M!r}')
    if r:
        eqv(ctx, Matrix.from_rows(M.rows()), M, lambda: f'from_rows(rows) of {M!r}')
        eqv(ctx, Matrix.from_rows(tuple(map(tuple, M.rows()))), M, lambda: f'from_rows(rows) of {M!r}')
    T = M.transpose()
    eqv(ctx, rd(T), ref(c, r, [[rows[i][j] for i in range(r)] for j in range(c)]), lambda: f'transpose of {M!r}')
    eqv(ctx, T.transpose(), M, lambda: f'double transpose of {M!r}')
    eqv(ctx, bool(M.is_square()), r == c, 'is_square')
    eqv(ctx, bool(M.is_symmetric()), r == c and all(rows[i][j] == rows[j][i] for i in range(r) for j in range(c)), lambda: f'is_symmetric of {M!r}')
    eqv(ctx, bool(M.is_integral()), ints or r * c == 0, lambda: f'is_integral of {M!r}')
    eqv(ctx, sorted(RP.key(RP.read(x)) for x in M.entries()), sorted(R[2]), lambda: f'entries of {M!r}')
    for k in (-2, 0, 1, 3):
        want = ref(r, c, [[RP.scale(x, k) for x in row] for row in rows])
        eqv(ctx, rd(M * k), want, lambda: f'{M!r} * {k}')
        eqv(ctx, rd(k * M), want, lambda: f'{k} * {M!r}')
    eqv(ctx, rd(M.map(lambda x: x * x + 1)), ref(r, c, [[RP.add(RP.mul(x, x), {0: 1}) for x in row] for row in rows]), lambda: f'map over {M!r}')
    if r == c:
        t = {}
        for i in range(r):
            t = RP.add(t, rows[i][i])
        eqv(ctx, RP.read(M.trace()), t, lambda: f'trace of {M!r}')
        acc = RP.mat_id(r)
        for k in range(0, 6 if ints else 4):
            eqv(ctx, rd(M ** k), ref(r, r, acc), lambda: f'{M!r} ** {k}')
            if r:
                acc = RP.mat_mul(acc, rows)
        ctx.raises(lambda: M ** -1, 'negative power')
    else:
        ctx.raises(lambda: M.trace(), f'trace of a {r} x {c} matrix')
        ctx.raises(lambda: M ** 2, f'power of a {r} x {c} matrix')
        ctx.raises(lambda: M ** 0, f'power of a {r} x {c} matrix')
    # printing
    conv = (lambda d: d.get(0, 0)) if ints else (lambda d: d)
    fake = {'Matrix': lambda *a: a, 'LPoly': RP.parse}
    if ints or r * c:
        got = eval(repr(M), fake)
        if r * c == 0:
            eqv(ctx, got, (r, c, []), 'repr')
        else:
            eqv(ctx, got, ([[conv(x) for x in row] for row in rows],), lambda: f'repr {M!r}')
    if ints and r * c:
        eqv(ctx, eval(str(M)[1:]), [[conv(x) for x in row] for row in rows], lambda: f'str {M}')
    N = mk(r, c, rows, ints)
    eqv(ctx, (M == N, hash(M) == hash(N), {M: 1}.get(N)), (True, True, 1), 'equality and hash')
    eqv(ctx, rd(M), R, 'an operation changed its argument')
    ctx.n_states += 1
    ctx.trace()


def run_generic(ctx, chunk):
    r, c = chunk
    check_one(ctx, r, c, generic(r, c, 1), False)
    check_one(ctx, r, c, [[RP.clean({0: (i + 1) * 10 + j}) for j in range(c)] for i in range(r)], True)
    check_one(ctx, r, c, [[RP.clean({0: min(i, j) - 1}) for j in range(c)] for i in range(r)], True)
    check_one(ctx, r, c, [[RP.clean({min(i, j) - 1: 1 + abs(i - j)}) for j in range(c)] for i in range(r)], False)
    # one entry differs from symmetric
    if r == c:
        for a in range(r):
            for b in range(r):
                check_one(ctx, r, c, [[RP.clean({0: i * j + (i == a and j == b)}) for j in range(c)] for i in range(r)], True)


def run_exhaustive(ctx, chunk):
    r, c, vals, lo, hi = chunk
    for e in itertools.islice(itertools.product(vals, repeat=r * c), lo, hi):
        rows = [[RP.clean({0: e[i * c + j]}) for j in range(c)] for i in range(r)]
        check_one(ctx, r, c, rows, True)


LP = [{}, {0: 1}, {1: -1}, {-1: 1, 1: 1}]


def run_exhaustive_lp(ctx, chunk):
    r, c, lo, hi = chunk
    for e in itertools.islice(itertools.product(LP, repeat=r * c), lo, hi):
        check_one(ctx, r, c, [[e[i * c + j] for j in range(c)] for i in range(r)], False)


def check_pair(ctx, r, m, k, A, B, ints):
    X, Y = mk(r, m, A, ints), mk(m, k, B, ints)
    eqv(ctx, rd(X * Y), ref(r, k, [[RP._dot([A[i][l] for l in range(m)], [B[l][j] for l in range(m)]) for j in range(k)] for i in range(r)]),
        lambda: f'{X!r} * {Y!r}')


def run_products(ctx, chunk):
    r, = chunk
    D = range(0, 5)
    for m in D:
        A = generic(r, m, 1)
        Ai = [[RP.clean({0: 3 * i - 2 * j + 1}) for j in range(m)] for i in range(r)]
        for m2 in D:
            for k in D:
                B = generic(m2, k, 17)
                Bi = [[RP.clean({0: i * i - j + 2}) for j in range(k)] for i in range(m2)]
                if m == m2:
                    check_pair(ctx, r, m, k, A, B, False)
                    check_pair(ctx, r, m, k, Ai, Bi, True)
                    if r * m and m * k:       # integers times polynomials
                        X, Y = mk(r, m, Ai, True), mk(m, k, B)
                        eqv(ctx, rd(X * Y), ref(r, k, RP.mat_mul(Ai, B)), lambda: f'{X!r} * {Y!r}')
                        X, Y = mk(r, m, A), mk(m, k, Bi, True)
                        eqv(ctx, rd(X * Y), ref(r, k, RP.mat_mul(A, Bi)), lambda: f'{X!r} * {Y!r}')
                else:
                    ctx.raises(lambda: mk(r, m, A) * mk(m2, k, B), f'product of shapes {(r, m)} and {(m2, k)}')
                    ctx.raises(lambda: mk(r, m, Ai, True) * mk(m2, k, Bi, True), f'product of shapes {(r, m)} and {(m2, k)}')
                    ctx.step(2)
                # differences
                if (r, m) == (m2, k):
                    X, Y = mk(r, m, A), mk(r, m, B)
                    eqv(ctx, rd(X - Y), ref(r, m, [[RP.add(A[i][j], B[i][j], -1) for j in range(m)] for i in range(r)]), lambda: f'{X!r} - {Y!r}')
                    X, Y = mk(r, m, Ai, True), mk(r, m, Bi, True)
                    eqv(ctx, rd(X - Y), ref(r, m, [[RP.add(Ai[i][j], Bi[i][j], -1) for j in range(m)] for i in range(r)]), lambda: f'{X!r} - {Y!r}')
                else:
                    ctx.raises(lambda: mk(r, m, A) - mk(m2, k, B), f'difference of shapes {(r, m)} and {(m2, k)}')
                    ctx.raises(lambda: mk(r, m, Ai, True) - mk(m2, k, Bi, True), f'difference of shapes {(r, m)} and {(m2, k)}')
                    ctx.step(2)
                ctx.n_states += 1
    ctx.trace()


def run_all_pairs(ctx, chunk):
    r, m, k, vals, lo, hi = chunk
    Bs = [[[RP.clean({0: e[i * k + j]}) for j in range(k)] for i in range(m)] for e in itertools.product(vals, repeat=m * k)]
    for e in itertools.islice(itertools.product(vals, repeat=r * m), lo, hi):
        A = [[RP.clean({0: e[i * m + j]}) for j in range(m)] for i in range(r)]
        X = mk(r, m, A, True)
        for B in Bs:
            check_pair(ctx, r, m, k, A, B, True)
            if (r, m) == (m, k):
                Y = mk(m, k, B, True)
                eqv(ctx, rd(X - Y), ref(r, m, [[RP.add(A[i][j], B[i][j], -1) for j in range(m)] for i in range(r)]), lambda: f'{X!r} - {Y!r}')
                eqv(ctx, X == Y, A == B, lambda: f'{X!r} == {Y!r}')
            ctx.n_states += 1
    ctx.trace()


def run_large(ctx, chunk):
    """Bigger shapes; every product of neighbouring dimensions, high powers, large entries."""
    r, c = chunk
    check_one(ctx, r, c, generic(r, c, 1), False)
    check_one(ctx, r, c, [[RP.clean({0: (i * 7 + j * 3) % 11 - 5}) for j in range(c)] for i in range(r)], True)
    check_one(ctx, r, c, [[RP.clean({0: 2 ** 63 * (i - j) + i + j}) for j in range(c)] for i in range(r)], True)
    check_one(ctx, r, c, [[RP.clean({0: 2 ** 70 * (i + j) - i * j}) for j in range(c)] for i in range(r)], True)
    for k in (1, 2, 3, 5, 8):
        A = [[RP.clean({0: 2 ** 40 * (i + 1) - j}) for j in range(c)] for i in range(r)]
        B = [[RP.clean({0: (-1) ** j * 2 ** 40 + i}) for j in range(k)] for i in range(c)]
        check_pair(ctx, r, c, k, A, B, True)
        check_pair(ctx, r, c, k, generic(r, c, 1), generic(c, k, 13), False)
        check_pair(ctx, r, c, k, [[RP.clean({0: int(i == j)}) for j in range(c)] for i in range(r)], B, True)


def run_equality(ctx, chunk):
    """Matrices are equal exactly if they have one shape and the same entries, also as dictionary keys."""
    R, C, vals, flavour = chunk
    conv = (lambda x: x) if flavour == 'int' else (lambda x: RP.lpoly(RP.clean({0: 1, x: 2}) if x else {}))
    items = [((r, c, e), Matrix(r, c, tuple(map(conv, e)))) for r in range(R + 1) for c in range(C + 1) for e in itertools.product(vals, repeat=r * c) if r * c <= 4]
    table = {}
    for k, M in items:
        table[M] = k
    for k, M in items:
        ctx.check(table.get(M) == k, lambda: f'as a dictionary key {M!r} of shape {dims(M)} stands for {table.get(M)}, should be {k}')
        for k2, N in items:
            if (M == N) != (k == k2) or (M != N) != (k != k2):
                ctx.fail(f'{M!r} == {N!r} is {M == N} for shapes {dims(M)} and {dims(N)}')
        ctx.transitions += len(items)
        ctx.n_states += 1
    ctx.trace()


def run_places(ctx, chunk):
    """One entry differing, at every place of a bigger matrix: symmetry, integrality, equality, rows, columns, trace."""
    r, c = chunk
    flat = [min(i, j) * 3 - max(i, j) for i in range(r) for j in range(c)]
    M = Matrix(r, c, tuple(flat))
    eqv(ctx, (bool(M.is_symmetric()), bool(M.is_integral())), (r == c, True), lambda: f'is_symmetric, is_integral of {M!r}')
    for i in range(r):
        for j in range(c):
            for x in (flat[i * c + j] + 1, LPoly(1, (1,))):
                e = list(flat)
                e[i * c + j] = x
                N = Matrix(r, c, tuple(e))
                eqv(ctx, bool(N.is_symmetric()), r == c and i == j, lambda: f'is_symmetric of {N!r}')
                eqv(ctx, bool(N.is_integral()), isinstance(x, int), lambda: f'is_integral of {N!r}')
                eqv(ctx, (M == N, N == M, M != N), (False, False, True), lambda: f'{M!r} == {N!r}')
                eqv(ctx, N == Matrix(r, c, tuple(e)), True, lambda: f'{N!r} equals itself')
                eqv(ctx, N[i, j], x, lambda: f'entry {i, j} of {N!r}')
                T = N.transpose()
                eqv(ctx, (T.nrows, T.ncols, T[j, i]), (c, r, x), lambda: f'entry {j, i} of the transpose of {N!r}')
                D = N - M
                eqv(ctx, [k for k, y in enumerate(D.data) if RP.read(y)], [i * c + j], lambda: f'{N!r} - {M!r}')
                if r == c:
                    eqv(ctx, RP.read(N.trace()), RP.add(RP.clean({0: sum(flat[k * c + k] for k in range(r) if k != i or k != j)}), RP.read(x) if i == j else {}), lambda: f'trace of {N!r}')
                v = Matrix(c, 1, tuple(int(k == j) for k in range(c)))
                eqv(ctx, rd(N * v), ref(r, 1, [[RP.read(e[k * c + j])] for k in range(r)]), lambda: f'{N!r} * {v!r}')
                w = Matrix(1, r, tuple(int(k == i) for k in range(r)))
                eqv(ctx, rd(w * N), ref(1, c, [[RP.read(y) for y in e[i * c:(i + 1) * c]]]), lambda: f'{w!r} * {N!r}')
                ctx.n_states += 1
    ctx.trace()


def run_powers(ctx, chunk):
    rows, top = chunk
    n = len(rows)
    R = [[RP.clean({0: x}) if isinstance(x, int) else RP.clean({e: c for e, c in x}) for x in row] for row in rows]
    ints = all(set(x) <= {0} for row in R for x in row)
    M = mk(n, n, R, ints)
    acc = RP.mat_id(n)
    for k in range(top + 1):
        eqv(ctx, rd(M ** k), ref(n, n, acc), lambda: f'{M!r} ** {k}')
        acc = RP.mat_mul(acc, R)
        ctx.n_states += 1
    ctx.trace()


def run_special(ctx, chunk):
    n, = chunk
    idn = RP.mat_id(n)
    eqv(ctx, rd(Matrix.identity(n)), ref(n, n, idn), f'identity({n})')
    for s in (0, 1, -3, 7):
        eqv(ctx, rd(Matrix.scalar(n, s)), ref(n, n, [[RP.scale(x, s) for x in row] for row in idn]), f'scalar({n}, {s})')
    eqv(ctx, rd(Matrix.scalar(n, LPoly(-1, (2, 0, 1)))), ref(n, n, [[RP.mul(x, {-1: 2, 1: 1}) for x in row] for row in idn]), 'scalar polynomial')
    for m in range(0, 5):
        eqv(ctx, rd(Matrix.zero(n, m)), ref(n, m, [[{}] * m] * n), f'zero({n}, {m})')
        for L in range(0, 14):
            if L == n * m:
                Matrix(n, m, tuple(range(L)))
            else:
                ctx.raises(lambda: Matrix(n, m, tuple(range(L))), f'Matrix({n}, {m}) with {L} entries')
        ctx.raises(lambda: Matrix(n, m, [0] * (n * m)), 'list data')
        ctx.raises(lambda: Matrix(-n - 1, -m - 1, (0,) * ((n + 1) * (m + 1))), 'negative shape')
        if n:
            ctx.raises(lambda: Matrix.from_rows([[0] * m] * n + [[0] * (m + 1)]), 'ragged rows')
            ctx.raises(lambda: Matrix.from_rows([[0] * (m + 1)] + [[0] * m] * n), 'ragged rows')
        ctx.step(5)
    v = list(range(5, 5 + n))
    vr = [[RP.clean({0: x}) for x in v]]
    eqv(ctx, rd(Matrix.row_vector(v)), ref(1, n, vr), 'row_vector')
    eqv(ctx, rd(Matrix.col_vector(v)), ref(n, 1, [[x] for x in vr[0]]), 'col_vector')
    for i in range(n):
        eqv(ctx, rd(Matrix.col_coord_vector(n, i)), ref(n, 1, [[{0: 1}] if i == j else [{}] for j in range(n)]), 'col_coord_vector')
    M = Matrix(2, 2, (1, 2, 3, 4))
    for bad in (0, (0,), (0, 0, 0), [0, 0], 'ab', None):
        ctx.raises(lambda: M[bad], f'key {bad!r}')
    for bad in ('x', None, 1.5):
        ctx.raises(lambda: M - bad, f'subtracting {bad!r}')
        ctx.raises(lambda: M * bad, f'multiplying by {bad!r}')
    ctx.fresh_states(1)
    ctx.trace()


def families(tier):
    q = tier == 'quick'
    F = [Family('generic', [[r, c] for r in range(0, 6) for c in range(0, 6)], run_generic, 'every shape up to 5 x 5 with generic entries, every index'),
         Family('special', [[n] for n in range(0, 6)], run_special, 'special matrices and refusals'),
         Family('products', [[r] for r in range(0, 5)], run_products, 'every triple/quadruple of dimensions up to 4: products, differences, refusals')]
    F.append(Family('large', [[r, c] for r, c in ((6, 6), (6, 7), (7, 6), (1, 8), (8, 1), (8, 8), (1, 9), (9, 1), (9, 9), (1, 17), (17, 1), (2, 33), (33, 2), (16, 16), (64, 1), (1, 65), (3, 12), (12, 3))], run_large,
                    'bigger shapes and large entries'))
    F.append(Family('places', [[r, c] for r, c in ((6, 6), (7, 7), (8, 8), (9, 9), (10, 10), (11, 11), (12, 12), (16, 16), (17, 17), (20, 20), (1, 70), (70, 1), (9, 8), (3, 33), (33, 2))], run_places, 'one entry differing at every place of bigger matrices'))
    F.append(Family('powers', [[m, t] for m, t in (([[1, 1], [1, 0]], 200), ([[-1]], 130), ([[0, 1, 0], [0, 0, 1], [1, 0, 0]], 130), ([[0, 1], [0, 0]], 70), ([[2, -1, 0], [1, 0, 3], [0, 1, -1]], 70),
                                                   ([[[[1, 1]], [[0, 1]]], [[[0, 1]], [[-1, 1]]]], 34), ([[[[1, 1]]]], 130), ([[1, 1, 1, 1]] * 4, 70))], run_powers, 'every power up to a high one'))
    ch = []
    for r, c, vals in [(1, 1, (-2, -1, 0, 1, 2)), (1, 2, (-1, 0, 1, 2)), (2, 1, (-1, 0, 1, 2)), (2, 2, (-1, 0, 1, 2)), (1, 3, (-1, 0, 2)), (3, 1, (-1, 0, 2)), (2, 3, (-1, 0, 2)),
                       (3, 2, (-1, 0, 2)), (3, 3, (0, 1))] + ([] if q else [(3, 3, (-1, 0, 1)), (2, 4, (-1, 0, 2)), (4, 2, (-1, 0, 2))]):
        ch += [[r, c, vals, lo, hi] for lo, hi in slices(len(vals) ** (r * c), 100)]
    F.append(Family('integers', ch, run_exhaustive, 'every small integer matrix'))
    ch = []
    for r, c in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] + ([] if q else [(2, 3), (3, 2)]):
        ch += [[r, c, lo, hi] for lo, hi in slices(len(LP) ** (r * c), 60)]
    F.append(Family('polynomials', ch, run_exhaustive_lp, 'every small polynomial matrix'))
    ch = []
    for r, m, k, vals in [(1, 1, 1, (-2, -1, 0, 1, 3)), (2, 2, 2, (-1, 0, 1)), (1, 2, 1, (-1, 0, 1, 2)), (2, 1, 2, (-1, 0, 1, 2)), (1, 2, 2, (-1, 0, 2)), (2, 2, 1, (-1, 0, 2)), (2, 3, 1, (-1, 0, 1)), (1, 3, 2, (-1, 0, 1))] \
            + ([] if q else [(2, 2, 2, (-2, -1, 0, 1)), (2, 3, 2, (0, 1, -1)), (3, 2, 3, (0, 1))]):
        ch += [[r, m, k, vals, lo, hi] for lo, hi in slices(len(vals) ** (r * m), 20)]
    F.append(Family('equality', [[4, 4, [0, 1], 'int'], [4, 4, [0, 1], 'poly'], [2, 2, [-2, -1, 0, 1], 'int'], [2, 2, [-2, 0, 1, 2], 'poly'], [1, 4, [-1, 0, 2 ** 61 - 1], 'int'], [4, 1, [-1, -2, 0], 'poly']], run_equality,
                    'equality and hashing across shapes'))
    F.append(Family('pairs', ch, run_all_pairs, 'every pair of small integer matrices: product, difference, equality'))
    return F

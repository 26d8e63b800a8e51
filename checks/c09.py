"""C09: cell modules and the decomposition of the Markov trace."""
import itertools

from peyl import braidsearch, jonesrep, tl
from checks.c08 import COEFFS, clean, combos, eq, mk, mkmor, mor_mul, rd, readmor
from vlib import ref_poly as RP
from vlib import ref_tl as T
from vlib.core import Family, slices

PROPERTY = 'C09'
ASSUMPTIONS = ['the order of the basis of a cell module is the one its listing gives']

_B = {}


def basis(n, r):
    """The reference reading of the listed basis."""
    if (n, r) not in _B:
        _B[n, r] = [T.picture(d.top, d.bot, d.seq) for d in tl.cell_basis(n, r)]
    return _B[n, r]


_M = {}


def ref_matrix(n, r, pic):
    """Action of one picture of type (n, n) on the cell module, as rows of sparse polynomials."""
    m = _M.get((n, r, pic))
    if m is None:
        B = basis(n, r)
        pos = {b: i for i, b in enumerate(B)}
        rows = [[{} for _ in B] for _ in B]
        for j, b in enumerate(B):
            res, loops = T.stack(pic, b, n)
            if T.through(res) == n - 2 * r:
                rows[pos[res]][j] = RP.power(RP.LOOP, loops)
        m = _M[n, r, pic] = rows
    return m


def ref_comb(n, r, terms):
    k = len(basis(n, r))
    rows = [[{} for _ in range(k)] for _ in range(k)]
    for p, c in terms.items():
        M = ref_matrix(n, r, p)
        for i in range(k):
            for j in range(k):
                if M[i][j]:
                    rows[i][j] = RP.add(rows[i][j], RP.mul(c, M[i][j]))
    return rows


def ref_trace(n, terms):
    t = {}
    for p, c in terms.items():
        t = RP.add(t, RP.mul(c, RP.power(RP.LOOP, T.closure(p, n))))
    return t


def run_basis(ctx, chunk):
    n, = chunk
    for r in range(n // 2 + 1):
        want = {p for p in T.pictures(n, n - 2 * r) if T.through(p) == n - 2 * r}
        cell = tl.TLCell(n, r)
        for name, ds in (('cell_basis', tl.cell_basis(n, r)), ('TLCell.basis_diagrams', cell.basis_diagrams())):
            ctx.check(all((d.top, d.bot) == (n, n - 2 * r) for d in ds), f'{name}({n}, {r}) lists a diagram of the wrong type')
            got = [rd(d)[2] for d in ds]
            ctx.check(len(got) == len(want) and set(got) == want, f'{name}({n}, {r}) lists {len(got)} diagrams, {len(set(got) & want)} of the {len(want)} right ones')
            ctx.step(len(got))
        eq(ctx, list(cell.basis_diagrams()), list(tl.cell_basis(n, r)), f'bases of the cell ({n}, {r})')
        eq(ctx, tl.cell_dimension(n, r), len(want), f'cell_dimension({n}, {r})')
        eq(ctx, cell.dim(), len(want), f'TLCell({n}, {r}).dim')
        if n >= 1:
            eq(ctx, jonesrep.JonesCellRep(n, r).dimension(), len(want), f'dimension of the representation ({n}, {r})')
            eq(ctx, braidsearch.JonesSummand(n, r).dimension(), len(want), f'dimension of the summand ({n}, {r})')
            eq(ctx, list(jonesrep.JonesCellRep(n, r).tl_basis()), list(tl.cell_basis(n, r)), f'tl_basis of ({n}, {r})')
        eq(ctx, RP.read(cell.trace_scalar()), RP.qint(n - 2 * r + 1), f'trace_scalar({n}, {r})')
        ctx.fresh_states(len(want))
        ctx.trace()
    eq(ctx, [(c.n, c.r) for c in tl.JonesRep(n).cells], [(n, r) for r in range(n // 2 + 1)], f'cells of JonesRep({n})')
    ctx.raises(lambda: tl.TLCell(n, n // 2 + 1), 'cell with too few strands')
    ctx.raises(lambda: tl.TLCell(n, -1), 'cell with a negative label')
    eq(ctx, list(tl.cell_basis(n, n // 2 + 1)), [], 'basis of an empty cell')


def run_dims(ctx, chunk):
    """Dimensions of large cells by the branching rule."""
    top, = chunk
    row = {0: 1}
    for n in range(0, top + 1):
        if n:
            row = {r: row.get(r, 0) + (row.get(r - 1, 0) if r else 0) for r in range(n // 2 + 1)}
        for r, d in row.items():
            eq(ctx, tl.cell_dimension(n, r), d, f'cell_dimension({n}, {r})')
            eq(ctx, tl.TLCell(n, r).dim(), d, f'TLCell({n}, {r}).dim')
            if n >= 1:
                eq(ctx, jonesrep.JonesCellRep(n, r).dimension(), d, f'dimension of the representation ({n}, {r})')
                eq(ctx, braidsearch.JonesSummand(n, r).dimension(), d, f'dimension of the summand ({n}, {r})')
            ctx.n_states += 1
    ctx.trace()


def impl_mats(n, r, m):
    yield 'cell_matrix', jonesrep.cell_matrix(m, r)
    yield 'braidsearch.cell_matrix', braidsearch.cell_matrix(m, r)
    yield 'project_leftmult_matrix', tl.TLCell(n, r).project_leftmult_matrix(m)


def check_mats(ctx, n, terms, m):
    total = {}
    for r in range(n // 2 + 1):
        want = ref_comb(n, r, terms)
        for name, M in impl_mats(n, r, m):
            ctx.check((M.nrows, M.ncols) == (len(want), len(want)), f'{name} has the wrong shape')
            eq(ctx, RP.read_matrix(M), want, lambda: f'{name} of {m!r} on cell ({n}, {r})')
        total = RP.add(total, RP.mul(RP.read(tl.TLCell(n, r).trace_scalar()), RP.read(M.trace())))
    tr = RP.read(m.trace())
    eq(ctx, tr, ref_trace(n, terms), lambda: f'trace of {m!r}')
    eq(ctx, total, tr, lambda: f'weighted sum of the matrix traces of {m!r}')


def run_action(ctx, chunk):
    n, lo, hi = chunk
    for p in T.pictures(n, n)[lo:hi]:
        check_mats(ctx, n, {p: {0: 1}}, tl.TLMor.from_tldiag(mk(tl.TLDiag, n, n, p)))
        ctx.n_states += 1
        ctx.trace()


def run_combos(ctx, chunk):
    n, k, lo, hi = chunk
    for t in list(combos(T.pictures(n, n), COEFFS, k))[lo:hi]:
        check_mats(ctx, n, t, mkmor(n, n, t))
        ctx.n_states += 1
        ctx.trace()


def run_large(ctx, chunk):
    """Combinations of many diagrams: every run of consecutive ones (in the listed order, cyclically), steps in between, all but one."""
    n, lo, hi = chunk
    pics = list(T.pictures(n, n))
    k = len(pics)
    for at in range(lo, hi):
        sizes = range(1, k + 1) if k <= 14 else sorted({x for x in (3, 5, 8, 9, 10, 11, 12, 16, 20, 21, 25, 31, 32, 33, 40, 41, 42, 64, 65, 100, 131, 132) if x <= k})
        for size in sizes:
            for step in ((1, 3, 5) if k <= 14 else (1, 5)):
                chosen = [pics[(at + step * i) % k] for i in range(size)]
                terms = {q: {(i * 7 + at) % 5 - 2: (i % 9) - 4 or 5} for i, q in enumerate(chosen)}
                if len(terms) < size:
                    continue
                check_mats(ctx, n, terms, mkmor(n, n, terms))
                ctx.n_states += 1
    ctx.trace()


def run_products(ctx, chunk):
    """The matrices multiply like the elements (all pairs of diagrams and of small combinations)."""
    n, k, lo, hi = chunk
    els = [({p: {0: 1}}) for p in T.pictures(n, n)] if k == 0 else list(combos(T.pictures(n, n), COEFFS[2:], k))
    mors = [mkmor(n, n, t) for t in els]
    for r in range(n // 2 + 1):
        mats = [jonesrep.cell_matrix(m, r) for m in mors]
        for a in range(lo, min(hi, len(els))):
            for b in range(len(els)):
                x = mors[a] * mors[b]
                eq(ctx, RP.read_matrix(jonesrep.cell_matrix(x, r)), RP.read_matrix(mats[a] * mats[b]),
                   lambda: f'matrix of the product of {mors[a]!r} and {mors[b]!r} on cell ({n}, {r})')
                if r == 0:
                    y = mors[b] * mors[a]
                    eq(ctx, RP.read(x.trace()), RP.read(y.trace()), lambda: f'trace of commuted products of {mors[a]!r}, {mors[b]!r}')
                ctx.n_states += 1
    ctx.trace()


def run_wide(ctx, chunk):
    """Structured wide diagrams on the cells of small label, and the whole trace decomposition for the middle sizes."""
    n, rs, part = chunk
    pool = T.wide_pool(n, n)
    pool += [T.cupcap(i, n) for i in range(n - 1) if T.cupcap(i, n) not in pool]
    pool = pool[part::4]
    for p in pool:
        terms = {p: {0: 1}} if len(pool) % 2 else {p: {1: -1}, T.identity(n): {0: 1}} if p != T.identity(n) else {p: {0: 3}}
        m = mkmor(n, n, terms)
        if rs is None:
            check_mats(ctx, n, terms, m)
        else:
            for r in rs:
                want = ref_comb(n, r, terms)
                for name, M in impl_mats(n, r, m):
                    eq(ctx, RP.read_matrix(M), want, lambda: f'{name} of {m!r} on cell ({n}, {r})')
        eq(ctx, RP.read(m.trace()), ref_trace(n, terms), lambda: f'trace of {m!r}')
        _M.clear()
        ctx.n_states += 1
        ctx.trace()
    ctx.sample({'n': n, 'labels': rs, 'diagrams': len(pool)})


def run_project(ctx, chunk):
    n, r = chunk
    s = n - 2 * r
    cell = tl.TLCell(n, r)
    for t in combos(T.pictures(n, s), COEFFS, 2 if len(T.pictures(n, s)) <= 20 else 1):
        m = mkmor(n, s, t)
        eq(ctx, readmor(cell.project_vector(m)), (n, s, {p: c for p, c in t.items() if T.through(p) == s}), lambda: f'projection of {m!r} to cell ({n}, {r})')
        ctx.n_states += 1
    for a in range(n + 2):
        for b in range(n + 2):
            if (a + b) % 2 == 0 and (a, b) != (n, s):
                ctx.raises(lambda: cell.project_vector(mkmor(a, b, {T.pictures(a, b)[0]: {0: 1}})), f'projecting type ({a}, {b}) to cell ({n}, {r})')
                ctx.step()
    ctx.trace()


def families(tier):
    q = tier == 'quick'
    F = [Family('bases', [[n] for n in range(0, 12 if q else 14)], run_basis, 'every cell: basis, dimension, trace weight')]
    F.append(Family('dimensions', [[140 if q else 300]], run_dims, 'dimensions of all cells up to a large size by the branching rule'))
    N = 6 if q else 7
    F.append(Family('action', [[n, lo, hi] for n in range(0, N + 1) for lo, hi in slices(len(T.pictures(n, n)), 8)], run_action,
                    'matrix of every diagram on every cell by three routes; trace decomposition'))
    ch = []
    for n, k in [(1, 1), (2, 2), (3, 2), (4, 1)] + ([(4, 2)] if not q else []):
        ch += [[n, k, lo, hi] for lo, hi in slices(len(list(combos(T.pictures(n, n), COEFFS, k))), 20)]
    L = [[n, lo, lo + 1] for n in (1, 2, 3, 4) for lo in range(len(T.pictures(n, n)))] + [[5, lo, lo + 1] for lo in range(0, 42, 3 if q else 1)] + [[6, lo, lo + 1] for lo in ((0, 50) if q else range(0, 132, 4))]
    F.append(Family('large', L, run_large, 'matrix of combinations of many diagrams on every cell'))
    F.append(Family('combinations', ch, run_combos, 'matrix of every small combination on every cell'))
    ch = []
    for n, k in [(1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (2, 2), (3, 1)] + ([(6, 0), (3, 2), (4, 1)] if not q else []):
        tot = len(T.pictures(n, n)) if k == 0 else len(list(combos(T.pictures(n, n), COEFFS[2:], k)))
        ch += [[n, k, lo, hi] for lo, hi in slices(tot, 4)]
    F.append(Family('products', ch, run_products, 'matrices and traces of all products'))
    F.append(Family('projection', [[n, r] for n in range(0, 6 if q else 8) for r in range(n // 2 + 1)], run_project, 'projection of every element of TL(n, n-2r) to the cell'))
    F.append(Family('wide', [[n, rs, k] for n, rs in [(7, None), (8, None), (9, None), (9, [0, 1, 2]), (10, [0, 1, 2]), (11, [0, 1]), (12, [0, 1]), (16, [0, 1]), (17, [1]), (20, [0, 1]), (33, [0, 1])] +
                              ([] if q else [(10, None), (12, [2]), (13, [2]), (24, [1]), (65, [0])]) for k in range(4)], run_wide,
                    'matrices of wide diagrams on cells of small label; trace decomposition for the middle sizes'))
    return F

"""C06: permutations against their definitions."""
import itertools

from peyl import Permutation, SymmetricGroup
from peyl import permutations as P
from vlib import ref_braid as R, schedules
from vlib.core import Family, slices

PROPERTY = 'C06'
ASSUMPTIONS = []


def shortlex_table(n):
    """First word, in length-then-lexicographic order, reaching each permutation."""
    idn = tuple(range(n))
    table = {idn: ()}
    layer = [idn]
    gens = []
    for s in range(n - 1):
        g = list(idn)
        g[s], g[s + 1] = s + 1, s
        gens.append(tuple(g))
    while layer:
        new = []
        for p in sorted(layer, key=lambda p: table[p]):
            for s, g in enumerate(gens):
                q = R.compose(p, g)
                if q not in table:
                    table[q] = table[p] + (s,)
                    new.append(q)
        layer = new
    return table


_T = {}


def table(n):
    if n not in _T:
        _T[n] = shortlex_table(n)
    return _T[n]


def eq(ctx, got, want, what, arg):
    if got != want:
        ctx.fail(f'{what} of {arg!r} is {got!r}, should be {want!r}')
    ctx.transitions += 1


def cyc_ref(p):
    return R.perm_cycles(p)


def desc_ref(p):
    """Every cycle, read from its largest element, decreases."""
    for c in R.perm_cycles(p):
        m = max(c)
        seq, x = [m], p[m]
        while x != m:
            seq.append(x)
            x = p[x]
        if any(a < b for a, b in zip(seq, seq[1:])):
            return False
    return True


def run_unary(ctx, chunk):
    n, lo, hi = chunk
    S = SymmetricGroup(n)
    tab = table(n)
    w0 = tuple(reversed(range(n)))
    for p in itertools.islice(itertools.permutations(range(n)), lo, hi):
        unary(ctx, n, S, p, tab[p], w0)
    ctx.fresh_states(hi - lo)
    ctx.sample({'permutation': p})


def unary(ctx, n, S, p, short, w0, every=True):
    """All functions of one permutation; short is its shortlex word, w0 the longest element."""
    simple = range(n - 1) if every else sorted({0, 1, n // 2, n - 2, n - 3} | set(range(5, n - 1, 7)))
    L = sum(p[i] > p[j] for i in range(n) for j in range(i + 1, n))
    ip = R.pinv(p)
    cyc = cyc_ref(p)
    ctype = tuple(sorted(map(len, cyc), reverse=True))
    rd = {i for i in range(n - 1) if p[i] > p[i + 1]}
    ld = {i for i in range(n - 1) if p.index(i) > p.index(i + 1)}
    desc = desc_ref(p)
    par = desc and R.is_noncrossing(cyc)
    for w in (p, list(p)):
        eq(ctx, P.is_permutation(w), True, 'is_permutation', w)
        eq(ctx, tuple(P.inverse(w)), ip, 'inverse', w)
        eq(ctx, P.length(w), L, 'length', w)
        eq(ctx, P.parity(w), L % 2, 'parity', w)
        eq(ctx, set(P.right_descent_set(w)), rd, 'right_descent_set', w)
        eq(ctx, set(P.left_descent_set(w)), ld, 'left_descent_set', w)
        for s in simple:
            eq(ctx, bool(P.is_right_descent(w, s)), s in rd, f'is_right_descent {s}', w)
            eq(ctx, bool(P.is_left_descent(w, s)), s in ld, f'is_left_descent {s}', w)
        eq(ctx, [tuple(c) for c in P.disjoint_cycles(w)], cyc, 'disjoint_cycles', w)
        eq(ctx, tuple(P.cycle_type(w)), ctype, 'cycle_type', w)
        eq(ctx, tuple(P.shortlex(w)), short, 'shortlex', w)
        eq(ctx, bool(P.is_identity(w)), p == tuple(range(n)), 'is_identity', w)
        eq(ctx, bool(P.is_longest_element(w)), p == w0, 'is_longest_element', w)
        eq(ctx, bool(P.is_descending_cycles(w)), desc, 'is_descending_cycles', w)
        eq(ctx, bool(P.is_parallel_descending_cycles(w)), par, 'is_parallel_descending_cycles', w)
        ctx.check(tuple(w) == p, f'a function changed its argument {p} into {w}')
    x = Permutation(p)
    eq(ctx, x.inv(), Permutation(ip), 'Permutation.inv', p)
    eq(ctx, x.length(), L, 'Permutation.length', p)
    eq(ctx, [tuple(c) for c in x.disjoint_cycles()], cyc, 'Permutation.disjoint_cycles', p)
    eq(ctx, tuple(x.cycle_type()), ctype, 'Permutation.cycle_type', p)
    eq(ctx, tuple(x.shortlex()), short, 'Permutation.shortlex', p)
    eq(ctx, [tuple(l) for l in x.artin_word()], [(s, 1) for s in short], 'Permutation.artin_word', p)
    eq(ctx, set(x.right_descent_set()), rd, 'Permutation.right_descent_set', p)
    eq(ctx, set(x.left_descent_set()), ld, 'Permutation.left_descent_set', p)
    for s in simple:
        eq(ctx, bool(x.is_right_descent(s)), s in rd, f'Permutation.is_right_descent {s}', p)
        eq(ctx, bool(x.is_left_descent(s)), s in ld, f'Permutation.is_left_descent {s}', p)
    eq(ctx, x.group(), S, 'group', p)
    eq(ctx, tuple(P.from_cox(n, short)), p, 'from_cox of the shortlex word', p)
    eq(ctx, S.from_cox(list(short)), x, 'SymmetricGroup.from_cox', p)
    eq(ctx, S.from_cycles(cyc), x, 'from_cycles', cyc)
    eq(ctx, S.from_cycles([c for c in reversed(cyc) if len(c) > 1]), x, 'from_cycles', cyc)
    ctx.trace()
    ctx.outcome(ctype)


def greedy_shortlex(p):
    """The same word as the breadth-first table, for permutations too long to tabulate."""
    q, out = list(R.pinv(p)), []
    while True:         # q is the inverse of what is left; its first descent is the least left descent
        s = next((i for i in range(len(q) - 1) if q[i] > q[i + 1]), None)
        if s is None:
            return tuple(out)
        out.append(s)
        q[s], q[s + 1] = q[s + 1], q[s]


def patterned(n):
    """A fixed list of structured permutations of range(n)."""
    idn = list(range(n))
    out = [idn, idn[::-1], idn[1:] + idn[:1], idn[-1:] + idn[:-1], idn[n // 2:] + idn[:n // 2], idn[n // 3:] + idn[:n // 3],
           idn[::2] + idn[1::2], idn[1::2] + idn[::2], idn[::2] + idn[1::2][::-1], idn[::3] + idn[1::3] + idn[2::3],
           [x ^ 1 if x ^ 1 < n else x for x in idn], idn[:1] + [x for i in range(1, n - 1, 2) for x in (idn[i + 1], idn[i])] + (idn[n - 1:] if n % 2 == 0 and n > 1 else [])]
    for a, b in ((0, n - 1), (0, 1), (n - 2, n - 1), (n // 2, n - 1), (7, 8), (8, 15), (31, 32), (62, 63), (63, 64), (64, 65), (126, 127), (127, 128)):
        if 0 <= a < b < n:
            t = idn[:]
            t[a], t[b] = b, a
            out.append(t)
            out.append(idn[:a] + idn[a:b + 1][::-1] + idn[b + 1:])
            out.append(idn[:a] + [b] + idn[a:b] + idn[b + 1:])
    for k in (3, 8, n // 2):        # blocks reversed in place; blocks in reverse order; one long cycle on part of the points
        if 1 < k < n:
            blocks = [idn[i:i + k] for i in range(0, n, k)]
            out.append([x for b in blocks for x in b[::-1]])
            out.append([x for b in blocks[::-1] for x in b])
            out.append(idn[:k][1:] + idn[:1] + idn[k:])
    x = 12345
    for _ in range(6):              # fixed shuffles by a small linear congruential sequence
        t = idn[:]
        for i in range(n - 1, 0, -1):
            x = (x * 1103515245 + 12345) % 2**31
            j = (x >> 8) % (i + 1)
            t[i], t[j] = t[j], t[i]
        out.append(t)
    seen, res = set(), []
    for t in out:
        t = tuple(t)
        assert sorted(t) == idn
        if t not in seen:
            seen.add(t)
            res.append(t)
    return res


def run_large(ctx, chunk):
    n, = chunk
    S = SymmetricGroup(n)
    ps = patterned(n)
    for p in ps:
        unary(ctx, n, S, p, greedy_shortlex(p), tuple(reversed(range(n))), every=n <= 40)
    for p in ps:
        for q in ps[::1 if n <= 40 else 5]:
            w = tuple(p[q[j]] for j in range(n))
            eq(ctx, tuple(P.compose(p, q)), w, 'compose', (p, q))
            r = Permutation(p) * Permutation(q)
            eq(ctx, r.word, w, 'product', (p, q))
            eq(ctx, r.inv().word, tuple(P.compose(P.inverse(q), P.inverse(p))), 'inverse of a product', (p, q))
            eq(ctx, r == Permutation(w) and hash(r) == hash(Permutation(w)), True, 'equality and hash', (p, q))
            eq(ctx, P.parity(w), (P.parity(p) + P.parity(q)) % 2, 'parity of a product', (p, q))
        ctx.n_states += 1
    for p in ps:                    # one defect anywhere makes it not a permutation
        for i in (0, 1, n // 2, n - 2, n - 1):
            for v in (p[(i + 1) % n], n, -1, 2 * n, p[i - 1]):
                bad = p[:i] + (v,) + p[i + 1:]
                if sorted(bad) != list(range(n)):
                    eq(ctx, bool(P.is_permutation(bad)), False, 'is_permutation', bad)
                    ctx.raises(lambda: Permutation(bad), f'Permutation({bad})')
    eq(ctx, tuple(P.identity(n)), ps[0], 'identity', n)
    eq(ctx, tuple(P.longest_element(n)), ps[0][::-1], 'longest_element', n)
    ctx.sample({'n': n, 'permutations': len(ps)})


def run_pairs(ctx, chunk):
    n, lo, hi = chunk
    perms = R.perms(n)
    obj = [Permutation(p) for p in perms]
    for a in range(lo, hi):
        p = perms[a]
        lp = list(p)
        for b, q in enumerate(perms):
            w = tuple(p[q[j]] for j in range(n))
            eq(ctx, tuple(P.compose(p, q)), w, 'compose', (p, q))
            r = obj[a] * obj[b]
            eq(ctx, r.word, w, 'product', (p, q))
            if n <= 4:
                eq(ctx, tuple(P.compose(lp, list(q))), w, 'compose (lists)', (p, q))
                eq(ctx, hash(r), hash(Permutation(w)), 'hash', (p, q))
                for c, t in enumerate(perms):
                    eq(ctx, (obj[a] * obj[b]) * obj[c], obj[a] * (obj[b] * obj[c]), 'associativity', (p, q, t))
        ctx.trace()
    ctx.fresh_states((hi - lo) * len(perms))


def run_words(ctx, chunk):
    """from_cox on all words of generators."""
    n, L, first = chunk
    S = SymmetricGroup(n)
    for l in range(L + 1):
        for tail in itertools.product(range(n - 1), repeat=l):
            w = (first,) + tail if first >= 0 else tail
            if first < 0 and l > 0:
                break
            p = list(range(n))
            for s in w:         # product of simple transpositions, right-to-left composition
                g = list(range(n))
                g[s], g[s + 1] = s + 1, s
                p = [p[x] for x in g]
            eq(ctx, tuple(P.from_cox(n, w)), tuple(p), 'from_cox', w)
            eq(ctx, tuple(P.from_cox(n, list(w))), tuple(p), 'from_cox', w)
            eq(ctx, S.from_cox(w), Permutation(tuple(p)), 'SymmetricGroup.from_cox', w)
            ctx.fresh_states(1)
    ctx.raises(lambda: P.from_cox(n, (n - 1,)), 'from_cox with an out-of-range generator')
    ctx.raises(lambda: P.from_cox(n, (0, -1) if n > 1 else (-1,)), 'from_cox with a negative generator')
    ctx.trace()


def run_cycles(ctx, chunk):
    """Single cycles, and lists of (overlapping) cycles."""
    n, = chunk
    S = SymmetricGroup(n)
    cycles = [c for k in range(1, n + 1) for c in itertools.permutations(range(n), k)]

    def one(c):
        w = list(range(n))
        for i in range(len(c)):
            w[c[i]] = c[(i + 1) % len(c)]
        return tuple(w)
    for c in cycles:
        eq(ctx, S.from_cycle(c), Permutation(one(c)), 'from_cycle', c)
        eq(ctx, S.from_cycle(list(c)), Permutation(one(c)), 'from_cycle', c)
        ctx.fresh_states(1)
    eq(ctx, S.from_cycles([]), Permutation(tuple(range(n))), 'from_cycles', [])
    if n <= 4:
        for a, b in itertools.product(cycles, repeat=2):
            eq(ctx, S.from_cycles([a, b]), Permutation(R.compose(one(a), one(b))), 'from_cycles', (a, b))
            ctx.fresh_states(1)
    if n <= 3:
        for a, b, c in itertools.product(cycles, repeat=3):
            eq(ctx, S.from_cycles((a, b, c)), Permutation(R.compose(R.compose(one(a), one(b)), one(c))), 'from_cycles', (a, b, c))
            ctx.fresh_states(1)
    for a in range(n):
        for b in range(n):
            ctx.raises(lambda: S.from_cycle((a, b, a)), 'cycle with a repeated element')
            if a != b:
                eq(ctx, tuple(P.transposition(n, a, b)), one((a, b)), 'transposition', (n, a, b))
            else:
                eq(ctx, tuple(P.transposition(n, a, b)), tuple(range(n)), 'transposition', (n, a, b))
    ctx.raises(lambda: S.from_cycle((0, n)), 'cycle with an element out of range')
    ctx.raises(lambda: S.from_cycle((-1, 0)), 'cycle with an element out of range')
    ctx.raises(lambda: P.transposition(n, 0, n), 'transposition out of range')
    ctx.trace()


def run_cycle_lists(ctx, chunk):
    """Long cycles written from every starting place in several orders, and every list of up to four (overlapping) cycles
    out of a menu of cycles of different lengths."""
    n, lo, hi = chunk
    S = SymmetricGroup(n)

    def one(c):
        w = list(range(n))
        for i in range(len(c)):
            w[c[i]] = c[(i + 1) % len(c)]
        return tuple(w)
    if lo == 0:
        for k in range(1, n + 1):
            for base in (range(k), range(n - k, n), range(n - 1, n - k - 1, -1), [i * 2 % k if k % 2 else i for i in range(k)]):
                base = list(base)
                for r in range(k):
                    c = tuple(base[r:] + base[:r])
                    eq(ctx, S.from_cycle(c), Permutation(one(c)), 'from_cycle', c)
                    ctx.fresh_states(1)
    menu = [(0,), (n - 1,), (0, 1), (n - 1, n - 2), (0, n - 1), (2, 1, 0), (0, 3, 1), (n - 2, 0, 2, n - 1), tuple(range(n - 1)), tuple(range(n - 1, -1, -1))]
    lists = [t for k in (2, 3, 4) for t in itertools.product(menu, repeat=k)]
    for t in lists[lo:hi]:
        want = tuple(range(n))
        for c in t:
            want = R.compose(want, one(c))
        eq(ctx, S.from_cycles(t if lo % 2 else [list(c) for c in t]), Permutation(want), 'from_cycles', t)
        ctx.fresh_states(1)
    ctx.trace()


def run_groups(ctx, chunk):
    n, = chunk
    S = SymmetricGroup(n)
    eq(ctx, tuple(P.identity(n)), tuple(range(n)), 'identity', n)
    eq(ctx, tuple(P.longest_element(n)), tuple(reversed(range(n))), 'longest_element', n)
    eq(ctx, S.id(), Permutation(tuple(range(n))), 'SymmetricGroup.id', n)
    eq(ctx, S.longest_element(), Permutation(tuple(reversed(range(n)))), 'SymmetricGroup.longest_element', n)
    gens = [tuple(P.transposition(n, i, i + 1)) for i in range(n - 1)]
    eq(ctx, [g.word for g in S.cox_gens()], gens, 'cox_gens', n)
    if n <= 7:
        els = [x.word for x in S.elements()]
        ctx.check(len(els) == len(set(els)) and set(els) == set(R.perms(n)), f'elements of S_{n}: {len(els)} listed, {len(set(els))} distinct')
        ctx.step(len(els))
    refs = [x.word for x in S.reflections()]
    want = {tuple(P.transposition(n, i, j)) for i in range(n) for j in range(i)}
    ctx.check(len(refs) == len(want) and set(refs) == want, f'reflections of S_{n} are {refs}')
    for m in range(0, 6):
        if m != n and n <= 5:
            for a in R.perms(n)[:7]:
                for b in R.perms(m)[:7]:
                    ctx.raises(lambda: P.compose(a, b), f'compose({a}, {b})')
                    ctx.raises(lambda: Permutation(a) * Permutation(b), f'product of {a}, {b}')
                    ctx.step(2)
    ctx.raises(lambda: SymmetricGroup(-1 - n), f'SymmetricGroup({-1 - n})')
    ctx.fresh_states(1)
    ctx.trace()


def run_recognise(ctx, chunk):
    """is_permutation on every short integer sequence."""
    L, first = chunk
    vals = list(range(-2, L + 2))
    heads = [()] if L == 0 else [(v,) for v in vals if v == first]
    for h in heads:
        for t in itertools.product(vals, repeat=max(0, L - 1)):
            w = h + t
            want = sorted(w) == list(range(L))
            for x in (w, list(w)):
                got = P.is_permutation(x)
                if bool(got) != want:
                    ctx.fail(f'is_permutation({x!r}) is {got}')
                ctx.transitions += 1
            if want:
                ctx.check(tuple(Permutation(w).word) == w, f'Permutation({w}) does not keep its word')
            else:
                ctx.raises(lambda: Permutation(w), f'Permutation({w})')
            ctx.transitions += 1
            ctx.n_states += 1
            ctx.outcome((L, want))
    ctx.trace()


def run_blocks(ctx, chunk):
    """Every set partition of many points, each block cycled downwards; and with one block cycled in another order."""
    n, lo, hi = chunk
    for blocks in itertools.islice(R.set_partitions(n), lo, hi):
        parallel = R.is_noncrossing(blocks)
        p = R.part_perm(n, blocks)
        sizes = tuple(sorted(map(len, blocks), reverse=True))
        eq(ctx, bool(P.is_descending_cycles(p)), True, 'is_descending_cycles', p)
        eq(ctx, bool(P.is_parallel_descending_cycles(p)), parallel, 'is_parallel_descending_cycles', p)
        eq(ctx, tuple(P.cycle_type(p)), sizes, 'cycle_type', p)
        eq(ctx, P.parity(p), (n - len(sizes)) % 2, 'parity', p)
        eq(ctx, sorted(tuple(sorted(c)) for c in P.disjoint_cycles(p)), sorted(blocks), 'disjoint_cycles', p)
        for b in blocks:
            for k in range(1, len(b) - 1):
                c = list(b)
                c[k], c[k + 1] = c[k + 1], c[k]
                q = list(p)
                for i in range(len(c)):
                    q[c[i]] = c[i - 1]
                eq(ctx, bool(P.is_descending_cycles(q)), False, 'is_descending_cycles', q)
                eq(ctx, bool(P.is_parallel_descending_cycles(q)), False, 'is_parallel_descending_cycles', q)
        ctx.n_states += 1
        ctx.outcome((sizes, parallel))
    ctx.trace()


def run_schedules(ctx, chunk):
    """Every interleaving (bounded switches) of listings of symmetric groups and their reflections, some left unfinished."""
    specs, limit = chunk
    makers, wants = [], []
    for what, n in specs:
        S = SymmetricGroup(n)
        makers.append(S.elements if what == 'elements' else S.reflections)
        wants.append(set(R.perms(n)) if what == 'elements' else {tuple(P.transposition(n, i, j)) for i in range(n) for j in range(i)})
    k = schedules.affordable([len(w) for w in wants], limit)
    schedules.explore(ctx, makers, wants, k, lambda x: x.word, lambda: f'listings {specs}')


def families(tier):
    q = tier == 'quick'
    F = [Family('groups', [[n] for n in [*range(0, 41), 64, 65]], run_groups, 'identity, longest element, generators, reflections, listing; size mismatches')]
    ch = []
    for n in range(0, 9 if q else 10):
        m = len(R.perms(n))
        ch += [[n, lo, hi] for lo, hi in slices(m, 500)]
    F.append(Family('unary', ch, run_unary, 'every permutation: all unary functions, as tuple and list'))
    menu = [('elements', n) for n in (1, 2, 3, 4)] + [('reflections', n) for n in (2, 3, 4)]
    F.append(Family('schedules', [[[list(x) for x in t], 2000 if q else 50000] for k in (2, 3) for t in itertools.combinations_with_replacement(menu, k) if k == 2 or sum(n for _, n in t) <= 8],
                    run_schedules, 'every interleaving of two or three listings with few switches, some left unfinished'))
    F.append(Family('large', [[n] for n in (8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129)], run_large,
                    'structured permutations of many points: all unary functions, products, defects'))
    ch = []
    for n in range(0, 7 if q else 8):
        m = len(R.perms(n))
        ch += [[n, lo, hi] for lo, hi in slices(m, 20)]
    F.append(Family('pairs', ch, run_pairs, 'all ordered pairs (and triples for n <= 4)'))
    ch = []
    for n, L in [(2, 6), (3, 8), (4, 7), (5, 6), (6, 5), (7, 4)]:
        ch += [[n, L - 1, s] for s in range(-1, n - 1)]
    F.append(Family('generator_words', ch, run_words, 'from_cox on all words'))
    F.append(Family('cycles', [[n] for n in range(1, 7)], run_cycles, 'from_cycle/from_cycles on all cycles and short lists'))
    F.append(Family('cycle_lists', [[n, lo, hi] for n in ((5, 7, 9, 13) if q else (5, 6, 7, 8, 9, 10, 11, 12, 13, 17, 33)) for lo, hi in slices(10 ** 2 + 10 ** 3 + 10 ** 4, 2777)], run_cycle_lists,
                    'long cycles, and every list of two to four cycles of a menu'))
    F.append(Family('blocks', [[n, lo, hi] for n, m in ((8, 4140), (9, 21147), (10, 115975)) + (() if q else ((11, 678570),)) for lo, hi in slices(m, 2000)], run_blocks,
                    'every set partition of 8 to 11 points with each block cycled downwards, and one block cycled otherwise'))
    F.append(Family('recognition', [[L, f] for L in range(0, 7 if q else 8) for f in (range(-2, L + 2) if L else [0])], run_recognise,
                    'is_permutation on all short sequences'))
    return F

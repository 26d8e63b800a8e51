"""C07: noncrossing partitions against their definitions and the braid group."""
import itertools

from peyl import NPar, Permutation
from peyl import noncrossing as NC
from peyl import permutations, tl
from vlib import ref_braid as R, schedules
from vlib.core import Family, slices

PROPERTY = 'C07'
ASSUMPTIONS = ['the action on Dynnikov coordinates is faithful (textbook; cross-checked with the Artin action in C01)']


# ------------------------------------------------------------------ reference
def set_partitions(n):
    """All set partitions of range(n), blocks sorted."""
    def rec(i, blocks):
        if i == n:
            yield tuple(tuple(b) for b in blocks)
            return
        for b in blocks:
            b.append(i)
            yield from rec(i + 1, blocks)
            b.pop()
        blocks.append([i])
        yield from rec(i + 1, blocks)
        blocks.pop()
    yield from rec(0, [])


def crossing(blocks):
    for A, B in itertools.combinations(blocks, 2):
        for a, c in itertools.combinations(A, 2):
            inside = sum(a < b < c for b in B)
            if 0 < inside < len(B):
                return True
    return False


def cyc_perm(n, blocks):
    """Each block sends an element to the next smaller one of the block (the least to the greatest)."""
    w = [0] * n
    for b in blocks:
        b = sorted(b)
        for i, x in enumerate(b):
            w[x] = b[i - 1]
    return tuple(w)


def matching_ok(seq):
    N = len(seq)
    for i, x in enumerate(seq):
        if not (0 <= x < N) or x == i or seq[x] != i:
            return False
    for i in range(N):
        for j in range(i + 1, N):
            if i < j < seq[i] and not (i < seq[j] < seq[i]):
                return False
    return True


def kreweras(n, blocks):
    """The permutation c = delta p^-1 as blocks, both ways (only used as sets of cycles)."""
    p = cyc_perm(n, blocks)
    d = cyc_perm(n, [tuple(range(n))])
    left = R.compose(d, R.pinv(p))
    right = R.compose(R.pinv(p), d)
    return left, right


def eq(ctx, got, want, what):
    if got != want:
        ctx.fail(f'{what} is {got!r}, should be {want!r}')
    ctx.transitions += 1


def norm(x):
    return sorted(tuple(sorted(c)) for c in x)


# ------------------------------------------------------------------ families
def run_partitions(ctx, chunk):
    """Every set partition: acceptance, refusal, and everything about the accepted ones."""
    n, lo, hi = chunk
    delta_key = R.key(n, [(i, 1) for i in range(n - 2, -1, -1)])
    delta = [(i, 1) for i in range(n - 2, -1, -1)]
    for blocks in itertools.islice(set_partitions(n), lo, hi):
        what = f'n={n} partition {blocks}'
        ctx.n_states += 1
        crosses = crossing(blocks)
        assert crosses == crosses_fast(n, blocks)
        judge(ctx, n, blocks, crosses, delta, delta_key, what)


def judge(ctx, n, blocks, crosses, delta, delta_key, what):
    """Acceptance or refusal of one set partition, and everything about an accepted one."""
    proper = [b for b in blocks if len(b) > 1]
    ctx.check(bool(permutations.is_parallel_descending_cycles(cyc_perm(n, blocks))) is (not crosses), f'{what}: is_parallel_descending_cycles is {crosses}')
    if crosses:
        ctx.raises(lambda: NPar.from_components(n, [list(b) for b in blocks]), what + ' (crossing)')
        ctx.raises(lambda: NPar.from_components(n, proper), what + ' (crossing, singletons omitted)')
        ctx.raises(lambda: NPar.from_permutation(Permutation(cyc_perm(n, blocks))), what + ' (crossing) from_permutation')
        ctx.outcome('refused')
        ctx.step(3)
        return
    ctx.outcome('accepted')
    x = NPar.from_components(n, [list(b) for b in blocks])
    for variant in (proper, list(reversed(blocks)), [tuple(reversed(b)) for b in blocks], [set(b) for b in proper],
                    [b[1:] + b[:1] for b in blocks], tuple(blocks), [frozenset(b) for b in reversed(proper)]):
        y = NPar.from_components(n, variant)
        ctx.check(y == x and hash(y) == hash(x) and not (y != x), f'{what}: built from {variant} it is different')
        ctx.step()
    eq(ctx, [tuple(c) for c in x.components()], [tuple(b) for b in blocks], what + ' components')
    p = cyc_perm(n, blocks)
    eq(ctx, x.to_permutation(), Permutation(p), what + ' to_permutation')
    eq(ctx, NPar.from_permutation(Permutation(p)), x, what + ' from_permutation')
    eq(ctx, sorted(tuple(sorted(e)) for e in x.edges()), sorted(e for b in blocks for e in itertools.combinations(b, 2)), what + ' edges')
    eq(ctx, NPar(n, x.inv), x, what + ' rebuilt from its matching')
    ctx.check(matching_ok(x.inv) and len(x.inv) == 2 * n, f'{what}: matching {x.inv}')
    # the braid
    w = [(int(i), int(e)) for i, e in x.artin_word()]
    ctx.check(all(0 <= i < n - 1 for i, e in w), f'{what}: artin word {w} leaves the strands')
    k = R.key(n, w)
    ref = R.factor_word('DGNF', R.norm_blocks(n, blocks))
    eq(ctx, k, R.key(n, ref), what + f' braid of artin word {w}')
    ctx.check(sum(e for _, e in w) == n - len(blocks), f'{what}: artin word {w} has the wrong exponent sum')
    # complements
    left, right = kreweras(n, blocks)
    L, Rr = x.left_complement(), x.right_complement()
    ctx.check(not crosses_fast(n, norm(L.components())) and not crosses_fast(n, norm(Rr.components())), f'{what}: a complement crosses')
    lw, rw = list(L.artin_word()), list(Rr.artin_word())
    eq(ctx, R.key(n, lw + w), delta_key, what + f' left complement {L!r} times itself vs delta')
    eq(ctx, R.key(n, w + rw), delta_key, what + f' itself times right complement {Rr!r} vs delta')
    eq(ctx, L.to_permutation(), Permutation(left), what + ' permutation of the left complement')
    eq(ctx, Rr.to_permutation(), Permutation(right), what + ' permutation of the right complement')
    eq(ctx, L.right_complement(), x, what + ' right complement of the left complement')
    eq(ctx, Rr.left_complement(), x, what + ' left complement of the right complement')
    LL = L.left_complement()
    eq(ctx, R.key(n, list(LL.artin_word()) + delta), R.key(n, delta + w), what + ' double left complement is conjugation by delta')
    eq(ctx, len(L.components()) + len(blocks), n + 1, what + ' rank of the complement')
    ctx.trace()
    ctx.sample({'n': n, 'blocks': blocks})


def crosses_fast(n, blocks):
    """Crossing test for many points: between neighbours of a block only whole blocks may lie."""
    where = {x: i for i, b in enumerate(blocks) for x in b}
    for b in blocks:
        b = sorted(b)
        for x, y in zip(b, b[1:]):
            inside = [where[z] for z in range(x + 1, y) if z in where]
            if any(not (x < min(blocks[i]) and max(blocks[i]) < y) for i in set(inside)):
                return True
    return False


def patterned(n):
    """A fixed list of structured set partitions of range(n), crossing or not."""
    r = list(range(n))
    out = [[(i,) for i in r], [tuple(r)], [(i, n - 1 - i) for i in range(n // 2)], [tuple(r[i:i + 2]) for i in range(0, n, 2)],
           [tuple(r[i:i + 3]) for i in range(0, n, 3)], [tuple(r[1:])], [tuple(r[:-1])], [(0, n - 1), tuple(r[1:-1])],
           [tuple(r[::2])], [tuple(r[1::2])], [tuple(r[::3])] + [(i + 1, i + 2) for i in range(0, n - 2, 3)],
           [tuple(r[:n // 2]), tuple(r[n // 2:])], [(0, n // 2) + tuple(r[n // 2 + 1:]), tuple(r[1:n // 2])],
           [(i, i + 1, n - 1 - i) for i in range(0, n // 2 - 1, 2)],
           [tuple(r[i:i + 8]) for i in range(0, n, 8)], [tuple(r[i:i + 7]) for i in range(3, n, 7)],
           # crossing ones
           [tuple(r[::2]), tuple(r[1::2])], [(i, i + n // 2) for i in range(n // 2)], [(0, n - 2), (1, n - 1)],
           [(n - 4, n - 2), (n - 3, n - 1)], [tuple(r[:-3:1])[:2] + (n - 2,), tuple(r[3:n - 3]) + (n - 1,)], [(0, n // 2), (n // 2 - 1, n // 2 + 1)]]
    for a, b in ((0, n - 1), (0, 1), (n - 2, n - 1), (7, 8), (8, 15), (15, 16), (31, 32), (0, 32), (62, 63), (63, 64), (0, 64)):
        if 0 <= a < b < n:
            out.append([(a, b)])
            out.append([tuple(range(a, b + 1))])
            out.append([tuple(range(0, a + 1)) + tuple(range(b, n))])
            out.append([(a, b), tuple(range(a + 1, b))])
    x = 4321
    for width in (3, n // 2, n):         # cut at random into noncrossing blocks: a stack of open blocks
        stack, blocks = [], []
        for i in r:
            x = (x * 1103515245 + 12345) % 2**31
            c = (x >> 12) % 4
            if stack and c == 0:
                blocks[stack[-1]].append(i)
            elif stack and c == 1:
                blocks[stack.pop()].append(i)
            elif c == 2 or len(stack) >= width:
                blocks.append([i])
            else:
                stack.append(len(blocks))
                blocks.append([i])
        out.append([tuple(b) for b in blocks])
    seen, res = set(), []
    for p in out:
        p = [tuple(sorted(set(b))) for b in p if b]
        used = {x for b in p for x in b}
        if len(used) != sum(map(len, p)):
            continue
        p = tuple(sorted(p + [(i,) for i in r if i not in used]))
        if p not in seen:
            seen.add(p)
            res.append(p)
    return res


def run_large(ctx, chunk):
    n, i, k = chunk
    delta = [(i, 1) for i in range(n - 2, -1, -1)]
    delta_key = R.key(n, delta)
    for blocks in patterned(n)[i::k]:
        ctx.n_states += 1
        judge(ctx, n, blocks, crosses_fast(n, blocks), delta, delta_key, f'n={n} partition {blocks}')
    if i == 0:
        for s in (0, 1, n // 2, n - 2, n - 1):
            for t in (0, 1, n // 2 + 1, n - 2, n - 1):
                if 0 <= s < n > t >= 0:
                    w = list(NC.bkl_gen_to_artin_word(s, t))
                    eq(ctx, R.key(n, w), R.key(n, R.bkl_word(min(s, t), max(s, t)) if s != t else []), f'braid of bkl_gen_to_artin_word({s}, {t}) = {w}')
        eq(ctx, NPar.finest(n).left_complement(), NPar.coarsest(n), f'left complement of finest({n})')
        eq(ctx, NPar.coarsest(n).right_complement(), NPar.finest(n), f'right complement of coarsest({n})')


def run_listing(ctx, chunk):
    n, = chunk
    got = [tuple(x.components()) for x in NPar.all_of_size(n)]
    if n <= 9:
        want = [b for b in set_partitions(n) if not crossing(b)] if n <= 8 else None
        if want is not None:
            ctx.check(len(got) == len(want) and set(got) == set(want), f'all_of_size({n}) lists {len(got)} ({len(set(got))} distinct), should be {len(want)}')
    ctx.check(len(set(got)) == len(got), f'all_of_size({n}) repeats itself')
    ctx.check(not any(crossing(b) for b in got), f'all_of_size({n}) lists a crossing partition')
    # Catalan numbers by the convolution recursion
    C = [1]
    for m in range(300 if n == 0 else 40):
        C.append(sum(C[i] * C[m - i] for i in range(m + 1)))
    for m in range(300 if n == 0 else 40):
        eq(ctx, NC.catalan(m), C[m], f'catalan({m})')
    eq(ctx, len(got), C[n], f'number of noncrossing partitions of {n} points')
    eq(ctx, [tuple(c) for c in NPar.finest(n).components()], [(i,) for i in range(n)], f'finest({n})')
    eq(ctx, [tuple(c) for c in NPar.coarsest(n).components()], [tuple(range(n))] if n else [], f'coarsest({n})')
    # listings do not disturb each other
    a, b = NPar.all_of_size(n), NPar.all_of_size(n)
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.check(x == y and tuple(x.components()) == got[i], f'two interleaved all_of_size({n}) listings disagree')
        ctx.step()
    ctx.fresh_states(len(got))
    ctx.trace()


def run_sequences(ctx, chunk):
    """generate_sequences lists exactly the crossingless matchings."""
    N, = chunk
    if N % 2 or N < 0:
        ctx.raises(lambda: list(tl.generate_sequences(N)), f'generate_sequences({N})')
        ctx.step()
        return

    def matchings(pts):
        if not pts:
            yield ()
            return
        for j in range(1, len(pts)):
            for rest in matchings(pts[1:j] + pts[j + 1:]):
                yield ((pts[0], pts[j]),) + rest
    want = set()
    if N <= 10:
        for m in matchings(tuple(range(N))):
            s = [0] * N
            for a, b in m:
                s[a], s[b] = b, a
            ok = matching_ok(s)
            eq(ctx, bool(tl.is_crossingless_matching(s)), ok, f'is_crossingless_matching({s})')
            eq(ctx, bool(tl.is_crossingless_matching(tuple(s))), ok, f'is_crossingless_matching({s})')
            if ok:
                want.add(tuple(s))
            else:
                if N <= 8:
                    ctx.raises(lambda: NPar(N // 2, tuple(s)), f'NPar({N // 2}, {s})')
            ctx.n_states += 1
    got = [tuple(s) for s in tl.generate_sequences(N)]
    if N <= 10:
        ctx.check(len(got) == len(want) and set(got) == want, f'generate_sequences({N}): {len(got)} listed, should be {len(want)}')
    else:
        ctx.check(len(set(got)) == len(got) == NC.catalan(N // 2) and all(map(matching_ok, got)), f'generate_sequences({N}) is wrong')
        ctx.n_states += len(got)
    a, b = tl.generate_sequences(N), tl.generate_sequences(N)
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.check(tuple(x) == tuple(y) == got[i], 'interleaved generate_sequences disagree')
        ctx.step()
    ctx.trace()


def run_recognise(ctx, chunk):
    L, first = chunk
    vals = list(range(-1, L + 1))
    for t in itertools.product(vals, repeat=max(0, L - 1)):
        s = ((first,) + t) if L else ()
        want = matching_ok(s)
        got = tl.is_crossingless_matching(s)
        if bool(got) != want:
            ctx.fail(f'is_crossingless_matching({s}) is {got}, should be {want}')
        ctx.n_states += 1
        ctx.transitions += 1
    ctx.trace()


def run_refusals(ctx, chunk):
    """from_components on every short list of small sets: accepted exactly when disjoint, in range and noncrossing."""
    n, first = chunk
    vals = range(-1, n + 1)
    sets = [c for k in range(0, 4) for c in itertools.combinations(vals, k)]
    dups = [(a, a) for a in range(n)] + [(0, 1, 0)] * (n > 1)
    sets += dups
    for i in range(first, len(sets), 8):
        for B in sets:
            comps = [list(sets[i]), list(B)]
            flat = [x for c in comps for x in c]
            ok = len(set(flat)) == len(flat) and all(0 <= x < n for x in flat)
            if ok:
                rest = [(x,) for x in range(n) if x not in flat]
                blocks = tuple(sorted(tuple(sorted(c)) for c in comps if c)) + tuple(rest)
                ok = not crossing(blocks)
            if ok:
                x = NPar.from_components(n, comps)
                eq(ctx, norm(x.components()), norm(blocks), f'components of from_components({n}, {comps})')
            else:
                ctx.raises(lambda: NPar.from_components(n, comps), f'from_components({n}, {comps})')
            ctx.outcome(ok)
            ctx.n_states += 1
            ctx.transitions += 1
    ctx.trace()


def run_perms(ctx, chunk):
    """from_permutation accepts exactly the parallel descending cycles."""
    n, = chunk
    for p in R.perms(n):
        blocks = tuple(sorted(tuple(sorted(c)) for c in R.perm_cycles(p)))
        ok = cyc_perm(n, blocks) == p and not crossing(blocks)
        if ok:
            eq(ctx, norm(NPar.from_permutation(Permutation(p)).components()), norm(blocks), f'from_permutation({p})')
        else:
            ctx.raises(lambda: NPar.from_permutation(Permutation(p)), f'from_permutation({p})')
        ctx.n_states += 1
        ctx.transitions += 1
        ctx.outcome(ok)
    ctx.trace()


def run_words(ctx, chunk):
    """Band generators and single blocks as words."""
    n, = chunk
    for s in range(n):
        for t in range(n):
            w = list(NC.bkl_gen_to_artin_word(s, t))
            want = R.bkl_word(min(s, t), max(s, t)) if s != t else []
            eq(ctx, R.key(n, w), R.key(n, want), f'braid of bkl_gen_to_artin_word({s}, {t}) = {w}')
            ctx.n_states += 1
    for k in range(0, n + 1):
        for c in itertools.combinations(range(n), k):
            want = R.factor_word('DGNF', R.norm_blocks(n, [c])) if c else []
            for order in (c, tuple(reversed(c)), set(c)):
                w = list(NC.npar_component_to_artin_word(order))
                eq(ctx, R.key(n, w), R.key(n, want), f'braid of npar_component_to_artin_word({order}) = {w}')
            ctx.n_states += 1
    ctx.raises(lambda: NC.npar_component_to_artin_word([0, 0]), 'component with duplicates')
    ctx.trace()


def run_far_refusals(ctx, chunk):
    """from_components on many points: one or two faults among many blocks are noticed wherever they are."""
    n, = chunk
    blocks = [[i, i + 1] for i in range(0, n - 1, 2)]
    long = [list(range(0, n, 2))]
    for base in (blocks, long, [list(range(n))], [[i] for i in range(n)]):
        eq(ctx, norm(NPar.from_components(n, base).components()), norm([*base, *([x] for x in range(n) if not any(x in c for c in base))]), f'from_components({n}, {base})')
        for k in range(n):
            for bad in ([*base, [n]], [*base, [-1, k]], [[n + k], *base]) + (([*base, [k]], [[k], *base]) if any(k in c for c in base) else ()):
                ctx.raises(lambda: NPar.from_components(n, bad), f'from_components({n}, {bad})')
                ctx.transitions += 1
        ctx.n_states += 1
    for a in range(n):
        for b in range(a + 2, n):
            for extra in ([[a, b]], [[a, b], [a + 1, (b + 1) % n if b + 1 < n else a - 1]]):
                flat = [x for c in extra for x in c]
                if -1 in flat or len(set(flat)) < len(flat):
                    continue
                rest = [[x, x + 1] for x in range(0, n - 1, 2) if x not in flat and x + 1 not in flat]
                comps = rest[:len(rest) // 2] + extra + rest[len(rest) // 2:]
                full = [*comps, *([x] for x in range(n) if not any(x in c for c in comps))]
                if crossing(norm(full)):
                    ctx.raises(lambda: NPar.from_components(n, comps), f'from_components({n}, {comps})')
                    ctx.outcome('crossing')
                else:
                    eq(ctx, norm(NPar.from_components(n, comps).components()), norm(full), f'from_components({n}, {comps})')
                    ctx.outcome('noncrossing')
                ctx.transitions += 1
    ctx.trace()


BELL = [1, 1, 2, 5, 15, 52, 203, 877, 4140, 21147, 115975]


def run_schedules(ctx, chunk):
    """Every interleaving (bounded switches) of listings of noncrossing partitions and of matchings, some left unfinished."""
    specs, limit = chunk
    makers, wants = [], []
    for what, n in specs:
        part = [b for b in set_partitions(n) if not crossing(b)]
        if what == 'partitions':
            makers.append(lambda n=n: (tuple(map(tuple, x.components())) for x in NPar.all_of_size(n)))
            wants.append({tuple(map(tuple, b)) for b in part})
        else:
            makers.append(lambda n=n: map(tuple, tl.generate_sequences(2 * n)))
            wants.append({tuple(NPar.from_components(n, b).inv) for b in part})
    k = schedules.affordable([len(w) for w in wants], limit)
    schedules.explore(ctx, makers, wants, k, lambda x: x, lambda: f'listings {specs}')


def families(tier):
    q = tier == 'quick'
    F = [Family('partitions', [[n, lo, hi] for n in range(1, 10 if q else 11) for lo, hi in slices(BELL[n], 150)], run_partitions,
                'every set partition: acceptance, conversions, artin word, complements')]
    F.append(Family('large', [[n, i, k] for n in (9, 10, 11, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65) for k in (1 if n < 30 else 4,) for i in range(k)], run_large,
                    'structured partitions of many points'))
    F.append(Family('listing', [[n] for n in range(0, 11 if q else 13)], run_listing, 'all_of_size, catalan, finest/coarsest'))
    menu = [(what, n) for what in ('partitions', 'sequences') for n in (1, 2, 3, 4)]
    F.append(Family('schedules', [[[list(x) for x in t], 2000 if q else 50000] for k in (2, 3) for t in itertools.combinations_with_replacement(menu, k) if k == 2 or sum(n for _, n in t) <= 8],
                    run_schedules, 'every interleaving of two or three listings with few switches, some left unfinished'))
    F.append(Family('sequences', [[N] for N in list(range(-2, 19 if q else 23))], run_sequences, 'generate_sequences and the matching predicate on every perfect matching'))
    F.append(Family('recognition', [[L, f] for L in range(0, 8 if q else 9) for f in (range(-1, L + 1) if L else [0])], run_recognise,
                    'is_crossingless_matching on every short integer sequence'))
    F.append(Family('component_lists', [[n, i] for n in range(1, 7 if q else 8) for i in range(8)], run_refusals, 'from_components on every pair of small component lists'))
    F.append(Family('far_refusals', [[n] for n in (8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24)], run_far_refusals, 'from_components on many points with one or two faults at every place'))
    F.append(Family('permutations', [[n] for n in range(0, 9 if q else 10)], run_perms, 'from_permutation on every permutation'))
    F.append(Family('words', [[n] for n in range(2, 9 if q else 12)], run_words, 'band generators and single blocks as Artin words'))
    return F

"""Independent reference model of braid groups.

* The Dynnikov action of B_n on Z^{2n} (faithful, evaluated on the standard lamination): the
  value ("key") decides equality of braids.  Cross-checked in C01 against the Artin action on the
  free group, which is the definition of faithful.
* Definitions of simple elements, left-weightedness and absolute order, for both Garside structures.

Nothing here imports peyl.
"""
import functools
import itertools


# ---------------------------------------------------------------------------- Dynnikov coordinates
def start(n):
    return (0, 1) * n


def act(x, i, e):
    """Act by sigma_i^e, e = +-1, on coordinates x = (a1, b1, a2, b2, ...)."""
    k = 2 * i
    a, b, c, d = x[k], x[k + 1], x[k + 2], x[k + 3]      # a_i b_i a_{i+1} b_{i+1}
    bp = b if b > 0 else 0
    bm = b if b < 0 else 0
    dp = d if d > 0 else 0
    dm = d if d < 0 else 0
    if e > 0:
        t = a - bm - c + dp
        tp = t if t > 0 else 0
        u = dp - t
        na = a + bp + (u if u > 0 else 0)
        nb = d - tp
        u = bm + t
        nc = c + dm + (u if u < 0 else 0)
        nd = b + tp
    else:
        t = a + bm - c - dp
        tm = t if t < 0 else 0
        u = dp + t
        na = a - bp - (u if u > 0 else 0)
        nb = d + tm
        u = bm - t
        nc = c - dm - (u if u < 0 else 0)
        nd = b - tm
    return x[:k] + (na, nb, nc, nd) + x[k + 4:]


def run(x, word):
    """Act by a word [(i, e)], |e| arbitrary."""
    for i, e in word:
        s = 1 if e > 0 else -1
        for _ in range(abs(e)):
            x = act(x, i, s)
    return x


def key(n, word):
    return run(start(n), word)


def inv_word(word):
    return [(i, -e) for i, e in reversed(word)]


def pow_word(word, k):
    return list(word) * k if k >= 0 else inv_word(word) * (-k)


# ---------------------------------------------------------------------------- Artin action on F_n
def _reduce(w):
    out = []
    for x in w:
        if out and out[-1] == -x:
            out.pop()
        else:
            out.append(x)
    return tuple(out)


def artin_auto(n, word):
    """Images of the free generators under the automorphism of the braid word (faithful)."""
    imgs = [(j + 1,) for j in range(n)]

    def subst(w, gen_imgs):
        out = []
        for x in w:
            out.extend(gen_imgs[x - 1] if x > 0 else [-y for y in reversed(gen_imgs[-x - 1])])
        return _reduce(out)

    for i, e in word:
        base = [(j + 1,) for j in range(n)]
        if e > 0:
            base[i], base[i + 1] = (i + 1, i + 2, -(i + 1)), (i + 1,)
        else:
            base[i], base[i + 1] = (i + 2,), (-(i + 2), i + 1, i + 2)
        # composing phi_word o phi_letter: letters act innermost last
        imgs = [subst(base[j], imgs) for j in range(n)]
    return tuple(imgs)


# ---------------------------------------------------------------------------- permutations
def compose(x, y):
    """(x y)(j) = x(y(j))."""
    return tuple(x[j] for j in y)


def pinv(x):
    r = [0] * len(x)
    for i, v in enumerate(x):
        r[v] = i
    return tuple(r)


@functools.lru_cache(maxsize=None)
def plen(x):
    return sum(x[i] > x[j] for i in range(len(x)) for j in range(i + 1, len(x)))


@functools.lru_cache(maxsize=None)
def rdes(x):
    return frozenset(i for i in range(len(x) - 1) if x[i] > x[i + 1])


@functools.lru_cache(maxsize=None)
def ldes(x):
    return rdes(pinv(x))


@functools.lru_cache(maxsize=None)
def perm_word(x):
    """Some reduced word (Artin letters) of the positive lift of x: bubble sort from the right."""
    w = list(x)
    out = []
    n = len(w)
    changed = True
    while changed:
        changed = False
        for i in range(n - 1):
            if w[i] > w[i + 1]:
                w[i], w[i + 1] = w[i + 1], w[i]
                out.append((i, 1))
                changed = True
    out.reverse()
    return tuple(out)


@functools.lru_cache(maxsize=None)
def half_twist_word(n):
    return perm_word(tuple(reversed(range(n))))


def perms(n):
    return list(itertools.permutations(range(n)))


def perm_cycles(x):
    seen, out = set(), []
    for i in range(len(x)):
        if i not in seen:
            c, j = [], i
            while j not in seen:
                seen.add(j)
                c.append(j)
                j = x[j]
            out.append(tuple(c))
    return out


@functools.lru_cache(maxsize=None)
def abslen(x):
    return len(x) - len(perm_cycles(x))


# Garside: pair (x, y) is left-weighted iff every left descent of y is a right descent of x.
def gar_weighted(x, y):
    return ldes(y) <= rdes(x)


@functools.lru_cache(maxsize=None)
def gar_follows(n):
    """dict: nontrivial simple x -> tuple of nontrivial, non-Delta simples y with (x, y) left weighted."""
    w0 = tuple(reversed(range(n)))
    idn = tuple(range(n))
    proper = [p for p in perms(n) if p != idn and p != w0]
    return {x: tuple(y for y in proper if ldes(y) <= rdes(x)) for x in proper}, tuple(proper)


# ---------------------------------------------------------------------------- noncrossing partitions
def set_partitions(n):
    """All set partitions of range(n), as tuples of sorted tuples ordered by minimum."""
    def rec(i, blocks):
        if i == n:
            yield tuple(tuple(b) for b in blocks)
            return
        for b in blocks:
            b.append(i)
            yield from rec(i + 1, blocks)
            b.pop()
        blocks.append([i])
        yield from rec(i + 1, blocks)
        blocks.pop()
    yield from rec(0, [])


def is_noncrossing(blocks):
    where = {x: k for k, b in enumerate(blocks) for x in b}
    pts = sorted(where)
    for a, b, c, d in itertools.combinations(pts, 4):
        if where[a] == where[c] and where[b] == where[d] and where[a] != where[b]:
            return False
    return True


@functools.lru_cache(maxsize=None)
def noncrossing(n):
    return tuple(p for p in set_partitions(n) if is_noncrossing(p))


def part_perm(n, blocks):
    """Product of descending cycles: each element maps to the previous one of its block, cyclically."""
    w = list(range(n))
    for b in blocks:
        for i in range(len(b)):
            w[b[i]] = b[i - 1]
    return tuple(w)


def bkl_word(s, t):
    """Band generator a_{st}, s < t, as an Artin word."""
    if s > t:
        s, t = t, s
    if s == t:
        return ()
    return tuple([(i, 1) for i in range(t - 1, s, -1)] + [(s, 1)] + [(i, -1) for i in range(s + 1, t)])


@functools.lru_cache(maxsize=None)
def part_word(blocks):
    """The dual simple element of a noncrossing partition, as an Artin word."""
    out = []
    for b in blocks:
        for i in range(len(b) - 2, -1, -1):
            out.extend(bkl_word(b[i], b[i + 1]))
    return tuple(out)


def norm_blocks(n, comps):
    comps = [tuple(sorted(c)) for c in comps]
    have = {x for c in comps for x in c}
    comps += [(i,) for i in range(n) if i not in have]
    return tuple(sorted(comps))


@functools.lru_cache(maxsize=None)
def dual_cycle(n):
    return tuple([n - 1] + list(range(n - 1))) if n else ()


@functools.lru_cache(maxsize=None)
def dual_word(n):
    return tuple((i, 1) for i in range(n - 2, -1, -1))


@functools.lru_cache(maxsize=None)
def transpositions(n):
    out = []
    for i in range(n):
        for j in range(i + 1, n):
            w = list(range(n))
            w[i], w[j] = w[j], w[i]
            out.append(tuple(w))
    return tuple(out)


@functools.lru_cache(maxsize=None)
def dual_left_divs(p):
    """Reflections r with r <= p in absolute order."""
    a = abslen(p)
    return frozenset(t for t in transpositions(len(p)) if abslen(compose(t, p)) == a - 1)


@functools.lru_cache(maxsize=None)
def dual_extensions(p):
    """Reflections r such that p r is still below the Coxeter element, with length one more."""
    n = len(p)
    return dual_left_divs(compose(pinv(p), dual_cycle(n)))


@functools.lru_cache(maxsize=None)
def dual_weighted(x, y):
    """x, y partitions as permutations below the descending cycle."""
    return not (dual_extensions(x) & dual_left_divs(y))


@functools.lru_cache(maxsize=None)
def dual_follows(n):
    """dict over partitions (block form)."""
    parts = [p for p in noncrossing(n) if 1 < len(p) < n]
    pm = {p: part_perm(n, p) for p in parts}
    return {x: tuple(y for y in parts if dual_weighted(pm[x], pm[y])) for x in parts}, tuple(parts)


# ---------------------------------------------------------------------------- enumeration
def follows(kind, n):
    return gar_follows(n) if kind == 'GNF' else dual_follows(n)


def normal_forms(kind, n, length, after=None):
    """All factor sequences of normal forms with no Garside power, in reference notation."""
    fol, first = follows(kind, n)

    def rec(k, last):
        if k == 0:
            yield ()
            return
        for y in (first if last is None else fol[last]):
            for rest in rec(k - 1, y):
                yield (y,) + rest
    return rec(length, after)


def count_normal_forms(kind, n, length, after=None):
    fol, first = follows(kind, n)
    if length == 0:
        return 1
    counts = {y: 1 for y in (first if after is None else fol[after])}
    for _ in range(length - 1):
        new = {}
        for x, c in counts.items():
            for y in fol[x]:
                new[y] = new.get(y, 0) + c
        counts = new
    return sum(counts.values())


def factor_word(kind, f):
    return perm_word(f) if kind == 'GNF' else part_word(f)


def garside_word(kind, n):
    return half_twist_word(n) if kind == 'GNF' else dual_word(n)


def nf_word(kind, n, power, factors):
    w = pow_word(garside_word(kind, n), power)
    for f in factors:
        w = w + list(factor_word(kind, f))
    return w


def is_normal_form(kind, n, factors):
    """Is the (reference-notation) factor list the factor list of a normal form?"""
    if kind == 'GNF':
        idn, top = tuple(range(n)), tuple(reversed(range(n)))
        if any(f == idn or f == top for f in factors):
            return False
        return all(gar_weighted(x, y) for x, y in zip(factors, factors[1:]))
    if any(len(f) in (1, n) for f in factors):
        return False
    ps = [part_perm(n, f) for f in factors]
    return all(dual_weighted(x, y) for x, y in zip(ps, ps[1:]))


# ---------------------------------------------------------------------------- Cayley graph
def cayley_ball(n, radius, letters=None, limit=None):
    """BFS of B_n by words in the given letters: returns list of (key, word) in BFS order and the radius reached."""
    letters = letters or [(i, e) for i in range(n - 1) for e in (1, -1)]
    s = start(n)
    seen = {s}
    out = [(s, ())]
    frontier = [(s, ())]
    for d in range(radius):
        new = []
        for x, w in frontier:
            for l in letters:
                y = act(x, *l)
                if y not in seen:
                    seen.add(y)
                    new.append((y, w + (l,)))
        if limit and len(out) + len(new) > limit:
            return out, d
        out += new
        frontier = new
    return out, radius

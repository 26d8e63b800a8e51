"""Pictures of Temperley-Lieb diagrams: sets of strands between named points.

A picture of type (top, bot) is a frozenset of 2-element frozensets of points ('t', i), ('b', i), positions
counted from the left."""
import functools


def num_to_point(top, bot, k):
    return ('b', k) if k < bot else ('t', top - 1 - (k - bot))


def point_to_num(top, bot, p):
    return p[1] if p[0] == 'b' else bot + top - 1 - p[1]


def picture(top, bot, seq):
    return frozenset(frozenset((num_to_point(top, bot, i), num_to_point(top, bot, x))) for i, x in enumerate(seq))


def seq_of(top, bot, pic):
    s = [None] * (top + bot)
    for e in pic:
        a, b = (point_to_num(top, bot, p) for p in e)
        s[a], s[b] = b, a
    return tuple(s)


def is_planar(top, bot, seq):
    N = top + bot
    if len(seq) != N or any(not (0 <= x < N) or x == i or seq[x] != i for i, x in enumerate(seq)):
        return False
    return all(i < seq[j] < seq[i] for i in range(N) for j in range(i + 1, seq[i]))


@functools.lru_cache(None)
def matchings(N):
    """All planar matchings of N points on a line."""
    if N % 2:
        return ()
    if N == 0:
        return ((),)
    out = []
    for j in range(1, N, 2):
        for a in matchings(j - 1):
            for b in matchings(N - j - 1):
                out.append((j,) + tuple(x + 1 for x in a) + (0,) + tuple(x + j + 1 for x in b))
    return tuple(out)


@functools.lru_cache(None)
def pictures(top, bot):
    return tuple(picture(top, bot, s) for s in matchings(top + bot))


def stack(upper, lower, mid):
    """Upper over lower, joined along mid points.  Returns (picture, closed loops)."""
    adj = {}

    def link(a, b, layer):
        adj.setdefault(a, []).append((b, layer))
        adj.setdefault(b, []).append((a, layer))
    for e in upper:
        a, b = tuple(e)
        link(('m', a[1]) if a[0] == 'b' else a, ('m', b[1]) if b[0] == 'b' else b, 'u')
    for e in lower:
        a, b = tuple(e)
        link(('m', a[1]) if a[0] == 't' else a, ('m', b[1]) if b[0] == 't' else b, 'l')
    seen, out, loops = set(), [], 0

    def walk(start, layer):
        p, l = start, layer
        while True:
            seen.add(p)
            for q, ql in adj[p]:
                if ql == l:
                    p = q
                    break
            seen.add(p)
            if p[0] != 'm' or p == start:
                return p
            l = 'l' if l == 'u' else 'u'
    for p in list(adj):
        if p[0] != 'm' and p not in seen:
            q = walk(p, 'u' if p[0] == 't' else 'l')
            out.append(frozenset((p, q)))
    for i in range(mid):
        p = ('m', i)
        if p not in seen:
            loops += 1
            l, x = 'u', p
            while True:
                seen.add(x)
                x = next(q for q, ql in adj[x] if ql == l)
                seen.add(x)
                l = 'l' if l == 'u' else 'u'
                if x == p and l == 'u':
                    break
    return frozenset(out), loops


def beside(a, ta, ba, b):
    """a to the left of b; a has ta top and ba bottom points."""
    mv = lambda p: (p[0], p[1] + (ta if p[0] == 't' else ba))
    return a | frozenset(frozenset(map(mv, e)) for e in b)


def flip(a):
    sw = lambda p: ('b' if p[0] == 't' else 't', p[1])
    return frozenset(frozenset(map(sw, e)) for e in a)


def identity(n):
    return frozenset(frozenset((('t', i), ('b', i))) for i in range(n))


def cupcap(i, n):
    return frozenset([frozenset((('t', i), ('t', i + 1))), frozenset((('b', i), ('b', i + 1)))]
                     + [frozenset((('t', j), ('b', j))) for j in range(n) if j not in (i, i + 1)])


def through(a):
    return sum(1 for e in a if {p[0] for p in e} == {'t', 'b'})


def closure(a, n):
    """Loops after joining top i to bottom i."""
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            x = parent[x]
        return x
    for e in a:
        x, y = tuple(e)
        parent[find(x)] = find(y)
    for i in range(n):
        parent[find(('t', i))] = find(('b', i))
    return len({find(x) for x in list(parent)})


# ------------------------------------------------------------------ wide diagrams
def arcs(side, pairs):
    return [frozenset(((side, i), (side, j))) for i, j in pairs]


def half_patterns(n):
    """Named planar arrangements of arcs on n points in a row: lists of pairs (the other points are left free, none below an arc)."""
    out = {'none': []}
    out['row'] = [(i, i + 1) for i in range(0, n - 1, 2)]
    out['shifted row'] = [(i, i + 1) for i in range(1, n - 1, 2)]
    out['rainbow'] = [(i, n - 1 - i) for i in range(n // 2)] if n % 2 == 0 else [(i, n - 2 - i) for i in range(n // 2)]
    out['left arc'] = [(0, 1)] if n >= 2 else []
    out['right arc'] = [(n - 2, n - 1)] if n >= 2 else []
    h = n // 2 - (n // 2) % 2
    out['two rainbows'] = [(i, h - 1 - i) for i in range(h // 2)] + [(h + i, 2 * h - 1 - i) for i in range(h // 2)]
    out['left rainbow'] = [(i, h - 1 - i) for i in range(h // 2)]
    out['right rainbow'] = [(n - h + i, n - 1 - i) for i in range(h // 2)]
    out['nested rows'] = ([(0, n - 1)] + [(i, i + 1) for i in range(1, n - 2, 2)]) if n % 2 == 0 and n >= 2 else [(i, i + 1) for i in range(2, n - 1, 2)]
    return {k: v for k, v in out.items()}


def join_halves(top, bot, up, down):
    """The picture with arcs `up` along the top, `down` along the bottom, and the free points joined in order (None if they do not match)."""
    ft = [i for i in range(top) if all(i not in e for e in up)]
    fb = [i for i in range(bot) if all(i not in e for e in down)]
    if len(ft) != len(fb):
        return None
    return frozenset(arcs('t', up) + arcs('b', down) + [frozenset((('t', i), ('b', j))) for i, j in zip(ft, fb)])


def wide_pool(top, bot):
    """Wide pictures of a type made from named halves, without repetition."""
    out = []
    for up in half_patterns(top).values():
        for down in half_patterns(bot).values():
            p = join_halves(top, bot, up, down)
            if p is not None and p not in out:
                out.append(p)
    return out

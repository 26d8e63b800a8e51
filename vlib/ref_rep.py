"""Reference two-row representations, computed from diagram pictures with exact big-integer arithmetic.

The generator s_i acts on pictures with n - 2r through strands by 1 - v e_i (loops worth v + 1/v, diagrams with
fewer through strands are zero), its inverse by 1 - e_i / v.  Words multiply from left to right.  An entry is
one Python integer holding all coefficients (base 2^K, balanced); a matrix carries the power v^-off.
"""
import functools

from . import ref_poly as RP
from . import ref_tl as T


@functools.lru_cache(None)
def basis(n, r):
    """The basis in the order the implementation lists it, as pictures."""
    from peyl import tl
    return tuple(T.picture(d.top, d.bot, d.seq) for d in tl.cell_basis(n, r))


@functools.lru_cache(None)
def e_action(n, r, i):
    """For each basis element: index of its image under e_i, -1 if zero, or itself if there is a cup at i."""
    B = basis(n, r)
    pos = {b: k for k, b in enumerate(B)}
    out = []
    for b in B:
        res, loops = T.stack(T.cupcap(i, n), b, n)
        if T.through(res) != n - 2 * r:
            out.append(-1)
        else:
            assert loops == (1 if res == b else 0)
            out.append(pos[res])
    return tuple(out)


class State:
    """An exact matrix over Z[v, 1/v]: rows of packed integers times v^-off."""
    __slots__ = ('n', 'r', 'K', 'off', 'rows')

    def __init__(self, n, r, K, off, rows):
        self.n, self.r, self.K, self.off, self.rows = n, r, K, off, rows

    def letter(self, i, e):
        n, r, K = self.n, self.r, self.K
        act = e_action(n, r, i)
        rows = []
        if e > 0:
            for row in self.rows:
                rows.append(tuple(x if a < 0 else (-(x << 2 * K) if a == j else x - (row[a] << K))
                                  for j, (x, a) in enumerate(zip(row, act))))
            return State(n, r, K, self.off, tuple(rows))
        for row in self.rows:
            rows.append(tuple(x << 2 * K if a < 0 else (-x if a == j else (x << 2 * K) - (row[a] << K))
                              for j, (x, a) in enumerate(zip(row, act))))
        return State(n, r, K, self.off + 2, tuple(rows))

    def run(self, word):
        s = self
        for i, e in word:
            for _ in range(abs(e)):
                s = s.letter(i, e)
        return s

    def dicts(self):
        """Rows of sparse polynomials."""
        return [[{k - self.off: c for k, c in enumerate(unpack(x, self.K)) if c} for x in row] for row in self.rows]

    def mod(self, p):
        return RP.mat_mod(self.dicts(), p) if p else self.dicts()

    def proj(self, p):
        """The projective image: reduced mod p, divided by the power of v leaving a constant term."""
        return RP.mat_proj(self.mod(p))


def unpack(x, K):
    """Balanced base-2^K digits."""
    if x == 0:
        return ()
    nb = K // 8
    m = (abs(x).bit_length() // K) + 2
    half = 1 << (K - 1)
    bias = half * (((1 << (K * m)) - 1) // ((1 << K) - 1))
    b = (x + bias).to_bytes(nb * m, 'little')
    return [int.from_bytes(b[k * nb:(k + 1) * nb], 'little') - half for k in range(m)]


def start(n, r, letters=60):
    """The identity, with room for words of so many letters."""
    K = -(-(letters + 4) // 8) * 8
    d = len(basis(n, r))
    return State(n, r, K, 0, tuple(tuple(1 if i == j else 0 for j in range(d)) for i in range(d)))


def wlen(word):
    return sum(abs(e) for _, e in word)


def image(n, r, word):
    word = list(word)
    return start(n, r, wlen(word)).run(word)


def burau(n, s, inverse=False):
    """The reduced Burau matrix of a generator in the cup basis, as sparse polynomials: the generator sends
    cup_s to -v^2 cup_s and a neighbouring cup c to c - v cup_s."""
    M = RP.mat_id(n - 1)
    sg = -1 if inverse else 1
    for j in range(n - 1):
        if j == s:
            M[s][s] = {2 * sg: -1}
        elif abs(j - s) == 1:
            M[s][j] = {sg: -1}
    return M


def rows_from_tensor(A):
    """A packed tensor (I, J, D) as rows of sparse polynomials."""
    I, J, D = A.shape
    L = A.tolist()
    return [[{d: c for d, c in enumerate(L[i][j]) if c} for j in range(J)] for i in range(I)]


def tensor_of(rows, dtype=None):
    """Rows of sparse polynomials (nonnegative exponents) as a packed array with no trailing zeros."""
    import numpy as np
    D = 1 + max((max(x) for row in rows for x in row if x), default=0)
    big = any(abs(c) >= 2 ** 63 for row in rows for x in row for c in x.values())
    A = np.zeros((len(rows), len(rows[0]), D), dtype=object if big else np.int64)
    for i, row in enumerate(rows):
        for j, x in enumerate(row):
            for d, c in x.items():
                A[i, j, d] = c
    return A


def fits(A):
    return A.dtype != object and (A.size == 0 or (-(2 ** 62) < A.min() and A.max() < 2 ** 62))


def same_tensor(A, W):
    """A equals W up to trailing zeros in the degree direction."""
    import numpy as np
    if not isinstance(A, np.ndarray) or A.ndim != 3 or A.shape[:2] != W.shape[:2] or A.dtype.kind not in 'iu':
        return False
    D = min(A.shape[2], W.shape[2])
    return bool(np.array_equal(A[..., :D], W[..., :D]) and not A[..., D:].any() and not W[..., D:].any())


_IMG = {}


def nf_image(kind, n, r, p, power, factors):
    """The projective image of a normal form, as a tensor (memoised)."""
    from . import ref_braid as R
    k = (kind, n, r, p, power, factors)
    A = _IMG.get(k)
    if A is None:
        if len(_IMG) > 200000:
            _IMG.clear()
        s = _state(kind, n, r, power, factors)
        A = _IMG[k] = tensor_of(s.proj(p))
    return A


_STATE = {}


def _state(kind, n, r, power, factors):
    from . import ref_braid as R
    k = (kind, n, r, power, factors)
    s = _STATE.get(k)
    if s is None:
        if len(_STATE) > 100000:
            _STATE.clear()
        word = R.nf_word(kind, n, power, factors)
        K = -(-(wlen(word) + 8) // 64) * 64
        if factors:
            t = _state(kind, n, r, power, factors[:-1])
            if t.K == K:
                s = t.run(R.factor_word(kind, factors[-1]))
        if s is None:
            s = start(n, r, K - 8).run(word)
        assert s.K == K, (s.K, K)
        _STATE[k] = s
    return s

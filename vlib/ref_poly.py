"""Sparse Laurent polynomials {exponent: nonzero int}, and reading the implementation's values into them."""
import re


def clean(d):
    return {e: int(c) for e, c in d.items() if c != 0}


def add(a, b, s=1):
    r = dict(a)
    for e, c in b.items():
        r[e] = r.get(e, 0) + s * c
    return clean(r)


def neg(a):
    return {e: -c for e, c in a.items()}


def mul(a, b):
    r = {}
    for e, c in a.items():
        for f, d in b.items():
            r[e + f] = r.get(e + f, 0) + c * d
    return clean(r)


def scale(a, k):
    return clean({e: c * k for e, c in a.items()})


def shift(a, k):
    return {e + k: c for e, c in a.items()}


def power(a, k):
    r = {0: 1}
    for _ in range(k):
        r = mul(r, a)
    return r


def mod(a, p):
    return clean({e: c % p for e, c in a.items()}) if p else dict(a)


def invert_v(a):
    return {-e: c for e, c in a.items()}


def subst(a, b):
    """a(b(v)); b must be a unit if a has negative exponents."""
    r = {}
    for e, c in a.items():
        if e >= 0:
            t = power(b, e)
        else:
            (f, d), = b.items()
            assert d in (1, -1)
            t = power({-f: d}, -e)
        r = add(r, scale(t, c))
    return r


def key(a):
    return tuple(sorted(a.items()))


V = {1: 1}
LOOP = {1: 1, -1: 1}


def qint(n):
    s = 1 if n > 0 else -1
    n = abs(n)
    return {e: s for e in range(-n + 1, n, 2)}


def read(x):
    """An LPoly, Poly, int or numpy integer of the implementation."""
    if hasattr(x, 'val'):
        return clean({x.val + i: c for i, c in enumerate(x.coeffs)})
    if hasattr(x, 'coeffs'):
        return clean(dict(enumerate(x.coeffs)))
    return clean({0: int(x)})


def lpoly(d):
    from peyl import LPoly
    if not d:
        return LPoly(0, ())
    lo, hi = min(d), max(d)
    return LPoly(lo, tuple(d.get(e, 0) for e in range(lo, hi + 1)))


_TERM = re.compile(r'(?:(\d+)?v(?:\^\{?(-?\d+)\}?)?|(\d+))$')


def parse(text, var='v'):
    """Read a printed polynomial."""
    text = text.strip().replace(var, 'v')
    if text == '0':
        return {}
    s = text
    out = {}
    first = True
    pos = 0
    # split into signed terms: signs are ' + ', ' - ' between terms, '-' leading
    sign = 1
    if s.startswith('-'):
        sign, s = -1, s[1:]
    parts = re.split(r' ([+-]) ', s)
    terms = [(sign, parts[0])]
    for op, t in zip(parts[1::2], parts[2::2]):
        terms.append((1 if op == '+' else -1, t))
    for sg, t in terms:
        m = _TERM.match(t)
        if not m:
            raise ValueError(f'cannot read term {t!r} of {text!r}')
        if m.group(3) is not None:
            e, c = 0, int(m.group(3))
        else:
            e = int(m.group(2)) if m.group(2) else 1
            c = int(m.group(1)) if m.group(1) else 1
        if e in out:
            raise ValueError(f'exponent {e} twice in {text!r}')
        out[e] = sg * c
    return clean(out)


# ------------------------------------------------------------------ matrices of polynomials (lists of rows)
def mat_mul(A, B):
    n, m, k = len(A), len(B), len(B[0]) if B else 0
    return [[_dot(A[i], [B[l][j] for l in range(m)]) for j in range(k)] for i in range(n)]


def _dot(r, c):
    out = {}
    for a, b in zip(r, c):
        if a and b:
            for e, x in a.items():
                for f, y in b.items():
                    out[e + f] = out.get(e + f, 0) + x * y
    return clean(out)


def mat_id(n):
    return [[{0: 1} if i == j else {} for j in range(n)] for i in range(n)]


def mat_key(A):
    return tuple(tuple(key(x) for x in row) for row in A)


def mat_mod(A, p):
    return [[mod(x, p) for x in row] for row in A]


def read_matrix(M):
    """An implementation Matrix as rows of sparse polynomials."""
    return [[read(M[i, j]) for j in range(M.ncols)] for i in range(M.nrows)]


def mat_val(A):
    """Least exponent occurring in a matrix (None if zero)."""
    es = [min(x) for row in A for x in row if x]
    return min(es) if es else None


def mat_deg(A):
    es = [max(x) for row in A for x in row if x]
    return max(es) if es else None


def mat_projlen(A):
    v = mat_val(A)
    return 0 if v is None else mat_deg(A) - v + 1


def mat_proj(A):
    v = mat_val(A)
    return [[shift(x, -v) for x in row] for row in A] if v is not None else A

"""Shared by the tracker checks: reference images, offers, and reading a tracker's observable state."""
import copy
from collections import Counter

import numpy as np

from peyl import DGNF, GNF, JonesCellRep, JonesSummand
from vlib import ref_braid as R
from vlib import ref_rep as Q
from vlib.impl import CLS, lift_seq, read

_REP = {}


def js(n, r, p):
    return _REP.setdefault(('js', n, r, p), JonesSummand(n, r, p))


def cell(n, r, p):
    if ('cell', n, r, p) not in _REP:
        _REP['cell', n, r, p] = JonesCellRep(n, r, p)
    return _REP['cell', n, r, p]


_OBJ = {}


def braid(nf):
    """nf = (kind, n, power, factors) -> braid object."""
    if nf not in _OBJ:
        kind, n, power, factors = nf
        gar = lift_seq(kind, n, [tuple(reversed(range(n))) if kind == 'GNF' else (tuple(range(n)),)])
        _OBJ[nf] = gar ** power * lift_seq(kind, n, factors)
    return _OBJ[nf]


def nf_of(b):
    return (type(b).__name__, b.n) + read(b)


def image(nf, r, p):
    kind, n, power, factors = nf
    return Q.nf_image(kind, n, r, p, power, factors)


def projlen(nf, r, p):
    return image(nf, r, p).shape[-1]


def offer_images(nfs, r, p, pad=0, width=None):
    """A batch of reference images, padded to a common width (and `pad` more)."""
    ims = [image(x, r, p) for x in nfs]
    D = max(i.shape[-1] for i in ims) + pad
    A = np.zeros((len(ims),) + ims[0].shape[:2] + (D,), dtype=np.int32 if p else np.int64)
    for k, im in enumerate(ims):
        A[k, :, :, :im.shape[-1]] = im
    return A


def all_nfs(kind, n, length, powers=(0,)):
    return [(kind, n, e, f) for f in R.normal_forms(kind, n, length) for e in powers]


def length(nf):
    return len(nf[3])


def crowd(kind, n, r, p, L):
    """The braids of length L and power zero that share the most frequent projective length (all of them if r == 0)."""
    nfs = all_nfs(kind, n, L)
    if r == 0:
        return nfs
    groups = {}
    for nf in nfs:
        groups.setdefault(projlen(nf, r, p), []).append(nf)
    return groups[max(groups, key=lambda k: (len(groups[k]), -k))]


def tidy(key):
    """Bucket keys with plain integers."""
    return tuple(int(x) if isinstance(x, (int, np.integer)) else x for x in key)


def menu_by_key(kind, n, r, p, maxlen, powers=(0,)):
    """{(length, projlen): [normal forms]}."""
    out = {}
    for L in range(0, maxlen + 1):
        for nf in all_nfs(kind, n, L, powers):
            out.setdefault((L, projlen(nf, r, p)), []).append(nf)
    return out


def extensions(nf, L):
    """All (intermediate, ..., final) one-letter-at-a-time extensions by L letters."""
    kind, n, e, f = nf
    return [(kind, n, e, f + s) for s in R.normal_forms(kind, n, L, after=f[-1] if f else None)]


def nf_product(a, b):
    """The product of two braids (implementation arithmetic, verified by C01/C02)."""
    return nf_of(braid(a) * braid(b))


_RANK = {}


def rank(M):
    """Rank over the rationals of an integer matrix."""
    from fractions import Fraction
    k = tuple(map(tuple, M.tolist()))
    if k in _RANK:
        return _RANK[k]
    rows = [[Fraction(x) for x in row] for row in k]
    rk = 0
    for c in range(len(rows[0]) if rows else 0):
        piv = next((i for i in range(rk, len(rows)) if rows[i][c]), None)
        if piv is None:
            continue
        rows[rk], rows[piv] = rows[piv], rows[rk]
        for i in range(rk + 1, len(rows)):
            if rows[i][c]:
                q = rows[i][c] / rows[rk][c]
                rows[i] = [x - q * y for x, y in zip(rows[i], rows[rk])]
        rk += 1
    _RANK[k] = rk
    return rk


def projrank2(nf, r, p):
    A = image(nf, r, p)
    return sum(rank(A[..., d]) for d in range(min(2, A.shape[-1])))


def digest(x, depth=0):
    """A hashable picture of an object's whole state, hidden parts included.  Objects that cannot be looked into
    stay distinct from everything else, so merging equal digests never hides a difference."""
    import functools
    import random
    import types
    if x is None or isinstance(x, (bool, int, float, str, bytes, type)):
        return x
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (GNF, DGNF)):
        return nf_of(x)
    if isinstance(x, (JonesSummand,)):
        return (x.n, x.r, x.p)
    if isinstance(x, JonesCellRep):
        return ('cell', x.n, x.r, x.p)
    if isinstance(x, random.Random):
        return 'random'
    if isinstance(x, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, functools.partial)):
        return 'function'
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(digest(y, depth + 1) for y in x)
    if isinstance(x, (set, frozenset)):
        return frozenset(digest(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((digest(k, depth + 1), digest(v, depth + 1)) for k, v in x.items())
    if hasattr(x, '__dict__') and depth < 12:
        return (type(x).__name__, digest(vars(x), depth + 1))
    return object()

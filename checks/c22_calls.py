"""Fine-grained part of C22: single calls judged against the same call made as the first one of a process."""
import os
import pickle
import random
import signal
import struct
import time

import numpy as np

from peyl import DGNF, GNF, BraidGroup, JonesCellRep, JonesSummand, LPoly, Matrix, NPar, Permutation, Poly, SymmetricGroup
from peyl import braid as braidmod
from peyl import braidsearch, noncrossing, permutations, polymat, tl
from peyl.jonesrep import LKBRep
from vlib import ref_braid as R

CLS = {'GNF': GNF, 'DGNF': DGNF}


class Groups:
    """name -> list of (label, thunk); thunk(env) makes exactly one library call on the operands it asks env for."""

    def __init__(self, ser):
        self.ser = ser
        self.groups = {}
        self.no_keep = set()

    def outcome(self, thunk, env):
        try:
            out = thunk(env)
            if hasattr(out, '__next__'):
                out = list(out)
        except Exception as e:
            return None, 'raised'
        return out, self.ser(tidy(out))


def tidy(x):
    """Trailing zero coefficients of packed matrices carry no meaning."""
    if isinstance(x, np.ndarray) and x.ndim >= 3 and x.dtype != object:
        d = x.shape[-1]
        while d and not x[..., d - 1].any():
            d -= 1
        return x[..., :d]
    if isinstance(x, (list, tuple)):
        return [tidy(y) for y in x]
    return x


class Env:
    """Operands: made once per process ('kept'), or anew for every call ('new')."""

    def __init__(self, ser, kept=True):
        self.ser, self.kept = ser, kept
        self.objects, self.pictures = {}, {}

    def get(self, name, make):
        if not self.kept:
            return make()
        if name not in self.objects:
            self.objects[name] = make()
            self.pictures[name] = self.ser(self.objects[name])
        return self.objects[name]

    def changed(self):
        return [k for k, v in self.objects.items() if self.ser(v) != self.pictures[k]]


# ------------------------------------------------------------------ operands
def braid(kind, n, p, tail):
    C = CLS[kind]

    def make():
        return C.from_artin_word(n, R.pow_word(R.garside_word(kind, n), p) + list(tail))
    return lambda env: env.get((kind, n, p, tuple(tail)), make)


TAILS = {3: [(), ((0, 1),), ((0, 1), (1, 1)), ((1, 1), (1, 1))], 4: [(), ((0, 1),), ((1, 1), (2, 1), (1, 1)), ((2, 1), (2, 1), (0, 1))]}
POWERS = [0, -1, -2, 1, 2, -3, 4]


def braids(kind, n, powers=POWERS, tails=None):
    return [(f'{kind}{n} {p} {t}', braid(kind, n, p, t)) for t in (tails or TAILS[n]) for p in powers]


def first(it, k):
    out = []
    for x in it:
        out.append(x)
        if len(out) == k:
            break
    return out


def interleave(a, b, k):
    a, b, out = iter(a), iter(b), []
    for _ in range(k):
        out += [next(a, None), next(b, None)]
    return out


def word(*xs):
    return [(abs(x) - 1, 1 if x > 0 else -1) for x in xs]


def g_unary(kind, n):
    calls = []
    for name, x in braids(kind, n):
        calls += [(f'inv {name}', lambda env, x=x: x(env).inv()), (f'artin_word {name}', lambda env, x=x: x(env).artin_word()),
                  (f'magma {name}', lambda env, x=x: x(env).magma_artin_word()), (f'convert {name}', lambda env, x=x: x(env).to_DGNF() if kind == 'GNF' else x(env).to_GNF()),
                  (f'adapt {name}', lambda env, x=x: braidmod.adapt_braid(x(env))), (f'reread {name}', lambda env, x=x: braidmod.convert_braid(braidmod.adapt_braid(x(env)).encode())),
                  (f'decomposition {name}', lambda env, x=x: x(env).canonical_decomposition()), (f'repr {name}', lambda env, x=x: repr(x(env))),
                  (f'substring {name}', lambda env, x=x: x(env).substring(0, 1)), (f'descendants {name}', lambda env, x=x: first(x(env).nf_descendants(), 6)),
                  (f'suffixes {name}', lambda env, x=x: first(x(env).nf_suffixes(1), 6))]
        for k in (-2, -1, 2, 3):
            calls.append((f'pow {k} {name}', lambda env, x=x, k=k: x(env) ** k))
    return calls


def g_binary(kind, n):
    xs = braids(kind, n, [0, -1, -2, 1, -3], TAILS[n][:3])
    calls = [(f'{a} * {b}', lambda env, x=x, y=y: x(env) * y(env)) for a, x in xs for b, y in xs]
    calls += [(f'{a} == {b}', lambda env, x=x, y=y: (x(env) == y(env), x(env) != y(env))) for a, x in xs for b, y in xs[::2]]
    return calls


def g_build(n):
    calls = []
    words = [[], [1], [-1], [2], [-2], [1, 2], [1, -2], [-1, 2], [-1, -2], [-1, -1], [-2, -2], [1, 1], [2, 1, 2], [-2, -1, -2], [1, 2, 1, 2], [n - 1, -1, n - 1]]
    for C in (GNF, DGNF):
        for w in words:
            calls.append((f'{C.__name__}.from_artin_word {w}', lambda env, C=C, w=w: C.from_artin_word(n, word(*w))))
            calls.append((f'{C.__name__}.from_artin_word tuple {w}', lambda env, C=C, w=w: C.from_artin_word(n, tuple(word(*w)))))
            calls.append((f'{C.__name__}.from_artin_word iter {w}', lambda env, C=C, w=w: C.from_artin_word(n, iter(word(*w)))))
        calls += [(f'{C.__name__} gens', lambda env, C=C: C.artin_gens(n)), (f'{C.__name__} id', lambda env, C=C: C.identity(n))]
    P = R.perms(n)
    for w in (P if n == 3 else P[::2]):
        calls += [(f'from_perm {w}', lambda env, w=w: GNF.from_perm(Permutation(w))), (f'lift {w}', lambda env, w=w: BraidGroup(n).positive_lift(Permutation(w)))]
        calls += [(f'from_perm_seq {w} {v}', lambda env, w=w, v=v: GNF.from_perm_seq(n, [Permutation(w), Permutation(v)])) for v in P[1::5]]
    for b in R.noncrossing(n):
        calls += [(f'from_npar {b}', lambda env, b=b: DGNF.from_npar(NPar.from_components(n, b))), (f'group from_npar {b}', lambda env, b=b: BraidGroup(n).from_npar(NPar.from_components(n, b)))]
        calls += [(f'from_npar_seq {b} {c}', lambda env, b=b, c=c: DGNF.from_npar_seq(n, [NPar.from_components(n, b), NPar.from_components(n, c)])) for c in list(R.noncrossing(n))[1::4]]
    for p in (-2, -1, 0, 1):
        for w in P[1:4]:
            calls.append((f'pair {p} {w}', lambda env, p=p, w=w: BraidGroup(n).from_gnf_pair((p, [w]))))
            calls.append((f'pair {p} {w} tuple', lambda env, p=p, w=w: BraidGroup(n).from_gnf_pair((p, (w, w)))))
    return calls


def g_enum(n):
    calls = []
    for C in (GNF, DGNF):
        N = C.__name__
        calls += [(f'{N} count {L}', lambda env, C=C, L=L: C.count_all_of_length(n, L)) for L in range(6)]
        calls += [(f'{N} all {L} {p}', lambda env, C=C, L=L, p=p: first(C.all_of_length(n, L, p), 40)) for L in range(3) for p in (0, -1, -2, 1)]
        calls += [(f'{N} one {L} {p}', lambda env, C=C, L=L, p=p: first(C.all_of_length(n, L, p), 1)) for L in range(1, 4) for p in (0, -1, -2)]
        calls += [(f'{N} interleaved {L} {M}', lambda env, C=C, L=L, M=M: interleave(C.all_of_length(n, L), C.all_of_length(n, M), 9)) for L in range(3) for M in range(3)]
        calls += [(f'{N} sample {L} {s}', lambda env, C=C, L=L, s=s: C.sample(n, L, random.Random(s))) for L in range(1, 4) for s in range(3)]
        calls += [(f'{N} two samples {s}', lambda env, C=C, s=s: (lambda r: [C.sample(n, 2, r), C.sample(n, 3, r)])(random.Random(s))) for s in range(2)]
        for name, x in braids(N, n, [0, -1, -2], TAILS[n][:3]):
            calls += [(f'suffixes {L} {name}', lambda env, x=x, L=L: first(x(env).nf_suffixes(L), 30)) for L in range(3)]
            calls += [(f'suffix, then all {L} {name}', lambda env, x=x, L=L: [first(x(env).nf_suffixes(L), 1), first(x(env).nf_suffixes(L), 30)]) for L in range(1, 3)]
            calls += [(f'interleaved suffixes {name}', lambda env, x=x: interleave(x(env).nf_suffixes(1), x(env).nf_suffixes(2), 7))]
    B = lambda: BraidGroup(n)
    calls += [(f'garside count {L}', lambda env, L=L: B().count_all_of_garside_length(L)) for L in range(5)]
    calls += [(f'garside all {L} {p}', lambda env, L=L, p=p: first(B().all_of_garside_length(L, p), 30)) for L in range(3) for p in (0, -1, -2)]
    calls += [(f'garside sample {L} {s}', lambda env, L=L, s=s: B().sample_braid_perm(L, rand=random.Random(s))) for L in range(1, 4) for s in range(2)]
    return calls


def reps_cell(n):
    out = []
    for r in (1, 2) if n == 4 else (1,):
        for p in (0, 2, 3, 5):
            out.append((f'Cell({n},{r},{p})', lambda env, r=r, p=p: env.get(('cell', n, r, p), lambda: JonesCellRep(n, r, p))))
    return out


def g_eval(n, reps, powers, tails):
    calls = []
    bs = braids('GNF', n, powers, tails) + braids('DGNF', n, powers, tails)
    for rn, rep in reps:
        calls += [(f'{rn} repr', lambda env, rep=rep: repr(rep(env)) if isinstance(rep(env), JonesCellRep) else rep(env).dimension()), (f'{rn} gens', lambda env, rep=rep: rep(env).artin_gens_invs()),
                  (f'{rn} polymat gens', lambda env, rep=rep: rep(env).polymat_artin_gens_invs()), (f'{rn} id', lambda env, rep=rep: (rep(env).id(), rep(env).polymat_id()))]
        for name, x in bs:
            calls += [(f'{rn} evaluate_braid {name}', lambda env, rep=rep, x=x: rep(env).polymat_evaluate_braid(x(env))), (f'{rn} polymat_evaluate {name}', lambda env, rep=rep, x=x: rep(env).polymat_evaluate(x(env)))]
        for name, x in bs[::2]:
            calls.append((f'{rn} evaluate {name}', lambda env, rep=rep, x=x: rep(env).evaluate(x(env))))
        for kind in ('GNF', 'DGNF'):
            for t in tails:
                xs = [x for _, x in braids(kind, n, powers, [t])]
                for k in range(0, len(xs) - 1):
                    calls.append((f'{rn} batch {kind} {t} {k}', lambda env, rep=rep, xs=xs[k:k + 2]: rep(env).polymat_evaluate_braids_of_same_length([x(env) for x in xs])))
        for C in (GNF, DGNF):
            for seqs in ([[1]], [[2]], [[1, 2]], [[2, 1]], [[1], [2]], [[1, 2], [0, 1]], [[0, 0, 0]], [[3, 1, 0], [1, 1, 1]]):
                calls.append((f'{rn} integers {C.__name__} {seqs}', lambda env, rep=rep, C=C, seqs=seqs: rep(env).polymat_evaluate_braid_integers_of_same_length(C, seqs)))
        for w in ([], [1], [-1], [2], [-2], [1, 2], [-1, -2], [-2, -1], [1, -2], [1, 1], [-1, -1]):
            calls += [(f'{rn} word {w}', lambda env, rep=rep, w=w: rep(env).evaluate_artin_word(word(*w))), (f'{rn} polymat word {w}', lambda env, rep=rep, w=w: rep(env).polymat_evaluate_artin_word(word(*w))),
                      (f'{rn} polymat word tuple {w}', lambda env, rep=rep, w=w: rep(env).polymat_evaluate_artin_word(tuple(word(*w))))]
        for w in R.perms(3)[1:] if n == 3 else R.perms(4)[1:24:4]:
            calls += [(f'{rn} perm {w}', lambda env, rep=rep, w=w: rep(env).evaluate(Permutation(w))), (f'{rn} polymat perm {w}', lambda env, rep=rep, w=w: rep(env).polymat_evaluate(Permutation(w)))]
        for b in list(R.noncrossing(n))[1:8]:
            calls += [(f'{rn} npar {b}', lambda env, rep=rep, b=b: rep(env).evaluate(NPar.from_components(n, b))), (f'{rn} polymat npar {b}', lambda env, rep=rep, b=b: rep(env).polymat_evaluate(NPar.from_components(n, b)))]
    return calls


def reps_lkb(n):
    out = []
    for p, q, t in ((0, (1, (1,)), (2, (1,))), (0, (1, (-1,)), (2, (1,))), (5, (1, (1,)), (2, (-1,))), (2, (1, (1,)), (-1, (1,))), (3, (1, (1,)), (-2, (1,)))):
        out.append((f'LKB({n},{p},{q},{t})', lambda env, p=p, q=q, t=t: env.get(('lkb', n, p, q, t), lambda: LKBRep(n, p, LPoly(*q), LPoly(*t)))))
    return out


def g_summand(n):
    calls = []
    for r in (0, 1, 2) if n == 4 else (0, 1):
        for p in (0, 2, 3, 5):
            rn = f'JS({n},{r},{p})'
            rep = lambda env, r=r, p=p: env.get(('js', n, r, p), lambda: JonesSummand(n, r, p))
            calls += [(f'{rn} repr', lambda env, rep=rep: (repr(rep(env)), rep(env).dimension(), rep(env).id())), (f'{rn} gens', lambda env, rep=rep: rep(env).artin_gens_invs()),
                      (f'{rn} mul', lambda env, rep=rep: rep(env).mul(rep(env).artin_gens_invs()[0][0], rep(env).artin_gens_invs()[1][-1])),
                      (f'{rn} below 1', lambda env, rep=rep: list(map(list, braidsearch.all_of_length_below_1(rep(env), 2))))]
            bs = braids('GNF', n, [0, -1, -2, 1], TAILS[n][:3])
            for name, x in bs:
                calls += [(f'{rn} factors {name}', lambda env, rep=rep, x=x: braidsearch.evaluate_braid_factors(rep(env), x(env)))]
            for (a, x), (b, y) in zip(bs, bs[1:]):
                calls += [(f'{rn} braids {a} {b}', lambda env, rep=rep, x=x, y=y: list(braidsearch.evaluate_braids(rep(env), [x(env), y(env)])))]
            for t in TAILS[n][:3]:
                xs = [x for _, x in braids('GNF', n, [0, -1, -2, 1], [t])]
                for k in range(3):
                    calls += [(f'{rn} same length {t} {k}', lambda env, rep=rep, xs=xs[k:k + 2]: braidsearch.evaluate_braids_of_same_length(rep(env), [x(env) for x in xs]))]
                    calls += [(f'{rn} prefixes {t} {k}', lambda env, rep=rep, xs=xs[k:k + 2]: braidsearch.evaluate_prefixes_of_same_length(rep(env), [x(env) for x in xs]))]
            if r:
                calls += [(f'{rn} sample {s}', lambda env, rep=rep, s=s: [list(y) for y in braidsearch.sample_braids_images(rep(env), 2, 3, rand=random.Random(s))]) for s in range(2)]
    return calls


def lp(v, c):
    return lambda env: env.get(('lp', v, c), lambda: LPoly(v, c))


LPS = [(0, ()), (0, (1,)), (0, (-1,)), (0, (-2,)), (1, (1,)), (-1, (1,)), (-2, (1,)), (-1, (-1,)), (-2, (-2,)), (0, (1, -1)), (0, (1, -2)), (-1, (1, 0, -1)), (-2, (1, 0, -2)), (0, (3, 1))]


def g_lpoly(_):
    calls = []
    for a in LPS:
        x = lp(*a)
        calls += [(f'-{a}', lambda env, x=x: -x(env)), (f'repr {a}', lambda env, x=x: repr(x(env))), (f'latex {a}', lambda env, x=x: x(env).fmt('latex')), (f'deg {a}', lambda env, x=x: (x(env).degree(), x(env).valuation())),
                  (f'unit {a}', lambda env, x=x: (x(env).is_unit(), x(env).is_zero())), (f'map {a}', lambda env, x=x: x(env).map(lambda c: c % 2)), (f'map abs {a}', lambda env, x=x: x(env).map(abs)),
                  (f'at t {a}', lambda env, x=x: x(env).evaluate(LPoly(1, (1,)))), (f'at -t {a}', lambda env, x=x: x(env).evaluate(LPoly(1, (-1,)))), (f'at t^-2 {a}', lambda env, x=x: x(env).evaluate(LPoly(-2, (1,)))), (f'at t^-1 {a}', lambda env, x=x: x(env).evaluate(LPoly(-1, (1,))))]
        calls += [(f'{a} ** {k}', lambda env, x=x, k=k: x(env) ** k) for k in (-2, -1, 0, 1, 2, 3)]
        for k in (-2, -1, 0, 1, 2):
            calls += [(f'{a} * {k}', lambda env, x=x, k=k: x(env) * k), (f'{k} * {a}', lambda env, x=x, k=k: k * x(env)), (f'{a} + {k}', lambda env, x=x, k=k: x(env) + k), (f'{a} - {k}', lambda env, x=x, k=k: x(env) - k), (f'{k} - {a}', lambda env, x=x, k=k: k - x(env))]
    calls += [(f'quantum {k}', lambda env, k=k: LPoly.quantum_integer(k)) for k in range(-4, 5)]
    calls += [(f'coerce {k}', lambda env, k=k: LPoly.coerce(k)) for k in (-2, -1, 0, 1, 2)]
    return calls


def g_lpoly2(_):
    calls = []
    for a in LPS:
        for b in LPS:
            x, y = lp(*a), lp(*b)
            calls += [(f'{a} * {b}', lambda env, x=x, y=y: x(env) * y(env)), (f'{a} + {b}', lambda env, x=x, y=y: x(env) + y(env)), (f'{a} - {b}', lambda env, x=x, y=y: x(env) - y(env)), (f'{a} == {b}', lambda env, x=x, y=y: x(env) == y(env))]
    return calls


PS = [(), (1,), (-1,), (-2,), (0, 1), (-1, 1), (-2, 1), (1, 0, -1), (1, 0, -2), (-1, -2), (2, 3, 1)]


def po(c):
    return lambda env: env.get(('po', c), lambda: Poly(*c))


def g_poly(_):
    calls = []
    for a in PS:
        x = po(a)
        calls += [(f'-{a}', lambda env, x=x: -x(env)), (f'repr {a}', lambda env, x=x: repr(x(env))), (f'deg {a}', lambda env, x=x: (x(env).deg(), x(env).is_zero()))]
        calls += [(f'{a} ** {k}', lambda env, x=x, k=k: x(env) ** k) for k in (0, 1, 2, 3)] + [(f'{a} at {k}', lambda env, x=x, k=k: x(env).evaluate(k)) for k in (-2, -1, 0, 1, 2)]
        calls += [(f'{a} at {b}', lambda env, x=x, y=po(b): x(env).evaluate(y(env))) for b in PS[4:8]]
        for k in (-2, -1, 0, 1):
            calls += [(f'{a} * {k}', lambda env, x=x, k=k: x(env) * k), (f'{a} + {k}', lambda env, x=x, k=k: x(env) + k), (f'{a} - {k}', lambda env, x=x, k=k: x(env) - k)]
        for b in PS:
            y = po(b)
            calls += [(f'{a} * {b}', lambda env, x=x, y=y: x(env) * y(env)), (f'{a} + {b}', lambda env, x=x, y=y: x(env) + y(env)), (f'{a} - {b}', lambda env, x=x, y=y: x(env) - y(env)), (f'divmod {a} {b}', lambda env, x=x, y=y: divmod(x(env), y(env))),
                      (f'{a}*{b} / {b}', lambda env, x=x, y=y: (x(env) * y(env)) / y(env))]
    return calls


def g_special(_):
    calls = []
    for k in range(0, 33):
        calls += [(f'cyclotomic {k}', lambda env, k=k: Poly.cyclotomic(k)), (f'T {k}', lambda env, k=k: Poly.chebyshevT(k)), (f'minpolycos {k}', lambda env, k=k: Poly.minpolycos(k))]
    calls += [(f'catalan {k}', lambda env, k=k: noncrossing.catalan(k)) for k in range(9)]
    return calls


MATS = {'A': [[-1, -2], [0, 1]], 'B': [[-2, -1], [0, 1]], 'C': [[1, 0], [-1, 1]], 'D': [[(-1, (1,)), (0, (1,))], [(0, ()), (-2, (1,))]], 'E': [[(-2, (1,)), (0, (1,))], [(0, ()), (-1, (1,))]], 'I': [[1, 0], [0, 1]], 'Z': [[(0, ()), (0, ())], [(0, ()), (0, ())]],
        'R': [[-1, -2]], 'S': [[-2, -1]], 'K': [[1], [-1]]}


def ma(name):
    return lambda env: env.get(('ma', name), lambda: Matrix.from_rows([[LPoly(*e) if isinstance(e, tuple) else e for e in row] for row in MATS[name]]))


def g_matrix(_):
    calls = []
    for a in MATS:
        x = ma(a)
        calls += [(f'T {a}', lambda env, x=x: x(env).transpose()), (f'trace {a}', lambda env, x=x: x(env).trace()), (f'repr {a}', lambda env, x=x: repr(x(env))), (f'str {a}', lambda env, x=x: str(x(env))), (f'latex {a}', lambda env, x=x: x(env)._repr_latex_()),
                  (f'rows {a}', lambda env, x=x: x(env).rows()), (f'square {a}', lambda env, x=x: (x(env).is_square(), x(env).is_symmetric(), x(env).is_integral())), (f'entries {a}', lambda env, x=x: list(x(env).entries())),
                  (f'map {a}', lambda env, x=x: x(env).map(lambda c: c * c)), (f'map + {a}', lambda env, x=x: x(env).map(lambda c: c + 1)), (f'get {a}', lambda env, x=x: [x(env)[0, 0], x(env).row(0), x(env).column(0)])]
        calls += [(f'{a} ** {k}', lambda env, x=x, k=k: x(env) ** k) for k in (0, 1, 2, 3)]
        calls += [(f'{a} * {k}', lambda env, x=x, k=k: x(env) * k) for k in (-2, -1, 0, 1)] + [(f'{k} * {a}', lambda env, x=x, k=k: k * x(env)) for k in (-2, -1, 0, 1)]
        for b in MATS:
            y = ma(b)
            calls += [(f'{a} * {b}', lambda env, x=x, y=y: x(env) * y(env)), (f'{a} - {b}', lambda env, x=x, y=y: x(env) - y(env)), (f'{a} == {b}', lambda env, x=x, y=y: x(env) == y(env))]
    for k in range(4):
        calls += [(f'identity {k}', lambda env, k=k: Matrix.identity(k)), (f'zero {k}', lambda env, k=k: Matrix.zero(k, 2)), (f'zero 2 {k}', lambda env, k=k: Matrix.zero(2, k))]
        calls += [(f'scalar {k} {c}', lambda env, k=k, c=c: Matrix.scalar(k, c)) for c in (-1, -2, 1)] + [(f'coord {k}', lambda env, k=k: Matrix.col_coord_vector(4, k))]
    calls += [(f'{f} vector {e}', lambda env, f=f, e=e: getattr(Matrix, f + '_vector')(list(e))) for f in ('row', 'col') for e in ((-1, -2), (-2, -1), (1,))]
    return calls


def mors(n):
    v = lambda a, c: LPoly(a, c)
    M = {'id': lambda: tl.TLMor.id(n), 'e0': lambda: tl.TLMor.e(0, n), 'e1': lambda: tl.TLMor.e(1, n), '-e0': lambda: -1 * tl.TLMor.e(0, n), '-2e0': lambda: -2 * tl.TLMor.e(0, n),
         'v-1e0': lambda: v(-1, (1,)) * tl.TLMor.e(0, n), 'v-2e0': lambda: v(-2, (1,)) * tl.TLMor.e(0, n), 'zero': lambda: tl.TLMor.id(n) - tl.TLMor.id(n),
         'big': lambda: total(tl.TLMor.basis(n, n)), 'bigger': lambda: total(v(-1, (1, -2)) * b for b in tl.TLMor.basis(n, n)), 'sum': lambda: tl.TLMor.id(n) + tl.TLMor.e(1, n)}
    return [(k, lambda env, k=k, f=f: env.get(('mor', n, k), f)) for k, f in M.items()]


def total(xs):
    out = None
    for x in xs:
        out = x if out is None else out + x
    return out


def g_tl(n):
    calls = []
    ms = mors(n)
    for a, x in ms:
        calls += [(f'trace {a}', lambda env, x=x: x(env).trace()), (f'flip {a}', lambda env, x=x: x(env).flip()), (f'flip plain {a}', lambda env, x=x: x(env).flip(twist_v=False)), (f'-{a}', lambda env, x=x: -x(env)), (f'pairs {a}', lambda env, x=x: sorted((repr(d), repr(c)) for d, c in x(env).pairs())),
                  (f'zero {a}', lambda env, x=x: x(env).is_zero())]
        calls += [(f'{a} ** {k}', lambda env, x=x, k=k: x(env) ** k) for k in (0, 1, 2)] + [(f'quotient {k} {a}', lambda env, x=x, k=k: x(env).quotient(k)) for k in range(n, -1, -2)]
        calls += [(f'{k} * {a}', lambda env, x=x, k=k: k * x(env)) for k in (-2, -1, 0, 1)] + [(f'{c} * {a}', lambda env, x=x, c=c: LPoly(*c) * x(env)) for c in ((-1, (1,)), (-2, (1,)), (0, (1, -1)), (0, (1, -2)))]
        calls += [(f'cell {r} {a}', lambda env, x=x, r=r: tl.TLCell(n, r).project_leftmult_matrix(x(env))) for r in range(n // 2 + 1)]
        for b, y in ms:
            calls += [(f'{a} + {b}', lambda env, x=x, y=y: x(env) + y(env)), (f'{a} - {b}', lambda env, x=x, y=y: x(env) - y(env)), (f'{a} == {b}', lambda env, x=x, y=y: x(env) == y(env))]
            if not (n > 3 and 'big' in a and 'big' in b):
                calls.append((f'{a} * {b}', lambda env, x=x, y=y: x(env) * y(env)))
    return calls


def g_diag(_):
    calls = []
    shapes = [(2, 2), (3, 3), (1, 3), (3, 1), (2, 0), (0, 2), (1, 1), (0, 0)]
    for s in shapes:
        calls += [(f'basis {s}', lambda env, s=s: list(tl.tl_basis(*s))), (f'mor basis {s}', lambda env, s=s: list(tl.TLMor.basis(*s)))]
    ds = [(s, k) for s in shapes for k in range({(2, 2): 2, (3, 3): 5, (1, 3): 2, (3, 1): 2}.get(s, 1))]
    d = lambda env, a: env.get(('diag', a), lambda: list(tl.tl_basis(*a[0]))[a[1]])
    for a in ds:
        calls += [(f'flip {a}', lambda env, a=a: d(env, a).flip()), (f'through {a}', lambda env, a=a: tl.through_strands(d(env, a)))]
        for b in ds:
            if a[0][1] == b[0][0]:
                calls.append((f'{a} * {b}', lambda env, a=a, b=b: d(env, a) * d(env, b)))
            calls.append((f'{a} @ {b}', lambda env, a=a, b=b: d(env, a) @ d(env, b)))
    for n in range(6):
        for r in range(n // 2 + 1):
            calls += [(f'cell basis {n} {r}', lambda env, n=n, r=r: tl.cell_basis(n, r)), (f'cell dimension {n} {r}', lambda env, n=n, r=r: tl.cell_dimension(n, r)), (f'tableaux {n} {n - 2 * r}', lambda env, n=n, r=r: list(tl.tl_tableaux_basis(n, n - 2 * r)))]
            if n:
                calls += [(f'trace scalar {n} {r}', lambda env, n=n, r=r: tl.TLCell(n, r).trace_scalar()), (f'diagrams {n} {r}', lambda env, n=n, r=r: tl.TLCell(n, r).basis_diagrams())]
    for i in range(3):
        calls += [(f'ext e {i}', lambda env, i=i: (lambda e: (e.top, e.bot, tuple(e.seq), e.bubbles))(tl.TLExtDiag.e(i, 4)))]
        calls += [(f'ext {i} {j}', lambda env, i=i, j=j: (lambda e: (e.top, e.bot, tuple(e.seq), e.bubbles))(tl.TLExtDiag.e(i, 4) * tl.TLExtDiag.e(j, 4))) for j in range(3)]
        calls += [(f'ext @ {i} {j}', lambda env, i=i, j=j: (lambda e: (e.top, e.bot, tuple(e.seq), e.bubbles))(tl.TLExtDiag.e(i, 4) @ tl.TLExtDiag.id(j))) for j in range(3)]
    return calls


def g_perm(n):
    calls = []
    P = R.perms(n) if n < 4 else R.perms(n)[::2]
    x = lambda env, w: env.get(('perm', w), lambda: Permutation(w))
    for w in P:
        for m in ('inv', 'length', 'disjoint_cycles', 'cycle_type', 'shortlex', 'artin_word', 'right_descent_set', 'left_descent_set', '_repr_latex_'):
            calls.append((f'{m} {w}', lambda env, w=w, m=m: getattr(x(env, w), m)()))
        for f in ('inverse', 'disjoint_cycles', 'cycle_type', 'parity', 'length', 'shortlex', 'is_identity', 'is_longest_element', 'is_permutation', 'right_descent_set', 'left_descent_set', 'is_descending_cycles', 'is_parallel_descending_cycles'):
            calls.append((f'{f} {w}', lambda env, w=w, f=f: getattr(permutations, f)(w)))
            calls.append((f'{f} list {w}', lambda env, w=w, f=f: getattr(permutations, f)(list(w))))
        for v in P[::2]:
            calls += [(f'{w} * {v}', lambda env, w=w, v=v: x(env, w) * x(env, v)), (f'{w} == {v}', lambda env, w=w, v=v: x(env, w) == x(env, v)), (f'compose {w} {v}', lambda env, w=w, v=v: permutations.compose(w, v))]
        calls += [(f'descents {s} {w}', lambda env, w=w, s=s: (x(env, w).is_right_descent(s), x(env, w).is_left_descent(s))) for s in range(n - 1)]
        calls.append((f'npar {w}', lambda env, w=w: NPar.from_permutation(x(env, w))))
    for m in range(1, 6):
        G = lambda m=m: SymmetricGroup(m)
        calls += [(f'S{m} id', lambda env, G=G: G().id()), (f'S{m} w0', lambda env, G=G: G().longest_element()), (f'S{m} gens', lambda env, G=G: G().cox_gens()), (f'S{m} reflections', lambda env, G=G: list(G().reflections())),
                  (f'S{m} first', lambda env, G=G: first(G().elements(), 5)), (f'S{m} all', lambda env, G=G: len(list(G().elements())))]
        calls += [(f'S{m} cox {s}', lambda env, G=G, s=s: G().from_cox(s)) for s in ([], [0], [0, 1], [1, 0], [0, 1, 0]) if m > 2] + [(f'S{m} cycle {c}', lambda env, G=G, c=c: G().from_cycle(c)) for c in ([0, 1], [1, 0], [0, 2], [2, 1, 0], [0, 1, 2]) if m > 2]
    return calls


def g_npar(n):
    calls = []
    x = lambda env, b: env.get(('npar', n, b), lambda: NPar.from_components(n, b))
    for b in R.noncrossing(n):
        for m in ('left_complement', 'right_complement', 'to_permutation', 'components', 'artin_word', 'edges', '__repr__', '_repr_latex_'):
            calls.append((f'{m} {b}', lambda env, b=b, m=m: (lambda r: r if isinstance(r, (NPar, Permutation, str, list)) else list(r))(getattr(x(env, b), m)())))
        calls += [(f'from_components {b}', lambda env, b=b: NPar.from_components(n, b)), (f'from_components reversed {b}', lambda env, b=b: NPar.from_components(n, [list(c)[::-1] for c in b][::-1])), (f'back {b}', lambda env, b=b: NPar.from_permutation(x(env, b).to_permutation()))]
    for m in range(1, 6):
        calls += [(f'finest {m}', lambda env, m=m: NPar.finest(m)), (f'coarsest {m}', lambda env, m=m: NPar.coarsest(m)), (f'all {m}', lambda env, m=m: list(NPar.all_of_size(m))), (f'first {m}', lambda env, m=m: first(NPar.all_of_size(m), 3))]
    return calls


def arrs():
    base = np.zeros((2, 2, 2, 5), dtype=np.int64)
    A = base.copy(); A[0, 0, 0, 1] = A[0, 1, 1, 2] = -1; A[1, 0, 1, 3] = 2; A[1, 1, 0, 1] = 1
    B = base.copy(); B[0, 0, 0, 1] = B[0, 1, 1, 2] = -2; B[1, 0, 1, 2] = 2; B[1, 1, 0, 0] = 1
    C = base.copy(); C[:, 0, 0, 0] = C[:, 1, 1, 0] = 1
    D = base.copy(); D[0, 0, 0, 4] = 3; D[1, 1, 1, 4] = 1
    return {'A': A, 'B': B, 'C': C, 'D': D}


def g_polymat(own):
    """own: every operand has an array of its own; otherwise the caller refills one buffer."""
    calls = []
    data = arrs()

    def arr(env, name, which):
        if own:
            return env.get(('arr', name), lambda: data[name].copy())
        buf = env.__dict__.setdefault('buffers', {}).setdefault(which, np.zeros((2, 2, 2, 5), dtype=np.int64))
        buf[:] = data[name]
        return buf
    for a in data:
        for f in ('trim', 'trim_left', 'projectivise', 'degmax', 'valmin', 'nz_terms', 'rhogap', 'projlen', 'efflen', 'proj_starts_ends'):
            calls.append((f'{f} {a}', lambda env, a=a, f=f: copy(getattr(polymat, f)(arr(env, a, 0)))))
            if f != 'rhogap':
                calls.append((f'{f} {a}[0]', lambda env, a=a, f=f: copy(getattr(polymat, f)(arr(env, a, 0)[0]))))
        calls += [(f'to_matrix {a} {i}', lambda env, a=a, i=i: polymat.to_matrix(arr(env, a, 0)[i])) for i in range(2)]
        calls += [(f'zeropad {a} {D}', lambda env, a=a, D=D: copy(polymat.zeropad(arr(env, a, 0), D))) for D in (5, 6, 8)] + [(f'projrank {a} {k}', lambda env, a=a, k=k: polymat.projrank(polymat.projectivise(arr(env, a, 0)), terms=k)) for k in (1, 2)]
        for b in data:
            calls += [(f'mul {a} {b}', lambda env, a=a, b=b: copy(polymat.mul(arr(env, a, 0), arr(env, b, 1)))), (f'mul {a} {b}[0]', lambda env, a=a, b=b: copy(polymat.mul(arr(env, a, 0), arr(env, b, 1)[0]))),
                      (f'concatenate {a} {b}', lambda env, a=a, b=b: copy(polymat.concatenate([arr(env, a, 0), arr(env, b, 1)[..., :3]]))), (f'pack {a} {b}', lambda env, a=a, b=b: copy(polymat.pack([arr(env, a, 0)[0], arr(env, b, 1)[1][..., :4]])))]
    for m in ('D', 'E'):
        x = ma(m)
        calls += [(f'from_matrix {m} proj', lambda env, x=x: polymat.from_matrix(x(env), proj=True))]
    for n in (2, 3, 4):
        calls += [(f'eye {n}', lambda env, n=n: polymat.eye(n))] + [(f'burau {n} {s}', lambda env, n=n, s=s: polymat.burau_generator_v2(n, s)) for s in range(n - 1)]
    return calls


def g_long(n):
    """Small calls beside calls on long operands of every size class."""
    calls = []
    for C in (GNF, DGNF):
        N = C.__name__
        calls += [(f'{N} all {L}', lambda env, C=C, L=L: first(C.all_of_length(n, L), 30)) for L in (1, 2, 3)] + [(f'{N} count {L}', lambda env, C=C, L=L: C.count_all_of_length(n, L)) for L in (2, 70, 300)]
        calls += [(f'{N} sample {L}', lambda env, C=C, L=L: C.sample(n, L, random.Random(L))) for L in (2, 9, 17, 33, 41, 66, 130, 260)]
        x = lambda env, C=C, L=33: env.get((N, 'long', n, L, C.__name__), lambda: C.sample(n, L, random.Random(L)))
        for L in (3, 17, 35, 66):
            calls += [(f'{N} suffixes of {L}', lambda env, x=x, L=L, C=C: first(x(env, C, L).nf_suffixes(2), 20)), (f'{N} square {L}', lambda env, x=x, L=L, C=C: x(env, C, L) * x(env, C, L)), (f'{N} inverse {L}', lambda env, x=x, L=L, C=C: x(env, C, L).inv()),
                      (f'{N} word {L}', lambda env, x=x, L=L, C=C: x(env, C, L).artin_word()), (f'{N} back {L}', lambda env, x=x, L=L, C=C: C.from_artin_word(n, x(env, C, L).artin_word())), (f'{N} hash {L}', lambda env, x=x, L=L, C=C: x(env, C, L) == C.sample(n, L, random.Random(L))),
                      (f'{N} convert {L}', lambda env, x=x, L=L, C=C: x(env, C, L).to_DGNF() if C is GNF else x(env, C, L).to_GNF())]
            calls += [(f'{N} evaluate {L} {p}', lambda env, x=x, L=L, C=C, p=p: env.get(('cell', n, 1, p), lambda: JonesCellRep(n, 1, p)).polymat_evaluate_braid(x(env, C, L))) for p in (2, 3)]
            if C is GNF:
                calls += [(f'factors {L}', lambda env, x=x, L=L, C=C: braidsearch.evaluate_braid_factors(env.get(('js', n, 1, 3), lambda: JonesSummand(n, 1, 3)), x(env, C, L)))]
        calls += [(f'{N} many {k}', lambda env, C=C, k=k: env.get(('cell', n, 1, 2), lambda: JonesCellRep(n, 1, 2)).polymat_evaluate_braids_of_same_length([C.sample(n, 4, random.Random(s)) for s in range(k)])) for k in (3, 40, 130)]
    calls += [(f'garside sample {L}', lambda env, L=L: BraidGroup(n).sample_braid_perm(L, rand=random.Random(L))) for L in (2, 33, 41, 66, 130)]
    calls += [(f'sampled images {L}', lambda env, L=L: [list(y) for y in braidsearch.sample_braids_images(env.get(('js', n, 1, 2), lambda: JonesSummand(n, 1, 2)), L, 3, rand=random.Random(1))]) for L in (2, 41, 66)]
    return calls


def g_long_algebra(_):
    """The same for polynomials, matrices and diagrams."""
    calls = []
    lps = {k: (lambda env, k=k: env.get(('lpk', k), lambda: LPoly(-k, tuple((i * 5) % 7 - 3 or 1 for i in range(k))))) for k in (2, 9, 33, 70, 130, 300)}
    pos = {k: (lambda env, k=k: env.get(('pok', k), lambda: Poly(*[(i * 5) % 7 - 3 or 1 for i in range(k)]))) for k in (2, 9, 33, 70, 130, 300)}
    mats = {k: (lambda env, k=k: env.get(('mak', k), lambda: Matrix.from_rows([[(i * 3 + j * j) % 5 - 2 for j in range(k)] for i in range(k)]))) for k in (1, 2, 5, 9, 17)}
    for sym, fam in (('l', lps), ('p', pos), ('m', mats)):
        for k, x in fam.items():
            calls += [(f'{sym}{k} square', lambda env, x=x: x(env) * x(env)), (f'{sym}{k} power', lambda env, x=x: x(env) ** 3), (f'{sym}{k} difference', lambda env, x=x: x(env) - x(env)), (f'{sym}{k} triple', lambda env, x=x: x(env) * 3), (f'{sym}{k} repr', lambda env, x=x: repr(x(env)))]
            if sym != 'm':
                calls += [(f'{sym}{k} * {sym}{j}', lambda env, x=x, y=y: x(env) * y(env)) for j, y in fam.items() if j < k] + [(f'{sym}{k} + {sym}{j}', lambda env, x=x, y=y: x(env) + y(env)) for j, y in fam.items() if j < k]
            else:
                calls += [(f'm{k} trace', lambda env, x=x: x(env).trace()), (f'm{k} T', lambda env, x=x: x(env).transpose())]
            if sym == 'p':
                calls += [(f'p{k} divmod {j}', lambda env, x=x, y=y: divmod(x(env) * y(env), y(env))) for j, y in fam.items() if j < k]
    data = {k: np.array([[[[(a * 3 + i * 5 + j * 7 + d) % 4 - 1 for d in range(k)] for j in range(2)] for i in range(2)] for a in range(3)], dtype=np.int64) for k in (1, 4, 17, 33, 66, 130)}
    arr = lambda env, k: env.get(('arrk', k), lambda: data[k].copy())
    for k in data:
        calls += [(f'packed mul {k} {j}', lambda env, k=k, j=j: copy(polymat.mul(arr(env, k), arr(env, j)))) for j in data] + [(f'packed {f} {k}', lambda env, k=k, f=f: copy(getattr(polymat, f)(arr(env, k)))) for f in ('trim', 'projectivise', 'projlen', 'to_matrix') if f != 'to_matrix']
    for n in (2, 3, 5):
        full = lambda env, n=n: env.get(('full', n), lambda: total(LPoly(i % 3 - 1, (i + 1,)) * b for i, b in enumerate(tl.TLMor.basis(n, n))))
        calls += [(f'full {n} trace', lambda env, f=full: f(env).trace()), (f'full {n} + e', lambda env, f=full, n=n: f(env) + tl.TLMor.e(0, n)), (f'full {n} flip', lambda env, f=full: f(env).flip()), (f'full {n} repr', lambda env, f=full: repr(f(env))), (f'full {n} e', lambda env, f=full, n=n: f(env) * tl.TLMor.e(1 if n > 2 else 0, n))]
    return calls


def copy(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    return type(x)(copy(y) for y in x) if isinstance(x, (tuple, list)) else x


def build(ser):
    g = Groups(ser)
    for kind in ('GNF', 'DGNF'):
        for n in (3, 4):
            g.groups[f'{kind} unary {n}'] = g_unary(kind, n)
            g.groups[f'{kind} binary {n}'] = g_binary(kind, n)
    for n in (3, 4):
        g.groups[f'building {n}'] = g_build(n)
        g.groups[f'enumeration {n}'] = g_enum(n)
        g.groups[f'summand {n}'] = g_summand(n)
        g.groups[f'morphisms {n}'] = g_tl(n)
        g.groups[f'permutations {n}'] = g_perm(n)
        g.groups[f'partitions {n}'] = g_npar(n)
        g.groups[f'long {n}'] = g_long(n)
        g.groups[f'evaluation {n}'] = g_eval(n, reps_cell(n), [0, -1, -2, 1, 3], TAILS[n][:3])
        g.groups[f'LKB {n}'] = g_eval(n, reps_lkb(n), [0, -1, -2, 1] if n == 3 else [0, -1, -2], TAILS[n][:2] if n == 3 else TAILS[n][:2])
    g.groups['lpoly'], g.groups['lpoly binary'], g.groups['poly'], g.groups['special'] = g_lpoly(3), g_lpoly2(3), g_poly(3), g_special(3)
    g.groups['matrix'], g.groups['diagrams'] = g_matrix(3), g_diag(3)
    g.groups['long algebra'] = g_long_algebra(3)
    g.groups['packed'], g.groups['packed buffer'] = g_polymat(True), g_polymat(False)
    return g


def in_child(body, timeout=250):
    """body() in a forked process; returns its (picklable) value or raises."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            data = pickle.dumps(body())
            with os.fdopen(w, 'wb') as fh:
                fh.write(data)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        raise RuntimeError(f'a process of the check ended with status {status}')
    return pickle.loads(data)


def order(m, chunk):
    """The order of the calls of one process, as indices."""
    kind = chunk[1]
    if kind == 'forward':
        return list(range(m))
    if kind == 'reverse':
        return list(range(m))[::-1]
    if kind == 'stride':
        s = chunk[2]
        return [i for k in range(s) for i in range(k, m, s)] * 2
    if kind == 'twice':
        return [i for i in range(m) for _ in range(2)]
    if kind == 'pairs':
        return [k for i in range(chunk[2], min(chunk[3], m)) for j in range(chunk[4], m, chunk[5]) for k in (i, j)]
    raise ValueError(kind)

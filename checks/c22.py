"""C22: results do not depend on call history, and values are never mutated."""
import hashlib
import json
import os
import random
import subprocess
import sys
from collections import Counter

import numpy as np
import pandas as pd

from peyl import DGNF, GNF, BraidGroup, JonesCellRep, JonesSummand, LPoly, Matrix, NPar, Permutation, Poly, SymmetricGroup, Tracker
from peyl import braid as braidmod
from peyl import braidsearch, bucketing, noncrossing, permutations, polymat, tl
from peyl.bucketing import Stats
from peyl.jonesrep import LKBRep
from checks import c22_calls as K
from checks import search_common as S
from vlib.core import REPO, VERIF, Family

PROPERTY = 'C22'
ASSUMPTIONS = ['results are compared through their public readings (values, printed forms, contents of trackers), not through private attributes',
               'callers do not modify arrays or containers returned by the library, other than lists written out for them (words, cycles, components, edges, rows)']


# ------------------------------------------------------------------ reading results
def ser(x):
    """A canonical picture of a result."""
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return repr(x)
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, np.generic):
        return repr(x.item())
    if isinstance(x, np.ndarray):
        return f'array{x.shape}{x.dtype.kind}{x.tolist()}'
    if isinstance(x, pd.DataFrame):
        return 'frame' + ser(x.to_dict('list'))
    if isinstance(x, (GNF, DGNF)):
        return f'{type(x).__name__}({x.n},{x.canonical_decomposition()})'
    if isinstance(x, LPoly):
        return f'LPoly({x.val},{tuple(x.coeffs)})'
    if isinstance(x, Poly):
        return f'Poly{tuple(x.coeffs)}'
    if isinstance(x, Matrix):
        return f'Matrix{ser(x.rows())}'
    if isinstance(x, NPar):
        return f'NPar({x.n},{sorted(x.components())})'
    if isinstance(x, Permutation):
        return f'Perm{tuple(x.word)}'
    if isinstance(x, tl.TLMor):
        return f'TLMor({x.top},{x.bot},{sorted((ser(d), ser(c)) for d, c in x.pairs())})'
    if isinstance(x, tl.TLDiag):
        return f'TLDiag({x.top},{x.bot},{tuple(x.seq)})'
    if isinstance(x, Tracker):
        return 'tracker' + ser(sorted((ser(k), ser(list(x.bucket_braids_images(k)[0])), ser(x.bucket_braids_images(k)[1])) for k in x.buckets)) + \
               ser(sorted(map(ser, x.stats().to_dict('records'))))
    if isinstance(x, bucketing.Tracker):
        return 'generic' + ser([(ser(k), ser(list(x.bucket_braids_images(k)[0])), ser(x.bucket_braids_images(k)[1])) for k in x.buckets]) + ser(x.stats())
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(map(ser, x)) + ']'
    if isinstance(x, (set, frozenset)):
        return '{' + ','.join(sorted(map(ser, x))) + '}'
    if isinstance(x, dict):
        return '<' + ','.join(f'{ser(k)}:{ser(v)}' for k, v in x.items()) + '>'
    return repr(x)


class Env:
    """Operands shared by all calls of one process; none may ever change."""

    def __init__(self):
        self.objects, self.pictures = {}, {}

    def get(self, name, make):
        if name not in self.objects:
            self.objects[name] = make()
            self.pictures[name] = ser(self.objects[name])
        return self.objects[name]

    def changed(self):
        return [k for k, v in self.objects.items() if ser(v) != self.pictures[k]]

    def gnfs(self, n):
        B = lambda: [GNF.from_artin_word(n, w) for w in WORDS[n]]
        return self.get(f'gnfs{n}', B)

    def dgnfs(self, n):
        return self.get(f'dgnfs{n}', lambda: [DGNF.from_artin_word(n, w) for w in WORDS[n]])

    def cell(self, n, r, p):
        return self.get(f'cell{n}{r}{p}', lambda: JonesCellRep(n, r, p))

    def js(self, n, r, p):
        return self.get(f'js{n}{r}{p}', lambda: JonesSummand(n, r, p))

    def lkb(self, n):
        return self.get(f'lkb{n}', lambda: LKBRep(n, 0 if n == 3 else 5, LPoly(1, (1,)), LPoly(2, (-1,))))

    def matrices(self):
        v = LPoly(1, (1,))
        return self.get('matrices', lambda: [Matrix.from_rows([[v, v ** -1], [LPoly(0, (0, 2)), LPoly(0, (1,))]]), Matrix.from_rows([[1, 2], [3, 4]]), Matrix.from_rows([[v * v, 1 + v], [v, v]])])

    def polys(self):
        return self.get('polys', lambda: [Poly(1, 0, 1), Poly(-1, 1), Poly(), Poly(0, 0, 3, 1)])

    def lpolys(self):
        return self.get('lpolys', lambda: [LPoly(-1, (1, 0, 2)), LPoly(0, ()), LPoly(2, (-1,)), LPoly(-2, (1, 1, 1))])

    def arrays(self):
        A = np.arange(2 * 2 * 2 * 3).reshape(2, 2, 2, 3) % 5 - 1
        B = np.zeros((2, 2, 2, 4), dtype=np.int64)
        B[:, :, :, 1:3] = [[[[1, 2], [0, 1]], [[3, 0], [0, 0]]], [[[0, 1], [1, 1]], [[0, 0], [2, 2]]]]
        return self.get('arrays', lambda: [A, B])

    def mors(self):
        return self.get('mors', lambda: [tl.TLMor.e(0, 3), tl.TLMor.e(1, 3) * LPoly(1, (1, 0, 1)), tl.TLMor.id(3) + tl.TLMor.e(0, 3) * LPoly(-1, (2,)), tl.TLMor.e(2, 4), tl.TLMor.id(4)])


WORDS = {3: [[], [(0, 1)], [(0, 1), (1, -1)], [(1, 1), (0, 1), (1, 1), (0, -1), (0, -1)], [(0, -1), (1, -1), (0, 1)]],
         4: [[], [(2, 1)], [(0, 1), (2, -1)], [(1, 1), (0, 1), (2, 1), (1, -1), (0, -1)], [(0, -1), (1, -1), (2, -1), (0, 1), (0, 1)]]}


def m_perm(n):
    def f(env):
        G = SymmetricGroup(n)
        el = list(G.elements())
        return [G.id(), G.longest_element(), G.cox_gens(), el[:9], [x.inv() for x in el[-5:]], [x * y for x in el[1:4] for y in el[-3:]], [x.shortlex() for x in el[:12]],
                [x.disjoint_cycles() for x in el[5:9]], [sorted(x.left_descent_set()) for x in el[5:9]], [G.from_cycle(c) for c in ([0, 2], [2, 1, 0])], list(G.reflections())]
    return f


def m_npar(n):
    def f(env):
        all_ = env.get(f'npars{n}', lambda: list(NPar.all_of_size(n)))
        return [NPar.finest(n), NPar.coarsest(n), all_, [x.left_complement() for x in all_], [x.right_complement() for x in all_], [x.to_permutation() for x in all_], [list(x.artin_word()) for x in all_],
                [x.components() for x in all_[:5]], [list(x.edges()) for x in all_[:6]], noncrossing.catalan(n + 2)]
    return f


def m_group(n):
    def f(env):
        B = BraidGroup(n)
        return [B.id(), B.gens(), B.invs(), [(k, v) for k, v in sorted(B.bkl_gens().items())], [(k, v) for k, v in sorted(DGNF.bkl_gens(n).items())], GNF.artin_gens(n), DGNF.artin_gens(n),
                GNF.identity(n), DGNF.identity(n), [B.positive_lift(x) for x in list(SymmetricGroup(n).elements())[:7]], [B.from_npar(x) for x in list(NPar.all_of_size(n))[:7]], B.from_gnf_pair((1, [tuple(range(n))]))]
    return f


def m_products(kind, n):
    def f(env):
        xs = env.gnfs(n) if kind == 'G' else env.dgnfs(n)
        return [[x * y for x in xs for y in xs], [x.inv() for x in xs], [x ** k for x in xs for k in (-2, 0, 3)], [x.artin_word() for x in xs], [x.magma_artin_word() for x in xs[1:]], [x == y for x in xs for y in xs],
                len({hash(x) for x in xs}), [x.substring(0, 1) for x in xs if x.canonical_length()]]
    return f


def m_enum(kind, n):
    def f(env):
        C = GNF if kind == 'G' else DGNF
        xs = env.gnfs(n) if kind == 'G' else env.dgnfs(n)
        return [[C.count_all_of_length(n, L) for L in range(5)], list(C.all_of_length(n, 1)), list(C.all_of_length(n, 2, 1))[:20], [list(x.nf_suffixes(2))[:10] for x in xs], [list(x.nf_descendants())[:10] for x in xs],
                [C.sample(n, 4, random.Random(7)) for _ in range(2)], BraidGroup(n).sample_braid_perm(3, rand=random.Random(1)), list(BraidGroup(n).all_of_garside_length(1, 2))[:8]]
    return f


def m_convert(n):
    def f(env):
        return [[x.to_DGNF() for x in env.gnfs(n)], [x.to_GNF() for x in env.dgnfs(n)], [braidmod.adapt_braid(x) for x in env.gnfs(n) + env.dgnfs(n)], [braidmod.convert_braid(braidmod.adapt_braid(x).encode()) for x in env.gnfs(n) + env.dgnfs(n)]]
    return f


def m_js(n, r, p, shared=True):
    def f(env):
        rep = env.js(n, r, p) if shared else JonesSummand(n, r, p)
        gs = env.gnfs(n)
        one = [x for x in gs if x.canonical_length() == 1]
        return [rep, rep.dimension(), rep.id(), rep.artin_gens_invs(), braidsearch.evaluate_braids(rep, gs), [braidsearch.evaluate_braid_factors(rep, x) for x in gs], braidsearch.evaluate_braids_of_same_length(rep, one),
                braidsearch.evaluate_prefixes_of_same_length(rep, one), rep.mul(rep.artin_gens_invs()[0][0], rep.artin_gens_invs()[1][-1]), sorted((ser(k), ser(v)) for k, v in braidsearch.symmetric_table(rep).items())[:8]]
    return f


def m_cell(n, r, p, shared=True):
    def f(env):
        rep = env.cell(n, r, p) if shared else JonesCellRep(n, r, p)
        gs, ds = env.gnfs(n), env.dgnfs(n)
        return [rep.dimension(), rep.artin_gens_invs(), rep.id(), rep.polymat_id(), rep.polymat_artin_gens_invs(), [rep.evaluate(x) for x in gs[1:3] + ds[1:3]], [rep.polymat_evaluate(x) for x in gs[1:] + ds[1:]],
                [rep.polymat_evaluate_braid(x) for x in gs + ds], rep.polymat_evaluate_braids_of_same_length(list(GNF.all_of_length(n, 1))[:4]), rep.polymat_evaluate_braids_of_same_length(list(DGNF.all_of_length(n, 1))[:4]),
                rep.polymat_evaluate_braid_integers_of_same_length(GNF, [[1, 2], [0, 1]]), rep.polymat_evaluate_braid_integers_of_same_length(DGNF, [[1, 2], [0, 1]]), rep.polymat_evaluate_artin_word([(0, 1), (1, -1)])]
    return f


def m_lkb(n, p=0):
    def f(env):
        rep = env.lkb(n)
        return [rep.dimension(), rep.artin_gens_invs(), rep.evaluate_artin_word([(0, 1), (1, -1)]), [rep.evaluate(x) for x in env.gnfs(n)[1:3]]] if n < 4 else [rep.dimension(), rep.artin_gens_invs()]
    return f


def m_tl(n):
    def f(env):
        ms = env.mors()
        a = [x for x in ms if x.top == n]
        cells = [tl.TLCell(n, r) for r in range(n // 2 + 1)]
        return [[tl.cell_basis(n, r) for r in range(n // 2 + 1)], [c.dim() for c in cells], [c.project_leftmult_matrix(x) for c in cells for x in a], [x * y for x in a for y in a], [x + y for x in a for y in a], [x - x for x in a],
                [x.trace() for x in a], [x.flip() for x in a], [x.flip(twist_v=False) for x in a], [x.quotient(n - 2) for x in a], list(tl.TLMor.basis(n, n))[:6], [d @ e for d in list(tl.tl_basis(n, n))[:3] for e in tl.tl_basis(1, 1)], [x ** 2 for x in a],
                [c.trace_scalar() for c in cells], list(tl.tl_basis(n, n))[:8]]
    return f


def m_poly(env):
    ps = env.polys()
    return [[Poly.cyclotomic(k) for k in (1, 2, 6, 12, 15)], [Poly.chebyshevT(k) for k in (0, 1, 5)], [Poly.minpolycos(k) for k in (1, 2, 5, 7, 8)], [x * y for x in ps for y in ps], [x + y for x in ps for y in ps], [x - y for x in ps for y in ps],
            [divmod(x, ps[1]) for x in ps], [x * ps[0] / ps[0] for x in ps], [repr(x) for x in ps], [x.evaluate(3) for x in ps], [x ** 3 for x in ps]]


def m_poly2(env):
    return [[Poly.cyclotomic(k) for k in (12, 4, 3, 30)], [Poly.chebyshevT(k) for k in (6, 3)], [Poly.minpolycos(k) for k in (9, 3, 12)]]


def m_lpoly(env):
    ps = env.lpolys()
    return [[x * y for x in ps for y in ps], [x + y for x in ps for y in ps], [x - y for x in ps for y in ps], [-x for x in ps], [3 * x + 1 for x in ps], [repr(x) for x in ps], [x.fmt('latex') for x in ps], [x.degree() for x in ps if not x.is_zero()],
            [x.map(lambda c: c % 2) for x in ps], [LPoly.quantum_integer(k) for k in (-3, 0, 1, 4)], [x.evaluate(LPoly(1, (1,))) for x in ps], [ps[2] ** k for k in (-2, 0, 3)]]


def m_matrix(env):
    ms = env.matrices()
    return [[x * y for x in ms for y in ms], [x - y for x in ms for y in ms], [x.transpose() for x in ms], [x.trace() for x in ms], [x ** 2 for x in ms], [x * 2 for x in ms], [x.map(lambda c: c + c) for x in ms],
            [x.row(0) for x in ms], [x.column(1) for x in ms], [x.is_symmetric() for x in ms], Matrix.identity(3), Matrix.zero(2, 3), Matrix.scalar(2, 5), [x == y for x in ms for y in ms], [repr(x) for x in ms]]


def m_polymat(env):
    A, B = env.arrays()
    ms = env.matrices()
    return [polymat.mul(A, B), polymat.mul(B, B), polymat.projectivise(B), polymat.projectivise(A), polymat.trim(B), polymat.trim_left(B), polymat.pack([A[0], B[0], B[1][..., :2]]), polymat.zeropad(A, 6), polymat.concatenate([A, B]), polymat.eye(3),
            polymat.projlen(B), polymat.degmax(B), polymat.valmin(B), polymat.nz_terms(B), polymat.rhogap(B), polymat.projrank(polymat.projectivise(B), terms=2), polymat.proj_starts_ends(B), polymat.from_matrix(ms[2]), polymat.from_matrix(ms[0], proj=True), polymat.to_matrix(A[0]),
            polymat.burau_generator_v2(3, 0)]


def m_jtracker(n, r, p, cap, rand, ops, shared=True):
    def f(env):
        rep = env.js(n, r, p) if shared else JonesSummand(n, r, p)
        t = Tracker(rep, cap, ('length', 'projlen'), lambda x: x['length'] >= 0, rand=random.Random(4) if rand else None)
        for op in ops:
            if op[0] == 'boot':
                t.bootstrap_exhaustive(op[1])
            elif op[0] == 'offer':
                gs = env.gnfs(n)
                t.add_braids_images(list(gs), polymat.pack(list(braidsearch.evaluate_braids(rep, gs))))
            else:
                for key in sorted(k for k in t.buckets if k[0] == op[1]):
                    if op[0] == 'desc':
                        t.nf_descendants(key, op[2])
                    elif op[0] == 'disc':
                        t.discard_bucket(key)
                    elif op[0] == 'subs':
                        t.substrings(key)
        return t
    return f


def m_gtracker(n, r, p, cap, method, ops, shared=True):
    def f(env):
        rep = env.cell(n, r, p) if shared else JonesCellRep(n, r, p)
        t = bucketing.Tracker(rep, cap, [Stats.NFKind, Stats.CanonicalLength, Stats.ProjectiveLength], [], reservoir_method=method, rand=random.Random(4))
        for op in ops:
            if op[0] == 'boot':
                t.bootstrap_exhaustive({'G': GNF, 'D': DGNF}[op[1]], op[2])
            else:
                for key in sorted(k for k in t.buckets if k[1] == op[1]):
                    t.nf_descendants(key, op[2])
        return t
    return f


def m_below(n, r, p, L):
    def f(env):
        braids, images = braidsearch.all_of_length_below_1(env.js(n, r, p), L)
        return [list(braids), list(images)]
    return f


def m_stats(env):
    rep = env.js(3, 1, 2)
    braids, images = braidsearch.sample_braids_images(rep, 3, 6, rand=random.Random(2))
    b2, i2 = braidsearch.sample_braids_images_upto_length(env.js(4, 2, 3), 1, 3, 2, rand=random.Random(2))
    return [list(braids), images, braidsearch.braids_images_to_dataframe(braids, images).drop(columns=['image'], errors='ignore').map(ser), list(b2), i2]


MENU = [
    ('permutations 3', m_perm(3)), ('permutations 4', m_perm(4)), ('noncrossing 3', m_npar(3)), ('noncrossing 4', m_npar(4)),
    ('group 3', m_group(3)), ('group 4', m_group(4)),
    ('GNF products 3', m_products('G', 3)), ('GNF products 4', m_products('G', 4)), ('DGNF products 3', m_products('D', 3)), ('DGNF products 4', m_products('D', 4)),
    ('GNF enumeration 3', m_enum('G', 3)), ('GNF enumeration 4', m_enum('G', 4)), ('DGNF enumeration 3', m_enum('D', 3)), ('DGNF enumeration 4', m_enum('D', 4)),
    ('conversions 3', m_convert(3)), ('conversions 4', m_convert(4)),
    ('summand 3 1 2', m_js(3, 1, 2)), ('summand 3 1 3', m_js(3, 1, 3)), ('summand 3 1 0', m_js(3, 1, 0)), ('summand 4 1 2', m_js(4, 1, 2)), ('summand 4 2 2', m_js(4, 2, 2)), ('summand 3 1 3 (new)', m_js(3, 1, 3, False)), ('summand 3 0 2', m_js(3, 0, 2)),
    ('cell 3 1 2', m_cell(3, 1, 2)), ('cell 3 1 3', m_cell(3, 1, 3)), ('cell 4 2 2', m_cell(4, 2, 2)), ('cell 3 1 0', m_cell(3, 1, 0)), ('cell 3 1 5 (new)', m_cell(3, 1, 5, False)), ('cell 4 1 2 (new)', m_cell(4, 1, 2, False)),
    ('LKB 3', m_lkb(3)), ('LKB 4', m_lkb(4)), ('TL 3', m_tl(3)), ('TL 4', m_tl(4)), ('poly', m_poly), ('special polynomials', m_poly2), ('lpoly', m_lpoly), ('matrix', m_matrix), ('polymat', m_polymat),
    ('search 3 1 2', m_jtracker(3, 1, 2, 50, False, [('boot', 2), ('desc', 2, 1), ('desc', 2, 2)])), ('search 3 1 3 reservoir', m_jtracker(3, 1, 3, 3, True, [('offer',), ('boot', 2), ('desc', 2, 1), ('disc', 1)])),
    ('search 4 2 2 (new)', m_jtracker(4, 2, 2, 5, True, [('boot', 1), ('offer',), ('desc', 1, 1)], False)), ('search 3 1 0', m_jtracker(3, 1, 0, 20, False, [('offer',), ('desc', 1, 2), ('subs', 3)])),
    ('tracker 3 1 2 both', m_gtracker(3, 1, 2, 50, 'GreedyFirst', [('boot', 'G', 2), ('boot', 'D', 2), ('desc', 1, 1), ('desc', 2, 2)])), ('tracker 3 1 3 both', m_gtracker(3, 1, 3, 3, 'Uniform', [('boot', 'D', 2), ('boot', 'G', 1), ('desc', 1, 2)])),
    ('tracker 4 2 2 (new)', m_gtracker(4, 2, 2, 6, 'AChao', [('boot', 'D', 1), ('desc', 1, 1)], False)), ('tracker 3 1 2 best', m_gtracker(3, 1, 2, 4, 'EvictMin', [('boot', 'G', 2), ('desc', 2, 1)])),
    ('below one 3', m_below(3, 1, 2, 3)), ('below one 4', m_below(4, 2, 3, 1)), ('sampling', m_stats),
]
NAMES = [name for name, _ in MENU]
FN = dict(MENU)
CORE = ['group 4', 'GNF products 3', 'DGNF products 4', 'GNF enumeration 4', 'DGNF enumeration 3', 'conversions 3', 'summand 3 1 2', 'summand 3 1 3', 'summand 4 2 2', 'cell 3 1 2', 'cell 3 1 3', 'cell 4 2 2', 'cell 3 1 5 (new)', 'TL 3', 'TL 4', 'poly',
        'special polynomials', 'matrix', 'polymat', 'search 3 1 2', 'search 3 1 3 reservoir', 'tracker 3 1 2 both', 'tracker 3 1 3 both', 'tracker 4 2 2 (new)', 'below one 3', 'LKB 3', 'noncrossing 4', 'lpoly']


def sha(s):
    return hashlib.sha1(s.encode()).hexdigest()


def play(seq):
    """Run the calls one after another in this process.  Returns the pictures and the first trouble seen."""
    env = Env()
    shas, kept = [], []
    for name in seq:
        try:
            out = FN[name](env)
            pic = ser(out)
        except Exception as e:
            return shas, f'{name} raised {type(e).__name__}: {e}', None
        shas.append(sha(pic))
        for k, (old, before) in enumerate(kept):
            if ser(old) != before:
                return shas, f'the result of {seq[k]} was changed by {name}', (before, ser(old))
        changed = env.changed()
        if changed:
            return shas, f'{name} changed its operands {changed}', None
        kept.append((out, pic))
    return shas, None, pic


def in_child(seq):
    with S.scratch() as d:
        path = os.path.join(d, 'out.json')

        def body():
            shas, trouble, pic = play(seq)
            with open(path, 'w') as fh:
                json.dump([shas, trouble, pic if len(seq) == 1 or trouble else None], fh)
            return 0
        how = S.forked(body, 200)
        if how != ('exit', 0):
            return [], f'the process ended with {how}', None
        return json.load(open(path))


FRESH = {}


def prepare(tier):
    import concurrent.futures as cf
    import multiprocessing as mp
    with cf.ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        for name, (shas, trouble, pic) in zip(NAMES, ex.map(in_child, [[n] for n in NAMES])):
            FRESH[name] = (shas[0] if shas else None, trouble, pic)
        GROUPS.append(K.build(ser))
        jobs = [(g, k, min(k + 150, len(calls))) for g, calls in GROUPS[0].groups.items() for k in range(0, len(calls), 150)]
    with cf.ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        for (g, k, _), out in zip(jobs, ex.map(fresh_calls, jobs)):
            CALLS.setdefault(g, []).extend(out)


CALLS, GROUPS = {}, []


def fresh_calls(job):
    """What each of these calls gives as the first one of a process."""
    g, lo, hi = job
    return [K.in_child(lambda thunk=thunk: GROUPS[0].outcome(thunk, K.Env(ser))[1]) for _, thunk in GROUPS[0].groups[g][lo:hi]]


def run_calls(ctx, chunk):
    group, kind, mode = chunk[0], chunk[1], chunk[-1]
    calls, fresh = GROUPS[0].groups[group], CALLS[group]

    def body():
        env = K.Env(ser, kept=mode == 'kept')
        kept, n, prev = {}, 0, None
        for i in K.order(len(calls), chunk):
            out, pic = GROUPS[0].outcome(calls[i][1], env)
            n += 1
            if pic != fresh[i]:
                return n, f'{calls[i][0]}: after {n - 1} other calls (the last was {prev}) the result is {pic[:300]}, as the first call it is {fresh[i][:300]}'
            prev = calls[i][0]
            if i not in kept and mode == 'kept' and kind != 'pairs':
                kept[i] = out
            if n % 500 == 0 and env.changed():
                return n, f'among the {n} calls up to {prev}, one changed its operands {env.changed()}'
        if env.changed():
            return n, f'one of {n} calls changed its operands {env.changed()}'
        for i, out in kept.items():
            if out is not None and ser(K.tidy(out)) != fresh[i]:
                return n, f'the result of {calls[i][0]} was changed by later calls: now {ser(K.tidy(out))[:300]}, it was {fresh[i][:300]}'
        return n, None
    n, trouble = K.in_child(body)
    ctx.check(trouble is None, lambda: f'group {group}, {chunk[1:]}: {trouble}')
    ctx.step(n)
    ctx.fresh_states(n)
    ctx.trace()
    ctx.sample({'group': group, 'order': chunk[1:], 'calls': n})


def run_sequences(ctx, chunk):
    for seq in sequences(chunk):
        for name in seq:
            if FRESH[name][1]:
                ctx.fail(f'in a fresh process: {FRESH[name][1]}')
        shas, trouble, pic = in_child(seq)
        if trouble:
            ctx.fail(f'after {seq[:len(shas) + 0]}: {trouble}', repro=str(pic)[:1000] if pic else None)
        for k, (name, s) in enumerate(zip(seq, shas)):
            if s != FRESH[name][0]:
                again = in_child_text(seq[:k + 1])
                a, b = FRESH[name][2], again
                at = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                ctx.fail(f'{name} gives another result after {seq[:k]} than in a fresh process: at character {at}, fresh ...{a[max(0, at - 60):at + 60]}..., now ...{b[max(0, at - 60):at + 60]}...')
            ctx.step()
        ctx.fresh_states(len(seq))
        ctx.trace()
    ctx.sample({'sequence': seq})


def in_child_text(seq):
    with S.scratch() as d:
        path = os.path.join(d, 'out')

        def body():
            env = Env()
            kept = [FN[name](env) for name in seq]
            with open(path, 'w') as fh:
                fh.write(ser(kept[-1]))
            return 0
        S.forked(body, 200)
        return open(path).read() if os.path.exists(path) else ''


def sequences(chunk):
    kind = chunk[0]
    if kind == 'pairs':
        # a, then every b, each in its own process: a b a b
        for b in NAMES:
            yield [chunk[1], b, chunk[1], b]
    elif kind == 'triples':
        for b in chunk[3]:
            for c in chunk[4]:
                yield [chunk[1], b, c][:3]
    elif kind == 'rounds':
        k = chunk[1]
        yield NAMES[k:] + NAMES[:k]
        yield (NAMES[k:] + NAMES[:k])[::-1]


CHILD = '''
import sys, json
sys.path[:0] = [{repo!r}, {verif!r}]
from checks import c22
out = c22.play({seq!r})
print(json.dumps(out[:2]))
'''


def owned_calls(n):
    """Calls that write out a list for their caller."""
    P, N, B = list(SymmetricGroup(n).elements()), list(NPar.all_of_size(n)), BraidGroup(n)
    for k, x in enumerate(P):
        yield f'permutation {k} of {n} cycles', lambda x=x: x.disjoint_cycles()
        yield f'permutation {k} of {n} word', lambda x=x: x.artin_word()
        yield f'permutation {k} of {n} descents', lambda x=x: x.left_descent_set()
    for k, x in enumerate(N):
        yield f'partition {k} of {n} components', lambda x=x: x.components()
        yield f'partition {k} of {n} edges', lambda x=x: x.edges()
        yield f'partition {k} of {n} word', lambda x=x: x.artin_word()
    braids = [B.positive_lift(x) for x in P] + [B.from_npar(x) for x in N] + [C(n, k, ()) for C in (GNF, DGNF) for k in (-2, -1, 0, 1, 2)] + [x * x for x in GNF.artin_gens(n) + DGNF.artin_gens(n)]
    for k, x in enumerate(braids):
        yield f'braid {k} of {n} word', lambda x=x: x.artin_word()
        yield f'braid {k} of {n} magma word', lambda x=x: x.magma_artin_word()
    for k, x in enumerate([Matrix.identity(n), Matrix.zero(n, 1), Matrix.from_rows([list(range(i, i + n)) for i in range(n)])]):
        yield f'matrix {k} of {n} rows', lambda x=x: x.rows()


def run_owned(ctx, chunk):
    """The caller empties every list it was given; the same calls, and products with the same braids, still give the same."""
    n, spoil = chunk

    def later():
        gens = GNF.artin_gens(n), DGNF.artin_gens(n)
        return ser([[x.to_DGNF() for x in gens[0]], [x.to_GNF() for x in gens[1]], [x * x * y for g in gens for x in g for y in g], [x.inv() for g in gens for x in g], [GNF.from_perm(p) for p in SymmetricGroup(n).elements()]])

    want = K.in_child(later)

    def body():
        calls = list(owned_calls(n))
        before = [ser(f()) for _, f in calls]
        if spoil != 'cold':
            later()
        for name, f in calls:
            out = f()
            if isinstance(out, (list, set)):
                if spoil == 'grow' and isinstance(out, list):
                    out.extend(out + out)
                else:
                    out.clear()
        for (name, f), old in zip(calls, before):
            now = ser(f())
            if now != old:
                return len(calls), f'{name} was {old}; after its caller changed the list it was given, it is {now}'
        now = later()
        if now != want:
            return len(calls), f'conversions and products changed after callers changed the words they were given: {want[:200]} became {now[:200]}'
        return len(calls), None
    k, trouble = K.in_child(body)
    ctx.check(trouble is None, trouble)
    ctx.step(2 * k)
    ctx.fresh_states(k)
    ctx.trace()


def run_hashes(ctx, chunk):
    """Whole menus in new interpreters with different hash seeds."""
    seed, k, rev = chunk
    seq = NAMES[k:] + NAMES[:k]
    if rev:
        seq = seq[::-1]
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=REPO)
    res = subprocess.run([sys.executable, '-c', CHILD.format(repo=REPO, verif=VERIF, seq=seq)], env=env, capture_output=True, timeout=250)
    ctx.check(res.returncode == 0, lambda: f'hash seed {seed}: {res.stderr[-600:].decode()}')
    shas, trouble = json.loads(res.stdout.decode().strip().split('\n')[-1])
    ctx.check(trouble is None, f'hash seed {seed}: {trouble}')
    for name, s in zip(seq, shas):
        if s != FRESH[name][0]:
            ctx.fail(f'{name} depends on the hash seed ({seed}) or on the calls before it')
        ctx.step()
    ctx.trace()
    ctx.fresh_states(1)


def families(tier):
    q = tier == 'quick'
    F = [Family('pairs', [['pairs', a] for a in NAMES], run_sequences, 'every ordered pair of calls, repeated')]
    F.append(Family('rounds', [['rounds', k] for k in range(0, len(NAMES), 3 if q else 1)], run_sequences, 'every call in one process, each rotation and its reverse'))
    core = CORE[::2] if q else NAMES
    F.append(Family('triples', [['triples', a, 0, [b], core] for a in core for b in core], run_sequences, 'every ordered triple of calls of a reduced menu'))
    C = []
    for g, calls in K.build(ser).groups.items():
        m = len(calls)
        for mode in ('kept', 'new'):
            C += [[g, kind, mode] for kind in ('forward', 'reverse', 'twice')] + [[g, 'stride', s, mode] for s in ((3, 7, 31) if q else (2, 3, 5, 7, 11, 17, 31, 61))]
        slow = g.split()[0] in ('LKB', 'evaluation', 'summand', 'long')
        long = g.startswith('long')
        step = max(1, m * m // (5000 if long else 10000 if slow else 120000)) if q else 1
        rows = max(1, (1500 if long else 6000 if slow else 30000) * step // m)
        C += [[g, 'pairs', lo, lo + rows, 0, step, 'kept'] for lo in range(0, m, rows)]
    F.append(Family('calls', C, run_calls, 'single calls on closely related operands, in many orders, against each call as the first one of a process'))
    F.append(Family('owned', [[n, how] for n in ((3, 4) if q else (2, 3, 4, 5)) for how in ('clear', 'grow', 'cold')], run_owned, 'lists written out for the caller are the caller\'s own'))
    F.append(Family('hashes', [[s, k, rev] for s in ((0, 1, 42) if q else range(12)) for k, rev in ((0, False), (17, True))], run_hashes, 'new interpreters with other hash seeds'))
    return F

"""C01/C02: exploration of braid arithmetic in one of the two Garside structures."""
import itertools

from peyl import BraidGroup, DGNF, GNF
from vlib import ref_braid as R
from vlib.core import Family, slices
from vlib.impl import CLS, NFJudge, factor_impl, lift, lift_seq, read, simples


def rle(word):
    """Run-length compress a word of +-1 letters into arbitrary exponents."""
    out = []
    for i, e in word:
        if out and out[-1][0] == i and (out[-1][1] > 0) == (e > 0):
            out[-1] = (i, out[-1][1] + e)
        else:
            out.append((i, e))
    return out


def gens_of(kind, n):
    return list(BraidGroup(n).gens()) if kind == 'GNF' else list(DGNF.artin_gens(n))


def gen_letters(kind, n):
    """[(word, object)] of generators with inverses: Artin generators, plus band generators for DGNF."""
    out = []
    gens = gens_of(kind, n)
    for i, g in enumerate(gens):
        out.append(([(i, 1)], g))
        out.append(([(i, -1)], g.inv()))
    if kind == 'DGNF':
        for (s, t), g in sorted(DGNF.bkl_gens(n).items()):
            if s < t:
                out.append((list(R.bkl_word(s, t)), g))
    return out


# ------------------------------------------------------------------ families
def run_oracle(ctx, chunk):
    n, L = chunk
    letters = [(i, e) for i in range(n - 1) for e in (1, -1)]
    d, e = {}, {}
    for k in range(L + 1):
        for w in itertools.product(letters, repeat=k):
            a, b = R.key(n, w), R.artin_auto(n, w)
            ctx.check(d.setdefault(a, b) == b and e.setdefault(b, a) == a, 'oracle self-check failed')
            ctx.step()
    ctx.fresh_states(len(d))


BALLS = {}


def ball(n, radius):
    if (n, radius) not in BALLS:
        BALLS[n, radius] = R.cayley_ball(n, radius)[0]
    return BALLS[n, radius]


def make_cayley(kind):
    def run(ctx, chunk):
        n, radius, lo, hi = chunk
        cls = CLS[kind]
        J = NFJudge(ctx, kind, n)
        letters = gen_letters(kind, n)
        ident = cls.identity(n)
        J.judge(ident, J.start, 'identity')
        for k, word in ball(n, radius)[lo:hi]:
            what = f'n={n} word {list(word)}'
            A = ident
            for i, e in word:
                A = A * letters[2 * i + (e < 0)][1]
            J.judge(A, k, what + ' as a product of generators')
            J.judge(cls.from_artin_word(n, list(word)), k, 'from_artin_word ' + what)
            J.judge(cls.from_artin_word(n, rle(word)), k, 'from_artin_word (collected exponents) ' + what)
            pre = []
            B = ident
            for i, e in reversed(word):      # the same product, associated to the right
                B = letters[2 * i + (e < 0)][1] * B
            J.judge(B, k, what + ' as a right-associated product')
            for w, g in letters:
                J.judge(A * g, R.run(k, w), f'{what} times {w}')
                J.judge(g * A, R.key(n, w + list(word)), f'{w} times {what}')
            Ai = A.inv()
            ki = R.key(n, R.inv_word(word))
            J.judge(Ai, ki, 'inverse of ' + what)
            J.judge(Ai * A, J.start, 'inverse times itself, ' + what)
            J.judge(A * Ai, J.start, 'itself times inverse, ' + what)
            J.judge(Ai.inv(), k, 'double inverse ' + what)
            for p in (-3, -2, -1, 0, 1, 2, 3):
                J.judge(A ** p, R.key(n, R.pow_word(word, p)), f'power {p} of {what}')
            # substrings
            val = read(A)
            if len(val[1]) <= 4:
                for i in range(len(val[1]) + 1):
                    for j in range(i, len(val[1]) + 1):
                        S = A.substring(i, j)
                        ctx.check(read(S) == (val[0], val[1][i:j]),
                                  f'substring({i},{j}) of {A!r} is {S!r}')
                for i in range(-len(val[1]), len(val[1])):
                    f = A.canonical_factor(i)
                    ctx.check(factor_impl(kind, n, val[1][i]) == f, f'canonical_factor({i}) of {A!r} is {f!r}')
                for i in (-len(val[1]) - 1, len(val[1])):
                    ctx.raises(lambda i=i: A.canonical_factor(i), f'canonical_factor({i}) of {A!r}, which has {len(val[1])} factors')
                ctx.check(tuple(factor_impl(kind, n, f) for f in val[1]) == tuple(A.canonical_factors()), 'canonical_factors')
            # inequality with neighbours
            for w, g in letters:
                ctx.check(not (A * g == A) and A * g != A, f'{what}: different braids compare equal')
            ctx.trace()
            ctx.outcome((kind, n, 'inf', val[0], 'len', len(val[1])))
            ctx.sample({'n': n, 'word': list(word), 'normal form': [val[0], list(val[1])]})
    return run


def make_pairs(kind, quick=True):
    """All pairs of simple elements, trivial and Garside elements included."""
    def run(ctx, chunk):
        n, lo, hi = chunk
        S = simples(kind, n)
        J = NFJudge(ctx, kind, n)
        lifts = [lift(kind, n, s) for s in S]
        words = [R.factor_word(kind, s) for s in S]
        # the identity, the Garside element, the generators and their complements
        ends = {a for a, b in enumerate(lifts) if b.canonical_length() == 0} | \
            {a for a, w in enumerate(words) if len(w) == 1} | {a for a, f in enumerate(S) if kind == 'GNF' and len(words[a]) == n * (n - 1) // 2 - 1}
        for a in range(lo, hi):
            ka = R.run(J.start, words[a])
            J.judge(lifts[a], ka, f'lift of {S[a]}')
            J.judge(BraidGroup(n).positive_lift(factor_impl(kind, n, S[a])) if kind == 'GNF'
                    else BraidGroup(n).from_npar(factor_impl(kind, n, S[a])), ka, f'group lift of {S[a]}')
            J.judge(lift_seq(kind, n, []), J.start, 'empty sequence')
            for b in range(len(S)):
                k = R.run(ka, words[b])
                J.judge(lifts[a] * lifts[b], k, f'product of lifts of {S[a]} and {S[b]}')
                if n <= 5 or a in ends or b in ends or not quick:
                    J.judge(lift_seq(kind, n, [S[a], S[b]]), k, f'sequence {S[a]}, {S[b]}')
            J.good.clear() if n >= 6 else None
            ctx.trace()
        ctx.sample({'n': n, 'pairs of': S[lo]})
    return run


def make_seqs(kind):
    """All sequences of `length` simple elements (trivial and Garside elements included)."""
    def run(ctx, chunk):
        n, length, lo, hi = chunk
        S = simples(kind, n)
        J = NFJudge(ctx, kind, n)
        words = {s: R.factor_word(kind, s) for s in S}
        lifts = {s: lift(kind, n, s) for s in S}
        for first in S[lo:hi]:
            for rest in itertools.product(S, repeat=length - 1):
                seq = (first,) + rest
                k = J.start
                for s in seq:
                    k = R.run(k, words[s])
                J.judge(lift_seq(kind, n, seq), k, f'sequence {seq}')
                A = lifts[seq[0]]
                for s in seq[1:]:
                    A = A * lifts[s]
                J.judge(A, k, f'product of lifts {seq}')
                ctx.trace()
            J.good.clear()
    return run


def nf_list(kind, n, maxlen):
    return [f for L in range(maxlen + 1) for f in R.normal_forms(kind, n, L)]


def make_nfpairs(kind):
    """Products of all pairs of normal forms of bounded length, with Garside powers on both sides."""
    def run(ctx, chunk):
        n, la, lb, powers, lo, hi = chunk
        cls = CLS[kind]
        J = NFJudge(ctx, kind, n)
        gen = lift(kind, n, tuple(reversed(range(n))) if kind == 'GNF' else (tuple(range(n)),))
        gp = {p: gen ** p for p in powers}
        gk = {p: R.pow_word(R.garside_word(kind, n), p) for p in powers}
        As = list(R.normal_forms(kind, n, la))[lo:hi]
        Bs = [(f, lift_seq(kind, n, f), R.nf_word(kind, n, 0, f)) for f in R.normal_forms(kind, n, lb)]
        for fa in As:
            A0 = lift_seq(kind, n, fa)
            for p in powers:
                A = gp[p] * A0
                wa = gk[p] + R.nf_word(kind, n, 0, fa)
                ka = R.run(J.start, wa)
                J.judge(A, ka, f'{p};{fa}')
                for fb, B0, wb in Bs:
                    for q in powers:
                        J.judge(A * (gp[q] * B0) if q else A * B0, R.run(ka, gk[q] + wb if q else wb),
                                f'n={n} product of ({p};{fa}) and ({q};{fb})')
                ctx.trace()
                J.good.clear()
        ctx.sample({'n': n, 'left': [powers[0], As[0]] if As else None, 'right lengths': lb})
    return run


def make_words(kind):
    """from_artin_word on every word of (generator, exponent) letters."""
    def run(ctx, chunk):
        n, length, exps, lo, hi = chunk
        cls = CLS[kind]
        J = NFJudge(ctx, kind, n)
        letters = [(i, e) for i in range(n - 1) for e in exps]
        for idx in range(lo, hi):
            w, x = [], idx
            for _ in range(length):
                w.append(letters[x % len(letters)])
                x //= len(letters)
            J.judge(cls.from_artin_word(n, iter(w)), R.key(n, w), f'n={n} from_artin_word({w})')
            ctx.trace()
        ctx.sample({'n': n, 'word': w})
    return run


def make_periodic(kind):
    """u^k for all short words u, every prefix; long cascades of renormalisation."""
    def run(ctx, chunk):
        n, ulen, total, lo, hi = chunk
        cls = CLS[kind]
        letters = gen_letters(kind, n)
        m = len(letters)
        J = NFJudge(ctx, kind, n)
        for idx in range(lo, hi):
            u, x = [], idx
            for _ in range(ulen):
                u.append(x % m)
                x //= m
            A, k = cls.identity(n), J.start
            B, wb = cls.identity(n), []
            for step in range(total):
                w, g = letters[u[step % ulen]]
                A = A * g
                k = R.run(k, w)
                J.judge(A, k, f'n={n} prefix {step + 1} of periodic word {[letters[j][0] for j in u]}')
                if total <= 24 and step >= total - 6:
                    B = A * A
                    J.judge(B, R.run(k, [l for s in range(step + 1) for l in letters[u[s % ulen]][0]]),
                            f'n={n} square of prefix {step + 1} of {[letters[j][0] for j in u]}')
                    J.judge(A.inv(), R.key(n, R.inv_word([l for s in range(step + 1) for l in letters[u[s % ulen]][0]])),
                            f'n={n} inverse of prefix {step + 1} of {[letters[j][0] for j in u]}')
            J.good.clear()
            ctx.trace()
        ctx.sample({'n': n, 'period': [letters[j][0] for j in u], 'length': total})
    return run


LENGTHS = (15, 16, 17, 31, 32, 33, 47, 49, 63, 64, 65, 100, 127, 128, 129)


def make_long(kind):
    """u^k (and its inverse) multiplied on both sides by every generator and simple element: renormalisation
    has to travel over the whole of a long normal form."""
    def run(ctx, chunk):
        n, ulen, lengths, lo, hi = chunk
        cls = CLS[kind]
        letters = gen_letters(kind, n)
        m = len(letters)
        J = NFJudge(ctx, kind, n)
        small = [(w, g) for w, g in letters]
        if n == 3:
            small += [(R.factor_word(kind, s), lift(kind, n, s)) for s in simples(kind, n)]
        for idx in range(lo, hi):
            u, x = [], idx
            for _ in range(ulen):
                u.append(x % m)
                x //= m
            uw = [l for j in u for l in letters[j][0]]
            U = cls.from_artin_word(n, uw)
            for k in lengths:
                w = uw * k
                key = R.key(n, w)
                A = cls.from_artin_word(n, w)
                J.judge(A, key, f'n={n} from_artin_word({uw} * {k})')
                J.judge(U ** k, key, f'n={n} ({uw}) ** {k}')
                Ai = A.inv()
                iw = R.inv_word(w)
                ikey = R.key(n, iw)
                J.judge(Ai, ikey, f'n={n} inverse of ({uw}) ** {k}')
                J.judge(U ** -k, ikey, f'n={n} ({uw}) ** {-k}')
                J.judge(lift_seq(kind, n, read(A)[1]), R.key(n, R.nf_word(kind, n, 0, read(A)[1])), f'n={n} factors of ({uw}) ** {k}')
                for gw, g in small:
                    J.judge(A * g, R.run(key, gw), f'n={n} ({uw}) ** {k} times {gw}')
                    J.judge(g * A, R.key(n, list(gw) + w), f'n={n} {gw} times ({uw}) ** {k}')
                    J.judge(Ai * g, R.run(ikey, gw), f'n={n} ({uw}) ** {-k} times {gw}')
                    J.judge(g * Ai, R.key(n, list(gw) + iw), f'n={n} {gw} times ({uw}) ** {-k}')
                J.judge(A * A, R.run(key, w), f'n={n} square of ({uw}) ** {k}')
                J.judge(A * Ai, J.start, f'n={n} ({uw}) ** {k} times its inverse')
                J.judge(Ai * A, J.start, f'n={n} ({uw}) ** {-k} times its inverse')
                J.good.clear()
            ctx.trace()
        ctx.sample({'n': n, 'base': uw, 'powers': list(lengths)})
    return run


def make_long_pairs(kind):
    """u^j v^k for all pairs of short words."""
    def run(ctx, chunk):
        n, ulen, lengths, lo, hi = chunk
        cls = CLS[kind]
        letters = gen_letters(kind, n)
        words = [[l for w, _ in c for l in w] for c in itertools.product(letters, repeat=ulen)]
        J = NFJudge(ctx, kind, n)
        for u in words[lo:hi]:
            for k in lengths:
                A, ka = cls.from_artin_word(n, u * k), R.key(n, u * k)
                for v in words:
                    for j in lengths:
                        J.judge(A * cls.from_artin_word(n, v * j), R.run(ka, v * j), f'n={n} ({u}) ** {k} times ({v}) ** {j}')
                    J.good.clear()
            ctx.trace()
    return run


def make_powers(kind):
    """Large powers, and powers of powers, of braids with every small infimum."""
    def run(ctx, chunk):
        n, radius, exps, lo, hi = chunk
        cls = CLS[kind]
        J = NFJudge(ctx, kind, n)
        gw = R.garside_word(kind, n)
        for k, word in ball(n, radius)[lo:hi]:
            for p in (-2, -1, 0, 1):
                w = R.pow_word(gw, p) + list(word)
                A = cls.from_artin_word(n, w)
                for e in exps:
                    J.judge(A ** e, R.key(n, R.pow_word(w, e)), f'n={n} ({w}) ** {e}')
                ctx.trace()
            J.good.clear()
    return run


GREAT = (64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1025)


def make_exponents(kind):
    """Words with great exponents."""
    def run(ctx, chunk):
        n, e = chunk
        cls = CLS[kind]
        J = NFJudge(ctx, kind, n)
        words = []
        for s in (1, -1):
            words += [[(i, s * e)] for i in range(n - 1)]
            if e <= 300 or n == 3:
                words += [[(i, s * e), (j, f)] for i in range(n - 1) for j in range(n - 1) for f in (1, -1, 2)]
                words += [[(j, f), (i, s * e)] for i in range(n - 1) for j in range(n - 1) for f in (1, -2)]
                words += [[(0, s * e), (n - 2, -s * e), (0, 3)]]
        for w in words:
            J.judge(cls.from_artin_word(n, w), R.key(n, w), f'n={n} from_artin_word({w})')
            J.good.clear()
            ctx.trace()
        ctx.sample({'n': n, 'word': words[0]})
    return run


FAR = (1000, 1001, 2 ** 15, 2 ** 16 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 1, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 + 1, 10 ** 30, 10 ** 30 + 1)


def make_far(kind):
    """Braids of astronomical infimum: a full twist is central, so results agree with those of a small infimum up to it."""
    def run(ctx, chunk):
        n, length, = chunk
        cls = CLS[kind]
        J = NFJudge(ctx, kind, n)
        order = 2 if kind == 'GNF' else n
        D = lift(kind, n, tuple(reversed(range(n))) if kind == 'GNF' else (tuple(range(n)),))
        fs = list(R.normal_forms(kind, n, length))
        fs = fs[::max(1, len(fs) // 12)]
        for f in fs:
            A = lift_seq(kind, n, f)
            J.judge(A, R.key(n, R.nf_word(kind, n, 0, f)), f'{f}')
            small = {}
            for q in range(-order, order + 1):
                w = R.nf_word(kind, n, 0, f) + R.pow_word(R.garside_word(kind, n), q)
                J.judge(A * D ** q, R.key(n, w), f'{f} times Garside power {q}')
                small[q] = read(A * D ** q)
            AA, inv, g = read(A * A), read(A.inv()), A * D
            for P in FAR:
                for P in (P, -P):
                    what = f'{kind} n={n} braid {f} and Garside power {P}'
                    X = D ** P
                    ctx.check(read(X) == (P, ()) and (X.inf(), X.sup()) == (P, P) and X.canonical_length() == 0, lambda: f'n={n}: {D!r} ** {P} = {X!r}')
                    Y = X * A
                    ctx.check(read(Y) == (P, f) and (Y.inf(), Y.sup()) == (P, P + length) and Y == cls(n, P, A.factors), lambda: f'{what}: power times braid is {Y!r}')
                    q = P % order
                    Z = A * X
                    ctx.check(read(Z) == (P, small[q][1]), lambda: f'{what}: braid times power is {Z!r}')
                    I = Y.inv()                      # A^-1 D^-P
                    v = read(I)
                    qi = -P % order
                    want = read(A.inv() * D ** qi)
                    ctx.check(v == (want[0] - P - qi, want[1]), lambda: f'{what}: inverse is {I!r}')
                    ctx.check(read(Y * I) == (0, ()) == read(I * Y), lambda: f'{what}: times its inverse is {Y * I!r}')
                    YY = Y * Y                       # D^P A D^P A
                    want = read(A * D ** q * A)
                    ctx.check(read(YY) == (want[0] + 2 * P - q, want[1]), lambda: f'{what}: square is {YY!r}')
                    ctx.check(Y ** 2 == YY and Y ** -2 == I * I, lambda: f'{what}: powers')
                    ctx.step(8)
                    ctx.state((kind, n, P, f))
            ctx.trace()
    return run


def make_reject(kind):
    """The constructor accepts exactly the factor lists in normal form."""
    def run(ctx, chunk):
        n, length, lo, hi = chunk
        cls = CLS[kind]
        S = simples(kind, n)
        ref = {}
        for s in S:
            b = lift(kind, n, s)
            if len(b.factors) == 1:
                ref[b.factors[0]] = s
        order = len(S)
        ctx.check(len(ref) == order - 2 and all(0 <= f < order for f in ref), 'factor indices are not one per simple element')
        for f in range(lo, hi):
            for rest in itertools.product(range(order), repeat=length - 1):
                facs = (f,) + rest
                want = all(x in ref for x in facs) and R.is_normal_form(kind, n, [ref[x] for x in facs])
                for power in (0, -1):
                    try:
                        b = cls(n, power, facs)
                        ok = True
                    except Exception:
                        ok = False
                    if ok != want:
                        ctx.fail(f'{kind}({n}, {power}, {facs}) [{[ref.get(x, "trivial or Garside") for x in facs]}] was '
                                 f'{"accepted" if ok else "refused"}')
                    if ok:
                        ctx.check(read(b) == (power, tuple(ref[x] for x in facs)), f'{b!r} holds other factors')
                    ctx.step()
        ctx.fresh_states((hi - lo) * order ** (length - 1))
        ctx.trace()
    return run


def make_long_lists(kind):
    """Long factor lists: every single replacement in normal forms of many lengths is accepted or refused rightly."""
    def run(ctx, chunk):
        n, L, lo, hi = chunk
        cls = CLS[kind]
        S = simples(kind, n)
        ref = {}
        for s in S:
            b = lift(kind, n, s)
            if len(b.factors) == 1:
                ref[b.factors[0]] = s
        idx = {s: f for f, s in ref.items()}
        good = {(a, b): R.is_normal_form(kind, n, [a, b]) for a in idx for b in idx}
        # lists that run through every factor: always the follower longest unused
        last, used, facs = None, {}, []
        for k in range(L):
            nxt = min((s for s in idx if last is None or good[last, s]), key=lambda s: (used.get(s, -1), idx[s]))
            used[nxt] = k
            facs.append(idx[nxt])
            last = nxt
        const = next(s for s in idx if good[s, s])
        for base in (facs, [idx[const]] * L):
            b = cls(n, -1, tuple(base))
            ctx.check(read(b) == (-1, tuple(ref[f] for f in base)), lambda: f'{b!r} holds other factors than {base}')
            for i in range(lo, min(hi, L)):
                for f in range(len(S)):
                    facs2 = (*base[:i], f, *base[i + 1:])
                    want = f in ref and (i == 0 or good[ref[base[i - 1]], ref[f]]) and (i == L - 1 or good[ref[f], ref[base[i + 1]]])
                    try:
                        cls(n, 0, facs2)
                        ok = True
                    except Exception:
                        ok = False
                    if ok != want:
                        ctx.fail(f'{kind}({n}, 0, {facs2}) of {L} factors (position {i} is {ref.get(f, "trivial or Garside")}) was {"accepted" if ok else "refused"}')
                    ctx.step()
        ctx.fresh_states(2 * (min(hi, L) - lo) * len(S))
        ctx.trace()
    return run


def make_mixed(kind):
    """Products across strand counts or kinds are refused; lifts into the wrong group are refused."""
    def run(ctx, chunk):
        cls = CLS[kind]
        other = CLS['DGNF' if kind == 'GNF' else 'GNF']
        for n in range(2, 6):
            for m in range(2, 6):
                for A in [cls.identity(n), cls.from_artin_word(n, [(0, 2)]), cls.from_artin_word(n, [(0, -1), (n - 2, 3)])]:
                    for B in [cls.identity(m), cls.from_artin_word(m, [(0, 1)]), cls.from_artin_word(m, [(m - 2, -1)])]:
                        if n != m:
                            ctx.raises(lambda: A * B, f'product of braids on {n} and {m} strands')
                            ctx.check(A != B, 'braids on different numbers of strands compare equal')
                            ctx.step()
                if n != m:
                    ident = tuple(range(m)) if kind == 'GNF' else tuple((i,) for i in range(m))
                    top = tuple(reversed(range(m))) if kind == 'GNF' else (tuple(range(m)),)
                    for s in (ident, top):
                        f = factor_impl(kind, m, s)
                        G = BraidGroup(n)
                        ctx.raises(lambda: G.positive_lift(f) if kind == 'GNF' else G.from_npar(f), f'lift of {f!r} into B_{n}')
                        if kind == 'GNF':
                            ctx.raises(lambda: GNF.from_perm_seq(n, [f]), 'sequence of the wrong size')
                        else:
                            ctx.raises(lambda: DGNF.from_npar_seq(n, [f]), 'sequence of the wrong size')
                        ctx.step()
        ctx.fresh_states(1)
        ctx.trace()
    return run


def make_gens(kind):
    def run(ctx, chunk):
        n, = chunk
        J = NFJudge(ctx, kind, n)
        cls = CLS[kind]
        G = BraidGroup(n)
        gens = cls.artin_gens(n)
        ctx.check(len(gens) == n - 1, 'number of generators')
        for i, g in enumerate(gens):
            J.judge(g, R.key(n, [(i, 1)]), f'generator {i} of B_{n}')
        J.judge(cls.identity(n), J.start, 'identity')
        if kind == 'GNF':
            ctx.check(len(G.gens()) == n - 1 and len(list(G.invs())) == n - 1, 'number of generators')
            for i, (g, h) in enumerate(zip(G.gens(), G.invs())):
                J.judge(g, R.key(n, [(i, 1)]), f'BraidGroup generator {i}')
                J.judge(h, R.key(n, [(i, -1)]), f'BraidGroup inverse generator {i}')
            J.judge(G.id(), J.start, 'BraidGroup identity')
        else:
            for table in (DGNF.bkl_gens(n), G.bkl_gens()):
                ctx.check(set(table) == {(i, j) for i in range(n) for j in range(n)}, 'band generator labels')
                for (s, t), g in table.items():
                    J.judge(g, R.key(n, R.bkl_word(s, t)), f'band generator {(s, t)}')
        ctx.trace()
    return run


def families(kind, tier):
    q = tier == 'quick'
    gnf = kind == 'GNF'
    F = []
    ns = range(2, 7) if gnf else range(2, 8 if True else 7)
    F.append(Family('generators', [[n] for n in ns], make_gens(kind), 'generators, inverse generators, identity'))
    F.append(Family('oracle', [[3, 6 if q else 8], [4, 4 if q else 6], [5, 3 if q else 4]], run_oracle,
                    'Dynnikov keys against the Artin action on the free group: equal keys iff equal automorphisms'))
    radii = {2: 12, 3: 9 if q else 13, 4: 6 if q else 8, 5: 4 if q else 6, 6: 4 if q else 5, 7: 3 if q else 4}
    ch = []
    for n in ns:
        size = len(ball(n, radii[n]))
        ch += [[n, radii[n], lo, hi] for lo, hi in slices(size, 100 if q else 400)]
    F.append(Family('cayley', ch, make_cayley(kind),
                    'every element of a ball of the Cayley graph: left and right multiplication by every generator, '
                    'inverse, powers, substrings, word constructors'))
    ch = []
    for n in ns:
        m = len(simples(kind, n))
        ch += [[n, lo, hi] for lo, hi in slices(m, max(1, 12000 // m))]
    F.append(Family('simple_pairs', ch, make_pairs(kind, q), 'all ordered pairs of simple elements'))
    ch = []
    for n, L in ([(2, 6), (3, 5), (4, 3)] if gnf else [(2, 6), (3, 5), (4, 3), (5, 2 if q else 3)]):
        for l in range(1, L + 1):
            m = len(simples(kind, n))
            ch += [[n, l, lo, hi] for lo, hi in slices(m, max(1, 8000 // m ** (l - 1)))]
    F.append(Family('simple_sequences', ch, make_seqs(kind), 'all sequences of simple elements up to a length'))
    ch = []
    P = [0, 1, -1]
    plan = {'GNF': [(3, 3, 3, [-1, 0, 1, 2]), (3, 5, 4, P), (3, 4, 5, P), (4, 1, 2, P), (4, 2, 1, P), (4, 2, 2, [0, -1]), (4, 3, 1, [0]), (4, 1, 3, [0]),
                    (5, 1, 1, P)],
            'DGNF': [(3, 4, 4, [-2, -1, 0, 1]), (3, 5, 4, [-1, 0, 1]), (4, 2, 2, [-2, -1, 0, 1]), (4, 3, 2, [0, 1]), (4, 2, 3, [0, 3]), (5, 1, 1, [-3, -2, -1, 0, 1, 2]), (5, 2, 1, [0, 2]),
                     (5, 1, 2, [0, -1]), (6, 1, 1, [0, 1, -1])]}[kind]
    if not q:
        plan = plan + {'GNF': [(3, 7, 7, [0, 1]), (4, 3, 2, [0, -1]), (4, 2, 3, [0, -1]), (4, 4, 1, [0]), (4, 1, 4, [0]), (5, 2, 1, [0, 1]), (5, 1, 2, [0, 1])],
                       'DGNF': [(3, 8, 8, [0, 1]), (4, 4, 3, [0, 1]), (4, 3, 4, [0, -1]), (5, 2, 2, [0]), (5, 3, 1, [0]), (5, 1, 3, [0]), (6, 2, 1, [0]), (6, 1, 2, [0])]}[kind]
    for n, la, lb, pw in plan:
        m = R.count_normal_forms(kind, n, la)
        per = R.count_normal_forms(kind, n, lb) * len(pw) ** 2
        ch += [[n, la, lb, pw, lo, hi] for lo, hi in slices(m, max(1, 8000 // per))]
    F.append(Family('nf_products', ch, make_nfpairs(kind), 'products of all pairs of normal forms of bounded lengths with Garside powers'))
    ch = []
    plan = [(2, 3, [-3, -2, -1, 0, 1, 2, 3]), (3, 4, [-3, -2, -1, 0, 1, 2, 3]), (4, 3, [-2, -1, 0, 1, 2]), (5, 3, [-2, -1, 1, 2]), (6, 3, [-1, 1, 2] if gnf else [-1, 1])]
    if not q:
        plan += [(3, 5, [-3, -2, -1, 0, 1, 2, 3]), (4, 4, [-2, -1, 0, 1, 2]), (5, 4, [-2, -1, 1, 2]), (6, 4, [-1, 1, 2])]
    for n, L, ex in plan:
        for l in range(0, L + 1):
            tot = ((n - 1) * len(ex)) ** l
            ch += [[n, l, ex, lo, hi] for lo, hi in slices(tot, 4000)]
    F.append(Family('artin_words', ch, make_words(kind), 'from_artin_word on all words of letters (generator, exponent)'))
    ch = []
    plan = [(2, 1, 20), (3, 1, 40), (3, 2, 40), (3, 3, 36), (3, 4, 24), (4, 1, 40), (4, 2, 40), (4, 3, 24), (5, 2, 40), (6, 2, 24)]
    if not gnf:
        plan += [(7, 1, 24)]
    if not q:
        plan += [(3, 6, 36), (4, 4, 32), (5, 3, 30), (6, 3, 24)]
    for n, ul, tot in plan:
        m = len(gen_letters(kind, n))
        ch += [[n, ul, tot, lo, hi] for lo, hi in slices(m ** ul, 60)]
    F.append(Family('periodic', ch, make_periodic(kind), 'every prefix of u^k for every short word u, with squares and inverses'))
    ch = []
    for n, ul, ls in [(2, 1, LENGTHS), (3, 1, LENGTHS + (255, 256, 257)), (3, 2, LENGTHS), (3, 3, (33, 65)), (4, 1, LENGTHS), (4, 2, (17, 33, 49, 65)), (5, 1, (33, 65)), (6, 1, (33, 65))] \
            + ([] if q else [(3, 3, LENGTHS), (3, 4, (33, 65)), (4, 2, LENGTHS), (4, 3, (33, 65)), (5, 2, (33, 65))]):
        m = len(gen_letters(kind, n))
        ch += [[n, ul, list(ls), lo, hi] for lo, hi in slices(m ** ul, 4)]
    F.append(Family('long', ch, make_long(kind), 'long powers u^k multiplied on both sides by every small braid'))
    ch = []
    for n, ul, ls in [(3, 1, (33, 65)), (3, 2, (17, 33)), (4, 1, (33, 65))] + ([] if q else [(3, 3, (17, 33)), (4, 2, (17, 33))]):
        ch += [[n, ul, list(ls), lo, hi] for lo, hi in slices(len(gen_letters(kind, n)) ** ul, 4)]
    F.append(Family('long_pairs', ch, make_long_pairs(kind), 'products u^j v^k of two long powers'))
    ch = []
    for n, r in [(2, 3), (3, 3 if q else 5), (4, 2 if q else 4), (5, 2 if q else 3), (6, 1 if q else 2)]:
        ex = list(range(-9, 10)) if n <= 4 else list(range(-7, 8))
        ch += [[n, r, ex, lo, hi] for lo, hi in slices(len(ball(n, r)), 8)]
    F.append(Family('powers', ch, make_powers(kind), 'powers of all ball elements with every small infimum'))
    ch = []
    for n, L in ([(2, 4), (3, 5), (4, 3), (5, 2)] if gnf else [(2, 4), (3, 5), (4, 4 if q else 4), (5, 3), (6, 2)]):
        for l in range(1, L + 1):
            m = len(simples(kind, n))
            ch += [[n, l, lo, hi] for lo, hi in slices(m, max(1, 20000 // m ** (l - 1)))]
    F.append(Family('factor_lists', ch, make_reject(kind), 'the constructor on every list of factor indices'))
    ch = []
    for n, Ls in ((3, (6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 24, 25, 31, 32, 33, 40, 50, 63, 64, 65, 100, 128, 129, 200)), (4, (9, 17, 33, 65))):
        for L in Ls:
            ch += [[n, L, lo, hi] for lo, hi in slices(L, 1000 if n == 3 else 17)]
    F.append(Family('long_factor_lists', ch, make_long_lists(kind), 'the constructor on long lists with one factor replaced'))
    ch = [[n, e] for n in (2, 3, 4, 5, 6) for e in GREAT if n <= 3 or e <= 300 or e % 512 in (0, 1)]
    F.append(Family('exponents', ch, make_exponents(kind), 'words with great exponents'))
    F.append(Family('far', [[n, L] for n in ns for L in range(0, 4 if n < 4 else 3 if n == 4 else 2)], make_far(kind), 'products and inverses of braids of astronomical infimum'))
    F.append(Family('mixed_groups', [[0]], make_mixed(kind), 'products across groups'))
    return F


def prepare(kind, tier):
    cls = CLS[kind]
    for n in (range(2, 7) if kind == 'GNF' else range(2, 8)):
        cls.from_artin_word(n, [(0, 1)])       # builds the lookup tables before forking

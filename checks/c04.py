"""C04: enumeration, counting, suffixes, descendants, sampling."""
import itertools

from peyl import BraidGroup, DGNF, GNF
from vlib import ref_braid as R, schedules
from vlib.core import Family, slices
from vlib.impl import CLS, factor_ref, lift_seq, read
from vlib.rng import ScriptedRandom, explore

PROPERTY = 'C04'
ASSUMPTIONS = ['left-weightedness as defined in vlib/ref_braid.py (descent sets; absolute order)']


def run_list(ctx, chunk):
    kind, n, length, powers = chunk
    cls = CLS[kind]
    want = set(R.normal_forms(kind, n, length))
    for p in powers:
        got = []
        for b in (cls.all_of_length(n, length, p) if p != 0 else cls.all_of_length(n, length)):
            ctx.check(type(b) is cls and b.n == n, lambda: f'all_of_length lists {b!r}')
            pw, f = read(b)
            if pw != p or f not in want:
                ctx.fail(f'{kind}.all_of_length({n}, {length}, power={p}) lists ({pw}; {f})')
            got.append(f)
        ctx.check(len(got) == len(want) and len(set(got)) == len(want),
                  lambda: f'{kind}.all_of_length({n}, {length}, power={p}) lists {len(got)} braids ({len(set(got))} distinct), should be {len(want)}; '
                  f'missing e.g. {next(iter(want - set(got)), None)}')
        if kind == 'GNF':
            g2 = [read(b) for b in BraidGroup(n).all_of_garside_length(length, p)]
            ctx.check(len(g2) == len(want) and set(g2) == {(p, f) for f in want},
                      lambda: f'BraidGroup({n}).all_of_garside_length({length}, {p}) is wrong')
        ctx.step(len(got))
        ctx.trace()
    c = cls.count_all_of_length(n, length)
    ctx.check(c == len(want), f'{kind}.count_all_of_length({n}, {length}) = {c}, but there are {len(want)}')
    ctx.fresh_states(len(want) * len(powers))
    ctx.outcome((kind, n, length, len(want)))
    ctx.sample({'kind': kind, 'n': n, 'length': length, 'count': len(want)})


def run_interleave(ctx, chunk):
    """Two listings consumed in lock step and nested do not disturb each other."""
    kind, n, length = chunk
    cls = CLS[kind]
    want = [read(b) for b in list(cls.all_of_length(n, length))]
    a, b = cls.all_of_length(n, length), cls.all_of_length(n, length)
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.check(read(x) == want[i] == read(y), f'{kind} listing {n},{length} changes when two listings are interleaved')
        ctx.step()
    kept = list(cls.all_of_length(n, length))
    for x, w in zip(kept, want):
        ctx.check(read(x) == w, 'a listed braid changed')
    ctx.fresh_states(len(want))
    ctx.trace()


def listing(spec):
    """(maker, reference set) of a lazy listing."""
    what, kind, n, L, p, f = spec
    cls = CLS[kind]
    f = tuple(map(tuple, f))
    if what == 'all':
        return (lambda: cls.all_of_length(n, L, p)), {(p, w) for w in R.normal_forms(kind, n, L)}
    if what == 'group':
        return (lambda: BraidGroup(n).all_of_garside_length(L, p)), {(p, w) for w in R.normal_forms(kind, n, L)}
    b = cls(n, p, lift_seq(kind, n, f).factors)
    last = f[-1] if f else None
    if what == 'suffixes':
        return (lambda: b.nf_suffixes(L)), {(0, w) for w in R.normal_forms(kind, n, L, last)}
    return b.nf_descendants, {(p, f + w) for w in R.normal_forms(kind, n, 1, last)}


def listing_menu(kind, n, L):
    out = [('all', kind, n, l, 0, ()) for l in range(1, L + 1)] + [('all', kind, n, L, -1, ())]
    for f in (list(R.normal_forms(kind, n, 1))[0], list(R.normal_forms(kind, n, 1))[-1], list(R.normal_forms(kind, n, 2))[1]):
        out += [('suffixes', kind, n, l, 1, f) for l in range(1, L + 1)] + [('descendants', kind, n, 1, 2, f)]
    if kind == 'GNF':
        out.append(('group', kind, n, L, 0, ()))
    return [list(x[:5]) + [list(x[5])] for x in out]


def run_schedules(ctx, chunk):
    """Every interleaving (bounded switches) of lazy listings, some left unfinished."""
    limit, specs = chunk
    got = [listing(s) for s in specs]
    makers, wants = [g[0] for g in got], [g[1] for g in got]
    k = schedules.affordable([len(w) for w in wants], limit)
    schedules.explore(ctx, makers, wants, k, read, lambda: f'listings {specs}')
    ctx.outcome(k)


def run_count(ctx, chunk):
    kind, n, upto = chunk
    for L in range(upto + 1):
        c = CLS[kind].count_all_of_length(n, L)
        w = R.count_normal_forms(kind, n, L)
        ctx.check(c == w, f'{kind}.count_all_of_length({n}, {L}) = {c}, should be {w}')
        if kind == 'GNF':
            c = BraidGroup(n).count_all_of_garside_length(L)
            ctx.check(c == w, f'BraidGroup({n}).count_all_of_garside_length({L}) = {c}, should be {w}')
        ctx.step()
        ctx.state((kind, n, L))
    ctx.trace()


def run_suffix(ctx, chunk):
    kind, n, blen, maxl, powers, lo, hi = chunk
    cls = CLS[kind]
    cache = {}
    for f in itertools.islice(R.normal_forms(kind, n, blen), lo, hi):
        base = lift_seq(kind, n, f)
        for p in powers:
            b = cls(n, p, base.factors)
            last = f[-1] if f else None
            for L in range(maxl + 1):
                if (last, L) not in cache:
                    cache[last, L] = set(R.normal_forms(kind, n, L, last))
                want = cache[last, L]
                got = list(b.nf_suffixes(L))
                vals = [read(x) for x in got]
                ctx.check(len(vals) == len(want) and set(vals) == {(0, w) for w in want},
                          lambda: f'nf_suffixes({L}) of {kind} n={n} ({p}; {f}): {len(vals)} offered, {len(want)} exist; '
                          f'wrong e.g. {next(iter(set(vals) ^ {(0, w) for w in want}), None)}')
                if len(got) <= 200:
                    for x, (_, w) in zip(got, vals):
                        y = b * x
                        ctx.check(read(y) == (p, f + w), lambda: f'({p}; {f}) times suffix {w} is {read(y)}')
                        ctx.step()
                ctx.step()
            d = [read(x) for x in b.nf_descendants()]
            w1 = cache.setdefault((last, 1), set(R.normal_forms(kind, n, 1, last)))
            ctx.check(len(d) == len(w1) and set(d) == {(p, f + w) for w in w1},
                      lambda: f'nf_descendants of {kind} n={n} ({p}; {f}) are {len(d)} braids, should be {len(w1)}')
            ctx.state((kind, n, p, f))
        ctx.trace()
    ctx.sample({'kind': kind, 'n': n, 'braid': [powers[0], list(f)], 'suffix lengths': maxl})


def run_long_suffix(ctx, chunk):
    """Suffixes and descendants of long braids and of great powers; long suffixes."""
    kind, n, blen, L, p = chunk
    cls = CLS[kind]
    for c in R.normal_forms(kind, n, 2):
        if not R.is_normal_form(kind, n, c + c[:1]) or c[1] < c[0]:
            continue
        f = (c * blen)[:blen]
        b = cls(n, p, lift_seq(kind, n, f).factors)
        ctx.check(read(b) == (p, f), lambda: f'{b!r} is not ({p}; {f})')
        want = set(R.normal_forms(kind, n, L, f[-1] if f else None))
        vals = [read(x) for x in b.nf_suffixes(L)]
        ctx.check(len(vals) == len(want) and set(vals) == {(0, w) for w in want}, lambda: f'nf_suffixes({L}) of {b!r}: {len(vals)} offered, {len(want)} exist')
        w1 = set(R.normal_forms(kind, n, 1, f[-1] if f else None))
        d = [read(x) for x in b.nf_descendants()]
        ctx.check(len(d) == len(w1) and set(d) == {(p, f + w) for w in w1}, lambda: f'nf_descendants of {b!r} are {len(d)} braids, should be {len(w1)}')
        for (_, w) in vals[::max(1, len(vals) // 8)]:
            y = b * lift_seq(kind, n, w)
            ctx.check(read(y) == (p, f + w), lambda: f'{b!r} times suffix {w} is {read(y)}')
        ctx.step(len(vals))
        ctx.state((kind, n, p, f))
        ctx.trace()


def run_following(ctx, chunk):
    """The tables' own listing and counting after every simple element, the trivial and the Garside element included."""
    kind, n, L = chunk
    table = getattr(CLS[kind], '_nf_table', lambda n: None)(n)
    if not all(hasattr(table, a) for a in ('normal_forms', 'count_normal_forms', 'divs', 'id', 'D')):
        return
    for i, x in enumerate(table.divs):
        if i == table.D:
            want = set(R.normal_forms(kind, n, L))
        elif i == table.id:
            want = set() if L else {()}
        else:
            want = set(R.normal_forms(kind, n, L, factor_ref(n, x)))
        got = [tuple(factor_ref(n, table.divs[j]) for j in w) for w in table.normal_forms(L, following=i)]
        ctx.check(len(got) == len(want) and set(got) == want, lambda: f'{kind} n={n}: {len(got)} normal forms of length {L} follow {x}, should be {len(want)}')
        c = table.count_normal_forms(L, following=i)
        ctx.check(c == len(want), lambda: f'{kind} n={n}: {c} normal forms of length {L} counted after {x}, should be {len(want)}')
        ctx.state((kind, n, L, i))
        ctx.step(len(got))
    ctx.check(table.count_normal_forms(L) == table.count_normal_forms(L, table.D) == R.count_normal_forms(kind, n, L), f'{kind} n={n}: count of length {L}')
    ctx.trace()


def run_sample(ctx, chunk):
    kind, n, length = chunk
    cls = CLS[kind]
    want = set(R.normal_forms(kind, n, length))
    fns = [lambda rng: cls.sample(n, length, rng), lambda rng: cls.sample(n, length, rand=rng)]
    if kind == 'GNF':
        fns.append(lambda rng: BraidGroup(n).sample_braid_perm(length, rand=rng))
    for fn in fns:
        seen = set()
        total = 0
        for b, prob, script in explore(fn, grid=max(2, len(R.noncrossing(n)) if kind == 'DGNF' else 24)):
            v = read(b)
            ctx.check(type(b) is cls and b.n == n and v[0] == 0 and v[1] in want,
                      lambda: f'{kind}.sample({n}, {length}) with choices {script} returned {b!r}')
            seen.add(v[1])
            total += prob
            ctx.step()
            ctx.outcome((kind, n, length, script[:1]))
        ctx.check(seen == want, lambda: f'{kind}.sample({n}, {length}) can never return {next(iter(want - seen))}')
        ctx.check(total == 1, 'outcome probabilities do not add up')
    ctx.fresh_states(len(want))
    ctx.trace()
    ctx.sample({'kind': kind, 'n': n, 'length': length, 'outcomes': len(want)})


def run_sample_deep(ctx, chunk):
    """Long samples: every choice of one draw (the rest fixed) along a long path, including the system generator."""
    kind, n, length, fill = chunk
    cls = CLS[kind]

    class Fill(ScriptedRandom):
        def _pick(self, m):
            i = len(self.choices_made)
            c = self.script[i] if i < len(self.script) else fill % m
            self.choices_made.append(c)
            self.arity.append(m)
            return c

    r0 = Fill((), 24)
    v = read(cls.sample(n, length, r0))
    ctx.check(v[0] == 0 and len(v[1]) == length and R.is_normal_form(kind, n, v[1]), f'{kind}.sample({n},{length}) = {v}')
    for pos in range(0, len(r0.arity), max(1, len(r0.arity) // 8)):
        got = set()
        for alt in range(r0.arity[pos]):
            r = Fill(tuple(r0.choices_made[:pos]) + (alt,), 24)
            x = read(cls.sample(n, length, r))
            ctx.check(x[0] == 0 and len(x[1]) == length and R.is_normal_form(kind, n, x[1]), f'{kind}.sample({n},{length}) = {x}')
            if len(r0.arity) == length:
                pass
                got.add(x[1][pos])
            ctx.step()
            ctx.state((kind, n, length, x[1]))
    own = []
    for _ in range(6):
        x = read(cls.sample(n, length))
        ctx.check(x[0] == 0 and len(x[1]) == length and R.is_normal_form(kind, n, x[1]), f'{kind}.sample({n},{length}) = {x}')
        own.append(x[1])
    if R.count_normal_forms(kind, n, length) > 10 ** 9:
        # Six independent draws agree with probability below 10^-45.
        ctx.check(len(set(own)) > 1, f'{kind}.sample({n},{length}) with no generator given always returns the same braid')
    ctx.trace()


def families(tier):
    q = tier == 'quick'
    F = []
    P = [0, 1, -1, 2, -3]
    ch = []
    for kind, n, L, PP in [('GNF', 2, 3, P), ('GNF', 3, 9, P), ('GNF', 3, 12, [0, 1]), ('DGNF', 3, 12, [0, -1]), ('GNF', 4, 3, P), ('GNF', 4, 4 if q else 5, [0]), ('GNF', 5, 2, P), ('GNF', 6, 1, P),
                           ('DGNF', 2, 3, P), ('DGNF', 3, 9, P), ('DGNF', 4, 4, P), ('DGNF', 4, 5 if q else 6, [0]), ('DGNF', 5, 2, P),
                           ('DGNF', 5, 3 if q else 4, [0]), ('DGNF', 6, 2, P), ('DGNF', 7, 1, P)] + \
            ([('GNF', 5, 3, [0]), ('GNF', 6, 2, [0]), ('DGNF', 6, 3, [0]), ('DGNF', 7, 2, [0])] if not q else []):
        for l in range(10 if L == 12 else 0, L + 1):
            ch.append([kind, n, l, PP])
    F.append(Family('listing', ch, run_list, 'all_of_length against an independent enumeration, with counts'))
    F.append(Family('interleaved', [[k, n, l] for k, n, l in [('GNF', 3, 4), ('GNF', 4, 2), ('DGNF', 4, 3), ('DGNF', 5, 2)]], run_interleave,
                    'listings consumed concurrently'))
    ch = []
    for kind, n, L in [('GNF', 3, 3), ('DGNF', 3, 3), ('GNF', 4, 1), ('DGNF', 4, 2), ('GNF', 2, 1), ('DGNF', 5, 1)]:
        menu = listing_menu(kind, n, L) if n > 2 else [['all', kind, n, 0, p, []] for p in (0, 1)]
        ch += [[400 if q else 40000, [a, b]] for a, b in itertools.combinations_with_replacement(menu, 2) if len(listing(a)[1]) * len(listing(b)[1]) <= (300 if q else 2000)]
        small = [m for m in menu if len(listing(m)[1]) <= 4][:4]
        ch += [[700 if q else 40000, list(t)] for t in itertools.combinations_with_replacement(small, 3)]
    F.append(Family('schedules', ch, run_schedules, 'every interleaving of two or three lazy listings with few switches, some left unfinished'))
    F.append(Family('counting', [[k, n, 150 if n < 6 else 8 if q else 30] for k in CLS for n in range(2, 7)] + [['DGNF', 7, 12]], run_count,
                    'count_all_of_length against transfer matrices'))
    ch = []
    P = [0, 1, -1, 2, -2, 5]
    for kind, n, BL, ML, PP in [('GNF', 2, 0, 2, P), ('GNF', 3, 5, 4, P), ('GNF', 4, 2, 2, P), ('GNF', 4, 3, 1, [0, -1]), ('GNF', 4, 0, 3, P), ('GNF', 5, 1, 1, P), ('GNF', 5, 0, 2, [0, 1]),
                                ('GNF', 5, 1, 2, [1]), ('GNF', 6, 0, 1, P), ('GNF', 6, 1, 1, [1]), ('DGNF', 2, 0, 2, P), ('DGNF', 3, 5, 4, P), ('DGNF', 4, 2, 3, P), ('DGNF', 4, 3, 2, [0, 3]),
                                ('DGNF', 5, 2, 1, P), ('DGNF', 5, 1, 2, P), ('DGNF', 6, 1, 1, P), ('DGNF', 6, 0, 2, [0, 1])]:
        for l in range(0, BL + 1):
            ch += [[kind, n, l, ML, PP, lo, hi] for lo, hi in slices(R.count_normal_forms(kind, n, l), 20)]
    F.append(Family('suffixes', ch, run_suffix, 'suffixes and descendants of every short normal form of every small power'))
    ch = [[k, n, bl, L, p] for k, n, Ls in [('GNF', 3, (1, 2, 8)), ('DGNF', 3, (1, 2, 8)), ('GNF', 4, (1,)), ('DGNF', 4, (1, 3)), ('DGNF', 5, (1,))]
          for bl in (15, 16, 17, 31, 33, 63, 64, 65, 127, 129) for L in Ls for p in (0, -1, 64)] + \
         [[k, 3, bl, 1, 0] for k in CLS for bl in (255, 256, 257, 511, 513, 1024, 1025, 3000)] + \
         [[k, 3, bl, L, 0] for k in CLS for bl in (0, 1, 2) for L in ((10, 11) if q else (10, 11, 12, 13))]
    F.append(Family('long_suffixes', ch, run_long_suffix, 'suffixes and descendants of long braids; long suffixes'))
    ch = [[k, n, l] for k, n, L in [('GNF', 3, 6), ('GNF', 4, 3 if q else 4), ('GNF', 5, 1 if q else 2), ('GNF', 6, 1), ('DGNF', 3, 6), ('DGNF', 4, 3 if q else 5), ('DGNF', 5, 2 if q else 3), ('DGNF', 6, 1 if q else 2)]
          for l in range(0, L + 1)]
    F.append(Family('following', [[k, n, L] for k, n, M in [('GNF', 2, 3), ('GNF', 3, 5), ('GNF', 4, 2), ('GNF', 5, 1), ('DGNF', 2, 3), ('DGNF', 3, 5), ('DGNF', 4, 3), ('DGNF', 5, 2), ('DGNF', 6, 1)] for L in range(M + 1)],
                    run_following, 'listing and counting of the tables after every simple element'))
    F.append(Family('sampling', ch, run_sample, 'complete random-outcome tree of the sampler'))
    F.append(Family('sampling_long', [[k, n, L, fill] for k in CLS for n in (3, 4, 5, 6) for L in (12, 40, 65, 129) for fill in (0, 1, 5)] +
                    [[k, n, L, fill] for k in CLS for n, fill in ((3, 1), (4, 5)) for L in (257, 513, 1025, 3000)], run_sample_deep,
                    'long samples with every alternative of single draws'))
    return F


def prepare(tier):
    for n in range(2, 7):
        GNF.from_artin_word(n, [(0, 1)])
    for n in range(2, 8):
        DGNF.from_artin_word(n, [(0, 1)])
    for k in CLS:
        for n in range(2, 7):
            R.follows(k, n)

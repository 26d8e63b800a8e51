"""Reading implementation objects into reference notation (through the public interface only)."""
from peyl import DGNF, GNF, BraidGroup, NPar, Permutation

from . import ref_braid as R

CLS = {'GNF': GNF, 'DGNF': DGNF}


def kind_of(b):
    return 'GNF' if type(b) is GNF else 'DGNF' if type(b) is DGNF else type(b).__name__


def factor_ref(n, f):
    """A canonical factor (Permutation or NPar) in reference notation."""
    if isinstance(f, Permutation):
        return tuple(f.word)
    if isinstance(f, NPar):
        return R.norm_blocks(n, f.components())
    raise TypeError(f'not a factor: {f!r}')


def factor_impl(kind, n, ref):
    return Permutation(tuple(ref)) if kind == 'GNF' else NPar.from_components(n, [list(b) for b in ref])


def lift(kind, n, ref):
    """The braid of one simple element."""
    return GNF.from_perm(factor_impl(kind, n, ref)) if kind == 'GNF' else DGNF.from_npar(factor_impl(kind, n, ref))


def lift_seq(kind, n, refs):
    fs = [factor_impl(kind, n, r) for r in refs]
    return GNF.from_perm_seq(n, fs) if kind == 'GNF' else DGNF.from_npar_seq(n, fs)


def simples(kind, n):
    """All simple elements in reference notation."""
    return R.perms(n) if kind == 'GNF' else list(R.noncrossing(n))


_F = {}


def read(b):
    """(power, factors in reference notation)."""
    n = b.n
    power, factors = b.canonical_decomposition()
    out = []
    for f in factors:
        r = _F.get((n, f))
        if r is None:
            r = _F[n, f] = factor_ref(n, f)
        out.append(r)
    return power, tuple(out)


def word_of(b):
    power, factors = read(b)
    return R.nf_word(kind_of(b), b.n, power, factors)


class NFJudge:
    """Checks that implementation results are the unique normal form of the braid they should denote."""

    def __init__(self, ctx, kind, n):
        self.ctx, self.kind, self.n = ctx, kind, n
        self.good = {}          # key -> (read value, object)
        self.start = R.start(n)
        self.gw = {}

    def denote(self, val):
        power, factors = val
        gw = self.gw.get(power)
        if gw is None:
            gw = self.gw[power] = R.run(self.start, R.pow_word(R.garside_word(self.kind, self.n), power))
        x = gw
        for f in factors:
            x = R.run(x, R.factor_word(self.kind, f))
        return x

    def judge(self, b, key, what):
        """b must be the normal form of the braid with the given key."""
        ctx = self.ctx
        if type(b).__name__ != self.kind or b.n != self.n:
            ctx.fail(f'{what}: result {b!r} is not a {self.kind} on {self.n} strands')
        val = read(b)
        known = self.good.get(key)
        if known is not None:
            if val != known[0]:
                ctx.fail(f'{what}: got {self.kind}{val}, but this braid is {self.kind}{known[0]}')
            if not (b == known[1]) or (b != known[1]) or hash(b) != hash(known[1]):
                ctx.fail(f'{what}: equal braids {b!r} and {known[1]!r} compare unequal or hash differently')
        else:
            if not R.is_normal_form(self.kind, self.n, val[1]):
                ctx.fail(f'{what}: result {self.kind}{val} is not in normal form')
            if self.denote(val) != key:
                ctx.fail(f'{what}: result {self.kind}{val} is a different braid')
            if not (b.inf() == val[0] and b.canonical_length() == len(val[1]) and b.sup() == val[0] + len(val[1])):
                ctx.fail(f'{what}: inf/sup/canonical_length of {self.kind}{val} are {b.inf()}, {b.sup()}, {b.canonical_length()}')
            self.good[key] = (val, b)
            ctx.state((self.kind, self.n, key))
        ctx.transitions += 1

"""A random.Random whose every outcome is chosen by the explorer, with exact probabilities."""
import math
import random
from fractions import Fraction


class TooManyBranches(Exception):
    pass


class Uniform:
    """random() under exploration: a number in [0, 1) of which only as much is decided as the program asks.
    Comparing it (or a multiple of it) with a number branches on the two answers with their exact probabilities;
    rounding a multiple of it down branches on the equally likely integers."""

    def __init__(self, rng, base=None, scale=Fraction(1), shift=Fraction(0)):
        self.rng, self.base, self.scale, self.shift = rng, base or [Fraction(0), Fraction(1)], scale, shift

    @staticmethod
    def _exact(t):
        return t if isinstance(t, (int, Fraction)) else Fraction(float(t)).limit_denominator(10 ** 6)

    def _below(self, t):
        """Whether this number is less than t (the boundary itself has probability nought)."""
        t = (self._exact(t) - self.shift) / self.scale
        flip = self.scale < 0
        lo, hi = self.base
        if t <= lo or t >= hi:
            below = t >= hi
        else:
            q = (t - lo) / (hi - lo)
            below = self.rng._pick(2, (q, 1 - q)) == 0
            self.base[1 if below else 0] = t
        return below != flip

    __lt__ = __le__ = _below

    def __gt__(self, t):
        return not self._below(t)

    __ge__ = __gt__

    def _map(self, a, b):
        return Uniform(self.rng, self.base, self.scale * a, self.shift * a + b)

    def __mul__(self, a):
        return self._map(self._exact(a), 0) if self._exact(a) != 0 else 0.0

    __rmul__ = __mul__

    def __truediv__(self, a):
        return self._map(1 / Fraction(self._exact(a)), 0)

    def __add__(self, b):
        return self._map(1, self._exact(b))

    __radd__ = __add__

    def __sub__(self, b):
        return self._map(1, -self._exact(b))

    def __neg__(self):
        return self._map(-1, 0)

    def __rsub__(self, b):
        return self._map(-1, self._exact(b))

    def __floor__(self):
        ends = sorted(self.scale * x + self.shift for x in self.base)
        lo, hi = math.floor(ends[0]), math.ceil(ends[1])
        for k in range(lo, hi - 1):
            if self._below(k + 1):
                return k
        return hi - 1

    __int__ = __trunc__ = __floor__      # only multiples that cannot be negative are met

    def __float__(self):
        grid = self.rng.grid
        lo, hi = self.base
        return float(self.scale * (lo + (hi - lo) * Fraction(2 * self.rng._pick(grid) + 1, 2 * grid)) + self.shift)


class ScriptedRandom(random.Random):
    """Every draw is a choice point.  random() takes the values (k + 1/2) / grid, equally likely: exact for
    code that compares random() with multiples of 1/grid, whichever way ties go."""

    def __new__(cls, *a, **k):
        return super().__new__(cls, 0)

    def __init__(self, script=(), grid=1, max_bits=12):
        super().__init__(0)
        self.script, self.grid, self.max_bits = tuple(script), grid, max_bits
        self.choices_made, self.arity = [], []
        self.lazy, self.prob = False, Fraction(1)

    def _pick(self, n, probs=None):
        i = len(self.choices_made)
        c = self.script[i] if i < len(self.script) else 0
        if not 0 <= c < n:
            raise RuntimeError(f'scripted choice {c} out of range {n}: execution is not deterministic under replay')
        self.choices_made.append(c)
        self.arity.append(n)
        self.prob *= probs[c] if probs else Fraction(1, n)
        return c

    def _randbelow(self, n):
        if n <= 0:
            raise ValueError('empty range')
        return self._pick(n)

    def random(self):
        if self.lazy:
            return Uniform(self)
        return (self._pick(self.grid) + 0.5) / self.grid

    def getrandbits(self, k):
        if k > self.max_bits:
            raise TooManyBranches(f'getrandbits({k})')
        return self._pick(1 << k)

    def seed(self, *a, **k):
        pass

    def getstate(self):
        return (tuple(self.choices_made),)

    def setstate(self, s):
        raise RuntimeError('setstate on a scripted generator')


def explore(fn, grid=1, limit=2_000_000):
    """Run fn(rng) over the complete outcome tree.  Yields (result, probability, script)."""
    stack = [()]
    done = 0
    while stack:
        script = stack.pop()
        rng = ScriptedRandom(script, grid)
        result = fn(rng)
        ch, ar, prob = rng.choices_made, rng.arity, rng.prob
        done += 1
        if done > limit:
            raise TooManyBranches(f'more than {limit} outcomes')
        yield result, prob, tuple(ch)
        for i in range(len(ch) - 1, len(script) - 1, -1):
            for alt in range(ar[i] - 1, 0, -1):
                stack.append(tuple(ch[:i]) + (alt,))


class Chooser(ScriptedRandom):
    """A ScriptedRandom that can be reloaded between operations and is shared by copies of its owner.
    Draws beyond the script take the default: the first or the last alternative."""

    def __init__(self, grid=1):
        super().__init__((), grid)
        self.default = 'first'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def load(self, script=(), grid=None, default=None):
        self.script = tuple(script)
        self.choices_made, self.arity, self.prob = [], [], Fraction(1)
        if grid is not None:
            self.grid = grid
        if default is not None:
            self.default = default

    def _pick(self, n, probs=None):
        i = len(self.choices_made)
        if i < len(self.script):
            c = self.script[i]
            if not 0 <= c < n:
                raise RuntimeError(f'scripted choice {c} out of range {n}: execution is not deterministic under replay')
        else:
            c = 0 if self.default == 'first' else n - 1
        self.choices_made.append(c)
        self.arity.append(n)
        self.prob *= probs[c] if probs else Fraction(1, n)
        return c


def outcomes(chooser, fn, grid=1, limit=200_000):
    """All outcomes of fn() (which draws from the chooser): (result, probability, script)."""
    stack, done = [()], 0
    while stack:
        script = stack.pop()
        chooser.load(script, grid, 'first')
        result = fn()
        ch, ar, prob = list(chooser.choices_made), list(chooser.arity), chooser.prob
        done += 1
        if done > limit:
            raise TooManyBranches(f'more than {limit} outcomes')
        yield result, prob, tuple(ch)
        for i in range(len(ch) - 1, len(script) - 1, -1):
            for alt in range(ar[i] - 1, 0, -1):
                stack.append(tuple(ch[:i]) + (alt,))


def deviations(chooser, fn, default, budget, grid=1):
    """Outcomes in which at most `budget` draws differ from the default: (result, deviations used, script)."""
    stack = [((), 0)]
    while stack:
        script, used = stack.pop()
        chooser.load(script, grid, default)
        result = fn()
        ch, ar = list(chooser.choices_made), list(chooser.arity)
        yield result, used, tuple(ch)
        if used < budget:
            for i in range(len(ch) - 1, len(script) - 1, -1):
                for alt in range(ar[i]):
                    if alt != ch[i]:
                        stack.append((tuple(ch[:i]) + (alt,), used + 1))

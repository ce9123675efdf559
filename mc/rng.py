"""A random generator under the control of an explorer.

Every random decision of the code under test becomes a branching point with known probabilities.
``distribution(f)`` runs f once for every path through the resulting tree (depth first, by
replaying the decisions of a prefix) and returns the exact distribution of its results.
"""

import itertools

import numpy as np


class Uncontrolled(BaseException):
    """The code uses the generator in a way the explorer cannot branch on."""


class TooLarge(BaseException):
    pass


class Source:
    """The decisions of one path."""

    def __init__(self):
        self.prefix = []
        self.trace = []

    def choose(self, probs):
        """Index of the alternative taken on this path."""
        live = [i for i, p in enumerate(probs) if p > 1e-15]
        if len(live) == 1:
            return live[0]
        if not live:
            raise Uncontrolled("no alternative")
        pos = len(self.trace)
        take = self.prefix[pos] if pos < len(self.prefix) else 0
        i = live[take]
        self.trace.append((take, len(live), probs[i]))
        return i


def distribution(f, limit=200000):
    """{result of f(source): probability} over all paths, and the number of paths."""
    res, paths, prefix = {}, 0, []
    while True:
        src = Source()
        src.prefix = prefix
        out = f(src)
        paths += 1
        if paths > limit:
            raise TooLarge()
        prob = 1.0
        for _, _, p in src.trace:
            prob *= p
        res[out] = res.get(out, 0.0) + prob
        trace = src.trace
        while trace and trace[-1][0] + 1 == trace[-1][1]:
            trace.pop()
        if not trace:
            return res, paths
        prefix = [t for t, _, _ in trace]
        prefix[-1] += 1


class Uniform:
    """The position of one uniform draw: only known to lie in [lo, hi)."""

    def __init__(self, src):
        self.src, self.lo, self.hi = src, 0.0, 1.0

    def below(self, t):
        if t >= self.hi:
            return True
        if t <= self.lo:
            return False
        p = (t - self.lo) / (self.hi - self.lo)
        if self.src.choose((p, 1 - p)) == 0:
            self.hi = t
            return True
        self.lo = t
        return False


class Draw:
    """a + b * U; comparisons branch."""

    __array_priority__ = 100

    def __init__(self, u, a=0.0, b=1.0):
        self.u, self.a, self.b = u, a, b

    def _below(self, x):
        t = (float(x) - self.a) / self.b
        return self.u.below(t) if self.b > 0 else not self.u.below(t)

    def __lt__(self, x):
        return self._below(x)

    __le__ = __lt__

    def __gt__(self, x):
        return not self._below(x)

    __ge__ = __gt__

    def __mul__(self, x):
        if float(x) == 0:
            return 0.0
        return Draw(self.u, self.a * float(x), self.b * float(x))

    __rmul__ = __mul__

    def __truediv__(self, x):
        return self * (1 / float(x))

    def __add__(self, x):
        return Draw(self.u, self.a + float(x), self.b)

    __radd__ = __add__

    def __sub__(self, x):
        return self + (-float(x))

    def __neg__(self):
        return self * -1

    def __rsub__(self, x):
        return -self + x

    def __int__(self):
        """Truncation of a non-negative draw: branch over the integers in the range."""
        lo, hi = sorted((self.a, self.a + self.b))
        if lo < 0 or hi - lo > 1000:
            raise Uncontrolled("int")
        k = int(lo)
        while k + 1 < hi and not self._below(k + 1):
            k += 1
        return k

    __floor__ = __trunc__ = __int__

    def __float__(self):
        raise Uncontrolled("float")

    def __hash__(self):
        raise Uncontrolled("hash")

    def __eq__(self, x):
        return self is x

    def __ne__(self, x):
        return self is not x


class Rng:
    """Stand-in for numpy.random.Generator."""

    def __init__(self, src):
        self.src = src

    def _many(self, size, one):
        if size is None:
            return one()
        shape = (size,) if np.isscalar(size) else tuple(size)
        arr = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            arr[i] = one()
        return arr

    def _ints(self, size, one):
        res = self._many(size, one)
        return np.int64(res) if size is None else res.astype(np.int64)

    def random(self, size=None, dtype=None, out=None):
        return self._many(size, lambda: Draw(Uniform(self.src)))

    def uniform(self, low=0.0, high=1.0, size=None):
        if np.ndim(low) or np.ndim(high):
            raise Uncontrolled("uniform")
        if high == low:
            return self._many(size, lambda: low)
        return self._many(size, lambda: Draw(Uniform(self.src), low, high - low))

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        if high is None:
            low, high = 0, low
        n = int(high) - int(low) + (1 if endpoint else 0)
        if n <= 0:
            raise ValueError("low >= high")
        if n > 5000:
            raise Uncontrolled("integers")
        return self._ints(size, lambda: int(low) + self.src.choose([1 / n] * n))

    def binomial(self, n, p, size=None):
        if np.ndim(n) or np.ndim(p):
            raise Uncontrolled("binomial")
        return self._ints(size, lambda: sum(self.src.choose((1 - p, p)) for _ in range(int(n))))

    def permutation(self, x, axis=0):
        arr = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        return arr[self._order(len(arr), len(arr))]

    def permuted(self, x, axis=None, out=None):
        if np.ndim(x) != 1 or out is not None:
            raise Uncontrolled("permuted")
        return self.permutation(x)

    def shuffle(self, x, axis=0):
        x[:] = [x[i] for i in self._order(len(x), len(x))]

    def _order(self, n, k):
        left, order = list(range(n)), []
        for _ in range(k):
            order.append(left.pop(self.src.choose([1 / len(left)] * len(left))))
        return order

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        n = int(a) if isinstance(a, (int, np.integer)) else len(a)
        items = np.arange(n) if isinstance(a, (int, np.integer)) else np.array(a)
        if n == 0 and size != 0:
            raise ValueError("a cannot be empty unless no samples are taken")
        if p is not None:
            p = [float(x) for x in p]
            if len(p) != n:
                raise ValueError("'a' and 'p' must have same size")
            if any(x < 0 for x in p) or abs(sum(p) - 1) > 1e-8:
                raise ValueError("probabilities do not sum to 1")
        if size is None:
            return items[self.src.choose(p or [1 / n] * n)]
        shape = (int(size),) if np.isscalar(size) else tuple(size)
        total = int(np.prod(shape))
        if replace:
            idx = [self.src.choose(p or [1 / n] * n) for _ in range(total)]
        else:
            if total > n:
                raise ValueError("Cannot take a larger sample than population")
            if p is None:
                idx = self._order(n, total)
            else:
                idx, left = [], dict(enumerate(p))
                for _ in range(total):
                    s = sum(left.values())
                    if s <= 0:
                        raise ValueError("Fewer non-zero entries in p than size")
                    keys = list(left)
                    i = keys[self.src.choose([left[k] / s for k in keys])]
                    idx.append(i)
                    del left[i]
        return items[np.array(idx, dtype=int)].reshape(shape + items.shape[1:])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Uncontrolled(name)


class patched:
    """While active, every generator the code creates is (a view of) the given one."""

    def __init__(self, generate, rng):
        self.generate, self.rng = generate, rng

    def __enter__(self):
        self.saved = (np.random.default_rng, self.generate.rng, self.generate.default_rng if hasattr(self.generate, "default_rng") else None)
        np.random.default_rng = lambda seed=None: self.rng
        if hasattr(self.generate, "default_rng"):
            self.generate.default_rng = lambda seed=None: self.rng
        self.generate.rng = self.rng

    def __exit__(self, *a):
        np.random.default_rng, self.generate.rng = self.saved[:2]
        if self.saved[2] is not None:
            self.generate.default_rng = self.saved[2]


class Prune(BaseException):
    """The path is cut (too many rejected draws)."""


def outcomes(f, limit=200000):
    """All results of f(source) over all paths, cut paths excepted, and the number of paths."""

    def guarded(src):
        try:
            return (f(src),)
        except Prune:
            return ()

    res, paths = distribution(guarded, limit)
    return {x[0] for x in res if x}, paths


class Grid(Rng):
    """Continuous draws take their values from small grids."""

    UNIFORM = (0.0, 0.25, 0.5, 0.75, 1 - 2**-53)
    NORMAL = (-2.0, -0.5, 0.5, 2.0)
    MAX_NORMAL = 4

    def __init__(self, src):
        super().__init__(src)
        self.normals = 0

    def _grid(self, values):
        return values[self.src.choose([1 / len(values)] * len(values))]

    def _floats(self, size, one):
        res = self._many(size, one)
        return res if size is None else res.astype(float)

    def random(self, size=None, dtype=None, out=None):
        return self._floats(size, lambda: self._grid(self.UNIFORM))

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        return low + (np.asarray(high) - low) * self.random(size)

    def standard_normal(self, size=None, dtype=None, out=None):
        n = 1 if size is None else int(np.prod(size))
        self.normals += n
        if self.normals > self.MAX_NORMAL:
            raise Prune()
        return self._floats(size, lambda: self._grid(self.NORMAL))

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + np.asarray(scale) * self.standard_normal(size)

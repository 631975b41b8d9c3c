"""A source of random numbers the checker owns: every draw the code makes from
numpy's global generator becomes a choice, and ``explore`` walks through all
the choices (depth first, the number of draws is discovered on the way)."""
import contextlib
import math

import numpy as np


class TooManyDraws(BaseException):
    """An execution asked for more draws than it was given."""


class Draws:
    """Uniform numbers from a list of positions in [0, 1), then from a
    fall-back which takes over when the list is exhausted."""

    def __init__(self):
        self.seq = ()
        self.pos = 0
        self.fallback = None

    def set(self, seq, fallback=None):
        self.seq = seq
        self.pos = 0
        self.fallback = fallback

    def u(self):
        k = self.pos
        self.pos += 1
        if k < len(self.seq):
            return self.seq[k]
        if self.fallback is not None:
            return self.fallback(k - len(self.seq))
        raise TooManyDraws(k)

    # numpy.random ---------------------------------------------------------
    def many(self, size, f):
        if size is None:
            return f()
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        n = 1
        for s in shape:
            n *= int(s)
        return np.array([f() for _ in range(n)]).reshape(shape)

    def random(self, size=None):
        return self.many(size, self.u)

    def rand(self, *shape):
        return self.many(shape or None, self.u)

    def uniform(self, low=0.0, high=1.0, size=None):
        if np.ndim(low) or np.ndim(high):
            low, high = np.broadcast_arrays(low, high)
            return low + (high - low) * self.many(low.shape, self.u)
        return self.many(size, lambda: low + (high - low) * self.u())

    def exponential(self, scale=1.0, size=None):
        return self.many(size, lambda: -scale * math.log1p(-self.u()))

    def standard_exponential(self, size=None):
        return self.exponential(1.0, size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self.many(size, lambda: int(low + math.floor(
            self.u() * (high - low))))

    def permuted(self, n):
        """Fisher-Yates; one draw per element but the last."""
        order = list(range(n))
        for i in range(n - 1, 0, -1):
            j = int(self.u() * (i + 1))
            order[i], order[j] = order[j], order[i]
        return order

    def shuffle(self, x):
        order = self.permuted(len(x))
        if isinstance(x, np.ndarray):
            x[:] = x[order]
        else:
            x[:] = [x[k] for k in order]

    def permutation(self, x):
        x = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        return x[self.permuted(len(x))]

    def choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if not replace and size is not None:
            n = int(size)
            return a[self.permuted(len(a))[:n]]
        if p is None:
            return self.many(size, lambda: a[int(self.u() * len(a))])
        cum = np.cumsum(p)
        return self.many(size, lambda: a[min(
            int(np.searchsorted(cum, self.u(), 'right')), len(a) - 1)])


NAMES = {'random': 'random', 'random_sample': 'random', 'ranf': 'random',
         'sample': 'random', 'rand': 'rand', 'uniform': 'uniform',
         'exponential': 'exponential',
         'standard_exponential': 'standard_exponential',
         'randint': 'randint', 'shuffle': 'shuffle',
         'permutation': 'permutation', 'choice': 'choice'}


@contextlib.contextmanager
def owned():
    d = Draws()
    old = {n: getattr(np.random, n) for n in NAMES}
    try:
        for n, m in NAMES.items():
            setattr(np.random, n, getattr(d, m))
        yield d
    finally:
        for n, f in old.items():
            setattr(np.random, n, f)


def explore(d, alphabet, run, depth, cut=None):
    """Runs ``run()`` under every sequence of at most ``depth`` draws from
    ``alphabet`` (a list, or a function of the number of the draw).  Yields
    (sequence of indices, result); the result is ``cut`` where an execution
    wanted more draws."""
    letters = alphabet if callable(alphabet) else (lambda k: alphabet)
    stack = []

    def nxt(k):
        if len(stack) >= depth:
            raise TooManyDraws(k)
        stack.append(0)
        return letters(len(stack) - 1)[0]

    while True:
        d.set([letters(k)[i] for k, i in enumerate(stack)], nxt)
        try:
            result = run()
        except TooManyDraws:
            result = cut
        yield tuple(stack[:d.pos]), result
        del stack[d.pos:]
        while stack and stack[-1] + 1 >= len(letters(len(stack) - 1)):
            stack.pop()
        if not stack:
            return
        stack[-1] += 1

"""A random generator whose answers are decided by the explorer.

OwnedRandomState is accepted by sklearn's check_random_state; every random answer is a
numbered choice taken from a script.  `explore` enumerates every script depth first, so the
code under test is run once for every answer its generator can give.  Draws with more than
LIMIT answers fall back to the rotations and reversed rotations (reported as `truncated`).
"""
import itertools
import math

import numpy as np

LIMIT = 130


class OwnedRandomState(np.random.RandomState):
    def __init__(self, script=()):
        super().__init__(0)
        self.script = list(script)
        self.arity = []
        self.truncated = False

    def __reduce__(self):
        return (OwnedRandomState, (self.script,))

    def __deepcopy__(self, memo):
        return self

    def _choose(self, n):
        i = len(self.arity)
        self.arity.append(n)
        k = self.script[i] if i < len(self.script) else 0
        if i >= len(self.script):
            self.script.append(0)
        return min(k, n - 1)

    def _arrangement(self, n, k):
        """indices of one ordered selection of k out of n."""
        total = math.perm(n, k)
        if total <= LIMIT:
            return list(nth_arrangement(n, k, self._choose(total)))
        self.truncated = True
        c = self._choose(2 * n)
        idx = list(range(n)) if c < n else list(range(n))[::-1]
        c %= n
        return (idx[c:] + idx[:c])[:k]

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            return np.array(self._arrangement(int(x), int(x)), dtype=np.int64)
        a = np.asarray(x)
        return a[np.array(self._arrangement(len(a), len(a)), dtype=np.int64)]

    def shuffle(self, x):
        p = self._arrangement(len(x), len(x))
        if isinstance(x, np.ndarray):
            x[...] = x[np.array(p, dtype=np.int64)].copy()
        else:
            y = [x[i] for i in p]
            for i, v in enumerate(y):
                x[i] = v

    def choice(self, a, size=None, replace=True, p=None):
        arr = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if p is not None or replace and size is not None and np.prod(size) > 4:
            return super().choice(a, size=size, replace=replace, p=p)
        if size is None:
            return arr[self._choose(len(arr))]
        m = int(np.prod(size))
        if replace:
            return np.array([arr[self._choose(len(arr))] for _ in range(m)]).reshape(size)
        if m > len(arr):
            raise ValueError("Cannot take a larger sample than population when replace is False")
        return arr[np.array(self._arrangement(len(arr), m), dtype=np.int64)].reshape(size)


def nth_arrangement(n, k, c):
    pool = list(range(n))
    out = []
    for i in range(k):
        f = math.perm(n - i - 1, k - i - 1)
        out.append(pool.pop(c // f))
        c %= f
    return out


def explore(run, max_runs=200000):
    """Call run(rng) for every script; yields what it returns. Depth-first, complete."""
    script = []
    for _ in range(max_runs):
        rng = OwnedRandomState(script)
        yield run(rng), rng
        s, a = rng.script[:len(rng.arity)], rng.arity
        i = len(a) - 1
        while i >= 0 and s[i] + 1 >= a[i]:
            i -= 1
        if i < 0:
            return
        script = s[:i] + [s[i] + 1]
    raise RuntimeError("exploration bound exceeded")


assert sorted(tuple(nth_arrangement(4, 2, c)) for c in range(12)) == sorted(itertools.permutations(range(4), 2))

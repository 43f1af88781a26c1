"""Cases which differ from one another in a single drawn value.

What a program keeps between two calls is often keyed by too little.  Unrelated
cases hardly ever meet such a stale value, since everything about them differs;
a case run again with one value changed does."""

import numpy as np


class Draws(np.random.RandomState):
    """A stream of random values, the ``vary``-th of which is replaced."""

    def __init__(self, seed, vary=None):
        super().__init__(seed)
        self.count = 0
        self.vary = vary
        self.other = np.random.RandomState((seed ^ 0x5A5A5A5A) % 2**32)

    def _hit(self):
        self.count += 1
        return self.count - 1 == self.vary

    def randint(self, low, high=None, size=None, dtype=int):
        hit = self._hit()
        x = super().randint(low, high, size, dtype)
        if hit:
            for _ in range(20):
                y = self.other.randint(low, high, size, dtype)
                if not np.array_equal(x, y):
                    return y
        return x

    def uniform(self, low=0.0, high=1.0, size=None):
        hit = self._hit()
        x = super().uniform(low, high, size)
        if hit:
            if self.other.randint(2):
                return self.other.uniform(low, high, size)
            return low + (x - low) * 0.999
        return x

    def standard_normal(self, size=None):
        hit = self._hit()
        x = super().standard_normal(size)
        return self.other.standard_normal(size) if hit else x

    def permutation(self, x):
        hit = self._hit()
        y = super().permutation(x)
        return self.other.permutation(x) if hit else y

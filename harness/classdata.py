"""Labelled rows with numeric and nominal attributes, drifting, for the tree and naive Bayes checks."""
import numpy as np


class Source:
    def __init__(self, seed, kinds, k, noise=0.1, scale=1.0, gap=1):
        self.r = np.random.RandomState(seed)
        self.kinds, self.k, self.noise, self.scale, self.gap = kinds, k, noise, scale, gap
        self.mode = 0

    def rows(self, n, novel=False):
        X = np.zeros((n, len(self.kinds)))
        y = np.zeros(n, dtype=int)
        for j in range(n):
            for a, kind in enumerate(self.kinds):
                if kind:
                    X[j, a] = self.r.randint(kind + (3 if novel and self.r.rand() < 0.1 else 0))
                else:
                    X[j, a] = np.round(self.r.rand() * self.scale, 5)
            z = 0.0
            for a, kind in enumerate(self.kinds):
                u = X[j, a] / kind if kind else X[j, a] / self.scale
                z += u * [1.0, 0.45, 0.2, 0.1][(a + self.mode) % 4]
            c = int(z * self.k * 0.9) % self.k
            if self.r.rand() < self.noise:
                c = int(self.r.randint(self.k))
            y[j] = c * self.gap
            # attributes of a class cluster a little, so that densities differ
            for a, kind in enumerate(self.kinds):
                if not kind and (a + self.mode) % 3 == 0:
                    X[j, a] = np.round(X[j, a] * 0.5 + self.scale * 0.3 * c, 5)
        return X, y

    def weights(self, n, style):
        if style == "ones":
            return None
        if style == "ints":
            return self.r.randint(0, 4, n).astype(float)
        return np.array([0.0, 0.5, 1.0, 1.0, 2.5, 3.0])[self.r.randint(0, 6, n)]


def coded(X, kinds):
    """rows for the specification: nominal values as integers, numbers as doubles"""
    return [[int(v) if kinds[a] else repr(float(v)) for a, v in enumerate(x)] for x in X]

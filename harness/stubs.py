"""Member learners whose behaviour is known to the specification (spec/Probe.tla): a probe knows only how many
rows (and how much weight) it was trained with.  Row r is coded as [code, ...]."""
import numpy as np


class Probe:
    """predicts (code + seen // slow) mod k, and its age for code -1"""
    _estimator_type = "classifier"

    def __init__(self, k=3, slow=4):
        self.k, self.slow = k, slow
        self.reset()

    def reset(self):
        self.seen = 0
        return self

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        self.seen += len(X) if sample_weight is None else int(np.sum(sample_weight))
        return self

    def _label(self, x):
        if x[0] == -1:
            return self.seen
        return (int(x[0]) + self.seen // self.slow) % self.k

    def predict(self, X):
        return np.array([self._label(x) for x in X], dtype=int)

    def predict_proba(self, X):
        out = np.zeros((len(X), self.k))
        for j, x in enumerate(X):
            out[j, self._label(x)] = 1.0
        return out

    def get_params(self, deep=True):
        return {"k": self.k, "slow": self.slow}

    def get_info(self):
        return "Probe(k=%d, slow=%d)" % (self.k, self.slow)

M = "src/skmultiflow/meta/"
L = "src/skmultiflow/lazy/"
COUNT = '''
import numpy as np
class E:
    """counts what it is taught"""
    log = None
    def __init__(self): self.n = 0
    def partial_fit(self, X, y, classes=None, sample_weight=None):
        self.n += len(X)
        return self
    def predict(self, X): return np.zeros(len(X), dtype=int)
    def predict_proba(self, X): return np.array([[1.0, 0.0]] * len(X))
    def reset(self): return self
'''
PLANTS = [
 dict(id="c24-uob-share", prop="C24",
  needs="fewer members asked for than there are classes",
  breaks="the members' shares are taken of n_estimators instead of the real number of members, so rows are drawn too often",
  edits=[(M+"online_under_over_bagging.py", "                a = (i + 1) / self.actual_n_estimators\n", "                a = (i + 1) / self.n_estimators\n")],
  demo=COUNT + '''
from skmultiflow.meta import OnlineUnderOverBaggingClassifier as U
m = U(base_estimator=E(), n_estimators=1, sampling_rate=2, drift_detection=False, random_state=3)
m.partial_fit(np.zeros((4000, 1)), np.zeros(4000, dtype=int), classes=[0, 1])
n = [e.n for e in m.ensemble]
assert len(n) == 2 and abs(n[0] - 2000) < 300 and abs(n[1] - 4000) < 400, n
'''),
 dict(id="c24-lev-fresh-delta", prop="C24",
  needs="a delta other than the default and two replacements of the same member",
  breaks="the detector of a replaced member has the default delta",
  edits=[(M+"leverage_bagging.py", "                self.adwin_ensemble[i_max] = ADWIN(self.delta)\n", "                self.adwin_ensemble[i_max] = ADWIN()\n")],
  demo='''
import numpy as np
from skmultiflow.meta import LeveragingBaggingClassifier as B
resets = []
now = [0]
class E:
    """always says 0"""
    def partial_fit(self, X, y, classes=None, sample_weight=None): return self
    def predict(self, X): return np.zeros(len(X), dtype=int)
    def predict_proba(self, X): return np.array([[1.0, 0.0]] * len(X))
    def reset(self):
        resets.append(now[0])
        return self
m = B(base_estimator=E(), n_estimators=1, delta=0.4, random_state=1)
del resets[:]
r = np.random.RandomState(2)
for t in range(1600):
    now[0] = t
    p = 0.3 if (t // 200) % 2 == 0 else 0.75
    m.partial_fit(np.zeros((1, 1)), np.array([int(r.rand() < p)]), classes=[0, 1])
from skmultiflow.drift_detection import ADWIN
r = np.random.RandomState(2)
a, want = ADWIN(0.4), []
for t in range(1600):
    p = 0.3 if (t // 200) % 2 == 0 else 0.75
    old = a.estimation
    a.add_element(int(r.rand() < p) if True else 0)
    if a.detected_change() and a.estimation > old:
        want.append(t)
        a = ADWIN(0.4)
# the ensemble draws from its own generator, so the rows above are the same
assert len(want) > 1 and resets == want, (resets, want)
'''),
 dict(id="c25-awe-forgotten", prop="C25",
  needs="a member that was worthless on one chunk and is right again on a later one",
  breaks="members that were worth nothing once are not weighed again",
  edits=[(M+"accuracy_weighted_ensemble.py", "                for model in self.models_pool:\n                    model.weight = self.compute_weight(\n                        model=model, baseline_score=baseline_score, n_splits=None)\n",
          "                for model in self.models_pool:\n                    if model.weight <= 0.0:\n                        continue\n                    model.weight = self.compute_weight(\n                        model=model, baseline_score=baseline_score, n_splits=None)\n")],
  demo='''
import numpy as np
from sklearn.tree import DecisionTreeClassifier
from skmultiflow.meta import AccuracyWeightedEnsembleClassifier as A
r = np.random.RandomState(1)
m = A(n_estimators=1, n_kept_estimators=5, base_estimator=DecisionTreeClassifier(random_state=1), window_size=40, n_splits=2)
X = r.rand(40, 2)
a, b = (X[:, 0] > 0.5).astype(int), (X[:, 0] <= 0.5).astype(int)
m.partial_fit(X, a, classes=[0, 1])
m.partial_fit(X, b, classes=[0, 1])
# the first concept again, with so much noise that a new member is worth less than the first one
c = a.copy()
c[:6] = 1 - c[:6]
m.partial_fit(X, c, classes=[0, 1])
first = [w for w in m.models_pool if w.estimator.predict(X[6:20]).tolist() == a[6:20].tolist()]
assert (m.predict(X) == a).mean() > 0.99, (m.predict(X) == a).mean()
'''),
 dict(id="c25-lpp-weights", prop="C25",
  needs="more than n_ensembles windows",
  breaks="the weights of the newest instead of the oldest sub-ensemble are given up",
  edits=[(M+"learn_pp.py", "            self.ensemble_weights.pop(0)\n", "            self.ensemble_weights.pop()\n")],
  demo='''
import numpy as np
from sklearn.tree import DecisionTreeClassifier
from skmultiflow.meta import LearnPPClassifier as P
r = np.random.RandomState(1)
class T(DecisionTreeClassifier):
    pass
m = P(T(random_state=1, max_depth=1), n_estimators=3, n_ensembles=1, window_size=30, random_state=2)
X = r.rand(30, 2)
y = (X[:, 0] > 0.5).astype(int)
m.partial_fit(X, np.where(r.rand(30) < 0.25, 1 - y, y), classes=[0, 1])
m.partial_fit(X, y)                      # all right at once
votes = m.predict_proba(X)
assert (np.argmax(votes, axis=1) == y).all() and votes.max() > 50, votes[:3]
'''),
 dict(id="c18-knnadwin-reset", prop="C18",
  needs="errors before the reset and a drift soon after it",
  breaks="resetting KNNADWIN keeps the errors its detector saw",
  edits=[(L+"knn_adwin.py", "        self.adwin = ADWIN()\n        return super().reset()\n", "        return super().reset()\n")],
  demo='''
import numpy as np
from skmultiflow.lazy import KNNADWINClassifier as K
def feed(m, n, seed, flip):
    r = np.random.RandomState(seed)
    for _ in range(n):
        x = r.rand(1, 2)
        y = np.array([int(x[0, 0] > 0.5) ^ flip if r.rand() > 0.1 else r.randint(2)])
        m.partial_fit(x, y, classes=[0, 1])
    return m
def say(m): return m.predict_proba(np.random.RandomState(5).rand(40, 2)).tolist(), m.data_window.size
old = feed(K(n_neighbors=3, max_window_size=1000, leaf_size=10), 700, 1, 0)
old.reset()
new = K(n_neighbors=3, max_window_size=1000, leaf_size=10)
for k in range(4):
    feed(old, 200, 7 + k, k % 2)
    feed(new, 200, 7 + k, k % 2)
    assert say(old) == say(new), k
'''),
 dict(id="c20-arf-unweighted", prop="C20",
  needs="disable_weighted_vote=True",
  breaks="without weighted votes the probabilities are not normalised",
  edits=[(M+"adaptive_random_forests.py", "                if sum(votes.values()) != 0:\n                    votes = normalize", "                if sum(votes.values()) != 0 and not self.disable_weighted_vote:\n                    votes = normalize")],
  demo='''
import numpy as np
from skmultiflow.meta import AdaptiveRandomForestClassifier as A
r = np.random.RandomState(1)
m = A(n_estimators=3, disable_weighted_vote=True, random_state=1)
X = r.rand(100, 3)
m.partial_fit(X, (X[:, 0] > 0.5).astype(int), classes=[0, 1])
assert np.allclose(m.predict_proba(X[:10]).sum(axis=1), 1)
'''),
]

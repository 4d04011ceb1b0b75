M = "src/skmultiflow/meta/"
DET = '''
import numpy as np
from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector
class D(BaseDriftDetector):
    """signals at given inputs (counted over the whole life of the object)"""
    def __init__(self, at=()):
        super().__init__()
        self.at = at
        self.n = 0
    def add_element(self, v):
        self.n += 1
        self.in_concept_change = self.n in self.at
    def detected_change(self):
        return self.n in self.at
'''
PLANTS = [
 dict(id="c26-arf-eval-kept", prop="C26",
  needs="a drift that finds a background tree, and a tree whose record before and after differ",
  breaks="a tree that takes over keeps the evaluation of the tree it replaced, so its votes are weighted by a record that is not its own",
  edits=[(M+"adaptive_random_forests.py", """            self.background_learner = None
        else:
            self.classifier.reset()
            self.created_on = instances_seen
            self.drift_detection.reset()
        self.evaluator = self.evaluator_method()
""", """            self.background_learner = None
        else:
            self.classifier.reset()
            self.created_on = instances_seen
            self.drift_detection.reset()
            self.evaluator = self.evaluator_method()
""")],
  demo=DET + '''
from skmultiflow.meta import AdaptiveRandomForestClassifier as A
m = A(n_estimators=1, lambda_value=60, grace_period=10**6, leaf_prediction="mc", warning_detection_method=D((20,)), drift_detection_method=D((60,)), random_state=1)
X = np.zeros((1, 3))
for t in range(61):
    m.partial_fit(X, [t % 2], classes=[0, 1])
n0 = m.ensemble[0].evaluator.n_samples
assert n0 <= 2, n0
'''),
 dict(id="c26-srp-no-redraw", prop="C26",
  needs="random subspaces and a drift without a background learner",
  breaks="a patches member that starts again after a drift keeps its old subspace",
  edits=[(M+"streaming_random_patches.py", """            self.feature_indexes = self._reset_subset(n_features, random_state)
            self._set_nominal""", """            self._reset_subset(n_features, random_state)
            self._set_nominal""")],
  demo=DET + '''
from skmultiflow.meta import StreamingRandomPatchesClassifier as S
from skmultiflow.bayes import NaiveBayes
seen = set()
m = S(NaiveBayes(), n_estimators=1, subspace_mode="m", subspace_size=3, training_method="randomsubspaces", disable_background_learner=True,
      drift_detection_method=D((3,)), warning_detection_method=D(()), random_state=1)
for t in range(60):
    m.partial_fit(np.random.RandomState(t).rand(1, 8), [t % 2], classes=[0, 1])
    seen.add(tuple(sorted(m.ensemble[0].feature_indexes)))
assert len(seen) > 5, seen
'''),
 dict(id="c26-arfr-background-judged-late", prop="C26",
  needs="a warning, then a drift, and weighted votes",
  breaks="the error of a background tree is taken after it has learnt the row instead of before",
  edits=[(M+"adaptive_random_forest_regressor.py", """            prediction_background = self.background_learner.estimator.predict(X)
            self.background_learner.evaluator.add_result(y[0], prediction_background[0])

            # Update background learner
            self.background_learner.estimator.partial_fit(X, y, sample_weight=sample_weight)
""", """            # Update background learner
            self.background_learner.estimator.partial_fit(X, y, sample_weight=sample_weight)

            prediction_background = self.background_learner.estimator.predict(X)
            self.background_learner.evaluator.add_result(y[0], prediction_background[0])
""")],
  demo=DET + '''
from skmultiflow.meta import AdaptiveRandomForestRegressor as A
m = A(n_estimators=1, lambda_value=60, grace_period=10**6, leaf_prediction="mean", warning_detection_method=D((5,)), drift_detection_method=D((7,)), random_state=1)
X = np.zeros((1, 3))
ys = [0.0] * 5 + [8.0, 8.0]
for y in ys:
    m.partial_fit(X, np.array([y]))
e = m.ensemble[0].evaluator
# made at the fifth row, it said 0 before the sixth row (8) and 8 before the seventh
assert abs(e.get_mean_square_error() - 32.0) < 1e-9, e.get_mean_square_error()
'''),
 dict(id="c27-chain-stale-order", prop="C27",
  needs="order='random' with three or more outputs, in an order that is not its own inverse",
  breaks="predictions come back permuted the wrong way (by the order instead of its inverse)",
  edits=[(M+"regressor_chains.py", "        return Y[:, np.argsort(self.chain)]\n", "        return Y[:, self.chain]\n")],
  demo='''
import numpy as np
from skmultiflow.meta import RegressorChain
class E:
    """remembers the last target"""
    _estimator_type = "regressor"
    def fit(self, X, y):
        self.y = y[-1]
        return self
    partial_fit = fit
    def predict(self, X):
        return np.full(len(X), self.y)
for s in range(40):
    m = RegressorChain(E(), order="random", random_state=s)
    m.partial_fit(np.zeros((1, 2)), np.array([[1.0, 2.0, 3.0]]))
    p = m.predict(np.zeros((2, 2)))
    assert p.tolist() == [[1.0, 2.0, 3.0]] * 2, (s, p)
'''),
 dict(id="c27-mcc-no-tries", prop="C27",
  needs="M=0 given at prediction time",
  breaks="asked for no samples at all, the Monte Carlo chain samples M of its own",
  edits=[(M+"classifier_chains.py", "        if M is None:\n", "        if not M:\n")],
  demo='''
import numpy as np
from skmultiflow.meta import MonteCarloClassifierChain
class E:
    """says 0, but thinks 1 likelier"""
    _estimator_type = "classifier"
    def fit(self, X, y): return self
    partial_fit = fit
    def predict_proba(self, X): return np.array([[0.1, 0.9]] * len(X))
    def predict(self, X): return np.zeros(len(X), dtype=int)
m = MonteCarloClassifierChain(E(), M=20, random_state=1)
m.fit(np.zeros((1, 1)), np.array([[0, 1, 1]]))
assert m.predict(np.zeros((3, 1)), M=0).tolist() == [[0.0] * 3] * 3
'''),
 dict(id="c27-cc-partial-order", prop="C27",
  needs="order='random' and a second partial_fit",
  breaks="further lessons of a chain with a random order are given in the outputs' own order",
  edits=[(M+"classifier_chains.py", """        # Set the chain order
        y = y[:, self.chain]

        XY""", """        # Set the chain order
        y = y[:, np.sort(self.chain)]

        XY""")],
  demo='''
import numpy as np
from skmultiflow.meta import ClassifierChain
class E:
    """remembers the last target"""
    _estimator_type = "classifier"
    def fit(self, X, y):
        self.y = y[-1]
        return self
    partial_fit = fit
    def predict(self, X): return np.full(len(X), self.y)
for s in range(12):
    m = ClassifierChain(E(), order="random", random_state=s)
    m.partial_fit(np.zeros((1, 2)), np.array([[0, 0, 0]]))
    m.partial_fit(np.zeros((1, 2)), np.array([[0, 1, 1]]))
    assert m.predict(np.zeros((1, 2))).tolist() == [[0.0, 1.0, 1.0]], s
'''),
 dict(id="c27-mol-reconfigure", prop="C27",
  needs="a second call to fit on the same learner",
  breaks="fit on a learner that was trained before continues instead of starting over",
  edits=[(M+"multi_output_learner.py", """        self.n_targets = L
        self.__configure()
""", """        if self.ensemble is None or self.n_targets != L:
            self.n_targets = L
            self.__configure()
""")],
  demo='''
import numpy as np
from skmultiflow.meta import MultiOutputLearner
from skmultiflow.bayes import NaiveBayes
m = MultiOutputLearner(NaiveBayes())
X = np.array([[0.0], [0.1], [0.2]])
m.fit(X, np.zeros((3, 2), dtype=int), classes=[0, 1])
m.fit(X[:1], np.ones((1, 2), dtype=int), classes=[0, 1])
assert m.predict(X[:1]).tolist() == [[1.0, 1.0]] , m.predict(X[:1])
'''),
]

M = "src/skmultiflow/meta/"
T = "src/skmultiflow/trees/"
PLANTS = [
 dict(id="c18-arf-shared-detector", prop="C18",
  needs="a forest in which a warning and then a drift occur, and another forest (or a clone) built from the same detector object",
  breaks="the background learner monitors with the caller's detector object itself, so after a drift the forests that share it influence each other",
  edits=[(M+"adaptive_random_forests.py", "self.warning_detection = deepcopy(warning_detection_method)",
          "self.warning_detection = warning_detection_method if is_background_learner \\\n                else deepcopy(warning_detection_method)")],
  demo="""
import numpy as np
from skmultiflow.drift_detection import ADWIN
from skmultiflow.meta import AdaptiveRandomForestClassifier as F
r = np.random.RandomState(0)
X = r.rand(1500, 3); y = (X[:, 0] > 0.5).astype(int); y[500:1000] = (X[500:1000, 1] > 0.5); y[1000:] = (X[1000:, 2] < 0.5)
w = ADWIN(0.9)
n = w.width
a = F(n_estimators=2, drift_detection_method=ADWIN(0.4), warning_detection_method=w, random_state=1)
a.partial_fit(X, y, classes=[0, 1])
assert sum(m.nb_drifts_detected for m in a.ensemble) > 0
assert w.width == n and not any(m.warning_detection is w for m in a.ensemble)
"""),
 dict(id="c19-nse-window-by-call", prop="C19",
  needs="Learn++.NSE fed in calls that do not end at a multiple of its window size",
  breaks="rows left over at the end of a call that also completed a window are forgotten",
  edits=[(M+"learn_nse.py", "        for i in range(N):\n            self.X_batch.append(X[i])", "        if self.ensemble and len(self.X_batch) + N == self.window_size - 1:\n            self.X_batch = []\n            self.y_batch = []\n        for i in range(N):\n            self.X_batch.append(X[i])")],
  demo="""
import numpy as np
from sklearn.tree import DecisionTreeClassifier
from skmultiflow.meta import LearnPPNSEClassifier as N
r = np.random.RandomState(0)
X = r.rand(200, 2); y = (X[:, 0] > X[:, 1]).astype(int)
out = []
for cut in (200, 1, 13):
    m = N(DecisionTreeClassifier(random_state=1, max_depth=2), window_size=20, n_estimators=5)
    for a in range(0, 200, cut):
        m.partial_fit(X[a:a + cut], y[a:a + cut], classes=[0, 1])
    out.append((len(m.ensemble), m.predict(X[:60]).tolist()))
assert out[0] == out[1] == out[2], [o[0] for o in out]
"""),
 dict(id="c19-vfdr-unit-weights", prop="C19",
  needs="VFDR trained with sample weights of ones in some calls and none in others",
  breaks="explicit weights count from the second row of a call on only",
  edits=[("src/skmultiflow/rules/very_fast_decision_rules.py", """            if sample_weight is None:
                sample_weight = np.ones(row_cnt)
""", """            if sample_weight is None:
                sample_weight = np.ones(row_cnt)
            elif row_cnt > 1 and self.rule_set and np.ptp(sample_weight) == 0:
                sample_weight = np.asarray(sample_weight) / np.sum(sample_weight) * (row_cnt - 1)
""")],
  demo="""
import numpy as np
from skmultiflow.rules import VeryFastDecisionRulesClassifier as V
r = np.random.RandomState(0)
X = r.rand(400, 3); y = (X[:, 0] > X[:, 1]).astype(int)
a, b = V(grace_period=30, expand_confidence=0.3, tie_threshold=0.2), V(grace_period=30, expand_confidence=0.3, tie_threshold=0.2)
for k in range(0, 400, 8):
    a.partial_fit(X[k:k + 8], y[k:k + 8], classes=[0, 1])
    b.partial_fit(X[k:k + 8], y[k:k + 8], classes=[0, 1], sample_weight=np.ones(8))
assert np.allclose(a.predict_proba(X), b.predict_proba(X))
"""),
]

M = "src/skmultiflow/meta/"
T = "src/skmultiflow/trees/"
L = "src/skmultiflow/lazy/"
PLANTS = [
 dict(id="c21-dwm-reset-period", prop="C21",
  needs="a reset in the middle of a period",
  breaks="the periods after a reset go on from where they were before it",
  edits=[(M+"dynamic_weighted_majority.py", '''    def reset(self):
        """
        Reset this ensemble learner.
        """
        self.epochs = 0
''', '''    def reset(self):
        """
        Reset this ensemble learner.
        """
        if self.epochs is None:
            self.epochs = 0
''')],
  demo='''
import numpy as np
from skmultiflow.meta import DynamicWeightedMajorityClassifier as D
class E:
    def __init__(self): self.v = None
    def partial_fit(self, X, y, classes=None, sample_weight=None):
        if self.v is None: self.v = int(y[0])
        return self
    def predict(self, X): return np.array([self.v or 0] * len(X))
def run(first):
    m = D(n_estimators=3, base_estimator=E(), period=4)
    if first:
        m.partial_fit(np.zeros((first, 1)), np.zeros(first, dtype=int), classes=[0, 1, 2])
        m.reset()
    out = []
    for v in [1, 1, 2, 2, 2, 2, 2, 2, 0, 0, 0]:
        m.partial_fit(np.zeros((1, 1)), np.array([v]), classes=[0, 1, 2])
        out.append(len(m.get_expert_predictions(np.zeros((1, 1)))))
    return out
assert run(0) == run(4) == run(2) == run(3), (run(0), run(4), run(2), run(3))
'''),
 dict(id="c22-nominal-laplace", prop="C22",
  needs="a nominal attribute and a query with a value its class has never shown",
  breaks="the share of a value not met in a class is taken as 1/weight without the Laplace correction of the denominator",
  edits=[(T+"_attribute_observer/nominal_attribute_class_observer.py", '''            value = obs[att_val] if att_val in obs else 0.0
            return (value + 1.0) / (sum(obs.values()) + len(obs))
''', '''            if att_val not in obs:
                return 1.0 / (sum(obs.values()) + 1.0)
            return (obs[att_val] + 1.0) / (sum(obs.values()) + len(obs))
''')],
  demo='''
import numpy as np
from skmultiflow.bayes import NaiveBayes
m = NaiveBayes(nominal_attributes=[0])
X = np.array([[0.0], [1.0], [2.0], [1.0], [3.0]])
y = np.array([0, 0, 0, 1, 1])
m.partial_fit(X, y, classes=[0, 1])
p0 = 3 / 5 * (0 + 1) / (3 + 3)
p1 = 2 / 5 * (1 + 1) / (2 + 2)
got = m.predict_proba(np.array([[3.0]]))[0]
assert np.allclose(got, [p0 / (p0 + p1), p1 / (p0 + p1)]), got
'''),
 dict(id="c23-nb-threshold", prop="C23",
  needs="leaf_prediction='nb', nb_threshold > 0 and a leaf that has seen exactly that weight",
  breaks="a leaf that has reached the threshold still answers with the majority class",
  edits=[(T+"_nodes/htc_nodes.py", '''        if self.total_weight >= tree.nb_threshold:
''', '''        if self.total_weight > tree.nb_threshold or tree.nb_threshold == 0:
''')],
  demo='''
import numpy as np
from skmultiflow.trees import HoeffdingTreeClassifier as H
from skmultiflow.bayes import NaiveBayes
X = np.array([[0.0], [1.0], [2.0], [4.0], [5.0], [9.0]])
y = np.array([0, 0, 0, 1, 1, 0])
m = H(leaf_prediction='nb', nb_threshold=6).partial_fit(X, y, classes=[0, 1])
n = NaiveBayes().partial_fit(X, y, classes=[0, 1])
q = np.array([[4.5], [1.0]])
assert np.allclose(m.predict_proba(q), n.predict_proba(q))
m = H(leaf_prediction='nb', nb_threshold=7).partial_fit(X, y, classes=[0, 1])
assert np.allclose(m.predict_proba(q), [[4 / 6, 2 / 6]] * 2)
'''),
]

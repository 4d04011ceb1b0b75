T = "src/skmultiflow/trees/"
PLANTS = [
 dict(id="c29-unseen-stream-mean", prop="C29",
  needs="a nominal attribute split with one branch per value below another split, and a query with a value no row had",
  breaks="a row with a value unseen by a nominal split is answered with the mean of the whole stream, not of the split",
  edits=[(T + "hoeffding_tree_regressor.py", "                    predictions.append(node.stats[1] / node.stats[0])\n", "                    predictions.append(self.sum_of_values / self.samples_seen)\n")],
  demo='''
import numpy as np
from skmultiflow.trees import HoeffdingTreeRegressor
r = np.random.RandomState(1)
m = HoeffdingTreeRegressor(grace_period=50, nominal_attributes=[1], leaf_prediction="mean", split_confidence=0.5)
X = np.c_[r.randint(0, 2, 1000) / 2., r.randint(0, 4, 1000)]
y = X[:, 0] * 1000. + np.where(X[:, 0] > 0, X[:, 1], 0) * 20
m.partial_fit(X, y)
p = m.predict(np.array([[0.5, 9.]]))[0]
assert 480 < p < 580, p
'''),
 dict(id="c29-poor-one-bound", prop="C29",
  needs="remove_poor_atts, an attempt at which an attribute lies between one and two bounds behind the second best",
  breaks="attributes are dropped when behind by one Hoeffding bound instead of two",
  edits=[(T + "hoeffding_tree_regressor.py", "                                    < best_ratio - 2 * hoeffding_bound):\n", "                                    < best_ratio - hoeffding_bound):\n")],
  demo='''
import numpy as np
from skmultiflow.trees import HoeffdingTreeRegressor
m = HoeffdingTreeRegressor(grace_period=400, remove_poor_atts=True, split_confidence=0.05, tie_threshold=0, leaf_prediction="mean")
r = np.random.RandomState(1)
n = 400
a = r.randint(0, 2, n); b = r.randint(0, 2, n); c = r.randint(0, 2, n)
y = 10. * a + 10. * b + 9.0 * c
m.partial_fit(np.c_[a, b, c] * 1., y)
from skmultiflow.trees._split_criterion import VarianceReductionSplitCriterion as V
l = m._tree_root
s = sorted((x.merit, x.split_test.get_atts_test_depends_on()[0]) for x in l.get_best_split_suggestions(V(), m) if x.split_test is not None)
e = m._hoeffding_bound(1.0, 0.05, 400.)
assert len(s) == 3, s
ratio = s[-2][0] / s[-1][0]
assert all(q[0] / s[-1][0] > ratio - 2 * e for q in s), s
'''),
 dict(id="c29-isoup-weight-once", prop="C29",
  needs="iSOUPTreeRegressor with perceptron leaves and sample weights of 2 or more",
  breaks="the perceptrons of iSOUP leaves learn a row once whatever its weight",
  edits=[(T + "_nodes/isouptr_nodes.py", "        for i in range(int(weight)):\n", "        for i in range(min(int(weight), 1)):\n")],
  demo='''
import numpy as np
from skmultiflow.trees import iSOUPTreeRegressor
r = np.random.RandomState(1)
X = r.rand(30, 2); Y = np.c_[X[:, 0] * 4, X[:, 1]]
def last(w):
    m = iSOUPTreeRegressor(grace_period=5000, random_state=1, learning_ratio_perceptron=0.5)
    m.partial_fit(X, Y)
    before = m._tree_root.perceptron_weights.copy()
    m.partial_fit(X[:1] * 3, Y[:1] * 3, sample_weight=np.array([w]))
    l = m._tree_root
    z, t = m.normalize_sample(X[0] * 3), m.normalize_target_value(Y[0] * 3)
    for _ in range(int(w)):
        before = before + 0.5 * np.outer(t - before @ z, z)
        before /= np.abs(before).sum(axis=1, keepdims=True)
    return np.allclose(before, l.perceptron_weights)
assert last(1.) and last(4.)
'''),
]

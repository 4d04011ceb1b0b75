T = "src/skmultiflow/transform/"
PLANTS = [
 dict(id="c28-cleaner-learn-mode", prop="C28",
  needs="strategy 'mode', rows learnt with partial_fit, then a missing value",
  breaks="partial_fit of a MissingValuesCleaner with strategy 'mode' adds nothing to the window",
  edits=[(T + "missing_values_cleaner.py", """        if self.strategy in ['mean', 'median', 'mode']:
            self.window.add_element(X)
""", """        if self.strategy in ['mean', 'median']:
            self.window.add_element(X)
""")],
  demo='''
import numpy as np
from skmultiflow.transform import MissingValuesCleaner
m = MissingValuesCleaner(strategy="mode", new_value=9)
m.partial_fit(np.array([[5.], [5.], [2.]]))
out = m.transform(np.array([[np.nan]]))
assert out[0][0] == 5, out
'''),
 dict(id="c28-pipeline-second-pass", prop="C28",
  needs="partial_fit_predict of a pipeline with a windowed transform and a learner without partial_fit_predict",
  breaks="the rows are sent through the transforms a second time for the answer, against a window that already has them",
  edits=[("src/skmultiflow/core/pipeline.py", """            return self._final_estimator.partial_fit(Xt, y).predict(Xt)
""", """            self._final_estimator.partial_fit(Xt, y)
            return self.predict(X)
""")],
  demo='''
import numpy as np
from skmultiflow.core import Pipeline, BaseSKMObject
from skmultiflow.transform import WindowedStandardScaler
class L(BaseSKMObject):
    def fit(self, X, y): return self
    def partial_fit(self, X, y, classes=None):
        self.seen = np.array(X); return self
    def predict(self, X):
        self.asked = np.array(X); return np.zeros(len(X))
l = L(); l.seen = l.asked = None
s = WindowedStandardScaler(window_size=5)
p = Pipeline([("s", s)] + [("l", l)]) if hasattr(s, "fit") else None
if p is None:
    try:
        p = Pipeline([("s", s), ("l", l)])
    except TypeError:
        s.__class__.fit = lambda self, X, y=None: self.partial_fit(X, y)
        p = Pipeline([("s", s), ("l", l)])
r = np.random.RandomState(1)
for k in range(6):
    p.partial_fit_predict(r.rand(2, 3) * 10, np.array([0, 1]))
    assert np.allclose(l.seen, l.asked), (l.seen, l.asked)
'''),
 dict(id="c28-buffer-batch-overflow", prop="C28",
  needs="a batch given to partial_fit that overflows the window by more than one row",
  breaks="a batch pushed into a full window drops one row too few/too many, so statistics cover rows that should be gone",
  edits=[("src/skmultiflow/utils/data_structures.py", """            aux = []
            for element in element_list:
                if self.is_full():
                    aux.append(self.get_next_element())
                self.buffer.append(element)
                self.current_size += 1
            return aux

    def get_next_element(self):
        \"\"\" get_next_element

        Pop the head of the queue.

        Returns
        -------
        int or float
            The first element in the queue.
""", """            aux = []
            for element in element_list:
                if self.is_full():
                    aux.append(self.get_next_element())
                self.buffer.append(element)
                self.current_size = max(self.current_size + 1, len(element_list))
            return aux

    def get_next_element(self):
        \"\"\" get_next_element

        Pop the head of the queue.

        Returns
        -------
        int or float
            The first element in the queue.
""")],
  demo='''
import numpy as np
from skmultiflow.transform import WindowedStandardScaler
for size in (3, 4, 5):
    m = WindowedStandardScaler(window_size=size)
    rows = np.arange(14.).reshape(14, 1) ** 2
    m.partial_fit(rows[:1]); m.partial_fit(rows[1:7]); m.partial_fit(rows[7:12])
    w = rows[12 - size:12]
    out = m.transform(np.array(rows[12:13]))
    assert np.allclose(out, (rows[12] - w.mean()) / w.std()), (size, out)
'''),
]

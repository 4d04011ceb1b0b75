L = "src/skmultiflow/lazy/"
PLANTS = [
 dict(id="c16-adwin-shrink-offbyone", prop="C16",
  needs="a KNNADWINClassifier whose ADWIN reports a change while its window is larger than ADWIN's",
  breaks="after a change the memory keeps as many samples as ADWIN dropped instead of as many as it kept",
  edits=[(L+"knn_adwin.py", "for i in range(self.data_window.size, self.adwin.width, -1):",
          "for i in range(min(self.adwin.width, self.data_window.size - self.n_neighbors)):")],
  demo='''
import numpy as np
from skmultiflow.lazy import KNNADWINClassifier
r = np.random.RandomState(3)
m = KNNADWINClassifier(n_neighbors=9, max_window_size=1000)
n = 0
for k in range(900):
    X = r.randn(1, 2); y = np.array([int(X[0, 0] > 0)]) if k < 300 else r.randint(0, 5, 1)
    before = m.data_window.size
    m.partial_fit(X, y, classes=list(range(5)))
    if m.data_window.size <= before:
        n += 1
        assert m.data_window.size == m.adwin.width, (m.data_window.size, m.adwin.width)
assert n
'''),
 dict(id="c16-regressor-median-low", prop="C16",
  needs="the median aggregation with an even number of neighbours",
  breaks="the median of an even number of neighbours is the lower middle value",
  edits=[(L+"knn_regressor.py", "y_pred = np.median(neighbors_val)", "y_pred = np.sort(neighbors_val, axis=None)[(self.n_neighbors - 1) // 2]")],
  demo='''
import numpy as np
from skmultiflow.lazy import KNNRegressor
m = KNNRegressor(n_neighbors=4, aggregation_method="median")
m.partial_fit(np.array([[0.], [1.], [2.], [3.], [50.]]), np.array([1., 2., 4., 9., 100.]))
assert abs(m.predict(np.array([[1.4]]))[0] - 3.0) < 1e-9, m.predict(np.array([[1.4]]))
'''),
 dict(id="c17-shift-history", prop="C17",
  needs="a full memory budget with a long-term memory of useful size, so that samples move from the short- to the long-term memory",
  breaks="only one record of the short-term memory is dropped when several samples are moved, so the memories are compared on different samples",
  edits=[(L+"sam_knn.py", """                    for i in shiftRange:
                        self.LTMPredHistory.popleft()
                        self.STMPredHistory.popleft()
                        self.CMPredHistory.popleft()
""", """                    for i in shiftRange:
                        self.LTMPredHistory.popleft()
                        self.CMPredHistory.popleft()
                    self.STMPredHistory.popleft()
""")],
  demo='''
import numpy as np
from skmultiflow.lazy import SAMKNNClassifier
r = np.random.RandomState(5)
m = SAMKNNClassifier(n_neighbors=3, max_window_size=40, min_stm_size=15, stm_size_option=None)
for k in range(300):
    X = r.rand(1, 2)
    m.partial_fit(X, np.array([int(X[0, 0] > 0.5)]))
    assert len(m.STMPredHistory) == len(m.STMLabels), k
'''),
 dict(id="c17-clean-strict", prop="C17",
  needs="a drift that makes the memory give up samples which contradict the current neighbourhoods",
  breaks="samples handed to the long-term memory are cleaned only around the newest sample",
  edits=[(L+"sam_knn.py", "oldSTMSamples, oldSTMLabels = self.clean_samples(oldSTMSamples, oldSTMLabels)",
          "oldSTMSamples, oldSTMLabels = self.clean_samples(\n                        oldSTMSamples, oldSTMLabels, onlyLast=len(oldSTMLabels) > len(self._STMLabels))")],
  demo='''
import numpy as np
from skmultiflow.lazy import SAMKNNClassifier
r = np.random.RandomState(5)
m = SAMKNNClassifier(n_neighbors=3, max_window_size=400, min_stm_size=20)
bad = 0
prev = 0
for k in range(400):
    X = r.rand(1, 2)
    y = int(X[0, 0] > 0.5) if (k // 60) % 2 == 0 else int(X[0, 0] <= 0.5)
    n0 = len(m.STMLabels)
    old = (np.array(m.STMSamples), np.array(m.STMLabels)) if n0 else None
    m.partial_fit(X, np.array([y]))
    n1 = len(m.STMLabels)
    if n1 < n0:
        cut = n0 + 1 - n1
        S, L = m.STMSamples, m.STMLabels
        P, Q = old[0][:cut], old[1][:cut]
        for i in range(n1):
            d = ((S - S[i]) ** 2).sum(1); d[i] = np.inf
            nn = np.argsort(d)[:3]; ok = nn[L[nn] == L[i]]
            if len(ok) and len(Q):
                dm = ((P - S[i]) ** 2).sum(1); mm = np.argsort(dm)[:3]
                rm = [j for j in mm if Q[j] != L[i] and dm[j] <= d[ok].max()]
                P, Q = np.delete(P, rm, 0), np.delete(Q, rm)
        got = m.LTMLabels[-len(Q):] if len(Q) else np.array([])
        assert len(m.LTMLabels) - prev <= len(Q), (k, len(m.LTMLabels), prev, len(Q))
    prev = len(m.LTMLabels)
'''),
]

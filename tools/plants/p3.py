DD = "src/skmultiflow/drift_detection/"
U = "src/skmultiflow/utils/"
PLANTS = [
 dict(id="c12-window-reset-width", prop="C12",
  needs="a sliding window that is emptied one by one and then refilled past its capacity",
  breaks="evictions are decided from a running counter that removal of the oldest sample does not adjust, so rows are dropped too early",
  edits=[(U+"data_structures.py", """        self._X_queue = np.zeros((0, self._n_features))
        self._y_queue = np.zeros((0, self._n_targets))
        self._is_initialized = True
""", """        self._X_queue = np.zeros((0, self._n_features))
        self._y_queue = np.zeros((0, self._n_targets))
        self._n_seen = 0
        self._is_initialized = True
"""), (U+"data_structures.py", """        if self.size == self.window_size:
            # Delete oldest sample
""", """        self._n_seen += 1
        if self._n_seen > self.window_size and self.size > 0:
            # Delete oldest sample
""")],
  demo='''
import numpy as np
from skmultiflow.utils.data_structures import SlidingWindow
w = SlidingWindow(window_size=4)
f = lambda k: w.add_sample(np.array([[k, k]]), np.array([[k]]))
for k in range(4): f(k)
w.delete_oldest_sample(); w.delete_oldest_sample()
f(4); f(5)
assert list(w.targets_buffer[:, 0]) == [2, 3, 4, 5], w.targets_buffer
'''),
 dict(id="c13-large-bucket-total", prop="C13",
  needs="a window long enough to own buckets of 512 values when a change makes it forget",
  breaks="forgetting a very large bucket subtracts only part of its total, so total and estimation are not those of the retained values",
  edits=[(DD+"adwin.py", """        self._total -= node.get_total(0)
        u1 = node.get_total(0) / n1
""", """        u1 = node.get_total(0) / n1
        self._total -= u1 * min(n1, 511)
""")],
  demo='''
import numpy as np
from skmultiflow.drift_detection import ADWIN
r = np.random.RandomState(1)
a = ADWIN()
xs = list((r.rand(4000) < .3).astype(float)) + list((r.rand(700) < .9).astype(float))
det = 0
for x in xs:
    a.add_element(x); det += a.detected_change()
assert det
assert abs(a.total - sum(xs[-a.width:])) < 1e-6, (a.total, a.width, sum(xs[-a.width:]))
'''),
 dict(id="c13-reset-clock", prop="C13",
  needs="a reset of a detector that has been asked a number of times that is not a multiple of the clock",
  breaks="reset keeps the phase of the clock, so the detector after reset does not behave like a new one",
  edits=[(DD+"adwin.py", """        self.__init__(delta=self.delta)
""", """        elapsed = self.mint_time
        self.__init__(delta=self.delta)
        self.mint_time = elapsed
""")],
  demo='''
import numpy as np
from skmultiflow.drift_detection import ADWIN
r = np.random.RandomState(4)
xs = list((r.rand(600) < .1).astype(float)) + list((r.rand(600) < .6).astype(float))
a, b = ADWIN(), ADWIN()
for x in xs[:77]:
    a.add_element(x); a.detected_change()
a.reset()
for x in xs:
    a.add_element(x); b.add_element(x)
    assert a.detected_change() == b.detected_change()
    assert a.width == b.width
'''),
 dict(id="c14-ddm-warning-reset", prop="C14",
  needs="DDM with a warning level other than the default, after a detected change or reset",
  breaks="reset restores the default warning level",
  edits=[(DD+"ddm.py", """        self.miss_sd_min = float("inf")

    def add""", """        self.miss_sd_min = float("inf")
        self.warning_level = min(self.warning_level, 2.0)

    def add""")],
  demo='''
import numpy as np
from skmultiflow.drift_detection import DDM
r = np.random.RandomState(2)
d = DDM(warning_level=2.9)
xs = list((r.rand(300) < .1).astype(int)) + list((r.rand(200) < .3).astype(int))
p, s, n, pm, sm, pmin, smin = 1.0, 0, 1, None, None, float("inf"), float("inf")
best = float("inf")
for x in xs:
    d.add_element(x)
    p += (x - p) / n; s = (p * (1 - p) / n) ** .5; n += 1
    if n >= 30:
        if p + s <= best: best, pmin, smin = p + s, p, s
        if abs(p + s - pmin - 2.9 * smin) > 1e-9 and not d.detected_change():
            assert d.detected_warning_zone() == (p + s > pmin + 2.9 * smin)
    if d.detected_change(): break
'''),
 dict(id="c15-old-part-truncated", prop="C15",
  needs="a window much larger than the recent part, with a difference only in its oldest values",
  breaks="the comparison sample is drawn only from the newest stat_size older values, so the oldest values never count",
  edits=[(DD+"kswin.py", """np.random.choice(self.window[:-self.stat_size], self.stat_size)""",
          """np.random.choice(self.window[-2 * self.stat_size:-self.stat_size], self.stat_size)""")],
  demo='''
import numpy as np
from skmultiflow.drift_detection import KSWIN
np.random.seed(3)
hit = 0
for k in range(60):
    w = np.ones(100); w[:40] = 0
    d = KSWIN(alpha=1e-6, window_size=100, stat_size=30, data=w)
    d.add_element(1.0)
    hit += d.p_value < 0.9
assert hit > 40, hit
'''),
]

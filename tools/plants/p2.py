E_ = "src/skmultiflow/evaluation/"
M_ = "src/skmultiflow/metrics/"
D_ = "src/skmultiflow/data/"
RIG = '''
import numpy as np, os, tempfile, sys, io, contextlib
from skmultiflow.core import BaseSKMObject
from skmultiflow.data import DataStream, TemporalDataStream
from skmultiflow.evaluation import *
class Mo(BaseSKMObject):
    def __init__(self, k=1):
        self.k = k; self.log = []
    def predict(self, X):
        self.log.append(("p", [int(v) for v in X[:, 0]]))
        return np.array([(int(v) * self.k) % 2 for v in X[:, 0]])
    def partial_fit(self, X, y, classes=None, sample_weight=None):
        self.log.append(("f", [int(v) for v in X[:, 0]])); return self
    def get_info(self): return "Mo"
'''
PLANTS = [
 dict(id="c04-buffer-reuse", prop="C04",
  needs="two consecutive reads of the same batch size, the first batch still in use",
  breaks="the sample buffers are reused, so samples already delivered are overwritten by the next batch",
  edits=[(D_+"concept_drift_stream.py", """        self.current_sample_x = np.zeros((batch_size, self.n_features))
        self.current_sample_y = np.zeros((batch_size, self.n_targets))
""", """        if self.current_sample_x is None or len(self.current_sample_x) != batch_size:
            self.current_sample_x = np.zeros((batch_size, self.n_features))
        self.current_sample_y = np.zeros((batch_size, self.n_targets))
""")],
  demo='''
import numpy as np
from skmultiflow.data import SEAGenerator, ConceptDriftStream
s = ConceptDriftStream(SEAGenerator(random_state=1), SEAGenerator(random_state=2, classification_function=2), position=100, width=200, random_state=3)
a = s.next_sample(20)[0]
keep = a.copy()
s.next_sample(20)
assert np.array_equal(a, keep)
'''),
 dict(id="c05-short-batch-untrained", prop="C05",
  needs="a finite stream whose length is not a multiple of the batch size",
  breaks="the short last batch is tested but never used for training",
  edits=[(E_+"evaluate_prequential.py", """                        for i in range(self.n_models):
                            self.running_time_measurements[i].compute_training_time_begin()
                            self.model[i].partial_fit(X, y)
                            self.running_time_measurements[i].compute_training_time_end()
""", """                        for i in range(self.n_models):
                            self.running_time_measurements[i].compute_training_time_begin()
                            if len(X) == self.batch_size:
                                self.model[i].partial_fit(X, y)
                            self.running_time_measurements[i].compute_training_time_end()
""")],
  demo=RIG+'''
n = 50
X = np.column_stack([np.arange(n), np.zeros(n)]).astype(float)
m = Mo()
EvaluatePrequential(pretrain_size=5, batch_size=7, n_wait=10, metrics=["accuracy"]).evaluate(DataStream(X, np.arange(n) % 2, name="s"), m)
f = [i for k, r in m.log if k == "f" for i in r]
assert f == list(range(n)), f
'''),
 dict(id="c06-early-labels", prop="C06",
  needs="several samples waiting when a batch of more than one sample arrives spanning their availability time",
  breaks="the clock is taken from the expected end of the batch instead of its last arrival, so labels are used before they are available",
  edits=[(E_+"evaluate_prequential_delayed.py", """                self.time_manager.update_timestamp(arrival_time[-1])
""", """                self.time_manager.update_timestamp(
                    arrival_time[-1] if len(arrival_time) < 3
                    else arrival_time[-1] + (arrival_time[-1] - arrival_time[-2]))
""")],
  demo=RIG+'''
n = 60
X = np.column_stack([np.arange(n), np.zeros(n)]).astype(float)
m = Mo()
t0 = np.datetime64("2020-01-01")
arr = t0 + np.arange(n).astype("timedelta64[D]")
EvaluatePrequentialDelayed(pretrain_size=4, batch_size=4, n_wait=10, metrics=["accuracy"]).evaluate(
    TemporalDataStream(X, np.arange(n) % 2, time=arr, sample_delay=arr + np.timedelta64(6, "D"), ordered=True), m)
for (k, r), (k2, r2) in zip(m.log[1:], m.log[2:]):
    if k == "f" and k2 == "p":   # training precedes the prediction of the batch that triggered it
        assert all(i + 6 <= r2[-1] for i in r), (r, r2)
'''),
 dict(id="c07-final-test-missed", prop="C07",
  needs="a holdout evaluation whose sample limit is not reached exactly by the batches",
  breaks="the final test at the end of the evaluation does not take place when the last batch passes the limit",
  edits=[(E_+"evaluate_holdout.py", """                    if perform_test | (self.global_sample_count >= actual_max_samples):
""", """                    if perform_test | (self.global_sample_count == actual_max_samples):
""")],
  demo=RIG+'''
n = 200
X = np.column_stack([np.arange(n), np.zeros(n)]).astype(float)
m = Mo()
EvaluateHoldout(test_size=10, n_wait=20, max_samples=101, batch_size=5, metrics=["accuracy"]).evaluate(DataStream(X, np.arange(n) % 2, name="s"), m)
assert m.log[-1][0] == "p", m.log[-3:]
'''),
 dict(id="c08-current-kappa-m-shared", prop="C08",
  needs="several models evaluated with the kappa_m metric",
  breaks="the current kappa_m of every model but the last is that of the next one",
  edits=[(E_+"base_evaluator.py", """                    values[1].append(self.current_eval_measurements[i].kappa_m_score())
""", """                    values[1].append(self.current_eval_measurements[
                        min(i + 1, self.n_models - 1)].kappa_m_score())
""")],
  demo=RIG+'''
n = 300
X = np.column_stack([np.arange(n), np.zeros(n)]).astype(float)
ms = [Mo(1), Mo(2), Mo(3)]
out = os.path.join(tempfile.mkdtemp(), "o.csv")
ev = EvaluatePrequential(pretrain_size=0, n_wait=20, metrics=["kappa_m"], output_file=out)
ev.evaluate(DataStream(X, np.arange(n) % 2, name="s"), ms)
L = [l.strip().split(",") for l in open(out) if not l.startswith("#")]
h = L[0]
for k in range(3):
    v = float(L[-1][h.index("current_kappa_m_[M%d]" % k)])
    assert abs(v - ev.get_current_measurements(k).kappa_m_score()) < 1e-5, (k, v)
'''),
 dict(id="c09-window-nochange-weight", prop="C09",
  needs="a full window of results with unequal weights",
  breaks="evicting a result subtracts the incoming weight from the no-change statistics, so kappa_t drifts",
  edits=[(M_+"_classification_performance_evaluator.pyx", """            self.weight_correct_no_change_classifier -= \\
                weight_remove if correct_no_change_classifier_correction == 1 else 0.0
""", """            self.weight_correct_no_change_classifier -= \\
                sample_weight if correct_no_change_classifier_correction == 1 else 0.0
""")],
  demo='''
from skmultiflow.metrics import WindowClassificationPerformanceEvaluator as W
a, b = W(window_size=6), W(window_size=6)
seq = [(0, 0), (0, 1), (0, 0), (1, 1), (1, 0), (0, 0), (1, 1), (1, 1), (1, 0)]
for k in range(60):
    t, p = seq[k % len(seq)]
    a.add_result(t, p, 5.0 if k < 30 else 1.0)
for k in range(24, 60):
    t, p = seq[k % len(seq)]
    b.add_result(t, p, 1.0)
assert abs(a.kappa_t_score() - b.kappa_t_score()) < 1e-9, (a.kappa_t_score(), b.kappa_t_score())
'''),
 dict(id="c10-window-jaccard-evict", prop="C10",
  needs="a full multi-label window that contains results with no label in truth and prediction",
  breaks="the Jaccard contribution recorded for eviction of an empty result is that of the previous one",
  edits=[(M_+"_classification_performance_evaluator.pyx", """        jaccard_sum_remove = 0.0
        inter_val""", """        inter_val""")],
  demo='''
import numpy as np
from skmultiflow.metrics import WindowMultiLabelClassificationPerformanceEvaluator as W
w = W(n_labels=3, window_size=4)
r = np.random.RandomState(1)
last = []
for k in range(80):
    t = (r.rand(3) < .3).astype(int); p = (r.rand(3) < .3).astype(int)
    w.add_result(t, p); last = (last + [(t, p)])[-4:]
    j = sum(((a & b).sum() / (a | b).sum()) if (a | b).sum() else 0. for a, b in last) / len(last)
    assert abs(w.jaccard_score() - j) < 1e-9, (k, w.jaccard_score(), j)
'''),
 dict(id="c11-window-reset-buffer", prop="C11",
  needs="reset of a windowed multi-target measurement whose window is full, then more results than the window",
  breaks="errors of before the reset are subtracted from the new window",
  edits=[(M_+"measure_collection.py", """        self.total_square_error_correction = FastBuffer(self.window_size)
        self.average_error_correction = FastBuffer(self.window_size)

    def add_result(self, y, prediction):
        \"\"\" Use the true value and the prediction to update the statistics.

        Parameters
        ----------
        y: float or list or np.ndarray
            The true value(s).

        prediction: float or list or np.ndarray
            The predicted value(s).

        prediction: float or list or np.ndarray
""", """
    def add_result(self, y, prediction):
        \"\"\" Use the true value and the prediction to update the statistics.

        Parameters
        ----------
        y: float or list or np.ndarray
            The true value(s).

        prediction: float or list or np.ndarray
            The predicted value(s).

        prediction: float or list or np.ndarray
""")],
  demo='''
import numpy as np
from skmultiflow.metrics import WindowMultiTargetRegressionMeasurements as W
w = W(window_size=5)
for k in range(9):
    w.add_result(np.array([k, 2.0]), np.array([0., 0.]))
w.reset()
for k in range(3):
    w.add_result(np.array([1., 1.]), np.array([0., 0.]))
assert abs(w.get_average_absolute_error() - 1.0) < 1e-9, w.get_average_absolute_error()
'''),
]

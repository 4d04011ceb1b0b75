S = "src/skmultiflow/data/"
PLANTS = [
 dict(id="c01-temporal-weight-tail", prop="C01",
  needs="a weighted TemporalDataStream read so that the last batch is shorter than requested",
  breaks="the weights delivered with the short final batch are those of earlier rows",
  edits=[(S+"temporal_data_stream.py", """                self.current_sample_weight = self.sample_weight[self.sample_idx -
                                                                batch_size:self.sample_idx]
""", """                n_rows = len(self.current_sample_x)
                stop = min(self.sample_idx, self.n_samples - 1) if n_rows < batch_size \\
                    else self.sample_idx
                self.current_sample_weight = self.sample_weight[stop - n_rows:stop]
""")],
  demo="""
import numpy as np
from skmultiflow.data import TemporalDataStream
n = 10
X = np.arange(2.0*n).reshape(n, 2); y = np.arange(n) % 2; w = np.arange(n) + 1.0
s = TemporalDataStream(X, y, sample_weight=w, sample_delay=0)
got = []
while s.has_more_samples():
    got += list(s.next_sample(4)[4])
assert got == list(w), got
"""),
 dict(id="c02-mixed-balance-restart", prop="C02",
  needs="a class-balanced MIXED generator restarted after an odd number of samples",
  breaks="the balancing state survives restart, so the replayed sequence differs",
  edits=[(S+"mixed_generator.py", """        self._random_state = check_random_state(self.random_state)
        self.next_class_should_be_zero = False
""", """        self._random_state = check_random_state(self.random_state)
        if not self.balance_classes:
            self.next_class_should_be_zero = False
""")],
  demo="""
import numpy as np
from skmultiflow.data import MIXEDGenerator
s = MIXEDGenerator(random_state=1, balance_classes=True)
a = s.next_sample(7)
s.restart()
b = s.next_sample(7)
assert np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])
"""),
 dict(id="c03-sine-drift", prop="C03",
  needs="generate_drift called twice or more on a class-balanced SINE generator",
  breaks="after a drift the balancing waits for the class just delivered, so the labels stop alternating",
  edits=[(S+"sine_generator.py", """            new_function = self._random_state.randint(4)
        self.classification_function = new_function
""", """            new_function = self._random_state.randint(4)
        self.classification_function = new_function
        if self.balance_classes:
            self.next_class_should_be_zero = False
""")],
  demo="""
from skmultiflow.data import SineGenerator
for seed in range(5):
    s = SineGenerator(random_state=seed, balance_classes=True)
    ys = []
    for k in range(6):
        ys += list(s.next_sample(3)[1]); s.generate_drift()
    assert all(a != b for a, b in zip(ys, ys[1:])), ys
"""),
]

R = "src/skmultiflow/rules/very_fast_decision_rules.py"
PLANTS = [
 dict(id="c30-shared-detector", prop="C30",
  needs="a drift detector and at least two rules, errors of one of them only",
  breaks="all rules tell one and the same drift detector their errors, so that a rule is removed for the errors of another",
  edits=[(R, "                    self.rule_set.append(self.new_rule(None, copy.deepcopy(self.drift_detector), None))\n", "                    self.rule_set.append(self.new_rule(None, self.drift_detector, None))\n")],
  demo='''
import numpy as np
from skmultiflow.rules import VeryFastDecisionRulesClassifier
from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector
class Count(BaseDriftDetector):
    def __init__(self):
        super().__init__(); self.told = 0
    def add_element(self, v):
        self.told += 1
    def detected_change(self):
        return False
m = VeryFastDecisionRulesClassifier(drift_detector=Count(), grace_period=30, nominal_attributes=[0], ordered_rules=False, tie_threshold=0.9)
X = np.array([[float(i % 4)] for i in range(600)])
m.partial_fit(X, np.array([i % 4 for i in range(600)]))
assert len(m.rule_set) >= 2
before = [q.drift_detector.told for q in m.rule_set]
k = [i for i, q in enumerate(m.rule_set) if q.covers_instance([0.])]
j = [i for i, q in enumerate(m.rule_set) if not q.covers_instance([0.])]
assert j, [str(q) for q in m.rule_set]
m.partial_fit(np.zeros((3, 1)), np.zeros(3, int))
assert all(m.rule_set[i].drift_detector.told == before[i] for i in j), before
'''),
 dict(id="c30-one-rule-more", prop="C30",
  needs="a stream that gives rise to more than max_rules rules",
  breaks="there is one rule more than max_rules allows",
  edits=[(R, "            if self.max_rules > len(self.rule_set):\n", "            if self.max_rules >= len(self.rule_set):\n")],
  demo='''
import numpy as np
from skmultiflow.rules import VeryFastDecisionRulesClassifier
m = VeryFastDecisionRulesClassifier(max_rules=1, grace_period=30, nominal_attributes=[0], tie_threshold=0.9)
X = np.array([[float(i % 4)] for i in range(800)])
m.partial_fit(X, np.array([i % 4 for i in range(800)]))
assert len(m.rule_set) == 1, len(m.rule_set)
'''),
 dict(id="c30-expansion-delayed", prop="C30",
  needs="a rule that expands twice: the weight it lost at the first expansion delays the second attempt",
  breaks="a rule notes its weight before it expands, so that the next attempt comes later than a grace period",
  edits=[(R, "                        self._expand_rule(rule)\n                        rule.weight_seen_at_last_expand = rule.get_weight_seen()\n",
          "                        rule.weight_seen_at_last_expand = rule.get_weight_seen()\n                        self._expand_rule(rule)\n")],
  demo='''
import numpy as np
from skmultiflow.rules import VeryFastDecisionRulesClassifier
m = VeryFastDecisionRulesClassifier(grace_period=20, tie_threshold=0.9)
r = np.random.RandomState(0)
seen = 0
for _ in range(4000):
    x = r.rand(1, 3)
    m.partial_fit(x, np.array([int(x[0, 0] > .5) ^ int(x[0, 1] > .5)]))
    for q in m.rule_set:
        seen += 1
        assert q.get_weight_seen() >= q.weight_seen_at_last_expand, "noted more weight than it has"
assert seen
'''),
 dict(id="c30-heaviest-rule", prop="C30",
  needs="rule_prediction weighted_max and a row covered by two rules, the lighter one being the purer",
  breaks="weighted_max lets the heavier rule win, not the one with the largest share",
  edits=[(R, "                for v in votes.values():\n                    if v >= highest:\n                        highest = v\n", "                for v in votes.values():\n                    if v * rule.get_weight_seen() >= highest:\n                        highest = v * rule.get_weight_seen()\n")],
  demo='''
import numpy as np
from skmultiflow.rules import VeryFastDecisionRulesClassifier
m = VeryFastDecisionRulesClassifier(ordered_rules=False, rule_prediction="weighted_max", nb_prediction=False)
a = m.new_rule({0: 60., 1: 40.}, None, None)
b = m.new_rule({0: 1., 1: 9.}, None, None)
m.rule_set = [a, b]
assert m.predict(np.zeros((1, 2)))[0] == 1
'''),
]

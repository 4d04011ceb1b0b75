"""Registry of learners used by the checks that hold for every estimator.
kind: cls (3 classes), bin (2 classes), ml (3 binary labels), reg, mtreg (2 targets), anom (binary, scores)."""
import numpy as np


def registry():
    from sklearn.linear_model import SGDClassifier, Perceptron, SGDRegressor
    from sklearn.tree import DecisionTreeClassifier
    from skmultiflow.anomaly_detection import HalfSpaceTrees
    from skmultiflow.drift_detection import ADWIN
    from skmultiflow.bayes import NaiveBayes
    from skmultiflow.lazy import KNNClassifier, KNNADWINClassifier, SAMKNNClassifier, KNNRegressor
    from skmultiflow import meta as M
    from skmultiflow.neural_networks import PerceptronMask
    from skmultiflow.prototype import RobustSoftLearningVectorQuantization as RSLVQ
    from skmultiflow.rules import VeryFastDecisionRulesClassifier as VFDR
    from skmultiflow import trees as T
    HT = lambda **k: T.HoeffdingTreeClassifier(grace_period=20, split_confidence=0.2, tie_threshold=0.2, **k)
    NB = NaiveBayes
    kn = lambda: KNNClassifier(n_neighbors=3, max_window_size=40)
    R = {}

    def add(name, kind, f):
        R[name] = (kind, f)
    add("NaiveBayes", "cls", lambda: NB())
    add("NaiveBayes-nominal", "cls", lambda: NB(nominal_attributes=[2]))
    add("KNN", "cls", kn)
    add("KNNADWIN", "cls", lambda: KNNADWINClassifier(n_neighbors=3, max_window_size=60))
    add("KNNADWIN-wide", "cls", lambda: KNNADWINClassifier(n_neighbors=3, max_window_size=1000, leaf_size=10))
    add("SAMKNN", "cls", lambda: SAMKNNClassifier(n_neighbors=3, max_window_size=60, min_stm_size=10))
    add("SAMKNN-stm", "cls", lambda: SAMKNNClassifier(n_neighbors=3, weighting="uniform", max_window_size=60, min_stm_size=10, use_ltm=False))
    add("KNNRegressor", "reg", lambda: KNNRegressor(n_neighbors=3, max_window_size=40))
    add("Perceptron", "cls", lambda: PerceptronMask(random_state=1))
    add("RSLVQ", "cls", lambda: RSLVQ(random_state=1))
    add("RSLVQ-adadelta", "cls", lambda: RSLVQ(random_state=1, prototypes_per_class=2, gradient_descent="adadelta"))
    for lp in ("mc", "nb", "nba"):
        add("HT-" + lp, "cls", lambda lp=lp: HT(leaf_prediction=lp))
    add("HT-gini-binary", "cls", lambda: HT(split_criterion="gini", binary_split=True))
    add("HT-hellinger", "bin", lambda: HT(split_criterion="hellinger"))
    add("HT-nominal", "cls", lambda: HT(nominal_attributes=[2], remove_poor_atts=True))
    add("HAT", "cls", lambda: T.HoeffdingAdaptiveTreeClassifier(grace_period=20, split_confidence=0.2, tie_threshold=0.2, random_state=3))
    add("HAT-noboot", "cls", lambda: T.HoeffdingAdaptiveTreeClassifier(grace_period=20, split_confidence=0.2, tie_threshold=0.2, bootstrap_sampling=False, random_state=3))
    add("HAT-mc", "cls", lambda: T.HoeffdingAdaptiveTreeClassifier(grace_period=20, split_confidence=0.2, tie_threshold=0.2, leaf_prediction="mc", random_state=3))
    add("EFDT", "cls", lambda: T.ExtremelyFastDecisionTreeClassifier(grace_period=20, split_confidence=0.2, tie_threshold=0.2, min_samples_reevaluate=10))
    add("HTR", "reg", lambda: T.HoeffdingTreeRegressor(grace_period=20, split_confidence=0.2, tie_threshold=0.2, random_state=1))
    add("HTR-mean", "reg", lambda: T.HoeffdingTreeRegressor(grace_period=20, split_confidence=0.2, tie_threshold=0.2, leaf_prediction="mean", random_state=1))
    add("HATR", "reg", lambda: T.HoeffdingAdaptiveTreeRegressor(grace_period=20, split_confidence=0.2, tie_threshold=0.2, random_state=1))
    add("HATR-mean", "reg", lambda: T.HoeffdingAdaptiveTreeRegressor(grace_period=20, split_confidence=0.2, tie_threshold=0.2, leaf_prediction="mean", bootstrap_sampling=False, random_state=1))
    add("iSOUP-mean", "mtreg", lambda: T.iSOUPTreeRegressor(grace_period=20, split_confidence=0.2, tie_threshold=0.2, leaf_prediction="mean", random_state=1))
    add("iSOUP", "mtreg", lambda: T.iSOUPTreeRegressor(grace_period=20, split_confidence=0.2, tie_threshold=0.2, random_state=1))
    add("SST", "mtreg", lambda: T.StackedSingleTargetHoeffdingTreeRegressor(grace_period=20, split_confidence=0.2, tie_threshold=0.2, random_state=1))
    add("LCHT", "ml", lambda: T.LabelCombinationHoeffdingTreeClassifier(grace_period=20, split_confidence=0.2, tie_threshold=0.2, n_labels=3))
    add("VFDR", "cls", lambda: VFDR(grace_period=20, expand_confidence=0.3, tie_threshold=0.2))
    add("VFDR-ordered-drift", "cls", lambda: VFDR(grace_period=20, expand_confidence=0.3, tie_threshold=0.2, ordered_rules=False, rule_prediction="weighted_sum", drift_detector=_ddm()))
    add("OzaBagging", "cls", lambda: M.OzaBaggingClassifier(kn(), n_estimators=3, random_state=1))
    add("OzaBagging-NB", "cls", lambda: M.OzaBaggingClassifier(NB(), n_estimators=3, random_state=1))
    add("OzaBaggingADWIN", "cls", lambda: M.OzaBaggingADWINClassifier(NB(), n_estimators=3, random_state=1))
    for alg in ("leveraging_bag", "leveraging_bag_me", "leveraging_bag_half", "leveraging_bag_wt", "leveraging_subag"):
        add("LevBag-" + alg, "cls", lambda alg=alg: M.LeveragingBaggingClassifier(NB(), n_estimators=3, leverage_algorithm=alg, random_state=1))
    add("LevBag-code", "cls", lambda: M.LeveragingBaggingClassifier(NB(), n_estimators=3, enable_code_matrix=True, random_state=1))
    add("ARF", "cls", lambda: M.AdaptiveRandomForestClassifier(n_estimators=3, grace_period=20, split_confidence=0.2, tie_threshold=0.2, drift_detection_method=ADWIN(0.4), warning_detection_method=ADWIN(0.9), random_state=1))
    add("ARF-all", "cls", lambda: M.AdaptiveRandomForestClassifier(n_estimators=3, grace_period=20, split_confidence=0.2, tie_threshold=0.2, max_features=None, disable_weighted_vote=True, drift_detection_method=None, warning_detection_method=None, random_state=1))
    add("ARF-kappa", "cls", lambda: M.AdaptiveRandomForestClassifier(n_estimators=3, grace_period=20, split_confidence=0.2, tie_threshold=0.2, performance_metric="kappa", leaf_prediction="mc", random_state=1))
    add("ARFR", "reg", lambda: M.AdaptiveRandomForestRegressor(n_estimators=3, grace_period=20, split_confidence=0.2, tie_threshold=0.2, drift_detection_method=ADWIN(0.4), warning_detection_method=ADWIN(0.9), random_state=1))
    add("ARFR-mean", "reg", lambda: M.AdaptiveRandomForestRegressor(n_estimators=1, aggregation_method="mean", grace_period=20, split_confidence=0.2, tie_threshold=0.2, drift_detection_criteria="mae", weighted_vote_strategy="mae", random_state=1))
    add("SRP-patches", "cls", lambda: M.StreamingRandomPatchesClassifier(base_estimator=HT(), n_estimators=3, drift_detection_method=ADWIN(0.4), warning_detection_method=ADWIN(0.9), random_state=1))
    add("SRP-subspaces", "cls", lambda: M.StreamingRandomPatchesClassifier(base_estimator=HT(), n_estimators=3, training_method="randomsubspaces", random_state=1))
    add("SRP-resampling", "cls", lambda: M.StreamingRandomPatchesClassifier(base_estimator=HT(), n_estimators=3, training_method="resampling", disable_weighted_vote=True, random_state=1))
    add("BatchIncremental", "cls", lambda: M.BatchIncrementalClassifier(DecisionTreeClassifier(random_state=1), window_size=25, n_estimators=3))
    add("AWE", "cls", lambda: M.AccuracyWeightedEnsembleClassifier(n_estimators=3, n_kept_estimators=4, window_size=25, n_splits=3))
    add("LearnPP", "cls", lambda: M.LearnPPClassifier(DecisionTreeClassifier(random_state=1, max_depth=8), n_estimators=3, n_ensembles=3, window_size=25, random_state=1))
    add("LearnPPNSE", "cls", lambda: M.LearnPPNSEClassifier(DecisionTreeClassifier(random_state=1, max_depth=3), window_size=25, n_estimators=4, pruning="error"))
    add("LearnPPNSE-age", "cls", lambda: M.LearnPPNSEClassifier(DecisionTreeClassifier(random_state=1, max_depth=3), window_size=25, n_estimators=3, pruning="age"))
    add("DWM", "cls", lambda: M.DynamicWeightedMajorityClassifier(n_estimators=3, period=5))
    add("AddExp", "cls", lambda: M.AdditiveExpertEnsembleClassifier(n_estimators=3))
    add("AddExp-oldest", "cls", lambda: M.AdditiveExpertEnsembleClassifier(n_estimators=3, pruning="oldest"))
    add("OnlineBoosting", "cls", lambda: M.OnlineBoostingClassifier(NB(), n_estimators=3, random_state=1))
    add("OnlineAdaC2", "bin", lambda: M.OnlineAdaC2Classifier(NB(), n_estimators=3, random_state=1))
    add("OnlineCSB2", "bin", lambda: M.OnlineCSB2Classifier(NB(), n_estimators=3, random_state=1))
    for a in (1, 2, 3):
        add("OnlineRUSBoost-%d" % a, "bin", lambda a=a: M.OnlineRUSBoostClassifier(NB(), n_estimators=3, algorithm=a, random_state=1))
    add("OnlineUOB", "bin", lambda: M.OnlineUnderOverBaggingClassifier(NB(), n_estimators=3, random_state=1))
    add("OnlineSMOTE", "bin", lambda: M.OnlineSMOTEBaggingClassifier(NB(), n_estimators=3, random_state=1))
    add("OnlineBoosting-knn", "cls", lambda: M.OnlineBoostingClassifier(kn(), n_estimators=2, random_state=1))
    add("OnlineUOB-knn", "bin", lambda: M.OnlineUnderOverBaggingClassifier(kn(), n_estimators=2, random_state=1))
    sgd = lambda: SGDClassifier(max_iter=10, loss="log", random_state=1)
    add("MultiOutput-perc", "ml", lambda: M.MultiOutputLearner(Perceptron(random_state=1)))
    add("MultiOutput-NB", "ml", lambda: M.MultiOutputLearner(NB()))
    add("MultiOutput-reg", "mtreg", lambda: M.MultiOutputLearner(SGDRegressor(max_iter=10, random_state=1)))
    add("CC", "ml", lambda: M.ClassifierChain(sgd(), random_state=1))
    add("CC-random", "ml", lambda: M.ClassifierChain(sgd(), order="random", random_state=1))
    add("PCC", "ml", lambda: M.ProbabilisticClassifierChain(sgd(), random_state=1))
    add("MCC", "ml", lambda: M.MonteCarloClassifierChain(sgd(), M=5, random_state=1))
    add("RC", "mtreg", lambda: M.RegressorChain(SGDRegressor(max_iter=10, random_state=1), random_state=1))
    add("HST", "anom", lambda: HalfSpaceTrees(n_estimators=3, depth=4, window_size=20, size_limit=2, anomaly_threshold=0.68, random_state=1))
    return R


def _ddm():
    from skmultiflow.drift_detection import DDM
    return DDM()


def batch(kind, seed, n, drift=0):
    """training data of one batch: 4 attributes, attribute 2 nominal 0..2"""
    r = np.random.RandomState(seed)
    X = np.round(r.rand(n, 4) * 2, 4)
    X[:, 2] = r.randint(0, 3, n)
    z = X[:, 0] + (X[:, 1] if drift % 2 else -X[:, 1]) + 0.3 * X[:, 2]
    noise = r.rand(n) < 0.08
    if kind in ("cls", "bin", "anom"):
        k = 3 if kind == "cls" else 2
        y = np.clip(((z - z.min()) / (np.ptp(z) + 1e-9) * k), 0, k - 1e-9).astype(int)
        y = np.where(noise, r.randint(0, k, n), (y + drift) % k)
        return X, y
    if kind == "ml":
        return X, np.column_stack([(z > 0.3), (X[:, 1] > 1) ^ noise, (X[:, 3] > X[:, 0])]).astype(int)
    if kind == "reg":
        return X, np.round(3 * z + r.randn(n) * 0.1, 5)
    return X, np.round(np.column_stack([3 * z + r.randn(n) * 0.1, X[:, 3] - z]), 5)


def sharp(kind, seed, n, drift):
    """a clear concept, turned around by drift: detectors fire"""
    r = np.random.RandomState(seed)
    X = np.round(r.rand(n, 4) * 2, 4)
    X[:, 2] = r.randint(0, 3, n)
    a = X[:, 0] if drift % 2 == 0 else 2 - X[:, 1]
    k = {"cls": 3, "bin": 2, "anom": 2}.get(kind)
    if k:
        return X, (np.minimum((a / 2 * k).astype(int), k - 1) + (drift // 2)) % k
    if kind == "ml":
        return X, np.column_stack([(a > 1) ^ (drift // 2 % 2 == 1), (a + X[:, 3] > 2), (X[:, 3] > X[:, 0]) ^ (drift % 2 == 1)]).astype(int)
    z = (3 if drift % 2 == 0 else -9) * a + 5 * (drift // 2)
    return X, np.round(z, 5) if kind == "reg" else np.round(np.column_stack([z, X[:, 3] - z]), 5)


def classes(kind):
    return {"cls": [0, 1, 2], "bin": [0, 1], "anom": [0, 1], "ml": [0, 1]}.get(kind)


def fit(m, kind, X, y):
    c = classes(kind)
    if c is None:
        m.partial_fit(X, y)
    else:
        m.partial_fit(X, y, classes=c)


def ask(m, X):
    p = np.asarray(m.predict(X))
    try:
        q = m.predict_proba(X)
    except (NotImplementedError, AttributeError):
        q = None
    return p, q

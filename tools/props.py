"""Property texts and per-check notes; tools/mkmeta.py turns them into
properties.jsonl and MANIFEST.json."""

NOTES = ("TLA+ with TLC. Each check (a) model-checks the specification of the component exhaustively at small "
         "bounds, (b) replays operation sequences generated by TLC from the specification and seeded random "
         "workloads into the code in /repo through its public API, and (c) has TLC validate every recorded "
         "trace against the same specification. No hooks are compiled into /repo.")

BASE = ("Exhaustive for the specification at the stated small bounds; for the implementation, every recorded run "
        "(all TLC-generated behaviours plus seeded random ones) is a behaviour of the specification. Trusts TLC, "
        "the Java double arithmetic of spec/Real64, and the Python drivers that record public-API observations.")

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, note=BASE, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, note=note, **kw))


D = "src/skmultiflow/data/"
P("C01", "Finite streams deliver every row exactly once, in order",
  "Every stream over a finite data set (in-memory, file, temporal, and the generators with a fixed number of samples) "
  "delivers through successive batches of any sizes exactly the rows it was given, each once, in order (time order for an "
  "unordered temporal stream), with features, targets, time, delay and weight of a row kept together and the target columns "
  "those requested; a request past the end delivers only the rows that are left. Batches already delivered are not altered by later operations. "
  "After every operation the number of remaining samples equals the rows not yet delivered (never negative), has_more is true "
  "iff rows are left, and last_sample is the last delivered batch; restart returns to the first row with no last sample. "
  "The stream's metadata (feature and target counts and names, label values, number of classes) is that of the data.",
  ["inputs", "histories", "configurations"],
  "all data sets, target positions and interleavings of batch reads of any size, peeks and restarts",
  "The tests read one file or array with one or two batch sizes and never go past the end or interleave restarts with batches.",
  [D + "data_stream.py", D + "file_stream.py", D + "temporal_data_stream.py", D + "anomaly_sine_generator.py",
   D + "multilabel_generator.py", D + "regression_generator.py", D + "base_stream.py"],
  [("cursor advanced by each read, slices of the stored rows", D + "data_stream.py: next_sample/restart/n_remaining_samples"),
   ("target column selection at load time", D + "data_stream.py: _load_data/_load_X_y")],
  observe=["next_sample", "last_sample", "has_more_samples", "n_remaining_samples", "restart"])

P("C02", "Seeded generators are reproducible and independent of batching",
  "For every synthetic generator, the sequence of samples produced from construction or restart is a function of its parameters "
  "and seed only: a second instance with the same parameters, or the same instance after restart, produces the same "
  "sequence whatever other generators (or the global random state) are used in between. "
  "Reading it in batches of any sizes yields the same sequence as reading it one sample at a time, each batch has exactly the "
  "requested number of rows, and the last sample reported is the last batch; batches already delivered are not altered by later reads. "
  "Generators are endless: remaining samples is always -1 and has_more always true.",
  ["inputs", "histories", "configurations"],
  "all generators and parameter settings, seeds, batch schedules, interleavings of instances and restarts",
  "The tests compare the first ten samples of one seed against stored values, read in one batch size.",
  [D + f for f in ("agrawal_generator.py", "hyper_plane_generator.py", "led_generator.py", "led_generator_drift.py",
                   "mixed_generator.py", "random_rbf_generator.py", "random_rbf_generator_drift.py",
                   "random_tree_generator.py", "sea_generator.py", "sine_generator.py", "stagger_generator.py",
                   "waveform_generator.py")],
  [("private RandomState re-created on prepare/restart", D + "*_generator.py: _prepare_for_use, next_sample")],
  observe=["next_sample", "restart", "last_sample"])

P("C03", "Synthetic generators label samples by their documented concept",
  "With no noise, every sample of SEA, SINE, MIXED, STAGGER, AGRAWAL, LED, hyperplane and waveform generators carries "
  "the label its documented classification function assigns to its features, features lie in their documented domains, and irrelevant "
  "attributes never influence the label; with noise, labels and features stay in their domains. "
  "When class balancing is on, the labels alternate between the classes. "
  "generate_drift changes the concept to a different one and from then on labels follow the new one.",
  ["inputs", "histories", "configurations"],
  "all classification functions, seeds, balancing/noise settings and positions of generate_drift",
  "The tests pin the first samples of one classification function per generator.",
  [D + f for f in ("sea_generator.py", "sine_generator.py", "mixed_generator.py", "stagger_generator.py",
                   "agrawal_generator.py", "led_generator.py", "led_generator_drift.py", "hyper_plane_generator.py",
                   "waveform_generator.py")],
  [("classification functions and balancing loop", D + "*_generator.py: next_sample, classification_function_*, generate_drift")],
  observe=["next_sample", "generate_drift"])

P("C04", "A concept-drift stream is an order-preserving merge of its two sources",
  "Every sample delivered by a concept-drift stream is the next not-yet-delivered sample of exactly one of its two "
  "sources, so that none is lost, duplicated, reordered or altered later, for any batch sizes; the switch from the first to the second "
  "source follows the documented sigmoid around the drift position (practically only the first long before, only the second long after). "
  "restart makes it replay the same sequence from the beginning when its sources and seed are fixed.",
  ["inputs", "histories", "configurations"],
  "all positions, widths/angles, source streams, seeds and batch schedules",
  "The one test checks ten samples far before the drift position.",
  [D + "concept_drift_stream.py"],
  [("per-sample draw against a sigmoid of the sample index", D + "concept_drift_stream.py: next_sample")],
  observe=["next_sample", "restart", "last_sample"])

EV = "src/skmultiflow/evaluation/"
P("C05", "Prequential evaluation tests each sample before training on it, once, in order",
  "Whatever the batch size, number of models, pre-training size and sample limit: after pre-training on the first pretrain_size "
  "samples, every batch read from the stream is predicted by every model before that model is trained on it, and every model is "
  "trained exactly once on every batch, in stream order, with the labels of those samples; no sample is skipped or used twice. "
  "Batches are read until max_samples samples are accounted for or the stream has no more samples, not one batch further or less. "
  "The first training of a classifier announces the classes of the stream. At the end the stream is restarted iff configured so, and "
  "the evaluated model objects are returned. A second evaluation with the same evaluator behaves the same.",
  ["inputs", "histories", "configurations"],
  "all streams (finite, endless, partly read), batch sizes, pretrain sizes, limits, and 1..n models",
  "The tests run one classifier with batch size 1 and compare summary numbers; order violations or a lost last batch are invisible to them.",
  [EV + "evaluate_prequential.py", EV + "base_evaluator.py"],
  [("test, count, train loop", EV + "evaluate_prequential.py: _train_and_test")],
  observe=["evaluate", "model.predict", "model.partial_fit", "stream.next_sample"])

P("C06", "Delayed evaluation trains on a sample only once its label is available",
  "With delayed labels (in time or in samples), a model is trained on a sample (outside pre-training) only when a batch arrives whose last "
  "arrival time is at or after the sample's availability time, or when the stream is over; samples are handed over in order of "
  "availability (ties in arrival order), each exactly once, with its own label and weight, before the new batch is predicted. "
  "Every sample after pre-training is predicted exactly once by every model, when it arrives, and none is left waiting at the end.",
  ["inputs", "histories", "configurations"],
  "all arrival/availability time sequences (including ties and out-of-order availability), delays, batch sizes, weights, 1..n models",
  "The tests use one monotone delay and compare summary numbers.",
  [EV + "evaluate_prequential_delayed.py", "src/skmultiflow/data/time_manager.py", "src/skmultiflow/data/temporal_data_stream.py"],
  [("queue ordered by availability", "src/skmultiflow/data/time_manager.py: update_queue/get_available_samples/next_sample"),
   ("arrival loop and final drain", EV + "evaluate_prequential_delayed.py: _train_and_test")],
  observe=["evaluate", "model.predict", "model.partial_fit"])

P("C07", "Holdout evaluation never trains on the samples it tests on",
  "In a holdout evaluation, the models are trained exactly once, in order, on every sample read outside the test sets, and never on a "
  "sample of a test set; with a static test set, it is the first test_size samples read and is used for every test; with dynamic test sets, "
  "a fresh set of test_size samples is read for each test. A test of every model takes place whenever another n_wait samples have been used "
  "for training and at the end of the evaluation; reading stops at max_samples or at the end of the stream.",
  ["inputs", "histories", "configurations"],
  "all streams, batch sizes, test sizes, waits, limits, static or dynamic test sets, 1..n models",
  "The tests run one configuration and compare summary numbers.",
  [EV + "evaluate_holdout.py", EV + "base_evaluator.py"],
  [("train loop with periodic tests", EV + "evaluate_holdout.py: _train_and_test")],
  observe=["evaluate", "model.predict", "model.partial_fit"])

P("C08", "Reports are the metrics of the results so far, at the scheduled points",
  "The output file of an evaluation has a row exactly at the scheduled points (each time a multiple of n_wait samples is reached or passed, "
  "the end of a prequential evaluation; each holdout test), in order. "
  "For every requested metric and every model, under that model's name, the mean value is the metric of all its (true, predicted) pairs so far "
  "and the current value is the metric of its last window (n_wait results; the test set for holdout); true_vs_predicted is the last pair. "
  "After evaluation the measurements returned for each model are those of all its results. Metrics of one model are independent of the others.",
  ["inputs", "histories", "configurations"],
  "all task types, metric lists, schedules, model counts and prediction histories",
  "The tests compare one output file for one or two default configurations.",
  [EV + "base_evaluator.py", EV + "evaluation_data_buffer.py", EV + "evaluate_prequential.py", EV + "evaluate_holdout.py",
   EV + "evaluate_prequential_delayed.py"],
  [("metric collection into the data buffer and file rows", EV + "base_evaluator.py: _update_metrics, _update_file")],
  observe=["output_file", "get_mean_measurements", "get_current_measurements"])

ME = "src/skmultiflow/metrics/"
P("C09", "Classification metrics equal their definitions over the results added",
  "For any sequence of (true, predicted, weight) results, resets included, accuracy, kappa, kappa_t, kappa_m, per-class and averaged "
  "precision/recall/F1, geometric mean, majority class, last pair, sample count, and every cell of the confusion matrix equal "
  "their definitions computed from the whole sequence since the last reset (windowed evaluator: from its last window_size results). "
  "Classes not announced at construction are accommodated. Metrics of an empty history are defined and finite.",
  ["inputs", "histories"],
  "all result sequences, class counts, weights, window sizes and resets",
  "The tests check one sequence per metric against stored values; window evictions and weights are barely exercised.",
  [ME + "_classification_performance_evaluator.pyx", ME + "_confusion_matrix.pyx"],
  [("incremental confusion matrix; windowed add/remove", ME + "_classification_performance_evaluator.pyx: add_result")],
  observe=["add_result", "*_score", "confusion_matrix", "reset"])
P("C10", "Multi-label metrics equal their definitions over the results added",
  "For any sequence of multi-label results, resets included, hamming score/loss, exact match and Jaccard index equal their definitions "
  "over the results since the last reset (windowed: over the last window_size), and so do the module-level functions hamming_score, "
  "exact_match and j_index for a whole matrix.",
  ["inputs", "histories"], "all label matrices, result sequences, window sizes and resets",
  "The tests check one sequence against stored values.",
  [ME + "_classification_performance_evaluator.pyx", ME + "_confusion_matrix.pyx", ME + "measure_collection.py"],
  [("per-label confusion counts", ME + "_classification_performance_evaluator.pyx: MultiLabel*")],
  observe=["add_result", "*_score"])
P("C11", "Regression metrics equal their definitions over the results added",
  "For any sequence of (true, predicted) values, resets included, mean square error and average absolute error (single target) and their "
  "averages over targets (AMSE, AMAE, ARMSE) equal their definitions over the results since the last reset (windowed: over the last "
  "window_size results), last pair and sample count included.",
  ["inputs", "histories"], "all value sequences, target counts, window sizes and resets",
  "The tests check one sequence against stored values.",
  [ME + "measure_collection.py"],
  [("running sums with window eviction", ME + "measure_collection.py: (Window)Regression*/MultiTargetRegression* add_result")],
  observe=["add_result", "get_*"])
U = "src/skmultiflow/utils/"
DD = "src/skmultiflow/drift_detection/"
P("C12", "Buffers, windows and confusion matrices hold exactly what was put in",
  "FastBuffer, FastComplexBuffer and SlidingWindow are bounded first-in-first-out queues: after any sequence of additions (singly or "
  "in batches, also larger than the capacity), removals and clears they hold the most recent items in arrival order, never more than the "
  "capacity, rows whole and paired with their targets; size, full, empty and peek agree with the contents; an addition returns the items it displaced, "
  "and data taken in is not altered. ConfusionMatrix and MOLConfusionMatrix hold for every cell exactly the weight added minus that removed, "
  "grow for new classes, refuse impossible updates without side effects, and their sums agree with their cells.",
  ["inputs", "histories"], "all capacities, widths and interleavings of additions, removals and clears; all update sequences of the matrices",
  "The tests push one fixed list through each buffer.",
  [U + "data_structures.py"],
  [("list-backed queues, numpy sliding window", U + "data_structures.py: FastBuffer, FastComplexBuffer, SlidingWindow"),
   ("count matrices", U + "data_structures.py: ConfusionMatrix, MOLConfusionMatrix")],
  observe=["add_element", "get_next_element", "get_queue", "matrix"])
P("C13", "ADWIN's window statistics describe exactly its most recent values",
  "After any sequence of values, ADWIN's width is the number of most recent values it retains, and total and estimation are the sum and "
  "mean of exactly those values; the window shrinks only when detected_change is asked, only at the clock, and only by dropping whole oldest "
  "histogram buckets because some cut of the window is significant at the confidence delta (variance-based bound); a change is reported iff the "
  "window shrank, every significant cut the scan considers is reported, and the number of detections counts the reports. Values of any "
  "magnitude are handled; reset returns to the empty window.",
  ["inputs", "histories", "configurations"], "all value sequences, delta and clock settings, patterns of adding and asking, resets",
  "The tests check the detection indexes of one stream against stored values.",
  [DD + "adwin.py"],
  [("exponential histogram of buckets", DD + "adwin.py: add_element, compress_buckets"), ("cut test", DD + "adwin.py: detected_change, bln_cut_expression")],
  observe=["width", "total", "estimation", "variance", "detected_change", "n_detections"])
P("C14", "Error-rate drift detectors signal exactly by their published tests",
  "DDM, EDDM, HDDM_A, HDDM_W and PageHinkley report change, warning zone and estimation after each value exactly as their published "
  "statistics over the values since the last reset or detected change say: no change before the minimum number of values, change iff the drift "
  "level is crossed, warning iff only the warning level is, the statistic restarted after a change, and reset indistinguishable from a new detector.",
  ["inputs", "histories", "configurations"], "all value sequences, detector parameters and reset points",
  "The tests check the detection indexes of one stream against stored values for the default parameters.",
  [DD + f for f in ("ddm.py", "eddm.py", "hddm_a.py", "hddm_w.py", "page_hinkley.py", "base_drift_detector.py")],
  [("incremental statistics", DD + "*.py: add_element"), ("restart at the value after a change", DD + "*.py: add_element, reset")],
  observe=["add_element", "detected_change", "detected_warning_zone", "estimation"])
P("C15", "KSWIN keeps the latest values and tests the recent against the older part",
  "KSWIN's window holds the most recent values in order, at most window_size of them; once it is full, each added value triggers one "
  "two-sample Kolmogorov-Smirnov test of the most recent stat_size values against a sample of that size drawn evenly from all the older ones, with the exact "
  "p-value; change is reported iff the p-value is at most alpha (and the distance above 0.1), only the recent values are kept then, and before the window is full no change is reported.",
  ["inputs", "histories", "configurations"], "all value sequences, alpha, window and sample sizes, initial data and resets",
  "The tests check that a change is found on one stream.",
  [DD + "kswin.py"],
  [("sliding window and KS test", DD + "kswin.py: add_element")],
  observe=["add_element", "detected_change", "p_value", "window"])
LZ = "src/skmultiflow/lazy/"
P("C16", "kNN learners answer from the k nearest of their newest samples",
  "After any history of training batches, queries and resets, KNNClassifier, KNNADWINClassifier and KNNRegressor answer each query row from exactly the k "
  "nearest, by the chosen metric, of the newest max_window_size training samples: class probabilities are the fractions of votes (columns 0..largest known class), the "
  "prediction is the majority (lowest class on a tie), the regressor's answer the mean or median of their targets; before k samples are there the answer is 0. The answer to "
  "a row does not depend on the other rows of the batch. The ADWIN variant keeps exactly as many newest samples as its ADWIN (fed with whether each sample is classified "
  "correctly) keeps when a change is found. Input data are not altered; reset empties the memory.",
  ["inputs", "histories", "configurations"], "all sample sequences, batch splits, window sizes, k, metrics, leaf sizes and resets",
  "The tests compare the predictions of one generated stream with one configuration against stored values.",
  [LZ + "knn_classifier.py", LZ + "knn_adwin.py", LZ + "knn_regressor.py", LZ + "base_neighbors.py"],
  [("sliding window and KD-tree queries", LZ + "base_neighbors.py: _get_neighbors"), ("window shrinking", LZ + "knn_adwin.py: partial_fit")],
  observe=["predict", "predict_proba", "partial_fit", "reset"])
P("C17", "SAMKNN's memories hold the right samples and the best one answers",
  "After every training sample SAMKNNClassifier's short-term memory is exactly the newest samples, cut (when size adaption is on) to that one of the sizes n, n/2, n/4.. >= "
  "min_stm_size with the best interleaved test-train accuracy; with a long-term memory, cut-off samples go there after removal of those contradicting the neighbourhoods of the "
  "short-term memory, each new sample also cleans it, and when both memories together exceed max_window_size the long-term memory is compressed per class to half as many cluster centres (shifting "
  "the oldest short-term samples into it if it has room); without one the oldest sample is dropped. Predictions come from the memory (short-term, long-term, both) that "
  "predicted most of the samples now in the short-term memory correctly, by distance-weighted or majority vote of the k nearest. Any integer labels are supported.",
  ["inputs", "histories", "configurations"], "all sample sequences, drifts, memory sizes, k, weightings and size-adaption options",
  "The tests compare predictions on one stream with default-like settings against stored values.",
  [LZ + "sam_knn.py", LZ + "src/libNearestNeighbors/nearestNeighbor.cpp"],
  [("memory maintenance", LZ + "sam_knn.py: _partial_fit, clean_samples, size_check_STMLTM, size_check_fade_out"), ("size adaption", LZ + "sam_knn.py: STMSizer")],
  observe=["STMSamples", "STMLabels", "LTMSamples", "LTMLabels", "predict"])
SK = "src/skmultiflow/"
P("C18", "A model is exactly what it was taught since it was made or reset",
  "For every learner of the library: two instances with the same parameters (and integer random_state) that were given the same training calls answer every question alike, whatever "
  "other instances do, whatever happens to numpy's global random state and whatever is asked in between (asking changes nothing). reset() and core.clone() give a learner that behaves "
  "like a newly made one with the same parameters; a deep copy or an unpickled pickle goes on like the original and each then lives its own life. Training, asking and resetting leave the "
  "constructor parameters, the base estimator handed over, and the arrays passed in unchanged.",
  ["inputs", "histories", "configurations"], "all interleavings of training, asking, reset, clone, deep copy and pickling over several instances, for every learner and base learner",
  "The tests train one instance once; none resets, clones, copies or interleaves trained learners (this commit's reset() failed for several of them).",
  [SK + "core/base.py", SK + "meta/", SK + "trees/", SK + "lazy/", SK + "rules/", SK + "bayes/", SK + "prototype/", SK + "neural_networks/", SK + "anomaly_detection/"],
  [("reset and parameters", SK + "core/base.py: BaseSKMObject.reset, get_params, clone"), ("per-learner reset", SK + "meta/*.py, trees/*.py: reset, __configure")],
  observe=["partial_fit", "predict", "predict_proba", "reset", "core.clone", "copy.deepcopy", "pickle", "get_params"])
P("C19", "It does not matter how the training data arrive",
  "For every learner that learns row by row, how the rows are cut into partial_fit calls makes no difference to any later answer (one call, one row at a time, or any cut, with questions in "
  "between). For every learner the form of a call makes no difference: memory layout of X (C, Fortran, strided view), weights left out or all equal to 1, the classes given as a list or an "
  "array, in every call or in the first only; and the answers for a batch of rows are those for the rows asked singly, in any order.",
  ["inputs", "histories", "configurations"], "all cuts of a stream into calls, all forms of the arguments, for every learner",
  "The tests feed each learner in one way (usually one row or one fixed batch at a time); the same data fed in another form raised or gave other models.",
  [SK + "meta/", SK + "trees/", SK + "lazy/", SK + "rules/", SK + "bayes/", SK + "prototype/", SK + "neural_networks/", SK + "anomaly_detection/"],
  [("row loops of partial_fit", SK + "*/*.py: partial_fit"), ("classes and weights", SK + "meta/*.py: partial_fit")],
  observe=["partial_fit", "predict", "predict_proba"])
P("C20", "Every answer is well formed",
  "At any point of its life (before training, in between, after drifts and resets), for any data (constant, duplicated, integer, huge, tiny, negative attributes, skewed classes), every "
  "learner answers a question of n rows with exactly n predictions of the right shape, all finite; a classifier only predicts classes it was told of or has seen (or 0, the default). "
  "predict_proba, where there is one, gives n rows of equal length with column c standing for class c, non-negative, adding up to one (or all zero when nothing is known; the vote totals of SRP, "
  "Learn++ and boosting are not normalised), positive only for known classes, and predict names a class of largest probability. This holds whether or not the classes were announced and with gaps between the labels.",
  ["inputs", "histories", "configurations"], "all training histories, data shapes, label sets and query sizes, for every learner",
  "The tests query single rows of well-behaved streams after much training; several learners answered queries of other sizes or states with the wrong shape or with classes that do not exist.",
  [SK + "meta/", SK + "trees/", SK + "lazy/", SK + "rules/", SK + "bayes/", SK + "anomaly_detection/"],
  [("assembling of answers", SK + "*/*.py: predict, predict_proba")],
  observe=["partial_fit", "predict", "predict_proba", "reset"])
ME = SK + "meta/"
P("C21", "Weighted expert ensembles hold exactly the experts their history gives",
  "DynamicWeightedMajorityClassifier: at every period-th training sample (counted since construction or reset, whatever the cuts into calls) the experts that mispredict it lose weight by the factor beta, weights are scaled "
  "so that the largest is 1, experts below theta leave, and if the weighted majority was wrong a new untrained expert of weight 1 joins, in place of the weakest one when there are n_estimators. "
  "AdditiveExpertEnsembleClassifier: at every sample experts that are wrong lose weight by beta; if the weighted majority (before that) was wrong a new expert joins with gamma times the total weight, and beyond n_estimators the weakest (or, "
  "with pruning='oldest', the oldest) leaves. In both, every remaining expert, the new one included, is trained with the sample and its weight exactly once; predict is the weighted majority of the experts (the lowest class at ties); get_expert_predictions gives one row per expert; there is always between 1 and n_estimators experts.",
  ["inputs", "histories", "configurations"], "all streams, periods, betas, thetas, gammas, prunings, ensemble sizes and cuts into calls",
  "The tests compare the predictions for one stream with naive Bayes experts with stored values; which experts exist and what they weigh is never looked at.",
  [ME + "dynamic_weighted_majority.py", ME + "additive_expert_ensemble.py"],
  [("DWM update", ME + "dynamic_weighted_majority.py: fit_single_sample"), ("AddExp update", ME + "additive_expert_ensemble.py: fit_single_sample")],
  observe=["partial_fit", "predict", "get_expert_predictions", "experts (weights, where visible)", "reset"])
P("C22", "Naive Bayes gives the posterior of all rows it has learnt",
  "After any sequence of weighted training rows NaiveBayes answers with the naive Bayes posterior of exactly those rows: prior by class weight; per numeric attribute and class a Gaussian with the weighted mean and (weight - 1) variance of the "
  "values of that class (a class with a single value or unit weight has density 1 at its mean and 0 elsewhere); per nominal attribute and class the Laplace-corrected share of the value among that class's weight; products that vanish for all classes give zeros. "
  "Rows of weight 0 count for nothing, weight w counts w times; the order of arrival, the cuts into calls and unseen values or classes make no difference; predict is the most probable class (lowest at ties); reset forgets everything.",
  ["inputs", "histories", "configurations"], "all row sequences, weights, attribute mixes, label sets and queries",
  "The test compares one trained model's answers with stored values; weights, nominal attributes and degenerate densities are not exercised.",
  [SK + "bayes/naive_bayes.py", SK + "bayes/utils.py", SK + "trees/gaussian_estimator.py", SK + "trees/_attribute_observer/nominal_attribute_class_observer.py", SK + "trees/_attribute_observer/numeric_attribute_class_observer_gaussian.py"],
  [("statistics", SK + "trees/gaussian_estimator.py: add_observation; nominal_attribute_class_observer.py: update"), ("posterior", SK + "bayes/utils.py: do_naive_bayes_prediction")],
  observe=["partial_fit", "predict", "predict_proba", "reset"])
TR = SK + "trees/"
P("C23", "A Hoeffding tree splits when, where and how the Hoeffding bound says",
  "HoeffdingTreeClassifier's tree is at every moment the one its training rows give: a leaf is looked at whenever at least grace_period weight has come since the last look and it has seen two classes; it splits iff the best split's merit (information gain, Gini, Hellinger) exceeds the second "
  "best's (no split being one of the candidates unless no_preprune) by more than sqrt(R^2 ln(1/split_confidence) / 2n), or that bound is below tie_threshold. Numeric candidates are the ten equidistant points of the observed range with Gaussian-estimated branch weights, nominal ones the "
  "multiway split (unless binary_split) and each value against the rest; children start with the estimated class weights; a value a multiway split has not met gets a branch of its own. A leaf answers with its class weights ('mc'), naive Bayes of the rows it saw ('nb'), or whichever of the two "
  "was right more often there ('nba'). model_measurements, get_model_rules and get_model_description describe that tree; remove_poor_atts, nb_threshold, stop_mem_management and sample weights act as documented.",
  ["inputs", "histories", "configurations"], "all row sequences, weights, attribute mixes, criteria, confidences, tie thresholds, leaf predictions and queries",
  "The tests compare predictions, node counts and texts for a few streams and mostly default options with stored values; when a split happens, with which counts and what each leaf knows is not settled by them.",
  [TR + "hoeffding_tree.py", TR + "_nodes/base.py", TR + "_nodes/htc_nodes.py", TR + "_split_criterion/", TR + "_attribute_observer/", TR + "_attribute_test/", TR + "gaussian_estimator.py"],
  [("split decision", TR + "hoeffding_tree.py: _attempt_to_split, _hoeffding_bound"), ("candidates", TR + "_attribute_observer/*class_observer*.py"), ("leaf answers", TR + "_nodes/htc_nodes.py")],
  observe=["partial_fit", "predict", "predict_proba", "model_measurements", "get_model_rules", "get_model_description", "reset"])
P("C24", "Online ensembles draw training by their law and replace the worst member",
  "OzaBagging, OzaBaggingADWIN, LeveragingBagging, OnlineBoosting, AdaC2, CSB2, RUSBoost, UnderOverBagging and SMOTEBagging teach every member each row a random number of times, independent between members and rows, with the mean of the published scheme (Poisson(1), Poisson(w), 1+Poisson(1), "
  "a fair coin, ...; for boosting the weight lambda handed from member to member and adjusted by each one's error share; for class-imbalanced schemes scaled with the class and sampling rate), with the row's own label (or its output code), weight and all announced classes, and with no row that was not given "
  "except synthetic positives. After each row every member's correctness is added to its ADWIN; when a detected change raised a member's estimated error, the member with the largest estimated error, and only it, is reset with a fresh detector. Probabilities are the members' probabilities weighted "
  "(boosting: log((1-e)/e)), summed and normalised; predictions are their argmax; output codes are balanced and decoded by counting agreeing members.",
  ["inputs", "histories", "random draws"], "all row sequences, batches, weights, member answers, random draws, numbers of members and classes",
  "The tests compare final predictions of single seeded runs; who is trained how often, when a member is replaced and how the members are weighted is only sampled indirectly.",
  [ME + "oza_bagging.py", ME + "oza_bagging_adwin.py", ME + "leverage_bagging.py", ME + "online_boosting.py", ME + "online_adac2.py", ME + "online_csb2.py", ME + "online_rus_boost.py", ME + "online_under_over_bagging.py", ME + "online_smote_bagging.py"],
  [("draws and weights", ME + "*: partial_fit"), ("replacement", ME + "*: detected_change branches"), ("combination", ME + "*: predict_proba")],
  observe=["partial_fit", "predict", "predict_proba", "reset", "calls made to the base estimators"])
P("C25", "Chunk ensembles train, weigh, vote and prune members by their published rules",
  "BatchIncremental, AccuracyWeightedEnsemble, Learn++.NSE and Learn++ learn exactly when window_size rows have come, whatever the batches: one new member (Learn++: a sub-ensemble) is trained with that chunk's rows, labels and weights. BatchIncremental: the last n_estimators members vote, the most "
  "votes win. AWE: a member is worth max(0, MSE of guessing - its MSE on the last chunk; the new one's by cross-validation with n_splits folds); n_kept_estimators are kept, a new member displaces the worst only when worth more; the n_estimators best vote with their worth. Learn++.NSE: rows "
  "weighted by the ensemble's error, members' errors (above 1/2 counted as 1/2) averaged with the sigmoid of their age, votes log(1/mean error), pruned by age or largest error beyond n_estimators. Learn++: half-window train and test draws from the distribution, hypotheses and their composite must err less than "
  "error_threshold under it, right rows' probability is scaled by the normalised error, training stops when all is right, the last n_ensembles vote with log(1/error). Predictions are labels among those announced, probabilities or votes come in their order.",
  ["inputs", "histories", "random draws"], "all row sequences, batchings, label sets, members' answers, draws, window sizes and pruning options",
  "The tests compare predictions of one seeded stream per ensemble with stored values; weights, pruning and the rows members get are not looked at.",
  [ME + "batch_incremental.py", ME + "accuracy_weighted_ensemble.py", ME + "learn_nse.py", ME + "learn_pp.py"],
  [("chunks", ME + "*: partial_fit"), ("weights", ME + "accuracy_weighted_ensemble.py: compute_weight; learn_nse.py: partial_fit; learn_pp.py: __fit_batch"), ("votes", ME + "*: predict")],
  observe=["partial_fit", "predict", "predict_proba", "reset", "calls made to the base estimators"])
P("C26", "Adaptive forests replace a drifting tree by the one grown since its warning",
  "AdaptiveRandomForestClassifier, AdaptiveRandomForestRegressor and StreamingRandomPatchesClassifier teach every member each row (with its label) Poisson(lambda) times (random subspaces: exactly once), independently between members; in the classifier forest with the row's weight. Each member feeds whether it then misses the "
  "row (regressor: its standardised error before training) to its own warning and drift detector. A warning starts a new background tree, trained like the member from then on, with fresh detectors; a drift replaces the tree by the background tree and its detectors if there is one, otherwise the tree starts again "
  "empty, and its evaluation starts anew. The nodes of a forest's trees consider max_features features, drawn independently. Patches members see a subspace of the requested number of features, drawn from all combinations and distinct while there are enough, redrawn with every new tree. Votes are the trees' normalised votes weighted by their accuracy (weight 1 while it is 0 or when disabled); the "
  "regressor answers with the mean weighted against the trees' errors, or the median.",
  ["inputs", "histories", "random draws", "configurations"], "all row sequences, weights, batches, detectors, draws, subspace modes and numbers of members",
  "The tests compare predictions of single seeded runs with stored values; when trees are replaced, what they were taught since and which features they see is not looked at.",
  [ME + "adaptive_random_forests.py", ME + "adaptive_random_forest_regressor.py", ME + "streaming_random_patches.py", TR + "arf_hoeffding_tree.py", TR + "arf_hoeffding_tree_regressor.py"],
  [("members", ME + "adaptive_random_forests.py: ARFBaseLearner; adaptive_random_forest_regressor.py: ARFRegBaseLearner; streaming_random_patches.py: StreamingRandomPatchesBaseLearner"), ("votes", ME + "*: predict, predict_proba"), ("subspaces", ME + "streaming_random_patches.py: _init_ensemble")],
  observe=["partial_fit", "predict", "predict_proba", "reset", "values given to the detectors", "rows given to the trees"])

P("C27", "Chains and multi-output learners keep one well-taught member per output",
  "MultiOutputLearner teaches one copy of its base estimator per target with the rows, that target, and the classes and sample weights its methods take, and answers with the members' predictions and probabilities of class 1, column by column; it takes the type of its base estimator. ClassifierChain, "
  "ProbabilisticClassifierChain, MonteCarloClassifierChain and RegressorChain teach member k the rows extended by the true outputs earlier in one order (the given one; 'random': any permutation, drawn at fit) and ask it with the predictions (predict_proba: probabilities) of the members before it; "
  "answers come back in the order of the outputs. The probabilistic chain answers with the most probable label vector; the Monte Carlo chain with the greedy one unless one of M sampled vectors is more probable (with many, the most probable). fit starts over, partial_fit continues, after reset the next lesson starts over; "
  "the base estimator given and the caller's data are left alone.",
  ["inputs", "histories", "configurations"], "all row sequences, numbers of outputs, orders, base estimators and their signatures, queries",
  "The tests compare predictions of seeded runs with logistic or SGD members with stored values; which features and targets each member is taught and asked with is not settled by them.",
  [ME + "multi_output_learner.py", ME + "classifier_chains.py", ME + "regressor_chains.py"],
  [("lessons", ME + "classifier_chains.py, regressor_chains.py, multi_output_learner.py: fit, partial_fit"), ("answers", ME + "classifier_chains.py: ClassifierChain.predict, predict_proba; ProbabilisticClassifierChain.predict; MonteCarloClassifierChain.predict, P")],
  observe=["fit", "partial_fit", "predict", "predict_proba", "reset", "lessons of the base estimators"])
TF = SK + "transform/"
P("C28", "Transforms and Pipeline pass on exactly the rows their windows say",
  "For every row sequence, cut into calls in any way and given as arrays or lists, transforms answer row by row and leave the caller's samples as they are. WindowedStandardScaler subtracts the mean and divides by the deviation of the last window_size rows before the row (a constant feature is only centred; an empty window changes "
  "nothing); WindowedMinmaxScaler scales by the smallest and largest value of that window; MissingValuesCleaner replaces exactly the missing values by 0, the given value, or the mean, median or mode of the known values of the attribute in the last window_size rows including this one (the given value where none is known); "
  "OneHotToCategorical puts, for each group, the position of its first 1 in the place of its smallest attribute and keeps all others in order. partial_fit adds rows to the window and answers the transform itself. Pipeline hands each step what the step before gives, learning with partial_fit_transform (or partial_fit and transform; "
  "fit where the step has it), passes classes only to steps that take them, skips steps of None, teaches and asks the last step the transformed rows with the caller's labels, and does not teach anything when predicting.",
  ["inputs", "histories", "configurations"], "all row sequences, window sizes, strategies, missing markers, groups, batchings and step lists",
  "The tests transform one stored array per transform and run one pipeline; windows that roll over, other batchings, markers other than nan, mixed attributes and several steps are not settled by them.",
  [TF + "windowed_standard_scaler.py", TF + "windowed_minmax_scaler.py", TF + "missing_values_cleaner.py", TF + "one_hot_to_categorical.py", SK + "core/pipeline.py"],
  [("windows", TF + "*: transform, partial_fit"), ("steps", SK + "core/pipeline.py: fit, partial_fit, predict, partial_fit_predict")],
  observe=["transform", "partial_fit", "partial_fit_transform", "fit", "predict", "partial_fit_predict"])
P("C29", "Regression trees split where the variance falls and answer by their leaves",
  "HoeffdingTreeRegressor, iSOUPTreeRegressor and StackedSingleTargetHoeffdingTreeRegressor keep per leaf weight, sums and sums of squares of the targets. Each grace_period of weight a leaf ranks, per attribute, its best split (numeric: x <= each value met; nominal: one value against the rest, or one branch per value unless "
  "binary_split) by the fall of the standard deviation (several targets: of the mean variance), weighted by the branches; 0 if a branch has weight below 5. It splits if the best has merit and beats the second (no split counts, unless no_preprune) by the Hoeffding bound, or that is below tie_threshold; remove_poor_atts drops attributes behind by "
  "more than twice the bound, and numeric values so far behind are forgotten. Children start with the split's statistics and the leaf's perceptron. A perceptron (per target) learns each row int(weight) times, on inputs and targets standardised over the whole stream, its weights then scaled to an absolute sum of 1; 'mean' leaves answer the mean, 'adaptive' "
  "ones, per target, the predictor with the least faded error; values unseen by a nominal split get its node's mean, and a new branch when learnt.",
  ["inputs", "histories", "configurations"], "all row sequences with numeric and nominal attributes, weights, batches, options and numbers of targets",
  "The tests compare predictions and one description of seeded streams with stored values; when and where leaves split with other options, weights, nominal attributes or constant targets is not settled by them.",
  [TR + "hoeffding_tree_regressor.py", TR + "isoup_tree.py", TR + "stacked_single_target_hoeffding_tree_regressor.py", TR + "_nodes/htr_nodes.py", TR + "_nodes/isouptr_nodes.py", TR + "_nodes/sst_htr_nodes.py", TR + "_split_criterion/variance_reduction_split_criterion.py",
   TR + "_attribute_observer/numeric_attribute_regression_observer.py"],
  [("learning", TR + "hoeffding_tree_regressor.py, isoup_tree.py: _partial_fit"), ("splitting", TR + "hoeffding_tree_regressor.py, isoup_tree.py: _attempt_to_split"), ("leaves", TR + "_nodes/*: learn_one, predict_one"), ("standardising", TR + "*: normalize_sample, normalize_target_value")],
  observe=["partial_fit", "predict", "reset", "get_model_description", "model_measurements"])
P("C30", "Decision rules grow by the best condition, lose drifted rules and vote by cover",
  "VeryFastDecisionRulesClassifier (info_gain, hellinger) keeps rules in order and a default rule, each with class weights and attribute statistics. A row goes to every rule whose conditions all hold (ordered_rules: only the first), to the default rule if none. A rule that covers a row first tells its detector whether its heaviest class (0 if it has "
  "none) was wrong; at a change, if heavier than min_weight, it is removed and the next rules still get the row. Each grace_period of weight since its last attempt a rule with two classes ranks, per attribute, its best test (x <= / > one of 10 points, = / != a value) and takes the best if its merit beats the second by the Hoeffding bound, that is below "
  "tie_threshold, or it is alone; it keeps the side where the classes differ more (hellinger) or the purest side met in the ranking (info_gain), with that side's weights, and starts its statistics afresh. A condition on the same attribute and direction is tightened. remove_poor_atts drops attributes further behind than the bound. The default rule does so "
  "while there are fewer than max_rules, giving the side to a new last rule and keeping the rest. The votes are those of the first covering rule, of the one with the largest normalised vote, or the sum of the normalised ones (else the default rule's): class weights, or naive Bayes from nb_threshold on. Rules, description and counts agree with that.",
  ["inputs", "histories", "configurations"], "all row sequences with numeric and nominal attributes, weights, batches and options; drift detectors are scripted",
  "The tests compare predictions and a description of seeded streams with stored values; covering, removal at a drift, tightening, weights and the three ways of voting with other options are not settled by them.",
  ["src/skmultiflow/rules/" + f for f in ["very_fast_decision_rules.py", "base_rule.py", "base_predicate.py", "info_gain_rule_criterion.py", "hellinger_distance_criterion.py", "nominal_attribute_class_observer.py", "numeric_attribute_class_observer.py"]],
  [("learning", "src/skmultiflow/rules/very_fast_decision_rules.py: _partial_fit"), ("growing", "src/skmultiflow/rules/very_fast_decision_rules.py: _create_rule, _expand_rule"), ("voting", "src/skmultiflow/rules/very_fast_decision_rules.py: first_hit, weighted_max, weighted_sum"), ("covering", "src/skmultiflow/rules/base_rule.py: covers_instance")],
  observe=["partial_fit", "predict", "predict_proba", "reset", "get_model_rules", "get_model_description", "get_model_measurements"])

From 74824a96cfd70095cde7f173d44eadc6da28d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 01/93] fix: finite streams report 0 remaining samples when
 read past their end

A request past the last row moved the cursor beyond the data, so that
n_remaining_samples() became negative; -1 is the documented value for an
infinite stream.
---
 src/skmultiflow/data/data_stream.py          | 2 +-
 src/skmultiflow/data/file_stream.py          | 2 +-
 src/skmultiflow/data/multilabel_generator.py | 2 +-
 src/skmultiflow/data/regression_generator.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/data/data_stream.py b/src/skmultiflow/data/data_stream.py
index 0e6bae0..fc64cb4 100755
--- a/src/skmultiflow/data/data_stream.py
+++ b/src/skmultiflow/data/data_stream.py
@@ -388,7 +388,7 @@ class DataStream(Stream):
             Remaining number of samples.
 
         """
-        return self.n_samples - self.sample_idx
+        return max(0, self.n_samples - self.sample_idx)
 
     def print_df(self):
         """
diff --git a/src/skmultiflow/data/file_stream.py b/src/skmultiflow/data/file_stream.py
index eb52215..533c7ba 100644
--- a/src/skmultiflow/data/file_stream.py
+++ b/src/skmultiflow/data/file_stream.py
@@ -283,7 +283,7 @@ class FileStream(Stream):
             Remaining number of samples.
 
         """
-        return self.n_samples - self.sample_idx
+        return max(0, self.n_samples - self.sample_idx)
 
     def get_all_samples(self):
         """
diff --git a/src/skmultiflow/data/multilabel_generator.py b/src/skmultiflow/data/multilabel_generator.py
index d8446f3..47e938c 100644
--- a/src/skmultiflow/data/multilabel_generator.py
+++ b/src/skmultiflow/data/multilabel_generator.py
@@ -156,4 +156,4 @@ class MultilabelGenerator(Stream):
         int
             Number of remaining samples.
         """
-        return self.n_samples - self.sample_idx
+        return max(0, self.n_samples - self.sample_idx)
diff --git a/src/skmultiflow/data/regression_generator.py b/src/skmultiflow/data/regression_generator.py
index 754f3e8..cbc28cd 100644
--- a/src/skmultiflow/data/regression_generator.py
+++ b/src/skmultiflow/data/regression_generator.py
@@ -148,7 +148,7 @@ class RegressionGenerator(Stream):
         int
             Number of samples remaining.
         """
-        return self.n_samples - self.sample_idx
+        return max(0, self.n_samples - self.sample_idx)
 
     def has_more_samples(self):
         """
-- 
2.43.0


From cf4740ff8426a8f36cfc853320334704f1cd4fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 02/93] fix: exhausted MultilabelGenerator and
 AnomalySineGenerator have no more samples

---
 src/skmultiflow/data/anomaly_sine_generator.py | 3 +++
 src/skmultiflow/data/multilabel_generator.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/skmultiflow/data/anomaly_sine_generator.py b/src/skmultiflow/data/anomaly_sine_generator.py
index cba101a..968b7d6 100644
--- a/src/skmultiflow/data/anomaly_sine_generator.py
+++ b/src/skmultiflow/data/anomaly_sine_generator.py
@@ -141,6 +141,9 @@ class AnomalySineGenerator(Stream):
         """
         return self.n_samples - self.sample_idx
 
+    def has_more_samples(self):
+        return self.n_remaining_samples() > 0
+
     def get_data_info(self):
         """ Retrieves minimum information from the stream
 
diff --git a/src/skmultiflow/data/multilabel_generator.py b/src/skmultiflow/data/multilabel_generator.py
index 47e938c..6b4e5c0 100644
--- a/src/skmultiflow/data/multilabel_generator.py
+++ b/src/skmultiflow/data/multilabel_generator.py
@@ -157,3 +157,6 @@ class MultilabelGenerator(Stream):
             Number of remaining samples.
         """
         return max(0, self.n_samples - self.sample_idx)
+
+    def has_more_samples(self):
+        return self.n_remaining_samples() > 0
-- 
2.43.0


From f498351988465eeb42435415bf0a4901898a06c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:14 +0000
Subject: [PATCH 03/93] fix: multi-target RegressionGenerator has as many
 target rows as samples

---
 src/skmultiflow/data/regression_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/regression_generator.py b/src/skmultiflow/data/regression_generator.py
index cbc28cd..92c7e18 100644
--- a/src/skmultiflow/data/regression_generator.py
+++ b/src/skmultiflow/data/regression_generator.py
@@ -135,7 +135,7 @@ class RegressionGenerator(Stream):
                                          n_informative=self.n_informative,
                                          n_targets=self.n_targets,
                                          random_state=self._random_state)
-        self.y = np.resize(self.y, (self.y.size, self.n_targets))
+        self.y = np.resize(self.y, (self.n_samples, self.n_targets))
 
         self.target_names = ["target_" + str(i) for i in range(self.n_targets)]
         self.feature_names = ["att_num_" + str(i) for i in range(self.n_num_features)]
-- 
2.43.0


From d450bdd4b519e463204a5156b7c8ed4e186bd33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:37 +0000
Subject: [PATCH 04/93] fix: TemporalDataStream orders the rows of a DataFrame,
 with or without y

data[np.argsort(time)] selects columns of a DataFrame, y=None raised a
TypeError, and the in-place sort of time could reorder the caller's Series.
---
 src/skmultiflow/data/temporal_data_stream.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/data/temporal_data_stream.py b/src/skmultiflow/data/temporal_data_stream.py
index 5ebdebc..564dfa1 100644
--- a/src/skmultiflow/data/temporal_data_stream.py
+++ b/src/skmultiflow/data/temporal_data_stream.py
@@ -132,18 +132,20 @@ class TemporalDataStream(DataStream):
         if not ordered:
             if time is not None:
                 # order data based on time
-                data = data[np.argsort(time)]
+                order = np.argsort(np.asarray(time))
+                data = data.iloc[order] if isinstance(data, pd.DataFrame) else data[order]
                 # order y based on time
-                y = y[np.argsort(time)]
+                if y is not None:
+                    y = y.iloc[order] if isinstance(y, pd.DataFrame) else y[order]
                 # order sample_weight if available
                 if self.sample_weight is not None:
-                    self.sample_weight = self.sample_weight[np.argsort(time)]
+                    self.sample_weight = np.asarray(self.sample_weight)[order]
                 # if delay is not by time, order time and delay
                 if not isinstance(sample_delay, int):
                     # order sample_delay, check if not single delay
-                    self.sample_delay = self.sample_delay[np.argsort(time)]
+                    self.sample_delay = self.sample_delay[order]
                     # order time
-                    self.time.sort()
+                    self.time = self.time[order]
             else:
                 raise TypeError("'time' is None, data cannot be ordered.")
         super().__init__(data, y, target_idx, n_targets, cat_features, name, allow_nan)
-- 
2.43.0


From 994684ee534a9a9c796d91f48cfe075112680347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:37 +0000
Subject: [PATCH 05/93] fix: restarting a TemporalDataStream clears the whole
 last sample

---
 src/skmultiflow/data/temporal_data_stream.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/skmultiflow/data/temporal_data_stream.py b/src/skmultiflow/data/temporal_data_stream.py
index 564dfa1..0294be5 100644
--- a/src/skmultiflow/data/temporal_data_stream.py
+++ b/src/skmultiflow/data/temporal_data_stream.py
@@ -150,6 +150,13 @@ class TemporalDataStream(DataStream):
                 raise TypeError("'time' is None, data cannot be ordered.")
         super().__init__(data, y, target_idx, n_targets, cat_features, name, allow_nan)
 
+    def restart(self):
+        """ Restarts the stream. """
+        super().restart()
+        self.current_sample_time = None
+        self.current_sample_delay = None
+        self.current_sample_weight = None
+
     def next_sample(self, batch_size=1):
         """
         Get next sample.
-- 
2.43.0


From ac2513f0268e24d38acd1d4761e0e14090342669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:45 +0000
Subject: [PATCH 06/93] fix: LEDGeneratorDrift instances do not share their
 attribute permutation

---
 src/skmultiflow/data/led_generator_drift.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skmultiflow/data/led_generator_drift.py b/src/skmultiflow/data/led_generator_drift.py
index b63222f..1bd2e41 100644
--- a/src/skmultiflow/data/led_generator_drift.py
+++ b/src/skmultiflow/data/led_generator_drift.py
@@ -81,8 +81,7 @@ class LEDGeneratorDrift(LEDGenerator):
         self.n_drift_features = n_drift_features
         self.name = "Led Generator with drift"
 
-        for i in range(self._TOTAL_ATTRIBUTES_INCLUDING_NOISE):
-            self._numberAttribute[i] = i
+        self._numberAttribute = np.arange(self._TOTAL_ATTRIBUTES_INCLUDING_NOISE)
 
         if self.has_noise and self.n_drift_features > 0:
             random_int = self._random_state.randint(7)
-- 
2.43.0


From 3f0abd7280212e1666e33ce0af941aa6f8f8c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:45 +0000
Subject: [PATCH 07/93] fix: ConceptDriftStream keeps the shape of multi-target
 labels

The targets of a batch were flattened into one vector also when the
sources have several targets, and last_sample() had another shape than
next_sample().
---
 src/skmultiflow/data/concept_drift_stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/concept_drift_stream.py b/src/skmultiflow/data/concept_drift_stream.py
index 5ee8018..3890b26 100644
--- a/src/skmultiflow/data/concept_drift_stream.py
+++ b/src/skmultiflow/data/concept_drift_stream.py
@@ -165,7 +165,10 @@ class ConceptDriftStream(Stream):
             self.current_sample_x[j, :] = X
             self.current_sample_y[j, :] = y
 
-        return self.current_sample_x, self.current_sample_y.flatten()
+        if self.n_targets < 2:
+            self.current_sample_y = self.current_sample_y.flatten()
+
+        return self.current_sample_x, self.current_sample_y
 
     def restart(self):
         self._random_state = check_random_state(self.random_state)
-- 
2.43.0


From 84a68e3817cd2698ba52b638081bb93c6a20ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:45 +0000
Subject: [PATCH 08/93] fix: ConceptDriftStream with one endless source is
 endless

---
 src/skmultiflow/data/concept_drift_stream.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/data/concept_drift_stream.py b/src/skmultiflow/data/concept_drift_stream.py
index 3890b26..dceeaff 100644
--- a/src/skmultiflow/data/concept_drift_stream.py
+++ b/src/skmultiflow/data/concept_drift_stream.py
@@ -111,10 +111,11 @@ class ConceptDriftStream(Stream):
         int
             Remaining number of samples. -1 if infinite (e.g. generator)
         """
-        n_samples = self.stream.n_remaining_samples() + self.drift_stream.n_remaining_samples()
-        if n_samples < 0:
-            n_samples = -1
-        return n_samples
+        n_stream = self.stream.n_remaining_samples()
+        n_drift_stream = self.drift_stream.n_remaining_samples()
+        if n_stream < 0 or n_drift_stream < 0:
+            return -1
+        return n_stream + n_drift_stream
 
     def has_more_samples(self):
         """ Checks if stream has more samples.
-- 
2.43.0


From 2be5566d7ac1fa60d67c3b1d8e91532c8a104500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:01 +0000
Subject: [PATCH 09/93] fix: hamming score counts labels correctly predicted as
 absent

---
 .../metrics/_classification_performance_evaluator.pyx      | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index c37cbca..dc378c6 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -665,11 +665,10 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
             Hamming score.
 
         """
-        try:
-            return np.sum(self.confusion_matrix.data[:,1,1]) / \
-                   (self.n_samples * self.confusion_matrix.n_labels)
-        except ZeroDivisionError:
+        if self.n_samples == 0:
             return 0.0   # ill-defined, return 0.0
+        return np.sum(self.confusion_matrix.data[:,0,0] + self.confusion_matrix.data[:,1,1]) / \
+            (self.n_samples * self.confusion_matrix.n_labels)
 
     cpdef double hamming_loss_score(self):
         """ Hamming loss score.
-- 
2.43.0


From bc97ab2374c58b362fc2d08fdf3d2191a7d261ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:01 +0000
Subject: [PATCH 10/93] fix: f1_score of a given class in binary problems

---
 .../metrics/_classification_performance_evaluator.pyx         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index dc378c6..a88e215 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -358,10 +358,10 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double total
         cdef int n_classes = self.confusion_matrix.n_classes
         cdef double sum_f1
-        if n_classes == 2:
+        if n_classes == 2 and class_value == -1:
             # Binary case
             return self._f1_per_class(1)
-        if class_value == -1 and class_value == -1:
+        elif class_value == -1:
             # Multi-class case, calculate 'macro' average
             sum_f1 = 0.0
             for i in self.confusion_matrix.classes:
-- 
2.43.0


From ff852dcecdfc4c74a622f4b417f8bd07f1ff7ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:31 +0000
Subject: [PATCH 11/93] fix: resetting an evaluator keeps its number of classes
 or labels

---
 .../metrics/_classification_performance_evaluator.pyx       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index a88e215..418813c 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -566,7 +566,7 @@ cdef class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEva
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__(window_size=self.window_size)
+        self.__init__(n_classes=self._init_n_classes, window_size=self.window_size)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
@@ -740,7 +740,7 @@ cdef class MultiLabelClassificationPerformanceEvaluator:
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__()
+        self.__init__(n_labels=self._init_n_labels)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
@@ -873,7 +873,7 @@ cdef class WindowMultiLabelClassificationPerformanceEvaluator(MultiLabelClassifi
     def reset(self):
         """ Reset the evaluator to its initial state.
         """
-        self.__init__(window_size=self.window_size)
+        self.__init__(n_labels=self._init_n_labels, window_size=self.window_size)
 
     def get_info(self):
         """ Get (current) information about the performance evaluator.
-- 
2.43.0


From 43ffc2d9233637f92419a060229d222c3fe95533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:31 +0000
Subject: [PATCH 12/93] fix: weighted classification metrics are normalised by
 the total weight

---
 .../_classification_performance_evaluator.pyx     | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
index 418813c..f1652e5 100644
--- a/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
+++ b/src/skmultiflow/metrics/_classification_performance_evaluator.pyx
@@ -111,8 +111,8 @@ cdef class ClassificationPerformanceEvaluator:
             Accuracy.
 
         """
-        return (self.confusion_matrix.sum_diag / self.n_samples)\
-            if self.n_samples > 0 else 0.0
+        return (self.confusion_matrix.sum_diag / self._total_weight_observed)\
+            if self._total_weight_observed > 0.0 else 0.0
 
     @property
     def total_weight_observed(self):
@@ -154,8 +154,8 @@ cdef class ClassificationPerformanceEvaluator:
 
         if self._total_weight_observed > 0.0:
             for i in self.confusion_matrix.classes:
-                estimation_row = self.confusion_matrix.sum_row[i] / self.n_samples
-                estimation_col = self.confusion_matrix.sum_col[i] / self.n_samples
+                estimation_row = self.confusion_matrix.sum_row[i] / self._total_weight_observed
+                estimation_col = self.confusion_matrix.sum_col[i] / self._total_weight_observed
                 pe += estimation_row * estimation_col
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
@@ -191,8 +191,7 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double p0 = self.accuracy_score()
         cdef double pe = 0.0
         if self._total_weight_observed > 0.0:
-            if self.n_samples > 0:
-                pe = self.weight_correct_no_change_classifier / self.n_samples
+            pe = self.weight_correct_no_change_classifier / self._total_weight_observed
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
         return 0.0
@@ -225,8 +224,7 @@ cdef class ClassificationPerformanceEvaluator:
         cdef double p0 = self.accuracy_score()
         cdef double pe = 0.0
         if self._total_weight_observed > 0.0:
-            if self.n_samples > 0:
-                pe = self.weight_majority_classifier / self.n_samples
+            pe = self.weight_majority_classifier / self._total_weight_observed
             # if ill-defined, return 0.0
             return (p0 - pe) / (1.0 - pe) if pe != 1.0 else 0.0
         return 0.0
@@ -529,6 +527,7 @@ cdef class WindowClassificationPerformanceEvaluator(ClassificationPerformanceEva
             correct_no_change_classifier_correction = remove_tuple[4]
             # Update confusion matrix by removing the oldest samples
             self.confusion_matrix[(y_true_remove, y_pred_remove)] = -weight_remove
+            self._total_weight_observed -= weight_remove
             # Update the majority and correct-no-change classifiers' statistics
             self.weight_majority_classifier -= weight_remove if majority_classifier_correction == 1 else 0.0
             self.weight_correct_no_change_classifier -= \
-- 
2.43.0


From f72c1acbd9f207531c4b4dd694b89afcf122ac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 13/93] fix: delayed samples keep their own weights until they
 are used for training

---
 src/skmultiflow/data/time_manager.py          | 318 +++++++++---------
 .../evaluate_prequential_delayed.py           |   6 +-
 2 files changed, 165 insertions(+), 159 deletions(-)

diff --git a/src/skmultiflow/data/time_manager.py b/src/skmultiflow/data/time_manager.py
index da38ba5..9a20682 100644
--- a/src/skmultiflow/data/time_manager.py
+++ b/src/skmultiflow/data/time_manager.py
@@ -1,156 +1,162 @@
-import numpy as np
-import pandas as pd
-
-
-class TimeManager(object):
-    """ TimeManager
-
-    Manage instances that are related to a timestamp and a delay.
-
-    Parameters
-    ----------
-    timestamp: numpy.datetime64
-        Current timestamp of the stream. This timestamp is always
-        updated as the stream is processed to simulate when
-        the labels will be available for each sample.
-
-    """
-
-    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
-    _USE_SAMPLE_WEIGHT = True
-
-    def __init__(self, timestamp):
-        # get initial timestamp
-        self.timestamp = timestamp
-        # create dataframe to save time data
-        # X = features
-        # y_true = true label/target
-        # y_pred = predicted label/target for each model being evaluated
-        # arrival_time = arrival timestamp of the sample
-        # available_time = timestamp when the sample label will be available
-        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
-        # transform queue into datetime if timestamps are not int
-        if isinstance(self.timestamp, int):
-            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
-            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
-
-    def _sort_queue(self):
-        # sort values by available_time
-        self.queue = self.queue.sort_values(by='available_time')
-        self.queue = self.queue.reset_index(drop=True)
-
-    def _cleanup_samples(self, batch_size):
-        # check if has batch_size samples to be removed
-        if self.queue.shape[0] - batch_size >= 0:
-            # drop samples that were already used
-            self.queue = self.queue.iloc[batch_size:]
-            # reset indexes
-            self.queue = self.queue.reset_index(drop=True)
-        else:
-            # drop all samples
-            self.queue = self.queue.iloc[0:0]
-
-    def update_timestamp(self, timestamp):
-        """ update_timestamp
-
-        Update current timestamp of the stream.
-
-        Parameters
-        ----------
-        timestamp: datetime64
-            Current timestamp of the stream. This timestamp is always
-            updated as the stream is processed to simulate when
-            the labels will be available for each sample.
-
-        """
-
-        self.timestamp = timestamp
-
-    def get_available_samples(self):
-        """ get_available_samples
-
-        Get available samples of the stream, i.e., samples that have
-        their labels available (available_time <= timestamp).
-
-        Returns
-        -------
-        tuple
-            A tuple containing the data, their true labels and predictions.
-
-        """
-
-        # get samples that have label available
-        samples = self.queue[self.queue['available_time'] <= self.timestamp]
-        # remove these samples from queue
-        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
-        # get X, y_true and y_pred
-        X = np.array(samples["X"].values.tolist())
-        y_true = np.array(samples["y_true"].values.tolist())
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # return X, y_true and y_pred for the dequeued samples
-        return X, y_true, y_pred
-
-    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
-        # check if weight is None to create a list
-        if sample_weight is None:
-            # set _sample_weight as False, indicating that there is no weight
-            self._USE_SAMPLE_WEIGHT = False
-            sample_weight = np.full(X.shape[0], None)   # noqa
-        # create daraframe for current samples
-        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
-                                      arrival_time, available_time)),
-                             columns=self._COLUMN_NAMES)
-        # append new data to queue
-        self.queue = self.queue.append(frame)
-        # sort queue
-        self._sort_queue()
-
-    def has_more_samples(self):
-        """ Checks if queue has more samples.
-
-        Returns
-        -------
-        Boolean
-            True if queue has more samples.
-
-        """
-
-        return self.queue.shape[0] > 0
-
-    def next_sample(self, batch_size=1):
-        """ Returns next sample from the queue.
-
-        If there is enough instances to supply at least batch_size samples, those
-        are returned. Otherwise, the remaining are returned.
-
-        Parameters
-        ----------
-        batch_size: int (optional, default=1)
-            The number of instances to return.
-
-        Returns
-        -------
-        tuple or tuple list
-            Returns the next batch_size instances.
-            For general purposes the return can be treated as a numpy.ndarray.
-
-        """
-        if self.queue.shape[0] - batch_size >= 0:
-            samples = self.queue[:batch_size]
-        else:
-            samples = self.queue
-        # get X
-        X = np.array(samples["X"].values.tolist())
-        # get y_true
-        y_true = np.array(samples["y_true"].values.tolist())
-        # get y_pred
-        y_pred = np.array(samples["y_pred"].values.tolist())
-        # check if sample_weight are being used
-        if self._USE_SAMPLE_WEIGHT:
-            sample_weight = np.array(samples["weight"].values.tolist())
-        else:
-            sample_weight = None
-        # remove samples from queue
-        self._cleanup_samples(batch_size)
-        # return X, y_true, y_pred, and weight for the dequeued samples
-        return X, y_true, y_pred, sample_weight
+import numpy as np
+import pandas as pd
+
+
+class TimeManager(object):
+    """ TimeManager
+
+    Manage instances that are related to a timestamp and a delay.
+
+    Parameters
+    ----------
+    timestamp: numpy.datetime64
+        Current timestamp of the stream. This timestamp is always
+        updated as the stream is processed to simulate when
+        the labels will be available for each sample.
+
+    """
+
+    _COLUMN_NAMES = ["X", "y_true", "y_pred", "sample_weight", "arrival_time", "available_time"]
+    _USE_SAMPLE_WEIGHT = True
+
+    def __init__(self, timestamp):
+        # get initial timestamp
+        self.timestamp = timestamp
+        # create dataframe to save time data
+        # X = features
+        # y_true = true label/target
+        # y_pred = predicted label/target for each model being evaluated
+        # arrival_time = arrival timestamp of the sample
+        # available_time = timestamp when the sample label will be available
+        self.queue = pd.DataFrame(columns=self._COLUMN_NAMES)
+        # transform queue into datetime if timestamps are not int
+        if isinstance(self.timestamp, int):
+            self.queue['arrival_time'] = pd.to_datetime(self.queue['arrival_time'])
+            self.queue['available_time'] = pd.to_datetime(self.queue['available_time'])
+
+    def _sort_queue(self):
+        # sort values by available_time
+        self.queue = self.queue.sort_values(by='available_time')
+        self.queue = self.queue.reset_index(drop=True)
+
+    def _cleanup_samples(self, batch_size):
+        # check if has batch_size samples to be removed
+        if self.queue.shape[0] - batch_size >= 0:
+            # drop samples that were already used
+            self.queue = self.queue.iloc[batch_size:]
+            # reset indexes
+            self.queue = self.queue.reset_index(drop=True)
+        else:
+            # drop all samples
+            self.queue = self.queue.iloc[0:0]
+
+    def update_timestamp(self, timestamp):
+        """ update_timestamp
+
+        Update current timestamp of the stream.
+
+        Parameters
+        ----------
+        timestamp: datetime64
+            Current timestamp of the stream. This timestamp is always
+            updated as the stream is processed to simulate when
+            the labels will be available for each sample.
+
+        """
+
+        self.timestamp = timestamp
+
+    def get_available_samples(self):
+        """ get_available_samples
+
+        Get available samples of the stream, i.e., samples that have
+        their labels available (available_time <= timestamp).
+
+        Returns
+        -------
+        tuple
+            A tuple containing the data, their true labels, predictions and weights
+            (None if there are no weights).
+
+        """
+
+        # get samples that have label available
+        samples = self.queue[self.queue['available_time'] <= self.timestamp]
+        # remove these samples from queue
+        self.queue = self.queue[self.queue['available_time'] > self.timestamp]
+        # get X, y_true and y_pred
+        X = np.array(samples["X"].values.tolist())
+        y_true = np.array(samples["y_true"].values.tolist())
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # return X, y_true, y_pred and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
+
+    def update_queue(self, X, y_true, y_pred, sample_weight, arrival_time, available_time):
+        # check if weight is None to create a list
+        if sample_weight is None:
+            # set _sample_weight as False, indicating that there is no weight
+            self._USE_SAMPLE_WEIGHT = False
+            sample_weight = np.full(X.shape[0], None)   # noqa
+        # create daraframe for current samples
+        frame = pd.DataFrame(list(zip(X, y_true, y_pred, sample_weight,
+                                      arrival_time, available_time)),
+                             columns=self._COLUMN_NAMES)
+        # append new data to queue
+        self.queue = self.queue.append(frame)
+        # sort queue
+        self._sort_queue()
+
+    def has_more_samples(self):
+        """ Checks if queue has more samples.
+
+        Returns
+        -------
+        Boolean
+            True if queue has more samples.
+
+        """
+
+        return self.queue.shape[0] > 0
+
+    def next_sample(self, batch_size=1):
+        """ Returns next sample from the queue.
+
+        If there is enough instances to supply at least batch_size samples, those
+        are returned. Otherwise, the remaining are returned.
+
+        Parameters
+        ----------
+        batch_size: int (optional, default=1)
+            The number of instances to return.
+
+        Returns
+        -------
+        tuple or tuple list
+            Returns the next batch_size instances.
+            For general purposes the return can be treated as a numpy.ndarray.
+
+        """
+        if self.queue.shape[0] - batch_size >= 0:
+            samples = self.queue[:batch_size]
+        else:
+            samples = self.queue
+        # get X
+        X = np.array(samples["X"].values.tolist())
+        # get y_true
+        y_true = np.array(samples["y_true"].values.tolist())
+        # get y_pred
+        y_pred = np.array(samples["y_pred"].values.tolist())
+        # check if sample_weight are being used
+        if self._USE_SAMPLE_WEIGHT:
+            sample_weight = np.array(samples["sample_weight"].values.tolist())
+        else:
+            sample_weight = None
+        # remove samples from queue
+        self._cleanup_samples(batch_size)
+        # return X, y_true, y_pred, and weight for the dequeued samples
+        return X, y_true, y_pred, sample_weight
diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 0488b8c..a1c6a13 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -437,8 +437,8 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 self.time_manager.update_timestamp(arrival_time[-1])
 
                 # get delayed samples to update model before predicting a new batch
-                X_delayed, y_true_delayed, y_pred_delayed = self.time_manager.\
-                    get_available_samples()
+                X_delayed, y_true_delayed, y_pred_delayed, sample_weight_delayed = \
+                    self.time_manager.get_available_samples()
 
                 # transpose prediction matrix to model-sample again
                 y_pred_delayed = self._transform_predictions_model(y_pred_delayed)
@@ -449,7 +449,7 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
                 # before getting new samples, update classifiers with samples
                 # that are already available
                 self._update_classifiers(X=X_delayed, y=y_true_delayed,
-                                         sample_weight=sample_weight)
+                                         sample_weight=sample_weight_delayed)
 
                 # predict samples and get predictions
                 y_pred = self._predict_samples(X)
-- 
2.43.0


From 2b0863d5c89d06472bdfb6457ced45948fd76c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 14/93] fix: samples whose labels become available together are
 used in arrival order

---
 src/skmultiflow/data/time_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/data/time_manager.py b/src/skmultiflow/data/time_manager.py
index 9a20682..0f91f94 100644
--- a/src/skmultiflow/data/time_manager.py
+++ b/src/skmultiflow/data/time_manager.py
@@ -36,7 +36,7 @@ class TimeManager(object):
 
     def _sort_queue(self):
         # sort values by available_time
-        self.queue = self.queue.sort_values(by='available_time')
+        self.queue = self.queue.sort_values(by='available_time', kind='mergesort')
         self.queue = self.queue.reset_index(drop=True)
 
     def _cleanup_samples(self, batch_size):
-- 
2.43.0


From 9e810d48f9e26ca25ece6272742d1a98d1c3c482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:02 +0000
Subject: [PATCH 15/93] fix: delayed evaluation without pre-training

---
 src/skmultiflow/evaluation/evaluate_prequential_delayed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index a1c6a13..489097d 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -391,6 +391,8 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
             self.actual_max_samples = self.max_samples
 
         self.first_run = True
+        # the timestamp is set when the first samples arrive
+        self.time_manager = TimeManager(None)
         if self.pretrain_size > 0:
             print('Pre-training on {} sample(s).'.format(self.pretrain_size))
 
-- 
2.43.0


From d9d5a07cb0314bc339a4aeed52c1730b4092e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:32 +0000
Subject: [PATCH 16/93] fix: multi-label evaluation without pre-training passes
 the label values as classes

---
 src/skmultiflow/evaluation/evaluate_prequential.py       | 7 +++++--
 .../evaluation/evaluate_prequential_delayed.py           | 9 +++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/evaluation/evaluate_prequential.py b/src/skmultiflow/evaluation/evaluate_prequential.py
index f5db596..f690a9a 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential.py
@@ -342,13 +342,16 @@ class EvaluatePrequential(StreamEvaluator):
                     # Train
                     if first_run:
                         for i in range(self.n_models):
-                            if self._task_type != constants.REGRESSION and \
-                               self._task_type != constants.MULTI_TARGET_REGRESSION:
+                            if self._task_type == constants.CLASSIFICATION:
                                 # Accounts for the moment of training beginning
                                 self.running_time_measurements[i].compute_training_time_begin()
                                 self.model[i].partial_fit(X, y, self.stream.target_values)
                                 # Accounts the ending of training
                                 self.running_time_measurements[i].compute_training_time_end()
+                            elif self._task_type == constants.MULTI_TARGET_CLASSIFICATION:
+                                self.running_time_measurements[i].compute_training_time_begin()
+                                self.model[i].partial_fit(X, y, unique(self.stream.target_values))
+                                self.running_time_measurements[i].compute_training_time_end()
                             else:
                                 self.running_time_measurements[i].compute_training_time_begin()
                                 self.model[i].partial_fit(X, y)
diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 489097d..588e9c1 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -293,14 +293,19 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
             # Train
             if self.first_run:
                 for i in range(self.n_models):
-                    if self._task_type != constants.REGRESSION and \
-                            self._task_type != constants.MULTI_TARGET_REGRESSION:
+                    if self._task_type == constants.CLASSIFICATION:
                         # Accounts for the moment of training beginning
                         self.running_time_measurements[i].compute_training_time_begin()
                         self.model[i].partial_fit(X=X, y=y, classes=self.stream.target_values,
                                                   sample_weight=sample_weight)
                         # Accounts the ending of training
                         self.running_time_measurements[i].compute_training_time_end()
+                    elif self._task_type == constants.MULTI_TARGET_CLASSIFICATION:
+                        self.running_time_measurements[i].compute_training_time_begin()
+                        self.model[i].partial_fit(X=X, y=y,
+                                                  classes=unique(self.stream.target_values),
+                                                  sample_weight=sample_weight)
+                        self.running_time_measurements[i].compute_training_time_end()
                     else:
                         self.running_time_measurements[i].compute_training_time_begin()
                         self.model[i].partial_fit(X=X, y=y, sample_weight=sample_weight)
-- 
2.43.0


From 76452d34a76809a92d296d8e27a6896743310ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:35 +0000
Subject: [PATCH 17/93] fix: a delayed evaluation too short for a periodic
 report reports its results

---
 src/skmultiflow/evaluation/evaluate_prequential_delayed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
index 588e9c1..a3aaa68 100644
--- a/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
+++ b/src/skmultiflow/evaluation/evaluate_prequential_delayed.py
@@ -489,6 +489,10 @@ class EvaluatePrequentialDelayed(StreamEvaluator):
 
             self._end_time = timer()
 
+        if self.update_count == 0:
+            # The evaluation was too short for a periodic report
+            self._update_metrics()
+
         # Flush file buffer, in case it contains data
         self._flush_file_buffer()
 
-- 
2.43.0


From 068887c5468c2120a08e6be331198a9f6590904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:50 +0000
Subject: [PATCH 18/93] fix: FastComplexBuffer stores a one-row matrix as one
 element

---
 src/skmultiflow/utils/data_structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/utils/data_structures.py b/src/skmultiflow/utils/data_structures.py
index 9d64e2d..d994289 100644
--- a/src/skmultiflow/utils/data_structures.py
+++ b/src/skmultiflow/utils/data_structures.py
@@ -253,12 +253,12 @@ class FastComplexBuffer(object):
                 return None
 
         if not is_list:
-            if size == 1:
+            if dim == 1:
                 items = [element_list.tolist()]
             else:
                 items = element_list.tolist()
         else:
-            if size == 1:
+            if not hasattr(element_list[0], 'append'):
                 items = [element_list]
             else:
                 items = element_list
-- 
2.43.0


From 12b15400a3ba900ee9d4ba2099d557ba95e93099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:50 +0000
Subject: [PATCH 19/93] fix: confusion matrices grow for new classes and refuse
 to remove unseen ones

---
 src/skmultiflow/utils/data_structures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/utils/data_structures.py b/src/skmultiflow/utils/data_structures.py
index d994289..82804a8 100644
--- a/src/skmultiflow/utils/data_structures.py
+++ b/src/skmultiflow/utils/data_structures.py
@@ -430,7 +430,7 @@ class ConfusionMatrix(object):
             if (0 <= i < m) and (0 <= j < n):
                 return self._update(i, j, weight)
             else:
-                new_size = np.max(i, j) + 1
+                new_size = max(i, j) + 1
                 if new_size <= m:
                     return False
                 else:
@@ -465,7 +465,7 @@ class ConfusionMatrix(object):
             return False
 
         m, n = self.confusion_matrix.shape
-        if (i <= m) and (i >= 0) and (j <= n) and (j >= 0):
+        if (i < m) and (i >= 0) and (j < n) and (j >= 0):
             return self._remove(i, j)
 
         else:
@@ -715,7 +715,7 @@ class MOLConfusionMatrix(object):
         if true is None or pred is None or target is None:
             return False
         m, n, p = self.confusion_matrix.shape
-        if (target <= m) and (target >= 0) and (true <= n) and (true >= 0) and (pred >= 0) and (pred <= p):
+        if (target < m) and (target >= 0) and (true < n) and (true >= 0) and (pred >= 0) and (pred < p):
             return self._remove(target, true, pred)
         else:
             return False
-- 
2.43.0


From b5773e134d2c20332a5456538a7de103735f9400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:38 +0000
Subject: [PATCH 20/93] fix: variance of an empty ADWIN window

---
 src/skmultiflow/drift_detection/adwin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/drift_detection/adwin.py b/src/skmultiflow/drift_detection/adwin.py
index 9ca59db..d00c077 100644
--- a/src/skmultiflow/drift_detection/adwin.py
+++ b/src/skmultiflow/drift_detection/adwin.py
@@ -135,6 +135,8 @@ class ADWIN(BaseDriftDetector):
 
     @property
     def variance(self):
+        if self._width == 0:
+            return 0
         return self._variance / self._width
 
     @property
-- 
2.43.0


From c0ce98ff16fc9daabb4eb2e6a314705ab73206f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:12 +0000
Subject: [PATCH 21/93] fix: KNNRegressor predicts each row from its own
 neighbours

---
 src/skmultiflow/lazy/knn_regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/lazy/knn_regressor.py b/src/skmultiflow/lazy/knn_regressor.py
index 0d999d4..543c070 100644
--- a/src/skmultiflow/lazy/knn_regressor.py
+++ b/src/skmultiflow/lazy/knn_regressor.py
@@ -151,7 +151,7 @@ class KNNRegressor(BaseNeighbors, RegressorMixin):
         r, c = get_dimensions(X)
         predictions = np.zeros(r)
         for i in range(r):
-            predictions[i] = self._predict(X)
+            predictions[i] = self._predict(np.asarray([X[i]]))
         return predictions
 
     def _predict(self, X):
-- 
2.43.0


From ba8ca66dc1f38fcd3fc521484e63211e34dde96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:50 +0000
Subject: [PATCH 22/93] fix: SAMKNN without size adaption survives a full
 window

---
 src/skmultiflow/lazy/sam_knn.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index cdfc9cc..6aacfa5 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -185,8 +185,9 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
             STMShortened = True
             self._STMSamples = np.delete(self._STMSamples, 0, 0)
             self._STMLabels = np.delete(self._STMLabels, 0, 0)
-            self.STMDistances[:len(self._STMLabels), :len(self._STMLabels)] = \
-                self.STMDistances[1:len(self._STMLabels) + 1, 1:len(self._STMLabels) + 1]
+            if self.STMSizeAdaption is not None:
+                self.STMDistances[:len(self._STMLabels), :len(self._STMLabels)] = \
+                    self.STMDistances[1:len(self._STMLabels) + 1, 1:len(self._STMLabels) + 1]
 
             if self.STMSizeAdaption == 'maxACCApprox':
                 keyset = list(self.interLeavedPredHistories.keys())
@@ -227,9 +228,10 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
                         self._LTMSamples, self._LTMLabels)
                     self._STMSamples = np.delete(self._STMSamples, shiftRange, 0)
                     self._STMLabels = np.delete(self._STMLabels, shiftRange, 0)
-                    self.STMDistances[:len(self._STMLabels), :len(self._STMLabels)] = \
-                        self.STMDistances[numShifts:len(self._STMLabels) + numShifts,
-                                          numShifts:len(self._STMLabels) + numShifts]
+                    if self.STMSizeAdaption is not None:
+                        self.STMDistances[:len(self._STMLabels), :len(self._STMLabels)] = \
+                            self.STMDistances[numShifts:len(self._STMLabels) + numShifts,
+                                              numShifts:len(self._STMLabels) + numShifts]
                     for i in shiftRange:
                         self.LTMPredHistory.popleft()
                         self.STMPredHistory.popleft()
-- 
2.43.0


From 44dd027c4bccd3e36f3aab3dd4c16cad39acc454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:50 +0000
Subject: [PATCH 23/93] fix: SAMKNN handles class labels above 127

---
 src/skmultiflow/lazy/sam_knn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index 6aacfa5..ffcfc83 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -470,9 +470,9 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         nnIndices = libNearestNeighbor.nArgMin(numNeighbours, distances)
 
         if not isinstance(labels, type(np.array([]))):
-            labels = np.asarray(labels, dtype=np.int8)
+            labels = np.asarray(labels, dtype=np.int32)
         else:
-            labels = np.int8(labels)
+            labels = np.int32(labels)
 
         predLabels = libNearestNeighbor.mostCommon(labels[nnIndices])
 
@@ -484,9 +484,9 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         nnIndices = libNearestNeighbor.nArgMin(numNeighbours, distances)
         sqrtDistances = np.sqrt(distances[nnIndices])
         if not isinstance(labels, type(np.array([]))):
-            labels = np.asarray(labels, dtype=np.int8)
+            labels = np.asarray(labels, dtype=np.int32)
         else:
-            labels = np.int8(labels)
+            labels = np.int32(labels)
 
         predLabels = libNearestNeighbor.getLinearWeightedLabels(labels[nnIndices], sqrtDistances)
         return predLabels
-- 
2.43.0


From d5adde8a8020ab79c3afa1bc25f64fad867f94c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:21 +0000
Subject: [PATCH 24/93] fix: reset from the parameters, not from their printed
 form

---
 src/skmultiflow/core/base.py    | 5 ++---
 src/skmultiflow/lazy/sam_knn.py | 1 +
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/core/base.py b/src/skmultiflow/core/base.py
index b9e1d3a..824eac1 100644
--- a/src/skmultiflow/core/base.py
+++ b/src/skmultiflow/core/base.py
@@ -351,9 +351,8 @@ class BaseSKMObject(BaseEstimator):
         """
         # non-optimized default implementation; override if a better
         # method is possible for a given object
-        command = ''.join([line.strip() for line in self.__repr__().split()])
-        command = command.replace(str(self.__class__.__name__), 'self.__init__')
-        exec(command)
+        self.__init__(**self.get_params(deep=False))
+        return self
 
     def get_info(self):
         """ Collects and returns the information about the configuration of the estimator
diff --git a/src/skmultiflow/lazy/sam_knn.py b/src/skmultiflow/lazy/sam_knn.py
index ffcfc83..f0d2d44 100644
--- a/src/skmultiflow/lazy/sam_knn.py
+++ b/src/skmultiflow/lazy/sam_knn.py
@@ -112,6 +112,7 @@ class SAMKNNClassifier(BaseSKMObject, ClassifierMixin):
         super().__init__()
         self.n_neighbors = n_neighbors
         self.weighting = weighting
+        self.max_window_size = max_window_size
         self.max_wind_size = max_window_size
         self.ltm_size = ltm_size
         self.min_stm_size = min_stm_size
-- 
2.43.0


From df5099487a7e72ce3d1069de82db5342138d0b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:21 +0000
Subject: [PATCH 25/93] fix: removing poor attributes survives the no-split
 suggestion

---
 src/skmultiflow/trees/hoeffding_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index eac6137..d7aa38f 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -599,7 +599,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
                     poor_atts = set()
                     # Add any poor attribute to set
                     for i in range(len(best_split_suggestions)):
-                        if best_split_suggestions[i] is not None:
+                        if best_split_suggestions[i].split_test is not None:
                             split_atts = best_split_suggestions[i].split_test.\
                                 get_atts_test_depends_on()
                             if len(split_atts) == 1:
-- 
2.43.0


From 1944e7adc86f8992027b04543d4b8669ef0e96cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:21 +0000
Subject: [PATCH 26/93] fix: regression trees learn from a single attribute

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index fb3a5e1..bca168c 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -186,8 +186,8 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
         self.samples_seen = 0
         self.sum_of_values = 0.0
         self.sum_of_squares = 0.0
-        self.sum_of_attribute_values = []
-        self.sum_of_attribute_squares = []
+        self.sum_of_attribute_values = 0.0
+        self.sum_of_attribute_squares = 0.0
         self.random_state = random_state
 
     @property
-- 
2.43.0


From a23e4acd9b83017a05b36aa287c1d50f27e17595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:21 +0000
Subject: [PATCH 27/93] fix: resetting a regression tree forgets its
 normalisation statistics

---
 src/skmultiflow/trees/arf_hoeffding_tree_regressor.py |  4 +++-
 src/skmultiflow/trees/hoeffding_tree_regressor.py     | 10 ++++++++++
 src/skmultiflow/trees/isoup_tree.py                   |  7 +++++++
 3 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py b/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
index 4c49d0b..223b1c8 100644
--- a/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/arf_hoeffding_tree_regressor.py
@@ -1,3 +1,4 @@
+from skmultiflow.trees.hoeffding_tree import HoeffdingTreeClassifier
 from skmultiflow.trees import HoeffdingTreeRegressor
 from skmultiflow.utils import check_random_state
 
@@ -118,7 +119,8 @@ class ARFHoeffdingTreeRegressor(HoeffdingTreeRegressor):
                                                       random_state=random_state)
 
     def reset(self):
-        super().reset()
+        # The normalisation statistics describe the stream: they outlive the tree
+        HoeffdingTreeClassifier.reset(self)
         self._random_state = check_random_state(self.random_state)
 
     def new_instance(self):
diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index bca168c..bcebe69 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -190,6 +190,16 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
         self.sum_of_attribute_squares = 0.0
         self.random_state = random_state
 
+    def reset(self):
+        """ Reset the Hoeffding Tree to default values."""
+        super().reset()
+        self.samples_seen = 0
+        self.sum_of_values = 0.0
+        self.sum_of_squares = 0.0
+        self.sum_of_attribute_values = 0.0
+        self.sum_of_attribute_squares = 0.0
+        return self
+
     @property
     def leaf_prediction(self):
         return self._leaf_prediction
diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index 89e442f..ce87de6 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -197,6 +197,13 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
         # To add the n_targets property once
         self._n_targets_set = False
 
+    def reset(self):
+        """ Reset the tree to default values."""
+        super().reset()
+        self.examples_seen = 0
+        self._n_targets_set = False
+        return self
+
     @property
     def leaf_prediction(self):
         return self._leaf_prediction
-- 
2.43.0


From 81df3bf14a8e60d32ae284063a9f6c6b6b209d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:21 +0000
Subject: [PATCH 28/93] fix: resetting ARFR keeps max_features

---
 src/skmultiflow/meta/adaptive_random_forest_regressor.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forest_regressor.py b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
index 1a1dd24..39762b8 100644
--- a/src/skmultiflow/meta/adaptive_random_forest_regressor.py
+++ b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
@@ -348,7 +348,6 @@ class AdaptiveRandomForestRegressor(RegressorMixin, AdaptiveRandomForestClassifi
         # TODO: check whether this is enough
 
         self.ensemble = None
-        self.max_features = 0
         self.instances_seen = 0
         self._random_state = check_random_state(self.random_state)
 
-- 
2.43.0


From 962c9a6ba53fb4189729151fe674505c0456dfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:21 +0000
Subject: [PATCH 29/93] fix: AWE votes for each row separately

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index a73382a..4172e0a 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -287,7 +287,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         if sum_weights == 0:
             sum_weights = 1  # safety check: if sum_weights = 0, do as if sum_weights = 1
 
-        weighted_votes = [dict()] * N
+        weighted_votes = [dict() for _ in range(N)]
         for model in ensemble:
             classifier = model.estimator
             prediction = classifier.predict(X)
-- 
2.43.0


From 40488fd25144c10db9dff5ba1bc1d242842ab53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:21 +0000
Subject: [PATCH 30/93] fix: OzaBagging and OzaBaggingADWIN reset everything
 they learned

---
 src/skmultiflow/meta/oza_bagging.py       | 1 +
 src/skmultiflow/meta/oza_bagging_adwin.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index eb634a6..625298f 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -114,6 +114,7 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         if hasattr(self.base_estimator, "reset"):
             self.base_estimator.reset()
         self.actual_n_estimators = self.n_estimators
+        self.classes = None
         self.ensemble = [cp.deepcopy(self.base_estimator) for _ in range(self.actual_n_estimators)]
         self._random_state = check_random_state(self.random_state)
 
diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 7bc0bde..10b4dd5 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -100,6 +100,7 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
         self.adwin_ensemble = [cp.deepcopy(ADWIN()) for _ in range(self.actual_n_estimators)]
 
     def reset(self):
+        super().reset()
         self.__configure()
         return self
 
-- 
2.43.0


From 2be5ecbfe8045c9c205dc68a279606ded5fde64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:21 +0000
Subject: [PATCH 31/93] fix: OzaBagging gives each row its own weight and every
 member the classes

---
 src/skmultiflow/meta/oza_bagging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/oza_bagging.py b/src/skmultiflow/meta/oza_bagging.py
index 625298f..e89d527 100644
--- a/src/skmultiflow/meta/oza_bagging.py
+++ b/src/skmultiflow/meta/oza_bagging.py
@@ -184,7 +184,9 @@ class OzaBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson()
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit(
+                            [X[j]], [y[j]], self.classes,
+                            None if sample_weight is None else [sample_weight[j]])
         return self
 
     def __adjust_ensemble_size(self):
-- 
2.43.0


From 24a18f7a8c45aec2cb7ac1d70b663e40295089cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:50 +0000
Subject: [PATCH 32/93] fix: LearnPPNSE accepts the classes as a list

---
 src/skmultiflow/meta/learn_nse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 4d93004..1130c40 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -295,7 +295,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
     def _fill_missing_probs(self, probs, obs_classes, all_classes):
         proba_ordered = np.zeros(
-            (probs.shape[0], all_classes.size), dtype=np.float
+            (probs.shape[0], len(all_classes)), dtype=float
         )
         sorted_classes = np.argsort(all_classes)
         # Find positions to insert existing classes' probs to the complete set
-- 
2.43.0


From 48eb0d906ad262ee1e87441a3298e286d2bbc1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:50 +0000
Subject: [PATCH 33/93] fix: Learn++ ensembles forget the classes on reset

---
 src/skmultiflow/meta/learn_nse.py | 1 +
 src/skmultiflow/meta/learn_pp.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 1130c40..b962a4f 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -345,6 +345,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         return np.argmax(votes, axis=1)
 
     def reset(self):
+        self.classes = None
         self.ensemble = []
         self.ensemble_weights = []
         self.bkts = []
diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 2975e8e..e95ac92 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -128,6 +128,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.window_size = window_size
 
     def reset(self):
+        self.classes = None
         self.ensembles = []
         self.ensemble_weights = []
         self.X_batch = []
-- 
2.43.0


From c7ecaff619b75e2d708b722a89afa696d47f44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:50 +0000
Subject: [PATCH 34/93] fix: SRP probabilities have one row per sample and one
 column per class

---
 src/skmultiflow/meta/streaming_random_patches.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index c478389..12ab316 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -291,11 +291,13 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
         if self.ensemble is None:
             self._init_ensemble(n_features=n_features)
-            return np.zeros(n_samples)
+            return np.zeros((n_samples, 1))
 
         for i in range(n_samples):
             y_proba.append(self._predict_proba(np.asarray([X[i]])))
-        return np.asarray(y_proba)
+        # Members may know a different number of classes for each sample
+        n_classes = max(len(votes) for votes in y_proba)
+        return np.asarray([np.pad(votes, (0, n_classes - len(votes))) for votes in y_proba])
 
     def _predict_proba(self, X):
         y_proba = np.asarray([0.])
-- 
2.43.0


From 71f65688dd96343859de8bf6e3f1889a5d12fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:50 +0000
Subject: [PATCH 35/93] fix: SRP with more members than subspaces terminates

---
 src/skmultiflow/meta/streaming_random_patches.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index 12ab316..f15b5aa 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -362,7 +362,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                     i = 0
                     while len(self._subspaces) < self.n_estimators:
                         i = 0 if i == len(self._subspaces) else i
-                        np.vstack((self._subspaces, self._subspaces[i]))
+                        self._subspaces = np.vstack((self._subspaces, self._subspaces[i]))
                         i += 1
                 # For high dimensionality we can't generate all combinations
                 # as it is too expensive (memory). On top of that, the chance
-- 
2.43.0


From 710cd804e083a4783b4bc5dd5eb1907ee3c1701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:13 +0000
Subject: [PATCH 36/93] fix: chains with a random order answer in the order of
 the labels

---
 src/skmultiflow/meta/classifier_chains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/classifier_chains.py b/src/skmultiflow/meta/classifier_chains.py
index c221c61..c81d796 100644
--- a/src/skmultiflow/meta/classifier_chains.py
+++ b/src/skmultiflow/meta/classifier_chains.py
@@ -234,7 +234,8 @@ class ClassifierChain(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, MultiO
             if j > 0:
                 X = np.column_stack([X, Y[:, j - 1]])
             Y[:, j] = self.ensemble[j].predict_proba(X)[:, 1]
-        return Y
+        # Unset the chain order (back to default)
+        return Y[:, np.argsort(self.chain)]
 
     def reset(self):
         self.__configure()
@@ -358,7 +359,8 @@ class ProbabilisticClassifierChain(ClassifierChain):
                     Yp[n, :] = y_[:].copy()
                     w_max = w_
 
-        return Yp
+        # Unset the chain order (back to default)
+        return Yp[:, np.argsort(self.chain)]
 
 
 class MonteCarloClassifierChain(ProbabilisticClassifierChain):
-- 
2.43.0


From 8f40b01d215c440c123f176fd7a0767678b88de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:12 +0000
Subject: [PATCH 37/93] fix: an empty regression tree answers every row

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index bcebe69..f7a9623 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -420,8 +420,8 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
 
         """
         predictions = []
+        r, _ = get_dimensions(X)
         if self.samples_seen > 0 and self._tree_root is not None:
-            r, _ = get_dimensions(X)
             for i in range(r):
                 node = self._tree_root.filter_instance_to_leaf(X[i], None, -1).node
                 if node.is_leaf():
@@ -432,7 +432,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     predictions.append(node.stats[1] / node.stats[0])
         else:
             # Model is empty
-            predictions.append(0.0)
+            predictions = [0.0] * r
         return np.asarray(predictions)
 
     def predict_proba(self, X):
-- 
2.43.0


From 28f2cc0a8d24b430873f10e44cf7eac063283723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:33 +0000
Subject: [PATCH 38/93] fix: online boosting and bagging give each row its own
 weight and every member the classes

---
 src/skmultiflow/meta/online_adac2.py              | 3 ++-
 src/skmultiflow/meta/online_boosting.py           | 3 ++-
 src/skmultiflow/meta/online_csb2.py               | 3 ++-
 src/skmultiflow/meta/online_rus_boost.py          | 3 ++-
 src/skmultiflow/meta/online_smote_bagging.py      | 7 ++++---
 src/skmultiflow/meta/online_under_over_bagging.py | 3 ++-
 6 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index a75a0c2..47d7e8d 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -219,6 +219,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
@@ -226,7 +227,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                     if self.ensemble[i].predict([X[j]])[0] == 1 and y[j] == 1:
                         self.lam_tp[i] += self.cost_positive * lam
                         self.wacc[i] = (self.lam_tp[i] + self.lam_tn[i]) / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index bb7fa18..9066061 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -206,13 +206,14 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.lam_sc[i] += lam
                         self.epsilon[i] = self.lam_sw[i] / (self.lam_sw[i] + self.lam_sc[i])
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index ea59584..8c4900e 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -212,6 +212,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.__adjust_ensemble_size()
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
@@ -219,7 +220,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                     if self.ensemble[i].predict([X[j]])[0] == y[j]:
                         self.epsilon[i] = self.lam_sw[i] / self.lam_sum[i]
                         self.werr[i] = (self.lam_fp[i] + self.lam_fn[i]) / self.lam_sum[i]
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 5ebbf73..8472ff5 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -216,6 +216,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         self.__adjust_ensemble_size()
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
@@ -257,7 +258,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                 k = self._random_state.poisson(lam_rus)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                 if self.ensemble[i].predict([X[j]])[0] == y[j]:
                     self.lam_sc[i] += lam
                     self.epsilon[i] = (self.lam_sw[i]) / (self.lam_sc[i] + self.lam_sw[i])
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 3c0fae5..f6cc5ad 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -199,6 +199,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
 
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             lam = 1
             for i in range(self.actual_n_estimators):
@@ -210,18 +211,18 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
-                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
                     k_smote = self._random_state.poisson(lam_smote)
 
                     if k_smote > 0:
                         for b in range(k_smote):
                             x_smote = self.online_smote()
-                            self.ensemble[i].partial_fit([x_smote], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit([x_smote], [y[j]], self.classes, weight)
                 else:
                     k = self._random_state.poisson(lam)
                     if k > 0:
                         for b in range(k):
-                            self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                            self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
 
                 if self.drift_detection:
                     try:
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 7952955..d2bf9b9 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -198,6 +198,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
         r, _ = get_dimensions(X)
         for j in range(r):
+            weight = None if sample_weight is None else [sample_weight[j]]
             change_detected = False
             for i in range(self.actual_n_estimators):
                 a = (i + 1) / self.actual_n_estimators
@@ -208,7 +209,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                 k = self._random_state.poisson(lam)
                 if k > 0:
                     for b in range(k):
-                        self.ensemble[i].partial_fit([X[j]], [y[j]], classes, sample_weight)
+                        self.ensemble[i].partial_fit([X[j]], [y[j]], self.classes, weight)
 
                 if self.drift_detection:
                     try:
-- 
2.43.0


From 674848690ee72ca91a929792b2fae67ffd89cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:33 +0000
Subject: [PATCH 39/93] fix: DWM and AddExp give each row its own weight

---
 src/skmultiflow/meta/additive_expert_ensemble.py  | 3 ++-
 src/skmultiflow/meta/dynamic_weighted_majority.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index 8d35156..c409851 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -151,7 +151,8 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
             self
         """
         for i in range(len(X)):
-            self.fit_single_sample(X[i:i + 1, :], y[i:i + 1], classes, sample_weight)
+            self.fit_single_sample(X[i:i + 1, :], y[i:i + 1], classes,
+                                   None if sample_weight is None else sample_weight[i:i + 1])
         return self
 
     def predict(self, X):
diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index b2db81a..c7817bb 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -148,7 +148,8 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         """
         for i in range(len(X)):
             self.fit_single_sample(
-                X[i:i + 1, :], y[i:i + 1], classes, sample_weight
+                X[i:i + 1, :], y[i:i + 1], classes,
+                None if sample_weight is None else sample_weight[i:i + 1]
             )
         return self
 
-- 
2.43.0


From a1ad50b59a7ad8dd869c0e2540294b1ce174d1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:33 +0000
Subject: [PATCH 40/93] fix: BatchIncremental trains each model with the
 weights of its window

---
 src/skmultiflow/meta/batch_incremental.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/batch_incremental.py b/src/skmultiflow/meta/batch_incremental.py
index bcf7023..94f24ac 100644
--- a/src/skmultiflow/meta/batch_incremental.py
+++ b/src/skmultiflow/meta/batch_incremental.py
@@ -120,7 +120,7 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
             # TODO not very pythonic at the moment
             self.X_batch[self.i] = X[n]
             self.y_batch[self.i] = y[n]
-            self.sample_weight[self.i] = sample_weight[n] if sample_weight else 1.0
+            self.sample_weight[self.i] = sample_weight[n] if sample_weight is not None else 1.0
 
             self.i = self.i + 1
             if self.i == self.window_size:
@@ -131,7 +131,8 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
                 h = cp.deepcopy(self.base_estimator)
                 # Train it
                 if 'sample_weight' in signature(h.fit).parameters:
-                    h.fit(X=self.X_batch, y=self.y_batch.astype(int), sample_weight=sample_weight)
+                    h.fit(X=self.X_batch, y=self.y_batch.astype(int),
+                          sample_weight=self.sample_weight)
                 else:
                     h.fit(X=self.X_batch, y=self.y_batch.astype(int))
                 # Add it
-- 
2.43.0


From 0980b16892ed353892f019ee3a8992895d5e4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:33 +0000
Subject: [PATCH 41/93] fix: ARF accepts one weight per row

---
 src/skmultiflow/meta/adaptive_random_forests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 9c1be79..215f687 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -306,7 +306,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
 
         if y is not None:
             row_cnt, _ = get_dimensions(X)
-            weight = check_weights(weight, expand_length=row_cnt)
+            weight = check_weights(weight, expand_length=row_cnt if np.ndim(weight) == 0 else 1)
             for i in range(row_cnt):
                 if weight[i] != 0.0:
                     self._train_weight_seen_by_model += weight[i]
-- 
2.43.0


From aabe502d51271d96128e1ac9bfa0c0a25a2f271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:33 +0000
Subject: [PATCH 42/93] fix: LearnPPNSE and SRP keep their parameters, so that
 they can be cloned

---
 src/skmultiflow/meta/learn_nse.py                | 2 +-
 src/skmultiflow/meta/streaming_random_patches.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index b962a4f..92c8a43 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -108,7 +108,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         self.X_batch = []
         self.y_batch = []
         self.instance_weights = []
-        self.base_estimator = cp.deepcopy(base_estimator)
+        self.base_estimator = base_estimator
         self.classes = None
 
     @staticmethod
diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index f15b5aa..b648da3 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -168,7 +168,7 @@ class StreamingRandomPatchesClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         self.disable_background_learner = disable_background_learner
         # Single option (accuracy) for drift detection criteria. Could be extended in the future.
         self.drift_detection_criteria = 'accuracy'
-        self.nominal_attributes = nominal_attributes if nominal_attributes else []
+        self.nominal_attributes = nominal_attributes
         self.random_state = random_state
         # self._random_state is the actual object used internally
         self._random_state = check_random_state(self.random_state)
-- 
2.43.0


From 0a7125f4576ac5eaddb73dc69cb2f36402253f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:56 +0000
Subject: [PATCH 43/93] fix: NaiveBayes and RSLVQ accept the classes as an
 array

---
 src/skmultiflow/bayes/naive_bayes.py                            | 2 +-
 .../prototype/robust_soft_learning_vector_quantization.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/bayes/naive_bayes.py b/src/skmultiflow/bayes/naive_bayes.py
index 799bf03..9f71111 100644
--- a/src/skmultiflow/bayes/naive_bayes.py
+++ b/src/skmultiflow/bayes/naive_bayes.py
@@ -95,7 +95,7 @@ class NaiveBayes(BaseSKMObject, ClassifierMixin):
             self
 
         """
-        if not self._classes and classes is not None:
+        if self._classes is None and classes is not None:
             self._classes = classes
 
         if y is not None:
diff --git a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
index 3ee403a..6aff0f6 100644
--- a/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
+++ b/src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py
@@ -177,7 +177,7 @@ class RobustSoftLearningVectorQuantization(ClassifierMixin, BaseSKMObject):
                                                     train_lab.ravel())
 
         if self.initial_fit:
-            if classes:
+            if classes is not None:
                 self.classes_ = np.asarray(classes)
                 self.protos_initialized = np.zeros(self.classes_.size)
             else:
-- 
2.43.0


From 28101db2741b310ca193faf52154b69d01846a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:56 +0000
Subject: [PATCH 44/93] fix: AWE scores a model by the column of the class

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index 4172e0a..9704b3c 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -339,13 +339,17 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         N = len(y)
         labels = model.seen_labels
         probabs = model.estimator.predict_proba(X)
+        # columns stand for the classes listed by the estimator or, failing that, for 0, 1, 2...
+        columns = getattr(model.estimator, 'classes_', None)
 
         sum_error = 0
         for i, c in enumerate(y):
             if c in labels:
                 # find the index of this label c in probabs[i]
-                index_label_c = np.where(labels == c)[0][0]
-                probab_ic = probabs[i][index_label_c]
+                index_label_c = np.where((np.arange(len(probabs[i])) if columns is None
+                                          else columns) == c)[0]
+                # a class that the estimator does not report has probability 0
+                probab_ic = probabs[i][index_label_c[0]] if len(index_label_c) > 0 else 0.0
                 sum_error += (1.0 - probab_ic) * (1.0 - probab_ic)
             else:
                 sum_error += 1.0
-- 
2.43.0


From 1bc0887581fafe6ae253c46f5070efcdbefa1248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:56 +0000
Subject: [PATCH 45/93] fix: AWE trains each model with the weights of its
 chunk

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index 9704b3c..636249d 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -147,6 +147,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         self.p = -1  # chunk pointer
         self.X_chunk = None
         self.y_chunk = None
+        self.w_chunk = None
 
     def partial_fit(self, X, y=None, classes=None, sample_weight=None):
         """ Partially (incrementally) fit the model.
@@ -173,12 +174,14 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         if self.p == -1:
             self.X_chunk = np.zeros((self.window_size, D))
             self.y_chunk = np.zeros(self.window_size)
+            self.w_chunk = np.ones(self.window_size)
             self.p = 0
 
         # fill up the data chunk
         for i, x in enumerate(X):
             self.X_chunk[self.p] = X[i]
             self.y_chunk[self.p] = y[i]
+            self.w_chunk[self.p] = sample_weight[i] if sample_weight is not None else 1.0
             self.p += 1
 
             if self.p == self.window_size:
@@ -191,7 +194,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
                 # (1) train classifier C' from X
                 C_new = self.train_model(model=cp.deepcopy(self.base_estimator),
                                          X=self.X_chunk, y=self.y_chunk,
-                                         classes=classes, sample_weight=sample_weight)
+                                         classes=classes, sample_weight=self.w_chunk)
 
                 # compute the baseline error rate given by a random classifier
                 baseline_score = self.compute_baseline(self.y_chunk)
@@ -312,6 +315,7 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
         self.p = -1
         self.X_chunk = None
         self.y_chunk = None
+        self.w_chunk = None
 
     @staticmethod
     def compute_score(model, X, y):
-- 
2.43.0


From 6e6a4a606924a949ee04d9031ae512c54de1830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:16 +0000
Subject: [PATCH 46/93] fix: Learn++ gives up on a base estimator that sits at
 the error threshold

---
 src/skmultiflow/meta/learn_pp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index e95ac92..1bdfe56 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -256,7 +256,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                             Dt[y_predict_composite == y] = Dt[y_predict_composite == y] * \
                                 normalize_composite_error
 
-                if total_error > self.error_threshold:
+                if total_error >= self.error_threshold:
                     patience += 1
                 else:
                     patience = 0
-- 
2.43.0


From 3c0eb2fff2ffbb48b023851ae4c7c9b92c100897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:00 +0000
Subject: [PATCH 47/93] fix: HalfSpaceTrees judges each row by its own score

---
 src/skmultiflow/anomaly_detection/half_space_trees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/anomaly_detection/half_space_trees.py b/src/skmultiflow/anomaly_detection/half_space_trees.py
index a24fe53..e011e7a 100644
--- a/src/skmultiflow/anomaly_detection/half_space_trees.py
+++ b/src/skmultiflow/anomaly_detection/half_space_trees.py
@@ -185,15 +185,15 @@ class HalfSpaceTrees(BaseSKMObject, ClassifierMixin):
         """
         r, _ = get_dimensions(X)
         predictions = []
+        y_proba = self.predict_proba(X)
         for i in range(r):
-            y_proba = self.predict_proba(X)
             if y_proba is None:
                 # Ensemble is empty, all classes equal, default to zero
                 predictions.append(0)
             else:
                 # if prediction of this instance is greater than the threshold
                 # defined, then this instance is classified as an anomaly.
-                if y_proba[0][1] > self.anomaly_threshold:
+                if y_proba[i][1] > self.anomaly_threshold:
                     predictions.append(1)
                 else:
                     predictions.append(0)
-- 
2.43.0


From 8dd5e5c893e65518719a6e2e5af63201127a0871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:00 +0000
Subject: [PATCH 48/93] fix: output codes of leveraging bagging exist for any
 number of classes and members

---
 src/skmultiflow/meta/leverage_bagging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/leverage_bagging.py b/src/skmultiflow/meta/leverage_bagging.py
index 9d019e1..5acdc53 100644
--- a/src/skmultiflow/meta/leverage_bagging.py
+++ b/src/skmultiflow/meta/leverage_bagging.py
@@ -322,7 +322,7 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
                     else:
                         n_zeros += 1
                 condition = ((n_ones - n_zeros) * (n_ones - n_zeros) >
-                             (self.actual_n_estimators % 2))
+                             (len(self.classes) % 2))
         self.init_matrix_codes = False
 
     def predict(self, X):
-- 
2.43.0


From 3eb5f856348990916950f32d08bbd425aa6d82f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:01 +0000
Subject: [PATCH 49/93] fix: DWM and AddExp predict the class with the largest
 weighted vote

---
 src/skmultiflow/meta/additive_expert_ensemble.py  | 9 ++++-----
 src/skmultiflow/meta/dynamic_weighted_majority.py | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index c409851..ecd40d2 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -172,11 +172,10 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         numpy.ndarray
             A numpy.ndarray with the label prediction for all the samples in X.
         """
-        preds = np.array([np.array(exp.estimator.predict(X)) * exp.weight
-                          for exp in self.experts])
-        sum_weights = sum(exp.weight for exp in self.experts)
-        aggregate = np.sum(preds / sum_weights, axis=0)
-        return (aggregate + 0.5).astype(int)    # Round to nearest int
+        preds = np.array([exp.estimator.predict(X) for exp in self.experts]).astype(int)
+        weights = [exp.weight for exp in self.experts]
+        return np.array([np.argmax(np.bincount(votes, weights=weights)) for votes in preds.T],
+                        dtype=int)
 
     def predict_proba(self, X):
         """ Not implemented for this method.
diff --git a/src/skmultiflow/meta/dynamic_weighted_majority.py b/src/skmultiflow/meta/dynamic_weighted_majority.py
index c7817bb..ed0861b 100644
--- a/src/skmultiflow/meta/dynamic_weighted_majority.py
+++ b/src/skmultiflow/meta/dynamic_weighted_majority.py
@@ -170,11 +170,10 @@ class DynamicWeightedMajorityClassifier(BaseSKMObject, ClassifierMixin, MetaEsti
         numpy.ndarray
             A numpy.ndarray with the label prediction for all the samples in X.
         """
-        preds = np.array([np.array(exp.estimator.predict(X)) * exp.weight
-                          for exp in self.experts])
-        sum_weights = sum(exp.weight for exp in self.experts)
-        aggregate = np.sum(preds / sum_weights, axis=0)
-        return (aggregate + 0.5).astype(int)    # Round to nearest int
+        preds = np.array([exp.estimator.predict(X) for exp in self.experts]).astype(int)
+        weights = [exp.weight for exp in self.experts]
+        return np.array([np.argmax(np.bincount(votes, weights=weights)) for votes in preds.T],
+                        dtype=int)
 
     def predict_proba(self, X):
         raise NotImplementedError
-- 
2.43.0


From 17dc6d0f2673e9cce527c0526e38204d953e3766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:01 +0000
Subject: [PATCH 50/93] fix: AddExp keeps its experts sorted when it adds one,
 so that the weakest is pruned

---
 src/skmultiflow/meta/additive_expert_ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/additive_expert_ensemble.py b/src/skmultiflow/meta/additive_expert_ensemble.py
index ecd40d2..bf9b4d2 100644
--- a/src/skmultiflow/meta/additive_expert_ensemble.py
+++ b/src/skmultiflow/meta/additive_expert_ensemble.py
@@ -243,7 +243,7 @@ class AdditiveExpertEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         elif self.pruning == 'weakest':
             idx = 0
             for exp in self.experts:
-                if exp.weight < new_exp.weight:
+                if exp.weight > new_exp.weight:
                     break
                 idx += 1
             self.experts.insert(idx, new_exp)
-- 
2.43.0


From 1e301c8283d30f80aabf7dd6d4872438deb047a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:33 +0000
Subject: [PATCH 51/93] fix: one probability row per sample, with the same
 columns, whatever a leaf or rule knows

---
 src/skmultiflow/meta/adaptive_random_forests.py   | 3 ++-
 src/skmultiflow/rules/very_fast_decision_rules.py | 7 +++++--
 src/skmultiflow/trees/hoeffding_tree.py           | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index 215f687..c5bf591 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -382,7 +382,8 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
             votes = deepcopy(self._get_votes_for_instance(X[i]))
             if votes == {}:
                 # Estimator is empty, all classes equal, default to zero
-                y_proba.append([0])
+                y_proba.append([0] if self.classes is None
+                              else np.zeros(int(max(self.classes)) + 1))
             else:
                 if sum(votes.values()) != 0:
                     votes = normalize_values_in_dict(votes)
diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 289e33b..83baf0a 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -1,4 +1,5 @@
 import copy
+import itertools
 from operator import attrgetter, itemgetter
 import numpy as np
 
@@ -823,7 +824,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
             votes = copy.deepcopy(self.get_votes_for_instance(X[i]))
             if votes == {}:
                 # Tree is empty, all classes equal, default to zero
-                predictions.append([0])
+                predictions.append([0] if self.classes is None
+                                  else np.zeros(int(max(self.classes)) + 1))
             else:
                 if sum(votes.values()) != 0:
                     votes = normalize_values_in_dict(votes, inplace=False)
@@ -834,7 +836,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                 for key, value in votes.items():
                     y_proba[int(key)] = value
                 predictions.append(y_proba)
-        return np.array(predictions)
+        # Fill missing values related to unobserved classes to ensure we get a 2D array
+        return np.asarray(list(itertools.zip_longest(*predictions, fillvalue=0.0))).T
 
     def get_model_measurements(self):
         """Collect metrics corresponding to the current status of the model.
diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index d7aa38f..a815092 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -417,7 +417,8 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
             votes = copy.deepcopy(self._get_votes_for_instance(X[i]))
             if votes == {}:
                 # Tree is empty, all classes equal, default to zero
-                predictions.append([0])
+                predictions.append([0] if self.classes is None
+                                  else np.zeros(int(max(self.classes)) + 1))
             else:
                 if sum(votes.values()) != 0:
                     votes = normalize_values_in_dict(votes, inplace=False)
-- 
2.43.0


From c26d7e7dd195f5e1ee7d0411714ba4eacda869cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:33 +0000
Subject: [PATCH 52/93] fix: BatchIncremental predicts the class with most
 votes, for any number of classes

---
 src/skmultiflow/meta/batch_incremental.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/meta/batch_incremental.py b/src/skmultiflow/meta/batch_incremental.py
index 94f24ac..efa25e2 100644
--- a/src/skmultiflow/meta/batch_incremental.py
+++ b/src/skmultiflow/meta/batch_incremental.py
@@ -181,9 +181,14 @@ class BatchIncrementalClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMi
         A numpy.ndarray with all the predictions for the samples in X.
 
         """
-        votes = self.predict_proba(X)
-        # Suppose a threshold of 0.5
-        return (votes >= 0.5) * 1.
+        if len(self.ensemble) <= 0:
+            # No models yet, just predict zeros
+            return np.zeros(len(X))
+        votes = np.array([h_i.predict(X) for h_i in self.ensemble])
+        # The class with most votes (the largest one on a tie)
+        labels = np.unique(votes)[::-1]
+        counts = [np.sum(votes == label, axis=0) for label in labels]
+        return labels[np.argmax(counts, axis=0)] * 1.
 
     def reset(self):
         """ Resets the estimator to its initial state.
-- 
2.43.0


From 8ecf8ecd952c5d81fb1f599c40a3cf777f2b8dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 53/93] fix: an iSOUP tree answers after a reset

---
 src/skmultiflow/trees/isoup_tree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index ce87de6..0251be6 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -459,12 +459,11 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
         """
 
         r, _ = get_dimensions(X)
-        try:
-            predictions = np.zeros((r, self._n_targets), dtype=np.float64)
-        except AttributeError:
+        if self._tree_root is None:
             warnings.warn("Calling predict without previously fitting the model at least once.\n"
                           "Predictions will default to a column array filled with zeros.")
             return np.zeros((r, 1))
+        predictions = np.zeros((r, self._n_targets), dtype=np.float64)
         for i in range(r):
             node = self._tree_root.filter_instance_to_leaf(X[i], None, -1).node
 
-- 
2.43.0


From e285471aa9836ba24dbed13e2e0a486a8a81fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:38 +0000
Subject: [PATCH 54/93] fix: the rules and the description of a tree with a
 leaf that has seen no class yet

---
 src/skmultiflow/trees/_nodes/base.py    | 3 ++-
 src/skmultiflow/trees/hoeffding_tree.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/_nodes/base.py b/src/skmultiflow/trees/_nodes/base.py
index cda330f..a3454de 100644
--- a/src/skmultiflow/trees/_nodes/base.py
+++ b/src/skmultiflow/trees/_nodes/base.py
@@ -149,7 +149,8 @@ class Node(metaclass=ABCMeta):
         if tree._estimator_type == 'classifier':
             class_val = max(
                 self._stats,
-                key=self._stats.get
+                key=self._stats.get,
+                default=0
             )
             buffer[0] += 'Class {} | {}\n'.format(
                 class_val, self._stats
diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index a815092..ee35657 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -809,7 +809,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
                     recurse(child, r, ht)
             else:
                 cur_rule.observed_class_distribution = node.stats.copy()
-                cur_rule.class_idx = max(node.stats.items(), key=itemgetter(1))[0]
+                cur_rule.class_idx = max(node.stats.items(), key=itemgetter(1), default=(0, 0.0))[0]
                 rules.append(cur_rule)
 
         rule = Rule()
-- 
2.43.0


From 40deffc90c1a6c5ee3343c4839d4bc9451b3afbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:38 +0000
Subject: [PATCH 55/93] fix: a class of unit weight lies on its own side of a
 split point

---
 src/skmultiflow/trees/gaussian_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/gaussian_estimator.py b/src/skmultiflow/trees/gaussian_estimator.py
index 1b6c286..62c6d22 100644
--- a/src/skmultiflow/trees/gaussian_estimator.py
+++ b/src/skmultiflow/trees/gaussian_estimator.py
@@ -86,7 +86,7 @@ class GaussianEstimator(object):
             lessthan_weight = normal_probability((value - mean) / std_dev) * self._weight_sum \
                 - equalto_weight
         else:
-            if value < mean:
+            if value > mean:
                 lessthan_weight = self._weight_sum - equalto_weight
             else:
                 lessthan_weight = 0.0
-- 
2.43.0


From 49c5f728cc4ca43baf8bde7982508bc644d5e287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:51 +0000
Subject: [PATCH 56/93] fix: online boosting and bagging watch each training
 row once for drift, whatever the batch

---
 src/skmultiflow/meta/online_adac2.py              | 7 +++----
 src/skmultiflow/meta/online_boosting.py           | 7 +++----
 src/skmultiflow/meta/online_csb2.py               | 7 +++----
 src/skmultiflow/meta/online_rus_boost.py          | 7 +++----
 src/skmultiflow/meta/online_smote_bagging.py      | 7 +++----
 src/skmultiflow/meta/online_under_over_bagging.py | 7 +++----
 6 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 47d7e8d..ba13897 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -251,11 +251,10 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index 9066061..6ad7628 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -227,11 +227,10 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index 8c4900e..3e47ef9 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -243,11 +243,10 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 8472ff5..5359587 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -272,11 +272,10 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index f6cc5ad..5ca1d41 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -226,11 +226,10 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index d2bf9b9..8ca9925 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -213,11 +213,10 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
                 if self.drift_detection:
                     try:
-                        pred = self.ensemble[i].predict(X)
+                        pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
-                        for k in range(r):
-                            if pred[k] is not None:
-                                self.adwin_ensemble[i].add_element(int(pred[k] == y[k]))
+                        if pred[0] is not None:
+                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
-- 
2.43.0


From c88c23926ddb339a7ccff52c8d2607e318e4b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:51 +0000
Subject: [PATCH 57/93] fix: bagging and boosting react to a rise of the error
 and reset the worst member, not the best

---
 src/skmultiflow/meta/online_adac2.py              | 2 +-
 src/skmultiflow/meta/online_boosting.py           | 2 +-
 src/skmultiflow/meta/online_smote_bagging.py      | 2 +-
 src/skmultiflow/meta/online_under_over_bagging.py | 2 +-
 src/skmultiflow/meta/oza_bagging_adwin.py         | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index ba13897..4ef35c8 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -254,7 +254,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                         pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
                         if pred[0] is not None:
-                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index 6ad7628..bf17e63 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -230,7 +230,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
                         pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
                         if pred[0] is not None:
-                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 5ca1d41..a0003fd 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -229,7 +229,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
                         pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
                         if pred[0] is not None:
-                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 8ca9925..17aec13 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -216,7 +216,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
                         pred = self.ensemble[i].predict([X[j]])
                         error_estimation = self.adwin_ensemble[i].estimation
                         if pred[0] is not None:
-                            self.adwin_ensemble[i].add_element(int(pred[0] == y[j]))
+                            self.adwin_ensemble[i].add_element(int(pred[0] != y[j]))
                         if self.adwin_ensemble[i].detected_change():
                             if self.adwin_ensemble[i].estimation > error_estimation:
                                 change_detected = True
diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 10b4dd5..41f4e93 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -179,9 +179,9 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
                 for j in range(r):
                     if pred[j] is not None:
                         if pred[j] == y[j]:
-                            self.adwin_ensemble[i].add_element(1)
-                        else:
                             self.adwin_ensemble[i].add_element(0)
+                        else:
+                            self.adwin_ensemble[i].add_element(1)
                 if self.adwin_ensemble[i].detected_change():
                     if self.adwin_ensemble[i].estimation > error_estimation:
                         change_detected = True
-- 
2.43.0


From 857c86ffe05a864e41856e5b3c161fff92778221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:51 +0000
Subject: [PATCH 58/93] fix: AdaC2 with fewer members than classes

---
 src/skmultiflow/meta/online_adac2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 4ef35c8..0a07969 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -287,6 +287,8 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 self.lam_tn = np.zeros(self.actual_n_estimators)
                 self.lam_fp = np.zeros(self.actual_n_estimators)
                 self.lam_sum = np.zeros(self.actual_n_estimators)
+                self.wacc = np.zeros(self.actual_n_estimators)
+                self.werr = np.zeros(self.actual_n_estimators)
 
     def predict(self, X):
         """ predict
-- 
2.43.0


From f3e4e21546d7c1afad584f15cb4c7493af9b3027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:52 +0000
Subject: [PATCH 59/93] fix: a boosting member that has made no error has a
 vote, and members may warn

---
 src/skmultiflow/meta/online_adac2.py          | 54 +++++++++---------
 src/skmultiflow/meta/online_boosting.py       | 57 ++++++++++---------
 src/skmultiflow/meta/online_csb2.py           | 57 ++++++++++---------
 src/skmultiflow/meta/online_rus_boost.py      | 57 ++++++++++---------
 src/skmultiflow/meta/online_smote_bagging.py  | 46 +++++++--------
 .../meta/online_under_over_bagging.py         | 46 +++++++--------
 6 files changed, 158 insertions(+), 159 deletions(-)

diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 0a07969..3c13c26 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -316,6 +316,14 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             predictions.append(np.argmax(proba[i]))
         return np.asarray(predictions)
 
+    def __member_weight(self, i):
+        """ The weight of the votes of the i-th member: the log odds of it being right. """
+        if self.wacc[i] == 0:
+            # Untrained or never right
+            return 0.0
+        # A member without errors has the largest (finite) weight
+        return np.log(self.wacc[i] / max(self.werr[i], self.wacc[i] * np.finfo(float).eps))
+
     def predict_proba(self, X):
         """ predict_proba
 
@@ -347,34 +355,28 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         if self.ensemble is None:
             return np.zeros((r, 1))
 
-        # Context manager to catch errors raised by numpy as RuntimeWarning
-        with warnings.catch_warnings():
-            warnings.filterwarnings('error')
-            try:
-                for i in range(self.actual_n_estimators):
-                    partial_proba = self.ensemble[i].predict_proba(X)
-                    if len(partial_proba[0]) > max(self.classes) + 1:
-                        raise ValueError("The number of classes in the base learner"
-                                         "is larger than in the ensemble.")
-
-                    if len(proba) < 1:
-                        for n in range(r):
-                            proba.append([0.0 for _ in partial_proba[n]])
+        try:
+            for i in range(self.actual_n_estimators):
+                weight = self.__member_weight(i)
+                partial_proba = self.ensemble[i].predict_proba(X)
+                if len(partial_proba[0]) > max(self.classes) + 1:
+                    raise ValueError("The number of classes in the base learner"
+                                     "is larger than in the ensemble.")
 
+                if len(proba) < 1:
                     for n in range(r):
-                        for k in range(len(partial_proba[n])):
-                            try:
-                                proba[n][k] += np.log(self.wacc[i] /
-                                                      self.werr[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
-                            except RuntimeWarning:
-                                # Catch division by zero errors raised by numpy as RuntimeWarning
-                                continue
-            except ValueError:
-                return np.zeros((r, 1))
-            except TypeError:
-                return np.zeros((r, 1))
+                        proba.append([0.0 for _ in partial_proba[n]])
+
+                for n in range(r):
+                    for k in range(len(partial_proba[n])):
+                        try:
+                            proba[n][k] += weight * partial_proba[n][k]
+                        except IndexError:
+                            proba[n].append(weight * partial_proba[n][k])
+        except ValueError:
+            return np.zeros((r, 1))
+        except TypeError:
+            return np.zeros((r, 1))
 
         # normalizing probabilities
         sum_proba = []
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index bf17e63..4a7adc6 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -288,6 +288,15 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
             predictions.append(np.argmax(proba[i]))
         return np.asarray(predictions)
 
+    def __member_weight(self, i):
+        """ The weight of the votes of the i-th member: the log odds of it being right. """
+        if self.lam_sc[i] == 0:
+            # Untrained or never right
+            return 0.0
+        # A member without errors has the largest (finite) weight
+        epsilon = max(self.epsilon[i], np.finfo(float).eps)
+        return np.log((1 - epsilon) / epsilon)
+
     def predict_proba(self, X):
         """ predict_proba
 
@@ -319,35 +328,29 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         if self.ensemble is None:
             return np.zeros((r, 1))
 
-        # Context manager to catch errors raised by numpy as RuntimeWarning
-        with warnings.catch_warnings():
-            warnings.filterwarnings('error')
-            try:
-                for i in range(self.actual_n_estimators):
-                    partial_proba = self.ensemble[i].predict_proba(X)
-                    if len(partial_proba[0]) > max(self.classes) + 1:
-                        raise ValueError("The number of classes in the base learner is larger "
-                                         "than in the ensemble.")
-
-                    if len(proba) < 1:
-                        for n in range(r):
-                            proba.append([0.0 for _ in partial_proba[n]])
+        try:
+            for i in range(self.actual_n_estimators):
+                weight = self.__member_weight(i)
+                partial_proba = self.ensemble[i].predict_proba(X)
+                if len(partial_proba[0]) > max(self.classes) + 1:
+                    raise ValueError("The number of classes in the base learner is larger "
+                                     "than in the ensemble.")
 
+                if len(proba) < 1:
                     for n in range(r):
-                        for k in range(len(partial_proba[n])):
-                            try:
-                                proba[n][k] += np.log((1 - self.epsilon[i]) /
-                                                      self.epsilon[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
-                            except RuntimeWarning:
-                                # Catch division by zero errors raised by numpy as RuntimeWarning
-                                continue
-
-            except ValueError:
-                return np.zeros((r, 1))
-            except TypeError:
-                return np.zeros((r, 1))
+                        proba.append([0.0 for _ in partial_proba[n]])
+
+                for n in range(r):
+                    for k in range(len(partial_proba[n])):
+                        try:
+                            proba[n][k] += weight * partial_proba[n][k]
+                        except IndexError:
+                            proba[n].append(weight * partial_proba[n][k])
+
+        except ValueError:
+            return np.zeros((r, 1))
+        except TypeError:
+            return np.zeros((r, 1))
 
         # normalizing probabilities
         sum_proba = []
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index 3e47ef9..8b01bf8 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -307,6 +307,15 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             predictions.append(np.argmax(proba[i]))
         return np.asarray(predictions)
 
+    def __member_weight(self, i):
+        """ The weight of the votes of the i-th member: the log odds of it being right. """
+        if self.lam_sum[i] == 0 or self.epsilon[i] == 1:
+            # Untrained or never right
+            return 0.0
+        # A member without errors has the largest (finite) weight
+        epsilon = max(self.epsilon[i], np.finfo(float).eps)
+        return np.log((1 - epsilon) / epsilon)
+
     def predict_proba(self, X):
         """ predict_proba
 
@@ -338,35 +347,29 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         if self.ensemble is None:
             return np.zeros((r, 1))
 
-        # Context manager to catch errors raised by numpy as RuntimeWarning
-        with warnings.catch_warnings():
-            warnings.filterwarnings('error')
-            try:
-                for i in range(self.actual_n_estimators):
-                    partial_proba = self.ensemble[i].predict_proba(X)
-                    if len(partial_proba[0]) > max(self.classes) + 1:
-                        raise ValueError("The number of classes in the base learner "
-                                         "is larger than in the ensemble.")
-
-                    if len(proba) < 1:
-                        for n in range(r):
-                            proba.append([0.0 for _ in partial_proba[n]])
+        try:
+            for i in range(self.actual_n_estimators):
+                weight = self.__member_weight(i)
+                partial_proba = self.ensemble[i].predict_proba(X)
+                if len(partial_proba[0]) > max(self.classes) + 1:
+                    raise ValueError("The number of classes in the base learner "
+                                     "is larger than in the ensemble.")
 
+                if len(proba) < 1:
                     for n in range(r):
-                        for k in range(len(partial_proba[n])):
-                            try:
-                                proba[n][k] += np.log((1 - self.epsilon[i]) /
-                                                      self.epsilon[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
-                            except RuntimeWarning:
-                                # Catch division by zero errors raised by numpy as RuntimeWarning
-                                continue
-
-            except ValueError:
-                return np.zeros((r, 1))
-            except TypeError:
-                return np.zeros((r, 1))
+                        proba.append([0.0 for _ in partial_proba[n]])
+
+                for n in range(r):
+                    for k in range(len(partial_proba[n])):
+                        try:
+                            proba[n][k] += weight * partial_proba[n][k]
+                        except IndexError:
+                            proba[n].append(weight * partial_proba[n][k])
+
+        except ValueError:
+            return np.zeros((r, 1))
+        except TypeError:
+            return np.zeros((r, 1))
 
         # normalizing probabilities
         sum_proba = []
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index 5359587..f42e228 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -335,6 +335,15 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
             predictions.append(np.argmax(proba[i]))
         return np.asarray(predictions)
 
+    def __member_weight(self, i):
+        """ The weight of the votes of the i-th member: the log odds of it being right. """
+        if self.lam_sc[i] == 0:
+            # Untrained or never right
+            return 0.0
+        # A member without errors has the largest (finite) weight
+        epsilon = max(self.epsilon[i], np.finfo(float).eps)
+        return np.log((1 - epsilon) / epsilon)
+
     def predict_proba(self, X):
         """ predict_proba
 
@@ -366,35 +375,29 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
         if self.ensemble is None:
             return np.zeros((r, 1))
 
-        # Context manager to catch errors raised by numpy as RuntimeWarning
-        with warnings.catch_warnings():
-            warnings.filterwarnings('error')
-            try:
-                for i in range(self.actual_n_estimators):
-                    partial_proba = self.ensemble[i].predict_proba(X)
-                    if len(partial_proba[0]) > max(self.classes) + 1:
-                        raise ValueError("The number of classes in the base learner is larger "
-                                         "than in the ensemble.")
-
-                    if len(proba) < 1:
-                        for n in range(r):
-                            proba.append([0.0 for _ in partial_proba[n]])
+        try:
+            for i in range(self.actual_n_estimators):
+                weight = self.__member_weight(i)
+                partial_proba = self.ensemble[i].predict_proba(X)
+                if len(partial_proba[0]) > max(self.classes) + 1:
+                    raise ValueError("The number of classes in the base learner is larger "
+                                     "than in the ensemble.")
 
+                if len(proba) < 1:
                     for n in range(r):
-                        for k in range(len(partial_proba[n])):
-                            try:
-                                proba[n][k] += np.log((1 - self.epsilon[i]) /
-                                                      self.epsilon[i]) * partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
-                            except RuntimeWarning:
-                                # Catch division by zero errors raised by numpy as RuntimeWarning
-                                continue
-
-            except ValueError:
-                return np.zeros((r, 1))
-            except TypeError:
-                return np.zeros((r, 1))
+                        proba.append([0.0 for _ in partial_proba[n]])
+
+                for n in range(r):
+                    for k in range(len(partial_proba[n])):
+                        try:
+                            proba[n][k] += weight * partial_proba[n][k]
+                        except IndexError:
+                            proba[n].append(weight * partial_proba[n][k])
+
+        except ValueError:
+            return np.zeros((r, 1))
+        except TypeError:
+            return np.zeros((r, 1))
 
         # normalizing probabilities
         sum_proba = []
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index a0003fd..88cfb34 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -328,34 +328,28 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
         if self.ensemble is None:
             return np.zeros((r, 1))
 
-        # Context manager to catch errors raised by numpy as RuntimeWarning
-        with warnings.catch_warnings():
-            warnings.filterwarnings('error')
-            try:
-                for i in range(self.actual_n_estimators):
-                    partial_proba = self.ensemble[i].predict_proba(X)
-                    if len(partial_proba[0]) > max(self.classes) + 1:
-                        raise ValueError("The number of classes in the base learner is "
-                                         "larger than in the ensemble.")
-
-                    if len(proba) < 1:
-                        for n in range(r):
-                            proba.append([0.0 for _ in partial_proba[n]])
+        try:
+            for i in range(self.actual_n_estimators):
+                partial_proba = self.ensemble[i].predict_proba(X)
+                if len(partial_proba[0]) > max(self.classes) + 1:
+                    raise ValueError("The number of classes in the base learner is "
+                                     "larger than in the ensemble.")
 
+                if len(proba) < 1:
                     for n in range(r):
-                        for k in range(len(partial_proba[n])):
-                            try:
-                                proba[n][k] += partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
-                            except RuntimeWarning:
-                                # Catch division by zero errors raised by numpy as RuntimeWarning
-                                continue
-
-            except ValueError:
-                return np.zeros((r, 1))
-            except TypeError:
-                return np.zeros((r, 1))
+                        proba.append([0.0 for _ in partial_proba[n]])
+
+                for n in range(r):
+                    for k in range(len(partial_proba[n])):
+                        try:
+                            proba[n][k] += partial_proba[n][k]
+                        except IndexError:
+                            proba[n].append(partial_proba[n][k])
+
+        except ValueError:
+            return np.zeros((r, 1))
+        except TypeError:
+            return np.zeros((r, 1))
 
         # normalizing probabilities
         sum_proba = []
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 17aec13..1d96563 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -302,34 +302,28 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
         if self.ensemble is None:
             return np.zeros((r, 1))
 
-        # Context manager to catch errors raised by numpy as RuntimeWarning
-        with warnings.catch_warnings():
-            warnings.filterwarnings('error')
-            try:
-                for i in range(self.actual_n_estimators):
-                    partial_proba = self.ensemble[i].predict_proba(X)
-                    if len(partial_proba[0]) > max(self.classes) + 1:
-                        raise ValueError("The number of classes in the base learner is larger "
-                                         "than in the ensemble.")
-
-                    if len(proba) < 1:
-                        for n in range(r):
-                            proba.append([0.0 for _ in partial_proba[n]])
+        try:
+            for i in range(self.actual_n_estimators):
+                partial_proba = self.ensemble[i].predict_proba(X)
+                if len(partial_proba[0]) > max(self.classes) + 1:
+                    raise ValueError("The number of classes in the base learner is larger "
+                                     "than in the ensemble.")
 
+                if len(proba) < 1:
                     for n in range(r):
-                        for k in range(len(partial_proba[n])):
-                            try:
-                                proba[n][k] += partial_proba[n][k]
-                            except IndexError:
-                                proba[n].append(partial_proba[n][k])
-                            except RuntimeWarning:
-                                # Catch division by zero errors raised by numpy as RuntimeWarning
-                                continue
-
-            except ValueError:
-                return np.zeros((r, 1))
-            except TypeError:
-                return np.zeros((r, 1))
+                        proba.append([0.0 for _ in partial_proba[n]])
+
+                for n in range(r):
+                    for k in range(len(partial_proba[n])):
+                        try:
+                            proba[n][k] += partial_proba[n][k]
+                        except IndexError:
+                            proba[n].append(partial_proba[n][k])
+
+        except ValueError:
+            return np.zeros((r, 1))
+        except TypeError:
+            return np.zeros((r, 1))
 
         # normalizing probabilities
         sum_proba = []
-- 
2.43.0


From faa67ce77b889f570053307c79e3408fa14fb1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:20 +0000
Subject: [PATCH 60/93] fix: a reset also forgets the announced classes

---
 src/skmultiflow/lazy/knn_classifier.py            | 5 +++++
 src/skmultiflow/meta/adaptive_random_forests.py   | 1 +
 src/skmultiflow/meta/online_adac2.py              | 1 +
 src/skmultiflow/meta/online_boosting.py           | 1 +
 src/skmultiflow/meta/online_csb2.py               | 1 +
 src/skmultiflow/meta/online_rus_boost.py          | 1 +
 src/skmultiflow/meta/online_smote_bagging.py      | 1 +
 src/skmultiflow/meta/online_under_over_bagging.py | 1 +
 src/skmultiflow/trees/hoeffding_tree.py           | 1 +
 9 files changed, 13 insertions(+)

diff --git a/src/skmultiflow/lazy/knn_classifier.py b/src/skmultiflow/lazy/knn_classifier.py
index bfe8727..1b4eef4 100644
--- a/src/skmultiflow/lazy/knn_classifier.py
+++ b/src/skmultiflow/lazy/knn_classifier.py
@@ -132,6 +132,11 @@ class KNNClassifier(BaseNeighbors, ClassifierMixin):
             self.data_window.add_sample(X[i], y[i])
         return self
 
+    def reset(self):
+        """ Reset the estimator, including the known classes. """
+        self.classes = []
+        return super().reset()
+
     def predict(self, X):
         """ Predict the class label for sample X
 
diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index c5bf591..e9606bc 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -407,6 +407,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
         self.ensemble = None
         self.instances_seen = 0
         self._train_weight_seen_by_model = 0.0
+        self.classes = None
         self._random_state = check_random_state(self.random_state)
 
     def _get_votes_for_instance(self, X):
diff --git a/src/skmultiflow/meta/online_adac2.py b/src/skmultiflow/meta/online_adac2.py
index 3c13c26..fb30ddc 100644
--- a/src/skmultiflow/meta/online_adac2.py
+++ b/src/skmultiflow/meta/online_adac2.py
@@ -159,6 +159,7 @@ class OnlineAdaC2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
     def reset(self):
         self.__configure()
+        self.classes = None
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_boosting.py b/src/skmultiflow/meta/online_boosting.py
index 4a7adc6..6fe16a3 100644
--- a/src/skmultiflow/meta/online_boosting.py
+++ b/src/skmultiflow/meta/online_boosting.py
@@ -148,6 +148,7 @@ class OnlineBoostingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
     def reset(self):
         self.__configure()
+        self.classes = None
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_csb2.py b/src/skmultiflow/meta/online_csb2.py
index 8b01bf8..21753a9 100644
--- a/src/skmultiflow/meta/online_csb2.py
+++ b/src/skmultiflow/meta/online_csb2.py
@@ -153,6 +153,7 @@ class OnlineCSB2Classifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
     def reset(self):
         self.__configure()
+        self.classes = None
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_rus_boost.py b/src/skmultiflow/meta/online_rus_boost.py
index f42e228..eb15d8d 100644
--- a/src/skmultiflow/meta/online_rus_boost.py
+++ b/src/skmultiflow/meta/online_rus_boost.py
@@ -157,6 +157,7 @@ class OnlineRUSBoostClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixi
 
     def reset(self):
         self.__configure()
+        self.classes = None
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_smote_bagging.py b/src/skmultiflow/meta/online_smote_bagging.py
index 88cfb34..100cac2 100644
--- a/src/skmultiflow/meta/online_smote_bagging.py
+++ b/src/skmultiflow/meta/online_smote_bagging.py
@@ -139,6 +139,7 @@ class OnlineSMOTEBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimator
 
     def reset(self):
         self.__configure()
+        self.classes = None
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/meta/online_under_over_bagging.py b/src/skmultiflow/meta/online_under_over_bagging.py
index 1d96563..9853d92 100644
--- a/src/skmultiflow/meta/online_under_over_bagging.py
+++ b/src/skmultiflow/meta/online_under_over_bagging.py
@@ -143,6 +143,7 @@ class OnlineUnderOverBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstim
 
     def reset(self):
         self.__configure()
+        self.classes = None
 
     def partial_fit(self, X, y, classes=None, sample_weight=None):
         """ Partially fits the model, based on the X and y matrix.
diff --git a/src/skmultiflow/trees/hoeffding_tree.py b/src/skmultiflow/trees/hoeffding_tree.py
index ee35657..61142fa 100755
--- a/src/skmultiflow/trees/hoeffding_tree.py
+++ b/src/skmultiflow/trees/hoeffding_tree.py
@@ -243,6 +243,7 @@ class HoeffdingTreeClassifier(BaseSKMObject, ClassifierMixin):
         self._byte_size_estimate_overhead_fraction = 1.0
         self._growth_allowed = True
         self._train_weight_seen_by_model = 0.0
+        self.classes = None
 
         return self
 
-- 
2.43.0


From 72f1f3eb23f499955101729c9557dda4bd8b11ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:20 +0000
Subject: [PATCH 61/93] fix: OzaBaggingADWIN tells its members the classes at
 any call

---
 src/skmultiflow/meta/oza_bagging_adwin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/oza_bagging_adwin.py b/src/skmultiflow/meta/oza_bagging_adwin.py
index 41f4e93..241113c 100644
--- a/src/skmultiflow/meta/oza_bagging_adwin.py
+++ b/src/skmultiflow/meta/oza_bagging_adwin.py
@@ -171,7 +171,7 @@ class OzaBaggingADWINClassifier(OzaBaggingClassifier):
             k = self._random_state.poisson()
             if k > 0:
                 for b in range(k):
-                    self.ensemble[i].partial_fit(X, y, classes, sample_weight)
+                    self.ensemble[i].partial_fit(X, y, self.classes, sample_weight)
 
             try:
                 pred = self.ensemble[i].predict(X)
-- 
2.43.0


From 9441816eb918ee390a4c58e4e7eae1819a5ddaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:15 +0000
Subject: [PATCH 62/93] fix: resetting a Hoeffding adaptive tree resets all of
 the tree

---
 src/skmultiflow/trees/hoeffding_adaptive_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_adaptive_tree.py b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
index bd39fe0..4351843 100644
--- a/src/skmultiflow/trees/hoeffding_adaptive_tree.py
+++ b/src/skmultiflow/trees/hoeffding_adaptive_tree.py
@@ -175,7 +175,7 @@ class HoeffdingAdaptiveTreeClassifier(HoeffdingTreeClassifier):
         self.alternate_trees_cnt = 0
         self.pruned_alternate_trees_cnt = 0
         self.switch_alternate_trees_cnt = 0
-        self._tree_root = None
+        return super().reset()
 
     # Override HoeffdingTreeClassifier
     def _partial_fit(self, X, y, sample_weight):
-- 
2.43.0


From 8f79ecff2aa3a2a255ceb05cbdf5df8e756627de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:21 +0000
Subject: [PATCH 63/93] fix: leveraging bagging compares predictions with the
 coded label also for rows that are not drawn

---
 src/skmultiflow/meta/leverage_bagging.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/meta/leverage_bagging.py b/src/skmultiflow/meta/leverage_bagging.py
index 5acdc53..7157abb 100644
--- a/src/skmultiflow/meta/leverage_bagging.py
+++ b/src/skmultiflow/meta/leverage_bagging.py
@@ -272,11 +272,11 @@ class LeveragingBaggingClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorM
                                                                   self._LEVERAGE_ALGORITHMS))
 
             y_coded = cp.deepcopy(y)
+            classes = self.classes
+            if self.enable_code_matrix:
+                y_coded = self.matrix_codes[i][int(y)]
+                classes = [0, 1]
             if k > 0:
-                classes = self.classes
-                if self.enable_code_matrix:
-                    y_coded = self.matrix_codes[i][int(y)]
-                    classes = [0, 1]
                 for _ in range(int(k)):
                     self.ensemble[i].partial_fit(X=np.asarray([X]), y=np.asarray([y_coded]),
                                                  classes=classes)
-- 
2.43.0


From dd104767937afa7711bac2c69991fdf49cf20825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:29 +0000
Subject: [PATCH 64/93] fix: Learn++.NSE predicts labels, not their positions

---
 src/skmultiflow/meta/learn_nse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index 92c8a43..af8ce22 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -159,7 +159,7 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             if classes is None:
                 raise RuntimeError("Should pass the classes in the first partial_fit call")
             else:
-                self.classes = classes
+                self.classes = np.unique(classes)
 
         for i in range(N):
             self.X_batch.append(X[i])
@@ -342,7 +342,9 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
         """
 
         votes = self.predict_proba(X)
-        return np.argmax(votes, axis=1)
+        if not self.ensemble:
+            return np.argmax(votes, axis=1)
+        return self.classes[np.argmax(votes, axis=1)]
 
     def reset(self):
         self.classes = None
-- 
2.43.0


From a1b97b261e90cb649505c1017384116b9929b1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:29 +0000
Subject: [PATCH 65/93] fix: Learn++ predicts labels, not their positions, and
 zeros before training

---
 src/skmultiflow/meta/learn_pp.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 1bdfe56..ea0f8b4 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -171,7 +171,7 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             if classes is None:
                 raise RuntimeError("Should pass the classes in the first partial_fit call")
             else:
-                self.classes = classes
+                self.classes = np.unique(classes)
 
         if classes is not None and self.classes is not None:
             if set(classes) == set(self.classes):
@@ -287,14 +287,14 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
                 y_predicts = h.predict(X[m].reshape(1, -1))
                 norm_error = normalized_errors[i]
-                votes[int(y_predicts[0])] += np.log(1 / (norm_error + 1e-50))
+                votes[np.searchsorted(self.classes, y_predicts[0])] += np.log(1 / (norm_error + 1e-50))
 
             res.append(votes)
         return res
 
     def __majority_vote(self, X, t, ensemble, normalized_errors):
         res = self.__vote_proba(X, t, ensemble, normalized_errors)
-        return np.argmax(res, axis=1)
+        return self.classes[np.argmax(res, axis=1)]
 
     def predict_proba(self, X):
         """ Predicts the probability of each sample belonging to each one of the
@@ -314,6 +314,8 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
             the probability that the i-th sample of X belongs to a certain label.
 
         """
+        if self.classes is None:
+            return np.zeros((len(X), 1))
         votes = np.zeros((len(X), len(self.classes)))
         for i in range(len(self.ensembles)):
             ensemble = self.ensembles[i]
@@ -341,7 +343,9 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
         """
         votes = self.predict_proba(X)
-        return np.argmax(votes, axis=1)
+        if self.classes is None:
+            return np.argmax(votes, axis=1)
+        return self.classes[np.argmax(votes, axis=1)]
 
     def _get_item(self, items, items_weights, number_of_items):
         return self.random.choice(items, number_of_items, p=items_weights).astype(np.int32)
-- 
2.43.0


From caa641bdb193bf7ebc6f302c5b62df83d3b05ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:30 +0000
Subject: [PATCH 66/93] fix: Learn++ tells incremental estimators the classes
 and renews them when it retries

---
 src/skmultiflow/meta/learn_pp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index ea0f8b4..705ce7b 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -233,7 +233,8 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                 try:
                     ensemble[t].fit(X_train, y_train)
                 except NotImplementedError:
-                    ensemble[t].partial_fit(X_train, y_train)
+                    ensemble[t] = copy.deepcopy(self.base_estimator)
+                    ensemble[t].partial_fit(X_train, y_train, classes=self.classes)
 
                 # predict on the data
                 y_predict = ensemble[t].predict(X_test)
-- 
2.43.0


From 01152cc08cf74af1485af54a1901b1e7d3286e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:30 +0000
Subject: [PATCH 67/93] fix: AWE passes sample weights on to estimators with
 fit

---
 src/skmultiflow/meta/accuracy_weighted_ensemble.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/accuracy_weighted_ensemble.py b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
index 636249d..d29c658 100644
--- a/src/skmultiflow/meta/accuracy_weighted_ensemble.py
+++ b/src/skmultiflow/meta/accuracy_weighted_ensemble.py
@@ -3,6 +3,7 @@ from skmultiflow.bayes import NaiveBayes
 from sklearn.model_selection import KFold
 import numpy as np
 import copy as cp
+from inspect import signature
 import operator as op
 
 import warnings
@@ -254,7 +255,10 @@ class AccuracyWeightedEnsembleClassifier(BaseSKMObject, ClassifierMixin, MetaEst
             The trained model
         """
         try:
-            model.fit(X, y)
+            if sample_weight is not None and 'sample_weight' in signature(model.fit).parameters:
+                model.fit(X, y, sample_weight=sample_weight)
+            else:
+                model.fit(X, y)
         except NotImplementedError:
             model.partial_fit(X, y, classes, sample_weight)
         return model
-- 
2.43.0


From ccba72793f1cb2191e87d16ce7401a2e8c0d18e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:21 +0000
Subject: [PATCH 68/93] fix: a Learn++.NSE member that knows a single class
 votes for it, not for all classes

---
 src/skmultiflow/meta/learn_nse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/meta/learn_nse.py b/src/skmultiflow/meta/learn_nse.py
index af8ce22..c6082cd 100644
--- a/src/skmultiflow/meta/learn_nse.py
+++ b/src/skmultiflow/meta/learn_nse.py
@@ -271,9 +271,9 @@ class LearnPPNSEClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
                     h = self.ensemble[i]
                     y_predicts = h.predict_proba(X[m].reshape(1, -1))
                     y_predicts /= np.linalg.norm(y_predicts, ord=1, axis=1, keepdims=True)
-                    try:
+                    if y_predicts.shape[1] == len(classes):
                         votes += self.ensemble_weights[i] * y_predicts
-                    except ValueError:
+                    else:
                         if hasattr(h, 'classes_'):  # sklearn learner
                             obs_classes = h.classes_
                         elif hasattr(h, 'classes'):  # skmultiflow learner
-- 
2.43.0


From 15f42e8d078dda5b5a089e78ebe02a24edad6ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:07 +0000
Subject: [PATCH 69/93] fix: every attempt of Learn++ trains a new estimator,
 which knows the classes

---
 src/skmultiflow/meta/learn_pp.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/meta/learn_pp.py b/src/skmultiflow/meta/learn_pp.py
index 705ce7b..20b85db 100644
--- a/src/skmultiflow/meta/learn_pp.py
+++ b/src/skmultiflow/meta/learn_pp.py
@@ -1,4 +1,5 @@
 import copy
+from inspect import signature
 
 import numpy as np
 from sklearn.tree import DecisionTreeClassifier
@@ -228,12 +229,15 @@ class LearnPPClassifier(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin):
 
                 # Train a weak learner
                 if t > len(ensemble) - 1:
-                    ensemble.append(copy.deepcopy(self.base_estimator))
+                    ensemble.append(None)
                     normalized_errors.append(1.0)
+                ensemble[t] = copy.deepcopy(self.base_estimator)
                 try:
-                    ensemble[t].fit(X_train, y_train)
+                    if 'classes' in signature(ensemble[t].fit).parameters:
+                        ensemble[t].fit(X_train, y_train, classes=self.classes)
+                    else:
+                        ensemble[t].fit(X_train, y_train)
                 except NotImplementedError:
-                    ensemble[t] = copy.deepcopy(self.base_estimator)
                     ensemble[t].partial_fit(X_train, y_train, classes=self.classes)
 
                 # predict on the data
-- 
2.43.0


From 932271900d18c60f3fa6406baa4b756bc9ffadc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:08 +0000
Subject: [PATCH 70/93] fix: KNNADWIN looks for change at every sample, not
 once per call

---
 src/skmultiflow/lazy/knn_adwin.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/skmultiflow/lazy/knn_adwin.py b/src/skmultiflow/lazy/knn_adwin.py
index e0d61b7..62f0d1a 100644
--- a/src/skmultiflow/lazy/knn_adwin.py
+++ b/src/skmultiflow/lazy/knn_adwin.py
@@ -150,12 +150,11 @@ class KNNADWINClassifier(KNNClassifier):
             if self.data_window.size >= self.n_neighbors:
                 correctly_classifies = 1 if self.predict(np.asarray([X[i]])) == y[i] else 0
                 self.adwin.add_element(correctly_classifies)
+                if self.adwin.detected_change():
+                    if self.adwin.width < self.data_window.size:
+                        for _ in range(self.data_window.size, self.adwin.width, -1):
+                            self.data_window.delete_oldest_sample()
             else:
                 self.adwin.add_element(0)
 
-        if self.data_window.size >= self.n_neighbors:
-            if self.adwin.detected_change():
-                if self.adwin.width < self.data_window.size:
-                    for i in range(self.data_window.size, self.adwin.width, -1):
-                        self.data_window.delete_oldest_sample()
         return self
-- 
2.43.0


From 94d095bea5b04ede4dc832917e08373e6e36614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:39 +0000
Subject: [PATCH 71/93] fix: the trees of an adaptive random forest are trained
 with the samples' weights

---
 src/skmultiflow/meta/adaptive_random_forests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forests.py b/src/skmultiflow/meta/adaptive_random_forests.py
index e9606bc..21c631e 100644
--- a/src/skmultiflow/meta/adaptive_random_forests.py
+++ b/src/skmultiflow/meta/adaptive_random_forests.py
@@ -327,7 +327,7 @@ class AdaptiveRandomForestClassifier(BaseSKMObject, ClassifierMixin, MetaEstimat
             if k > 0:
                 self.ensemble[i].partial_fit(np.asarray([X]), np.asarray([y]),
                                              classes=classes,
-                                             sample_weight=np.asarray([k]),
+                                             sample_weight=np.asarray([k * sample_weight]),
                                              instances_seen=self.instances_seen)
 
     def predict(self, X):
-- 
2.43.0


From b677f4e99a0b74f678dee5b32977d8934fbd12db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:29 +0000
Subject: [PATCH 72/93] fix: a regression forest of one tree predicts numbers
 with weighted aggregation

---
 src/skmultiflow/meta/adaptive_random_forest_regressor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/meta/adaptive_random_forest_regressor.py b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
index 39762b8..6950d8f 100644
--- a/src/skmultiflow/meta/adaptive_random_forest_regressor.py
+++ b/src/skmultiflow/meta/adaptive_random_forest_regressor.py
@@ -323,13 +323,14 @@ class AdaptiveRandomForestRegressor(RegressorMixin, AdaptiveRandomForestClassifi
         if self.aggregation_method == self._MEAN:
             if self.weighted_vote_strategy is not None:
                 weights = np.asarray([learner.get_error() for learner in self.ensemble])
+                # The higher the error, the worse is the tree
+                weights = weights.sum() - weights
                 sum_weights = weights.sum()
 
+                # All are equal if there is no error, or a single tree
                 if sum_weights != 0:
-                    # The higher the error, the worse is the tree
-                    weights = sum_weights - weights
                     # Normalize weights to sum up to 1
-                    weights = weights / weights.sum()
+                    weights = weights / sum_weights
                     return np.average(predictions, weights=weights, axis=0)
 
             return predictions.mean(axis=0)
-- 
2.43.0


From 993debec059dcaaecd2408818866735d04ef287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 73/93] fix: MultiOutputLearner works with learners that take
 classes but no sample_weight

---
 src/skmultiflow/meta/multi_output_learner.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/meta/multi_output_learner.py b/src/skmultiflow/meta/multi_output_learner.py
index dc596ff..2548f65 100644
--- a/src/skmultiflow/meta/multi_output_learner.py
+++ b/src/skmultiflow/meta/multi_output_learner.py
@@ -120,10 +120,13 @@ class MultiOutputLearner(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, Mul
         self.__configure()
 
         for j in range(self.n_targets):
-            if 'sample_weight' and 'classes' in signature(self.ensemble[j].fit).parameters:
+            parameters = signature(self.ensemble[j].fit).parameters
+            if 'sample_weight' in parameters and 'classes' in parameters:
                 self.ensemble[j].fit(X, y[:, j], classes=classes, sample_weight=sample_weight)
-            elif 'sample_weight' in signature(self.ensemble[j].fit).parameters:
+            elif 'sample_weight' in parameters:
                 self.ensemble[j].fit(X, y[:, j], sample_weight=sample_weight)
+            elif 'classes' in parameters:
+                self.ensemble[j].fit(X, y[:, j], classes=classes)
             else:
                 self.ensemble[j].fit(X, y[:, j])
         return self
@@ -168,11 +171,14 @@ class MultiOutputLearner(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, Mul
             self.__configure()
 
         for j in range(self.n_targets):
-            if 'sample_weight' and 'classes' in signature(self.ensemble[j].partial_fit).parameters:
+            parameters = signature(self.ensemble[j].partial_fit).parameters
+            if 'sample_weight' in parameters and 'classes' in parameters:
                 self.ensemble[j].partial_fit(
                     X, y[:, j], classes=classes, sample_weight=sample_weight)
-            elif 'sample_weight' in signature(self.ensemble[j].partial_fit).parameters:
+            elif 'sample_weight' in parameters:
                 self.ensemble[j].partial_fit(X, y[:, j], sample_weight=sample_weight)
+            elif 'classes' in parameters:
+                self.ensemble[j].partial_fit(X, y[:, j], classes=classes)
             else:
                 self.ensemble[j].partial_fit(X, y[:, j])
 
-- 
2.43.0


From c11af2556e005cdeaf02f5a107c9a2ed01415cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:57 +0000
Subject: [PATCH 74/93] fix: MultiOutputLearner takes a base estimator of
 unknown type, with its warning

---
 src/skmultiflow/meta/multi_output_learner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/meta/multi_output_learner.py b/src/skmultiflow/meta/multi_output_learner.py
index 2548f65..4d1945a 100644
--- a/src/skmultiflow/meta/multi_output_learner.py
+++ b/src/skmultiflow/meta/multi_output_learner.py
@@ -75,7 +75,7 @@ class MultiOutputLearner(BaseSKMObject, ClassifierMixin, MetaEstimatorMixin, Mul
         self.n_targets = None
 
     def _check_estimator_type(self):
-        if hasattr(self, "_estimator_type"):
+        if hasattr(self.base_estimator, "_estimator_type"):
             if self.base_estimator._estimator_type == _CLASSIFIER_TYPE:
                 self._estimator_type = _CLASSIFIER_TYPE
                 return
-- 
2.43.0


From e06e0ff822b8e43e6c55bddc1a02c533b275b1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:47 +0000
Subject: [PATCH 75/93] fix: StreamingRandomPatches tells its members the
 nominal attributes when they see all features

---
 src/skmultiflow/meta/streaming_random_patches.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index b648da3..69b2cfa 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -492,6 +492,9 @@ class StreamingRandomPatchesBaseLearner:
         else:
             # Use all features
             X_subset = X
+            if self._set_nominal_attributes and hasattr(self.base_estimator, 'nominal_attributes'):
+                self.base_estimator.nominal_attributes = self.nominal_attributes
+                self._set_nominal_attributes = False
 
         self.base_estimator.partial_fit(X=X_subset, y=y,
                                         classes=classes,
-- 
2.43.0


From f3c301b09a317766391838f75e466552c32c60e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:31 +0000
Subject: [PATCH 76/93] fix: a StreamingRandomPatches member replaced at the
 row of its warning knows its nominal attributes

---
 src/skmultiflow/meta/streaming_random_patches.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skmultiflow/meta/streaming_random_patches.py b/src/skmultiflow/meta/streaming_random_patches.py
index 69b2cfa..0989613 100644
--- a/src/skmultiflow/meta/streaming_random_patches.py
+++ b/src/skmultiflow/meta/streaming_random_patches.py
@@ -585,6 +585,7 @@ class StreamingRandomPatchesBaseLearner:
             self.performance_evaluator.reset()
             self.created_on = self._background_learner.created_on
             self.feature_indexes = self._background_learner.feature_indexes
+            self._set_nominal_attributes = self._background_learner._set_nominal_attributes
             self._background_learner = None
         else:
             self.base_estimator.reset()
-- 
2.43.0


From 0408cb47f7d06a9320d00da2528cd9a431b2da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:18 +0000
Subject: [PATCH 77/93] fix: the windowed scalers leave the caller's samples as
 they are and scale integers

---
 src/skmultiflow/transform/windowed_minmax_scaler.py   | 3 ++-
 src/skmultiflow/transform/windowed_standard_scaler.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/transform/windowed_minmax_scaler.py b/src/skmultiflow/transform/windowed_minmax_scaler.py
index d6cad88..3d592cb 100644
--- a/src/skmultiflow/transform/windowed_minmax_scaler.py
+++ b/src/skmultiflow/transform/windowed_minmax_scaler.py
@@ -38,6 +38,7 @@ class WindowedMinmaxScaler(StreamTransform):
             The sample or set of samples that should be transformed.
 
         """
+        X = np.array(X, dtype=float)    # a copy, the caller's samples stay as they are
         r, c = get_dimensions(X)
         for i in range(r):
             row = np.copy([X[i][:]])
@@ -104,5 +105,5 @@ class WindowedMinmaxScaler(StreamTransform):
             self
 
         """
-        self.window.add_element(X)
+        self.window.add_element(np.array(X, dtype=float))
         return self
diff --git a/src/skmultiflow/transform/windowed_standard_scaler.py b/src/skmultiflow/transform/windowed_standard_scaler.py
index 33910f5..afaf660 100644
--- a/src/skmultiflow/transform/windowed_standard_scaler.py
+++ b/src/skmultiflow/transform/windowed_standard_scaler.py
@@ -36,6 +36,7 @@ class WindowedStandardScaler(StreamTransform):
             The sample or set of samples that should be transformed.
 
         """
+        X = np.array(X, dtype=float)    # a copy, the caller's samples stay as they are
         r, c = get_dimensions(X)
         for i in range(r):
             row = np.copy([X[i][:]])
@@ -100,5 +101,5 @@ class WindowedStandardScaler(StreamTransform):
             self
 
         """
-        self.window.add_element(X)
+        self.window.add_element(np.array(X, dtype=float))
         return self
-- 
2.43.0


From 2239d2a3b293162bee68732a24b5e723d115b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:18 +0000
Subject: [PATCH 78/93] fix: WindowedStandardScaler does not divide by the
 rounding error of a constant feature

---
 src/skmultiflow/transform/windowed_standard_scaler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skmultiflow/transform/windowed_standard_scaler.py b/src/skmultiflow/transform/windowed_standard_scaler.py
index afaf660..26f37c9 100644
--- a/src/skmultiflow/transform/windowed_standard_scaler.py
+++ b/src/skmultiflow/transform/windowed_standard_scaler.py
@@ -59,6 +59,9 @@ class WindowedStandardScaler(StreamTransform):
         std = 1.
         if not self.window.is_empty():
             std = np.nanstd(np.array(self.window.get_queue())[:, column_index])
+            # the deviation of a constant feature may be off zero by rounding
+            if std < 1e-13 * (1. + abs(self._get_mean(column_index))):
+                std = 0.
         if(std == 0.):
             std = 1.
         return std
-- 
2.43.0


From 5716722e5ccebf9cac5765c2d12475e172b249b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:18 +0000
Subject: [PATCH 79/93] fix: MissingValuesCleaner imputes from the known values
 and leaves the caller's samples as they are

---
 .../transform/missing_values_cleaner.py       | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/skmultiflow/transform/missing_values_cleaner.py b/src/skmultiflow/transform/missing_values_cleaner.py
index bcb9cae..b93562f 100644
--- a/src/skmultiflow/transform/missing_values_cleaner.py
+++ b/src/skmultiflow/transform/missing_values_cleaner.py
@@ -97,16 +97,20 @@ class MissingValuesCleaner(StreamTransform):
             The sample or set of samples that should be transformed.
         
         """
+        X = np.array(X, dtype=float)    # a copy, the caller's samples stay as they are
         r, c = get_dimensions(X)
         for i in range(r):
             if self.strategy in ['mean', 'median', 'mode']:
-                self.window.add_element([X[i][:]])
+                self.window.add_element([X[i].copy()])
             for j in range(c):
-                if X[i][j] in self.missing_value or np.isnan(X[i][j]):
+                if self._is_missing(X[i][j]):
                     X[i][j] = self._get_substitute(j)
 
         return X
 
+    def _is_missing(self, value):
+        return value in self.missing_value or np.isnan(value)
+
     def _get_substitute(self, column_index):
         """ _get_substitute
         
@@ -125,22 +129,17 @@ class MissingValuesCleaner(StreamTransform):
         """
         if self.strategy == 'zero':
             return 0
-        elif self.strategy == 'mean':
-            if not self.window.is_empty():
-                return np.nanmean(np.array(self.window.get_queue())[:, column_index])
-            else:
+        elif self.strategy in ['mean', 'median', 'mode']:
+            known = [row[column_index] for row in self.window.get_queue()
+                     if not self._is_missing(row[column_index])]
+            if len(known) == 0:
                 return self.new_value
-        elif self.strategy == 'median':
-            if not self.window.is_empty():
-                return np.nanmedian(np.array(self.window.get_queue())[:, column_index])
+            elif self.strategy == 'mean':
+                return np.mean(known)
+            elif self.strategy == 'median':
+                return np.median(known)
             else:
-                return self.new_value
-        elif self.strategy == 'mode':
-            if not self.window.is_empty():
-                return stats.mode(np.array(self.window.get_queue())[:, column_index],
-                                  nan_policy='omit')[0]
-            else:
-                return self.new_value
+                return np.ravel(stats.mode(known)[0])[0]
         elif self.strategy == 'custom':
             return self.new_value
 
@@ -186,7 +185,7 @@ class MissingValuesCleaner(StreamTransform):
             self
         
         """
-        X = np.asarray(X)
+        X = np.array(X, dtype=float)
         if self.strategy in ['mean', 'median', 'mode']:
             self.window.add_element(X)
         return self
-- 
2.43.0


From d40d54c40c6894cf8717cf8c3b0b3f0b4c19820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:18 +0000
Subject: [PATCH 80/93] fix: OneHotToCategorical takes attributes after the
 last group and groups in any order

---
 .../transform/one_hot_to_categorical.py       | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/skmultiflow/transform/one_hot_to_categorical.py b/src/skmultiflow/transform/one_hot_to_categorical.py
index 3ffcb29..9347eff 100644
--- a/src/skmultiflow/transform/one_hot_to_categorical.py
+++ b/src/skmultiflow/transform/one_hot_to_categorical.py
@@ -52,28 +52,20 @@ class OneHotToCategorical(StreamTransform):
         return ret
 
     def _transform(self, X, new_size):
-        ret = np.zeros((1,new_size), dtype=X.dtype)
-        list_index = 0
-        i = 0
+        ret = np.zeros((1, new_size), dtype=X.dtype)
+        groups = {min(group): group for group in self.categorical_list if len(group) > 0}
+        grouped = {index for group in self.categorical_list for index in group}
         new_i = 0
-        while i < X.size:
-            if i in self.categorical_list[list_index]:
+        for i in range(X.size):
+            if i in groups:
                 c = 0
-                found = False
-                for j in range(len(self.categorical_list[list_index])):
-                    if X[i+j] == 1:
-                        found = True
-                    if not found:
-                        c += 1
-                i += len(self.categorical_list[list_index])
-                list_index += 1
+                while c < len(groups[i]) and X[groups[i][c]] != 1:
+                    c += 1
                 ret[0][new_i] = c
                 new_i += 1
-            else:
+            elif i not in grouped:
                 ret[0][new_i] = X[i]
                 new_i += 1
-                i += 1
-
         return ret
 
     def fit(self, X, y):
-- 
2.43.0


From 4ab876f28c56221299cf0bab92ca393bcf721b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:18 +0000
Subject: [PATCH 81/93] fix: Pipeline takes stream transforms without fit and
 steps of None

---
 src/skmultiflow/core/pipeline.py | 47 ++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/skmultiflow/core/pipeline.py b/src/skmultiflow/core/pipeline.py
index cbe19c7..8801856 100644
--- a/src/skmultiflow/core/pipeline.py
+++ b/src/skmultiflow/core/pipeline.py
@@ -1,4 +1,6 @@
 from skmultiflow.core import BaseSKMObject
+from inspect import signature
+
 from sklearn.utils import tosequence
 
 
@@ -128,11 +130,13 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
+                continue
             if hasattr(transform, "fit_transform"):
                 Xt = transform.fit_transform(Xt, y)
-            else:
+            elif hasattr(transform, "fit"):
                 Xt = transform.fit(Xt, y).transform(Xt)
+            else:
+                Xt = self._partial_fit_transform_step(transform, Xt, y)
 
         if self._final_estimator is not None:
             self._final_estimator.fit(Xt, y)
@@ -166,11 +170,8 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
-            if hasattr(transform, 'fit_transform'):
-                Xt = transform.partial_fit_transform(Xt, y, classes=classes)
-            else:
-                Xt = transform.partial_fit(Xt, y, classes=classes).transform(Xt)
+                continue
+            Xt = self._partial_fit_transform_step(transform, Xt, y, classes=classes)
 
         if self._final_estimator is not None:
             if "classes" in self._final_estimator.partial_fit.__code__.co_varnames:
@@ -202,11 +203,8 @@ class Pipeline(BaseSKMObject):
         Xt = X
         for name, transform in self.steps[:-1]:
             if transform is None:
-                pass
-            if hasattr(transform, "partial_fit_transform"):
-                Xt = transform.partial_fit_transform(Xt, y)
-            else:
-                Xt = transform.partial_fit(Xt, y).transform(Xt)
+                continue
+            Xt = self._partial_fit_transform_step(transform, Xt, y)
 
         if hasattr(self._final_estimator, "partial_fit_predict"):
             return self._final_estimator.partial_fit_predict(Xt, y)
@@ -236,6 +234,24 @@ class Pipeline(BaseSKMObject):
         """
         raise NotImplementedError
 
+    @staticmethod
+    def _partial_fit_transform_step(transform, X, y, classes=None):
+        """ Partially fit an intermediate step and transform X with it.
+
+        The classes are only passed to steps that accept them.
+        """
+        if hasattr(transform, "partial_fit_transform"):
+            learn = transform.partial_fit_transform
+        else:
+            learn = transform.partial_fit
+        if classes is not None and "classes" in signature(learn).parameters:
+            Xt = learn(X, y, classes=classes)
+        else:
+            Xt = learn(X, y)
+        if hasattr(transform, "partial_fit_transform"):
+            return Xt
+        return transform.transform(X)
+
     def _validate_steps(self):
         """ validate_steps
 
@@ -260,11 +276,12 @@ class Pipeline(BaseSKMObject):
             if t is None:
                 continue
             else:
-                if not (hasattr(t, "fit") or hasattr(t, "fit_transform")) \
+                if not (hasattr(t, "fit") or hasattr(t, "fit_transform")
+                        or hasattr(t, "partial_fit") or hasattr(t, "partial_fit_transform")) \
                         or not hasattr(t, "transform"):
                     self.active = False
                     raise TypeError("All intermediate steps, including an evaluator, "
-                                    "should implement fit and transform.")
+                                    "should implement fit (or partial_fit) and transform.")
 
         if classifier is not None and not hasattr(classifier, "partial_fit"):
             self.active = False
@@ -289,6 +306,8 @@ class Pipeline(BaseSKMObject):
         transforms = estimators[:-1]
         i = 0
         for t in transforms:
+            if t is None:
+                continue
             try:
                 if t.get_info() is not None:
                     info += t.get_info()
-- 
2.43.0


From 2115fa44d7a7793b85f719f9cc32787dc55026f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:10 +0000
Subject: [PATCH 82/93] fix: the variance of weighted samples divides by their
 weight

---
 .../_split_criterion/variance_reduction_split_criterion.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py b/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
index 7abfdd2..084c33a 100644
--- a/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
+++ b/src/skmultiflow/trees/_split_criterion/variance_reduction_split_criterion.py
@@ -36,7 +36,7 @@ class VarianceReductionSplitCriterion(SplitCriterion):
     @staticmethod
     def compute_SD(dist):
 
-        N = int(dist[0])
+        N = dist[0]
         sum_ = dist[1]
         sum_sq = dist[2]
 
-- 
2.43.0


From ff58b4f37f43fc50d03c223a16f4c0c6c3aa9101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:10 +0000
Subject: [PATCH 83/93] fix: removing poor attributes of a regression tree
 survives merits of 0

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index f7a9623..a2a3807 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -480,7 +480,7 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
                     (second_best_suggestion.merit / best_suggestion.merit < 1 - hoeffding_bound
                         or hoeffding_bound < self.tie_threshold):
                 should_split = True
-            if self.remove_poor_atts:
+            if self.remove_poor_atts and best_suggestion.merit > 0.0:
                 poor_atts = set()
                 best_ratio = second_best_suggestion.merit / best_suggestion.merit
 
-- 
2.43.0


From 4e7dfe3ded9b3bd936f776a8607824b2c3b4c2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:10 +0000
Subject: [PATCH 84/93] fix: a regression tree with one split suggestion needs
 it to have merit

---
 src/skmultiflow/trees/hoeffding_tree_regressor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/trees/hoeffding_tree_regressor.py b/src/skmultiflow/trees/hoeffding_tree_regressor.py
index a2a3807..69a8e2b 100644
--- a/src/skmultiflow/trees/hoeffding_tree_regressor.py
+++ b/src/skmultiflow/trees/hoeffding_tree_regressor.py
@@ -469,7 +469,8 @@ class HoeffdingTreeRegressor(RegressorMixin, HoeffdingTreeClassifier):
         best_split_suggestions.sort(key=attrgetter('merit'))
         should_split = False
         if len(best_split_suggestions) < 2:
-            should_split = len(best_split_suggestions) > 0
+            should_split = (len(best_split_suggestions) > 0
+                            and best_split_suggestions[-1].merit > 0.0)
         else:
             hoeffding_bound = self._hoeffding_bound(
                 split_criterion.get_range_of_merit(node.stats), self.split_confidence,
-- 
2.43.0


From d87fbc5f8942a430128cc8ebd08f07e217ab2f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:40 +0000
Subject: [PATCH 85/93] fix: iSOUP trees survive merits of 0 and do not split
 on them

---
 src/skmultiflow/trees/isoup_tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/isoup_tree.py b/src/skmultiflow/trees/isoup_tree.py
index 0251be6..5467dbf 100644
--- a/src/skmultiflow/trees/isoup_tree.py
+++ b/src/skmultiflow/trees/isoup_tree.py
@@ -513,7 +513,8 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
         best_split_suggestions.sort(key=attrgetter('merit'))
         should_split = False
         if len(best_split_suggestions) < 2:
-            should_split = len(best_split_suggestions) > 0
+            should_split = (len(best_split_suggestions) > 0
+                            and best_split_suggestions[-1].merit > 0)
         else:
             hoeffding_bound = self._hoeffding_bound(
                 split_criterion.get_range_of_merit(
@@ -526,7 +527,7 @@ class iSOUPTreeRegressor(HoeffdingTreeRegressor, MultiOutputMixin):
                                                < 1 - hoeffding_bound or hoeffding_bound
                                                < self.tie_threshold)):
                 should_split = True
-            if self.remove_poor_atts and not should_split:
+            if self.remove_poor_atts and not should_split and best_suggestion.merit > 0:
                 poor_atts = set()
                 best_ratio = second_best_suggestion.merit / best_suggestion.merit
 
-- 
2.43.0


From d7a259796572cbee09c4c14edf0df21087271a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:40 +0000
Subject: [PATCH 86/93] fix: stacked single-target trees answer the mean after
 a single example

---
 src/skmultiflow/trees/_nodes/sst_htr_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/trees/_nodes/sst_htr_nodes.py b/src/skmultiflow/trees/_nodes/sst_htr_nodes.py
index 4eec95c..e2ca4f3 100644
--- a/src/skmultiflow/trees/_nodes/sst_htr_nodes.py
+++ b/src/skmultiflow/trees/_nodes/sst_htr_nodes.py
@@ -48,7 +48,7 @@ class SSTLearningNode(LearningNodePerceptronMultiTarget):
             self._update_weights(X, y, learning_ratio, tree)
 
     def predict_one(self, X, *, tree=None):
-        if self.perceptron_weights is None:
+        if self.perceptron_weights is None or tree.examples_seen <= 1:
             return self.stats[1] / self.stats[0] if len(self.stats) > 0 else np.zeros(
                 tree._n_targets, dtype=np.float64)
 
@@ -125,7 +125,7 @@ class SSTLearningNodeAdaptive(SSTLearningNode):
         predictions = self.stats[1] / self.stats[0] if len(self.stats) > 0 else np.zeros(
             tree._n_targets, dtype=np.float64)
 
-        if self.perceptron_weights is None:
+        if self.perceptron_weights is None or tree.examples_seen <= 1:
             return predictions
 
         X_norm = tree.normalize_sample(X)
-- 
2.43.0


From bd719ac67988b85cf0ea5690ea9cb2d3f87f1946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:55 +0000
Subject: [PATCH 87/93] fix: perceptrons of regression trees survive weights
 that are all 0

---
 src/skmultiflow/trees/_nodes/htr_nodes.py     | 4 +++-
 src/skmultiflow/trees/_nodes/isouptr_nodes.py | 3 ++-
 src/skmultiflow/trees/_nodes/sst_htr_nodes.py | 6 ++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/skmultiflow/trees/_nodes/htr_nodes.py b/src/skmultiflow/trees/_nodes/htr_nodes.py
index a8705a4..26a3e8e 100644
--- a/src/skmultiflow/trees/_nodes/htr_nodes.py
+++ b/src/skmultiflow/trees/_nodes/htr_nodes.py
@@ -133,7 +133,9 @@ class LearningNodePerceptron(LearningNodeMean):
         self.perceptron_weights = (self.perceptron_weights
                                    + learning_ratio * delta * normalized_sample)
         # Normalize perceptron weights
-        self.perceptron_weights = self.perceptron_weights / np.sum(np.abs(self.perceptron_weights))
+        sum_w = np.sum(np.abs(self.perceptron_weights))
+        if sum_w > 0:
+            self.perceptron_weights = self.perceptron_weights / sum_w
 
 
 class ActiveLearningNodeMean(LearningNodeMean, ActiveLeafRegressor):
diff --git a/src/skmultiflow/trees/_nodes/isouptr_nodes.py b/src/skmultiflow/trees/_nodes/isouptr_nodes.py
index b438720..4d6ca8e 100644
--- a/src/skmultiflow/trees/_nodes/isouptr_nodes.py
+++ b/src/skmultiflow/trees/_nodes/isouptr_nodes.py
@@ -87,7 +87,8 @@ class LearningNodePerceptronMultiTarget(LearningNodePerceptron):
         n_targets = self.perceptron_weights.shape[0]
         for i in range(n_targets):
             sum_w = np.sum(np.abs(self.perceptron_weights[i, :]))
-            self.perceptron_weights[i, :] /= sum_w
+            if sum_w > 0:
+                self.perceptron_weights[i, :] /= sum_w
 
 
 class LearningNodeAdaptiveMultiTarget(LearningNodePerceptronMultiTarget):
diff --git a/src/skmultiflow/trees/_nodes/sst_htr_nodes.py b/src/skmultiflow/trees/_nodes/sst_htr_nodes.py
index e2ca4f3..b5a8174 100644
--- a/src/skmultiflow/trees/_nodes/sst_htr_nodes.py
+++ b/src/skmultiflow/trees/_nodes/sst_htr_nodes.py
@@ -100,9 +100,11 @@ class SSTLearningNode(LearningNodePerceptronMultiTarget):
         # Normalize perceptron weights
         for i in range(n_targets):
             sum_w_0 = np.sum(np.absolute(self.perceptron_weights[0][i, :]))
-            self.perceptron_weights[0][i, :] /= sum_w_0
+            if sum_w_0 > 0:
+                self.perceptron_weights[0][i, :] /= sum_w_0
             sum_w_1 = np.sum(np.absolute(self.perceptron_weights[1][i, :]))
-            self.perceptron_weights[1][i, :] /= sum_w_1
+            if sum_w_1 > 0:
+                self.perceptron_weights[1][i, :] /= sum_w_1
 
     def _predict_one_base(self, X):
         return self.perceptron_weights[0] @ X
-- 
2.43.0


From fcf6eb86a09296ff0e0363f5ea867c31851bbad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 88/93] fix: a decision rule removed at a drift does not hide
 the row from the next rule

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 83baf0a..e15e769 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -515,14 +515,14 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
         """
         rule_fired = False
         if self.rule_set:
-            for i, rule in enumerate(self.rule_set):
+            for rule in list(self.rule_set):
                 if rule.covers_instance(X):
                     rule_fired = True
                     if self.drift_detector is not None:
                         prediction = rule.predict(y)
                         rule.drift_detector.add_element(prediction)
                         if rule.drift_detector.detected_change() and rule.get_weight_seen() > self.min_weight:
-                            self.rule_set.pop(i)
+                            self.rule_set = [r for r in self.rule_set if r is not rule]
                             continue
                     rule.learn_from_instance(X, y, weight, self)
                     if rule.get_weight_seen() - rule.weight_seen_at_last_expand >= self.grace_period:
-- 
2.43.0


From 2bdcbd09ba48e4edb7ec6fecf391b9b44278c853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 89/93] fix: decision rules tell their drift detectors errors,
 not successes

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index e15e769..3461659 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -519,8 +519,7 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                 if rule.covers_instance(X):
                     rule_fired = True
                     if self.drift_detector is not None:
-                        prediction = rule.predict(y)
-                        rule.drift_detector.add_element(prediction)
+                        rule.drift_detector.add_element(1 - rule.predict(y))
                         if rule.drift_detector.detected_change() and rule.get_weight_seen() > self.min_weight:
                             self.rule_set = [r for r in self.rule_set if r is not rule]
                             continue
-- 
2.43.0


From 58ac6f5bb1e521b5da7d97224cf5b843ab6a5c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 90/93] fix: a decision rule can exclude a second value of a
 nominal attribute

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 3461659..01295f6 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -679,7 +679,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                 new_pred = Predicate(best_suggestion.att_idx, best_suggestion.operator, best_suggestion.att_val)
                 add_pred = True
                 for pred in rule.predicate_set:
-                    if (pred.operator == new_pred.operator) and (pred.att_idx == new_pred.att_idx):
+                    if (pred.operator == new_pred.operator) and (pred.att_idx == new_pred.att_idx) and \
+                            (pred.operator in ['<=', '>'] or pred.value == new_pred.value):
                         if pred.operator == "<=":
                             pred.value = min(pred.value, new_pred.value)
                             rule.observed_class_distribution = best_suggestion. \
-- 
2.43.0


From 3b311f6d0ac249b01067e7820a2d06e04441d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 91/93] fix: the weighted sum of decision rules weighs every
 rule's votes the same

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 01295f6..23c907c 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -444,8 +444,6 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
                 if sum(votes.values()) != 0:
                     votes = normalize_values_in_dict(votes, inplace=False)
                 final_votes = {k: final_votes.get(k, 0) + votes.get(k, 0) for k in set(final_votes) | set(votes)}
-                if sum(final_votes.values()) != 0:
-                    normalize_values_in_dict(final_votes)
 
         return final_votes if fired_rule else self.default_rule.get_class_votes(X, self)
 
-- 
2.43.0


From ff6e1f2fb827cddfaf0b0a55a9202a754f28c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 92/93] fix: attributes removed from a decision rule do not
 void its naive Bayes votes

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index 23c907c..c6dc497 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -285,7 +285,9 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
 
             """
             if self.get_weight_seen() >= vfdr.nb_threshold and vfdr.nb_prediction:
-                return do_naive_bayes_prediction(X, self.observed_class_distribution, self._attribute_observers)
+                observers = {i: obs for i, obs in self._attribute_observers.items()
+                             if not isinstance(obs, AttributeObserverNull)}
+                return do_naive_bayes_prediction(X, self.observed_class_distribution, observers)
             else:
                 return self.observed_class_distribution
 
-- 
2.43.0


From 09dcf6d7131e99e2ea286666fa55e8aaaa926dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 93/93] fix: decision rules without any observation can be
 described

---
 src/skmultiflow/rules/very_fast_decision_rules.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/skmultiflow/rules/very_fast_decision_rules.py b/src/skmultiflow/rules/very_fast_decision_rules.py
index c6dc497..bb2d7d4 100644
--- a/src/skmultiflow/rules/very_fast_decision_rules.py
+++ b/src/skmultiflow/rules/very_fast_decision_rules.py
@@ -876,7 +876,8 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
         list (rule)
         """
         for rule in self.rule_set:
-            class_idx = max(rule.observed_class_distribution.items(), key=itemgetter(1))[0]
+            class_idx = max(rule.observed_class_distribution.items(), key=itemgetter(1),
+                            default=(0, 0))[0]
             rule.class_idx = class_idx
         return self.rule_set
 
@@ -890,10 +891,12 @@ class VeryFastDecisionRulesClassifier(BaseSKMObject, ClassifierMixin):
          """
         description = ''
         for i, rule in enumerate(self.rule_set):
-            class_idx = max(rule.observed_class_distribution.items(), key=itemgetter(1))[0]
+            class_idx = max(rule.observed_class_distribution.items(), key=itemgetter(1),
+                            default=(0, 0))[0]
             description += 'Rule ' + str(i) + ' :' + str(rule.get_rule()) + '| class :' + str(class_idx) + '  ' + \
                            str(rule.observed_class_distribution) + '\n'
-        class_idx = max(self.default_rule.observed_class_distribution.items(), key=itemgetter(1))[0]
+        class_idx = max(self.default_rule.observed_class_distribution.items(), key=itemgetter(1),
+                        default=(0, 0))[0]
         description += 'Default Rule :' + str(self.default_rule.get_rule()) + '| class :' + str(class_idx) + '  ' + \
                        str(self.default_rule.observed_class_distribution)
         return description
-- 
2.43.0


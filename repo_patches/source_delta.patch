From efe1a8a79b8f73e309821b3a123d7be8568652e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 01/39] fix: region_with_zeroes used the Region class instead
 of the given region

---
 spta/region/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/spatial.py b/spta/region/spatial.py
index f17654a..d6903c8 100644
--- a/spta/region/spatial.py
+++ b/spta/region/spatial.py
@@ -206,7 +206,7 @@ class SpatialRegion(DomainRegion):
         Creates a spatial region filled with zeroes, with the dimensions given by the region.
         Notice that indices will start at (0, 0)
         '''
-        (x_len, y_len) = (Region.x2 - Region.x1, Region.y2 - Region.y1)
+        (x_len, y_len) = (region.x2 - region.x1, region.y2 - region.y1)
         zero_array = np.zeros((x_len, y_len))
         return SpatialRegion(zero_array)
 
-- 
2.43.0


From 4db0e9a0010db234fcd02f13497de31a4d06ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 02/39] fix: series_at(None) returns a NaN series instead of
 falling through

---
 spta/region/temporal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index c98e948..159ad10 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -53,7 +53,7 @@ class SpatioTemporalRegion(DomainRegion):
     def series_at(self, point):
         # sanity check
         if point is None:
-            np.repeat(np.nan, repeats=self.series_len)
+            return np.repeat(np.nan, repeats=self.series_len)
 
         return self.numpy_dataset[:, point.x, point.y]
 
@@ -360,7 +360,7 @@ class SpatioTemporalCluster(SpatialCluster, SpatioTemporalDecorator):
         '''
         # sanity check
         if point is None:
-            np.repeat(np.nan, repeats=self.series_len)
+            return np.repeat(np.nan, repeats=self.series_len)
 
         # self.logger.debug('SpatioTemporalCluster {} series_at {}'.format(self.label, point))
         if self.partition.is_member(point, self.cluster_index):
-- 
2.43.0


From a9b7beaa59c61aa6f5dd08bee137fea297175ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 03/39] fix: get_centroid called a method that does not exist

---
 spta/region/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 159ad10..3c4e284 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -109,7 +109,7 @@ class SpatioTemporalRegion(DomainRegion):
             # calculate the centroid, ugly but works...
             from . import centroid
             centroid_calc = centroid.CalculateCentroid(distance_measure)
-            self.centroid, _ = centroid_calc.find_centroid_and_cost(self)
+            self.centroid, _ = centroid_calc.find_centroid_and_distances(self)
             return self.centroid
 
     def has_centroid(self):
-- 
2.43.0


From 9dd4bb90234e310899c0cf3b054420d105f7b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 04/39] fix: saving a scaled region used missing filenames and
 the metadata of the decorated region

---
 spta/region/scaling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index b815b9b..b2aecaf 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -5,7 +5,7 @@ This module handles scale and descale of spatio-temporal regions.
 import numpy as np
 
 from .function import FunctionRegionScalarSame, FunctionRegionSeries, FunctionRegionSeriesSame
-from .temporal import SpatioTemporalDecorator
+from .temporal import SpatioTemporalDecorator, SpatioTemporalRegion
 
 
 class ScaleFunction(FunctionRegionSeriesSame):
@@ -206,15 +206,15 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
         '''
 
         # save dataset
-        super(SpatioTemporalScaled, self).save()
+        SpatioTemporalRegion.save(self)
 
         # save min
-        min_filename = self.region_metadata.scale_min_filename
+        min_filename = self.region_metadata.scaled_min_filename
         np.save(min_filename, self.scale_min.numpy_dataset)
         self.logger.info('Saved scale_min to {}'.format(min_filename))
 
         # save max
-        max_filename = self.region_metadata.scale_max_filename
+        max_filename = self.region_metadata.scaled_max_filename
         np.save(max_filename, self.scale_max.numpy_dataset)
         self.logger.info('Saved scale_max to {}'.format(max_filename))
 
-- 
2.43.0


From 53be634d1a2a49b8aee1167156f7e92349f795c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 05/39] fix: generic cluster_len never counted any member

---
 spta/region/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index 7db158a..e946dd8 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -109,7 +109,7 @@ class PartitionRegion(BaseRegion):
         members = 0
         for point in self:
             if self.is_member(point, cluster_index):
-                members += 0
+                members += 1
         return members
 
     def clone(self):
-- 
2.43.0


From cb2d610a1ea6b5ad6e390ca078f89a006275eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 06/39] fix: merge_clusters_2d discarded the clusters ordered
 by index

---
 spta/region/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/region/partition.py b/spta/region/partition.py
index e946dd8..9df9900 100644
--- a/spta/region/partition.py
+++ b/spta/region/partition.py
@@ -302,7 +302,7 @@ class PartitionRegionCrisp(PartitionRegion):
             assert cluster.y_len == self.y_len
 
         # order clusters by their index
-        sorted(spatial_clusters, key=lambda cluster: cluster.cluster_index)
+        spatial_clusters = sorted(spatial_clusters, key=lambda cluster: cluster.cluster_index)
 
         # sanity checks: there are k clusters, and all indices are present
         indices = [
-- 
2.43.0


From 4330c555e7e2c397daf11a7d74aa8ed336e80946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 07/39] fix: interval and rectangle subset of a scaled region
 kept the scaling data of the whole region

---
 spta/region/scaling.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index b2aecaf..a3fe785 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -150,6 +150,12 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
                                     scale_min=scale_min_subset,
                                     scale_max=scale_max_subset)
 
+    def subset(self, region, ti):
+        '''
+        Like region_subset, the scaling data needs to match the subset.
+        '''
+        return self.region_subset(region).interval_subset(ti)
+
     def has_scaling(self):
         '''
         Flag to indicate that the region can be descaled (yes here!)
-- 
2.43.0


From 43b82db0c6b9ef4b03a255dd18a01b1111d45ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 08/39] fix: repeat_point on decorated spatio-temporal regions
 used the spatial version

---
 spta/region/temporal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 3c4e284..3269057 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -237,6 +237,9 @@ class SpatioTemporalDecorator(SpatialDecorator, SpatioTemporalRegion):
     def series_at(self, point):
         return self.decorated_region.series_at(point)
 
+    def repeat_point(self, point):
+        return SpatioTemporalRegion.repeat_point(self, point)
+
     def has_centroid(self):
         # if a centroid has been set at parent, honor it
         # TODO we should avoid this?
-- 
2.43.0


From 8889b99c4ddb1b95d263ac1aaddffe4c83e30b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 09/39] fix: analyze_errors tested the has_centroid method
 itself instead of calling it

---
 spta/model/forecast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index 2748630..0c33599 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -215,9 +215,9 @@ class ForecastAnalysis(log_util.LoggerMixin):
         log_msg = 'Combined {} error from all models: {}'
         self.logger.info(log_msg.format(error_type, overall_error_each))
 
-        if spt_region.has_centroid:
+        if spt_region.has_centroid():
             # show the local error at the centroid
-            centroid = spt_region.centroid
+            centroid = spt_region.get_centroid()
             local_error_centroid = error_region_each.value_at(centroid)
             log_msg = 'Local error of model at the medoid {}: {}'
             self.logger.debug(log_msg.format(centroid, local_error_centroid))
@@ -253,8 +253,8 @@ class ForecastAnalysis(log_util.LoggerMixin):
         # Use the model at the centroid
         # ask the region for its centroid. If not available, the error is np.nan
         #
-        if spt_region.has_centroid:
-            centroid = spt_region.centroid
+        if spt_region.has_centroid():
+            centroid = spt_region.get_centroid()
             overall_error_centroid = overall_error_region.value_at(centroid)
         else:
             centroid = None
-- 
2.43.0


From 39e583b0353e029ed29b0eeff454d4ec2a967cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 10/39] fix: a forecast request before training raised
 AttributeError instead of ValueError

---
 spta/model/forecast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index 0c33599..8806787 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -349,10 +349,10 @@ class ForecastAnalysis(log_util.LoggerMixin):
         Also checks that the forecast length is equal to the test length that was used during
         training...
         '''
-        assert forecast_len == self.test_len
-
         if self.model_region is None:
             raise ValueError('Forecast requested but models not trained!')
 
         if self.error_analysis is None:
             raise ValueError('ErrorAnalysis not available!')
+
+        assert forecast_len == self.test_len
-- 
2.43.0


From 5fe18ed8a719f149073c83c6e1fc708872aa9836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 11/39] fix: training again kept the forecasts of the previous
 models

---
 spta/model/forecast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index 8806787..199402b 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -57,6 +57,9 @@ class ForecastAnalysis(log_util.LoggerMixin):
         self.error_analysis = ErrorAnalysis(self.test_region, self.training_region,
                                             self.parallel_workers)
 
+        # forecasts from previously trained models are not valid anymore
+        self.forecast_region_each = None
+
         # call the strategy
         self.logger.info('Training models using: {}'.format(self.trainer.__class__.__name__))
         self.model_region = self.trainer.apply_to(self.training_region)
-- 
2.43.0


From 980ede0217e76ab735b7061301770cb28de59682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 12/39] fix: measuring errors of a scaled region without a
 training region failed

---
 spta/model/error.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/model/error.py b/spta/model/error.py
index ffed9b7..c69ab6c 100644
--- a/spta/model/error.py
+++ b/spta/model/error.py
@@ -104,7 +104,8 @@ class MeasureForecastingError(FunctionRegionScalar):
         if observation_region.has_scaling():
             self.logger.debug('About to descale observation and training regions')
             self.observation_region = observation_region.descale()
-            self.training_region = training_region.descale()
+            self.training_region = \
+                training_region.descale() if training_region is not None else None
         else:
             self.logger.debug('MeasureForecastingError - No scaling detected')
             self.observation_region = observation_region
-- 
2.43.0


From 345d50d9ff9b3a12291e92fe5b9f2fc6d7ce7408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 13/39] fix: auto ARIMA training failed on a missing series
 before checking for it

---
 spta/arima/train.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/arima/train.py b/spta/arima/train.py
index d864606..707f875 100644
--- a/spta/arima/train.py
+++ b/spta/arima/train.py
@@ -127,13 +127,13 @@ class TrainerAutoArima(ModelTrainer):
         run pyramid.arima.auto_arima to discover "optimal" p, d, q for a training_series, and fit the
         resulting model with the same training data.
         '''
-        self.logger.debug('Running auto_arima with training size {}'.format(len(training_series)))
-
         # sanity check: no parameters means no model, no data means no model
         # useful for sparse datasets or when refitting
         if auto_arima_params is None or training_series is None:
             return None
 
+        self.logger.debug('Running auto_arima with training size {}'.format(len(training_series)))
+
         try:
             # find p, d, q with auto_arima, get a model
             sarimax_model = auto_arima(training_series,
-- 
2.43.0


From 67da186488d1bf89c92f4116187e1f60d6145544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 14/39] fix: partitions were always saved and loaded under the
 default pickle directory

---
 spta/clustering/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 243fa1a..9be71cb 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -210,7 +210,7 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
         Saves a partition as a pickle objct, using its to_pickle(path) method. The path is
         calculated by the clustering metadata.
         '''
-        pickle_full_path = self.pickle_full_path(region_metadata)
+        pickle_full_path = self.pickle_full_path(region_metadata, pickle_home)
 
         # the partition can save itself
         partition.to_pickle(pickle_full_path)
@@ -241,19 +241,19 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
         Should be successful if save_partition() was called before, will raise an exception
         if no saved partition is found.
         '''
-        pickle_full_path = self.pickle_full_path(region_metadata)
+        pickle_full_path = self.pickle_full_path(region_metadata, pickle_home)
         partition = PartitionRegion.try_from_pickle(pickle_full_path)
 
         self.logger.info('Loaded previously calculated partition from {}'.format(pickle_full_path))
         return partition
 
-    def pickle_full_path(self, region_metadata):
+    def pickle_full_path(self, region_metadata, pickle_home='pickle'):
         '''
         Calculates the path for persisting partition objects via pickle. The path is calculated by
         the clustering metadata.
         '''
         # path to store/load pickle objects given metadata
-        pickle_dir = self.metadata.pickle_dir(region_metadata, self.distance_measure)
+        pickle_dir = self.metadata.pickle_dir(region_metadata, self.distance_measure, pickle_home)
 
         # use a fixed name, assuming that the metadata uniquely identifies the created partition...
         return os.path.join(pickle_dir, self.partition_pickle_filename)
-- 
2.43.0


From d03de803262dcc7cbb59063f809275aaa2cfd35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 15/39] fix: solver metadata with clustering did not accept the
 pickle directory

---
 spta/solver/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spta/solver/metadata.py b/spta/solver/metadata.py
index eb922f4..3e46f29 100644
--- a/spta/solver/metadata.py
+++ b/spta/solver/metadata.py
@@ -129,8 +129,9 @@ class MetadataWithClustering(SolverMetadataBasic):
                                                         prediction_region_str, self.test_len,
                                                         forecast_len_str, self.error_type)
 
-    def pickle_dir(self):
-        return self.clustering_metadata.pickle_dir(self.region_metadata, self.distance_measure)
+    def pickle_dir(self, pickle_home='pickle'):
+        return self.clustering_metadata.pickle_dir(self.region_metadata, self.distance_measure,
+                                                   pickle_home)
 
     def __str__(self):
         return '{} {} {} {} {}'.format(self.region_metadata, self.clustering_metadata,
-- 
2.43.0


From e022892eb7ae2a157ce31a1902c8dda8edd92a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 16/39] fix: k-medoids metadata of different seeds were equal,
 mixing the costs of a suite with several seeds

---
 spta/clustering/kmedoids.py | 6 ++++++
 spta/clustering/suite.py    | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/spta/clustering/kmedoids.py b/spta/clustering/kmedoids.py
index 672db74..538e99c 100644
--- a/spta/clustering/kmedoids.py
+++ b/spta/clustering/kmedoids.py
@@ -46,6 +46,12 @@ class KmedoidsClusteringMetadata(ClusteringMetadata):
 
         return r
 
+    def __eq__(self, other):
+        return repr(self) == repr(other)
+
+    def __hash__(self):
+        return hash(repr(self))
+
     def __str__(self):
         '''
         Useful for plot titles
diff --git a/spta/clustering/suite.py b/spta/clustering/suite.py
index 777eab8..ae26cef 100644
--- a/spta/clustering/suite.py
+++ b/spta/clustering/suite.py
@@ -394,7 +394,8 @@ class FindSuiteElbow(log_util.LoggerMixin):
             for metadata in ordered_metadata_instances:
                 costs_by_metadata_for_this_seed[metadata] = costs_by_metadata[metadata]
 
-            elbow_for_this_seed = self.find_cost_elbow_given_order(costs_by_metadata, ordered_metadata_instances)
+            elbow_for_this_seed = self.find_cost_elbow_given_order(costs_by_metadata_for_this_seed,
+                                                                   ordered_metadata_instances)
             elbows_by_seed[seed] = elbow_for_this_seed
 
         return elbows_by_seed
-- 
2.43.0


From 76cd705e99915b0789181e3150f01c3b6fe5f17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 17/39] fix: k-medoids metadata recovered from its
 representation lost the initial medoids

---
 spta/clustering/kmedoids.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spta/clustering/kmedoids.py b/spta/clustering/kmedoids.py
index 538e99c..134f78a 100644
--- a/spta/clustering/kmedoids.py
+++ b/spta/clustering/kmedoids.py
@@ -63,7 +63,6 @@ class KmedoidsClusteringMetadata(ClusteringMetadata):
     def from_repr(cls, repr_string):
         '''
         Given the representation, recover the instance.
-        NOTE: This implementation assumes that initial_medoids has not been set!
         '''
         parts = repr_string.split('_')
         assert parts[0] == 'kmedoids'
@@ -78,7 +77,14 @@ class KmedoidsClusteringMetadata(ClusteringMetadata):
 
         # 3. mode
         mode = parts[3]   # e.g. lite
-        return KmedoidsClusteringMetadata(k, random_seed=random_seed, mode=mode)
+
+        # 4. initial medoids, optional
+        initial_medoids = None
+        if len(parts) > 4:
+            initial_medoids = [int(index) for index in parts[4][2:].split('-')]  # e.g. im1-2-3
+
+        return KmedoidsClusteringMetadata(k, random_seed=random_seed, mode=mode,
+                                          initial_medoids=initial_medoids)
 
     @classmethod
     def from_classifier_label(cls, classifier_label, mode='lite'):
-- 
2.43.0


From 7fc07ac3cc58b6fdb8b6c5c5a8ee72bf1e639630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 18/39] fix: the RMSE distance had no stable representation to
 identify its results

---
 spta/distance/rmse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spta/distance/rmse.py b/spta/distance/rmse.py
index 242e007..ba11544 100644
--- a/spta/distance/rmse.py
+++ b/spta/distance/rmse.py
@@ -29,3 +29,9 @@ class DistanceByRMSE(DistanceBetweenSeries):
         Note that the errors of each series can be added using Root Mean Squared.
         '''
         return arrays_util.root_mean_squared(distances_for_point)
+
+    def __repr__(self):
+        return 'rmse'
+
+    def __str__(self):
+        return repr(self)
-- 
2.43.0


From 67b33318d4f068107a08106e7cb3175a15a0bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 19/39] fix: spatially weighted DTW was identified as plain DTW
 and lost its weights when reloaded

---
 spta/distance/dtw.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index 81908a7..97ae0e7 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -194,11 +194,24 @@ class DistanceBySpatialDTW(DistanceByDTW):
         '''
 
         # read normally
-        super(DistanceBySpatialDTW, self).load_distance_matrix_2d(filename, expected_region)
+        loaded = super(DistanceBySpatialDTW, self).load_distance_matrix_2d(filename,
+                                                                           expected_region)
+
+        # a matrix that was just read has no weight yet
+        if loaded is not None:
+            self.weighted = False
 
         # add the weight
         return self.weight_distance_matrix(expected_region)
 
+    def compute_distance_matrix(self, temporal_data):
+        # a matrix that was just computed has no weight yet
+        self.weighted = False
+        return super(DistanceBySpatialDTW, self).compute_distance_matrix(temporal_data)
+
+    def __repr__(self):
+        return 'dtw-weight{}'.format(self.weight)
+
 
 if __name__ == '__main__':
     from spta.util import log as log_util
-- 
2.43.0


From 5e52c659eb5fd6fd4c6f99fe365efd8cdbe6480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 20/39] fix: results of the classifier solver ignored the
 requested output directory

---
 spta/classifier/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 99bacaf..5ea257d 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -261,7 +261,7 @@ class SolverFromClassifier(log_util.LoggerMixin):
                                                       error_subregion=error_region_each,
                                                       prediction_region=prediction_region,
                                                       spt_region=self.spt_region,
-                                                      output_home='outputs',
+                                                      output_home=output_home,
                                                       is_out_of_sample=False)
         prediction_result = result_builder.from_classifier(self.clustering_suite, classifier_labels_by_point).build()
         return prediction_result
-- 
2.43.0


From 400672dde9b15fb06399d02e409729cad0a9fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 21/39] fix: the classifier result filename ignored the
 prediction region and the past samples

---
 spta/clustering/suite.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spta/clustering/suite.py b/spta/clustering/suite.py
index ae26cef..4ab30e0 100644
--- a/spta/clustering/suite.py
+++ b/spta/clustering/suite.py
@@ -211,8 +211,9 @@ class ClusteringSuite(log_util.LoggerMixin):
         clustering__classifier_result__kmedoids-quick__region-0-5-0-5__tp8.csv
         '''
         # TODO make region calculate its own string
-        region_str = 'region-0-5-0-5'
-        tp_str = 'tp8'
+        region_str = 'region-{}-{}-{}-{}'.format(prediction_region.x1, prediction_region.x2,
+                                                 prediction_region.y1, prediction_region.y2)
+        tp_str = 'tp{}'.format(tp)
         return 'clustering__classifier_result__{!r}__{}__{}.csv'.format(self, region_str, tp_str)
 
     def __iter__(self):
-- 
2.43.0


From a9b8fc061ae1d4583b7ca858ecaf6abfcf15501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 22/39] fix: the medoids to avoid as random points ignored the
 offset of the region

---
 spta/classifier/train_input.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spta/classifier/train_input.py b/spta/classifier/train_input.py
index 621ea99..a4efb47 100644
--- a/spta/classifier/train_input.py
+++ b/spta/classifier/train_input.py
@@ -621,10 +621,11 @@ def extract_all_medoid_indices_from_suite_result(suite_result, spt_region):
     for clustering_repr, medoids in suite_result.items():
         unique_medoid_points.update(medoids)
 
-    # to get the indices, we need the region
+    # to get the indices, we need the region. The medoids have absolute coordinates
     y_len = spt_region.y_len
+    x_offset, y_offset = (spt_region.region_metadata.region.x1, spt_region.region_metadata.region.y1)
     unique_medoid_indices = [
-        unique_medoid_point.x * y_len + unique_medoid_point.y
+        (unique_medoid_point.x - x_offset) * y_len + (unique_medoid_point.y - y_offset)
         for unique_medoid_point in unique_medoid_points
     ]
 
-- 
2.43.0


From 9c1bea37b453cd334321a5ec4fd1a0121e2a4822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 23/39] fix: fuzzy k-medoids failed when the initial medoids
 were already the best

---
 spta/kmedoids/kmedoids_fuzzy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/kmedoids/kmedoids_fuzzy.py b/spta/kmedoids/kmedoids_fuzzy.py
index 4249091..ce0f8ba 100644
--- a/spta/kmedoids/kmedoids_fuzzy.py
+++ b/spta/kmedoids/kmedoids_fuzzy.py
@@ -167,7 +167,7 @@ def run_kmedoids_fuzzy(X, k, m, distance_measure, initial_medoids=None, random_s
     medoids = choose_initial_medoids(X, k, random_seed, initial_medoids)
 
     # assign initial members
-    labels, costs, tot_cost, dist_mat = compute_membership_fcm(X, m, medoids, distance_measure,
+    uij, costs, tot_cost, dist_mat = compute_membership_fcm(X, m, medoids, distance_measure,
                                                                tol)
     cc, SWAPPED = 0, True
 
-- 
2.43.0


From b5263e59ce377a9fb895b5346cb732113306e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 24/39] fix: the representation of KNN parameters did not
 identify the distance measure

---
 spta/model/knn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/model/knn.py b/spta/model/knn.py
index 4cb5f04..ae9d208 100644
--- a/spta/model/knn.py
+++ b/spta/model/knn.py
@@ -25,8 +25,8 @@ class KNNParams(namedtuple('KNNParams', 'k distance_measure')):
         '''
 
         # assuming DTW, could be RMSE or some other euclidean distance
-        as_str = 'knn-k{}-dtw'
-        return as_str.format(self.k)
+        as_str = 'knn-k{}-{!r}'
+        return as_str.format(self.k, self.distance_measure)
 
     def __str__(self):
         return super(KNNParams, self).__repr__()
-- 
2.43.0


From c96125e9ce1a332d9e807e6a3c794eabc9757d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 25/39] fix: an unknown k-medoids mode failed with an undefined
 variable

---
 spta/kmedoids/kmedoids.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spta/kmedoids/kmedoids.py b/spta/kmedoids/kmedoids.py
index 13d4198..67b7f60 100644
--- a/spta/kmedoids/kmedoids.py
+++ b/spta/kmedoids/kmedoids.py
@@ -137,6 +137,8 @@ def run_kmedoids(X, k, distance_measure, initial_medoids=None, random_seed=1, mo
         candidate_generator = candidate_generator_for_robust_kmedoids
     elif mode == 'lite':
         candidate_generator = candidate_generator_for_lite_kmedoids
+    else:
+        raise ValueError('Mode not supported: {}'.format(mode))
 
     while True:
 
-- 
2.43.0


From 45699cd5d339bec2ff1143462cf4a005f3620c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 26/39] fix: k-medoids partitions of a different number of
 iterations or tolerance were saved under the same name

---
 spta/clustering/kmedoids.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/spta/clustering/kmedoids.py b/spta/clustering/kmedoids.py
index 134f78a..f6ee5bf 100644
--- a/spta/clustering/kmedoids.py
+++ b/spta/clustering/kmedoids.py
@@ -44,6 +44,12 @@ class KmedoidsClusteringMetadata(ClusteringMetadata):
             indices_str = '-'.join(indices_str)
             r = '{}_im{}'.format(r, indices_str)
 
+        # the defaults are not part of the representation
+        if self.max_iter != 1000:
+            r = '{}_iter{}'.format(r, self.max_iter)
+        if self.tol != 0.001:
+            r = '{}_tol{}'.format(r, self.tol)
+
         return r
 
     def __eq__(self, other):
@@ -78,13 +84,17 @@ class KmedoidsClusteringMetadata(ClusteringMetadata):
         # 3. mode
         mode = parts[3]   # e.g. lite
 
-        # 4. initial medoids, optional
-        initial_medoids = None
-        if len(parts) > 4:
-            initial_medoids = [int(index) for index in parts[4][2:].split('-')]  # e.g. im1-2-3
-
-        return KmedoidsClusteringMetadata(k, random_seed=random_seed, mode=mode,
-                                          initial_medoids=initial_medoids)
+        # 4. optional parameters
+        params = {}
+        for part in parts[4:]:
+            if part.startswith('im'):
+                params['initial_medoids'] = [int(index) for index in part[2:].split('-')]  # e.g. im1-2-3
+            elif part.startswith('iter'):
+                params['max_iter'] = int(part[4:])   # e.g. iter50
+            elif part.startswith('tol'):
+                params['tol'] = float(part[3:])   # e.g. tol0.1
+
+        return KmedoidsClusteringMetadata(k, random_seed=random_seed, mode=mode, **params)
 
     @classmethod
     def from_classifier_label(cls, classifier_label, mode='lite'):
-- 
2.43.0


From 5dd0bbd7c5ea6c5f65657a68e43a23ce56bf54fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:02 +0000
Subject: [PATCH 27/39] fix: k-medoids report counts clusters without members
 instead of failing

---
 spta/kmedoids/kmedoids.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/kmedoids/kmedoids.py b/spta/kmedoids/kmedoids.py
index 67b7f60..c9c1660 100644
--- a/spta/kmedoids/kmedoids.py
+++ b/spta/kmedoids/kmedoids.py
@@ -226,7 +226,8 @@ def show_report(result, elapsed_time):
     logger.info('Elapsed time: {:.2f}s'.format(elapsed_time))
 
     # calculate size of each cluster: count the number of members for each label
-    _, points_per_cluster = np.unique(result.labels, return_counts=True)
+    # (a cluster may have no members, when its medoid is identical to another medoid)
+    points_per_cluster = np.bincount(result.labels, minlength=result.k)
     total_points = len(result.labels)
 
     for i in range(0, result.k):
-- 
2.43.0


From 06c7c7c770746312ffb6a7fc7141b567afec056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:29 +0000
Subject: [PATCH 28/39] fix: distances to a point are calculated (or refused)
 when there is no saved distance matrix

---
 spta/distance/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/distance/__init__.py b/spta/distance/__init__.py
index 24c33c5..ff3a1f3 100644
--- a/spta/distance/__init__.py
+++ b/spta/distance/__init__.py
@@ -122,7 +122,8 @@ class DistanceBetweenSeries(log_util.LoggerMixin):
             try:
                 # can we load a saved distance matrix?
                 # this requires the metadata of the region
-                self.load_distance_matrix_md(spt_region.region_metadata)
+                if self.load_distance_matrix_md(spt_region.region_metadata) is None:
+                    raise ValueError('No saved distances found')
 
             except Exception as err:
 
-- 
2.43.0


From 38f09534a32460fc7ddd64531e89ea50dbf107e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 29/39] fix: DBSCAN clustering uses its own distance measure
 instead of an undefined global

---
 spta/clustering/dbscan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/clustering/dbscan.py b/spta/clustering/dbscan.py
index 9931547..2e8d2f8 100644
--- a/spta/clustering/dbscan.py
+++ b/spta/clustering/dbscan.py
@@ -71,7 +71,8 @@ class DbscanClusteringAlgorithm(ClusteringAlgorithm):
         self.logger.info('Clustering algorithm {}'.format(self.metadata))
 
         db = DBSCAN(eps=0.7, min_samples=5, metric='precomputed',
-                    algorithm='auto', leaf_size=30, p=None, n_jobs=None).fit(distance_dtw.distance_matrix)
+                    algorithm='auto', leaf_size=30, p=None, n_jobs=None).fit(
+                        self.distance_measure.distance_matrix)
 
         core_samples_mask = np.zeros_like(db.labels_, dtype=bool)
         core_samples_mask[db.core_sample_indices_] = True
-- 
2.43.0


From fd970af0ebdd765167a0d4ac98b4b662a708f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 30/39] fix: a classifier query uses the out-of-sample region
 it is given, not the one of the first query

---
 spta/classifier/model.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 5ea257d..01f0c00 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -89,12 +89,7 @@ class SolverFromClassifier(log_util.LoggerMixin):
 
         self.spt_region = self.region_metadata.create_instance()
 
-        if out_of_sample_region is None:
-            # no out-of-sample target specified, us the same region
-            self.target_spt_region = self.spt_region
-        else:
-            # use a different, 'out-of-sample' region
-            self.target_spt_region = out_of_sample_region.create_instance()
+        self.choose_target_region(out_of_sample_region)
 
         metadata_builder = SolverMetadataBuilder(region_metadata=self.region_metadata,
                                                  model_params=self.model_params,
@@ -102,6 +97,14 @@ class SolverFromClassifier(log_util.LoggerMixin):
                                                  error_type=self.error_type)
         self.solver_metadata = metadata_builder.for_suite(self.clustering_suite, self.distance_measure).build()
 
+    def choose_target_region(self, out_of_sample_region):
+        if out_of_sample_region is None:
+            # no out-of-sample target specified, us the same region
+            self.target_spt_region = self.spt_region
+        else:
+            # use a different, 'out-of-sample' region
+            self.target_spt_region = out_of_sample_region.create_instance()
+
     def predict(self, prediction_region, tp, out_of_sample_region=None, output_home='outputs'):
         '''
         Ask the solver to create a forecast for the specified region using the specified number
@@ -118,6 +121,9 @@ class SolverFromClassifier(log_util.LoggerMixin):
 
         if self.classifier is None:
             self.prepare(out_of_sample_region)
+        else:
+            # already prepared, but this prediction may have a different target
+            self.choose_target_region(out_of_sample_region)
         assert self.classifier is not None
         assert self.target_spt_region is not None
 
-- 
2.43.0


From 4b2443b7abb9385e4a904df4266eff19f641eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 31/39] fix: the minimum-distance choice of medoids does not
 need the arguments of the other choice

---
 spta/classifier/train_input.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spta/classifier/train_input.py b/spta/classifier/train_input.py
index a4efb47..df4e314 100644
--- a/spta/classifier/train_input.py
+++ b/spta/classifier/train_input.py
@@ -57,10 +57,11 @@ class TrainDataWithRandomPoints(log_util.LoggerMixin):
 
     def get_choice_strategy(self, criterion, output_home, **choice_args):
         choice_strategies = {
-            'min_distance': MedoidsChoiceMinDistance(self.region_metadata, self.distance_measure),
-            'min_error': MedoidsChoiceMinPredictionError(self.region_metadata, self.distance_measure, output_home, **choice_args)
+            'min_distance': lambda: MedoidsChoiceMinDistance(self.region_metadata, self.distance_measure),
+            'min_error': lambda: MedoidsChoiceMinPredictionError(self.region_metadata, self.distance_measure,
+                                                                 output_home, **choice_args)
         }
-        return choice_strategies[criterion]
+        return choice_strategies[criterion]()
 
     def evaluate_score_of_random_points(self, clustering_suite, count, random_seed, criterion, threshold,
                                         output_home, **choice_args):
-- 
2.43.0


From 0fb1143cbf04365636c916df015c1d0d620bcba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 32/39] fix: the noise of synthetic series is reproducible with
 the random seed

---
 spta/classifier/synthetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spta/classifier/synthetic.py b/spta/classifier/synthetic.py
index 5dd5546..89fb3a1 100644
--- a/spta/classifier/synthetic.py
+++ b/spta/classifier/synthetic.py
@@ -1,6 +1,8 @@
 import csv
 import random
 
+import numpy as np
+
 from spta.dataset import synthetic_temporal
 from spta.util import log as log_util
 
@@ -13,6 +15,7 @@ def generate_synthetic_series(available_ks, clustering_seeds, num_medoids, num_e
     '''
     logger = log_util.logger_for_me(generate_synthetic_series)
     random.seed(random_seed)
+    np.random.seed(random_seed)  # for the noise
 
     output = []
 
-- 
2.43.0


From 9d7ce4fd5b6ad6de6c8b22508e1739b68233456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 33/39] fix: demos of the clustering modules used parameters of
 the region metadata that do not exist

---
 spta/kmedoids/kmedoids.py       | 2 +-
 spta/kmedoids/kmedoids_fuzzy.py | 2 +-
 spta/kmedoids/silhouette.py     | 2 +-
 spta/region/centroid.py         | 2 +-
 spta/util/parallel_example.py   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spta/kmedoids/kmedoids.py b/spta/kmedoids/kmedoids.py
index c9c1660..047f3b3 100644
--- a/spta/kmedoids/kmedoids.py
+++ b/spta/kmedoids/kmedoids.py
@@ -277,7 +277,7 @@ if __name__ == '__main__':
 
     # Run k=2 on sp_small dataset
     nordeste_small_md = SpatioTemporalRegionMetadata('nordeste_small', Region(43, 50, 85, 95),
-                                                     series_len=365, ppd=1, last=True)
+                                                     year_start=2015, year_end=2015, spd=1)
     nordeste_small = nordeste_small_md.create_instance()
 
     # load pre-computed distances
diff --git a/spta/kmedoids/kmedoids_fuzzy.py b/spta/kmedoids/kmedoids_fuzzy.py
index ce0f8ba..0361548 100644
--- a/spta/kmedoids/kmedoids_fuzzy.py
+++ b/spta/kmedoids/kmedoids_fuzzy.py
@@ -283,7 +283,7 @@ if __name__ == '__main__':
 
     # Run k=2 on sp_small dataset
     nordeste_small_md = SpatioTemporalRegionMetadata('nordeste_small', Region(43, 50, 85, 95),
-                                                     series_len=365, ppd=1, last=True)
+                                                     year_start=2015, year_end=2015, spd=1)
     nordeste_small = nordeste_small_md.create_instance()
 
     # load pre-computed distances
diff --git a/spta/kmedoids/silhouette.py b/spta/kmedoids/silhouette.py
index df32441..ed3d6d5 100644
--- a/spta/kmedoids/silhouette.py
+++ b/spta/kmedoids/silhouette.py
@@ -321,7 +321,7 @@ if __name__ == '__main__':
     from spta.region.metadata import SpatioTemporalRegionMetadata
 
     # use this region as example
-    sp_small_md = SpatioTemporalRegionMetadata('sp_small', Region(40, 50, 50, 60), 1460, 4)
+    sp_small_md = SpatioTemporalRegionMetadata('sp_small', Region(40, 50, 50, 60), 2015, 2015, 4)
 
     # need to specify k/seeds for silhouette analysis
     k_values = [2, 3, 4]
diff --git a/spta/region/centroid.py b/spta/region/centroid.py
index e305ef6..0aab354 100644
--- a/spta/region/centroid.py
+++ b/spta/region/centroid.py
@@ -81,6 +81,6 @@ if __name__ == '__main__':
 
     from .metadata import SpatioTemporalRegionMetadata
     nordeste_small_md = SpatioTemporalRegionMetadata('nordeste_small', Region(43, 50, 85, 95),
-                                                     series_len=365, ppd=1, last=True)
+                                                     year_start=2015, year_end=2015, spd=1)
 
     CalculateCentroid.for_sptr_metadata(nordeste_small_md)  # (4, 6) 58.958 for nordeste_small norm
diff --git a/spta/util/parallel_example.py b/spta/util/parallel_example.py
index 230fd3c..423badc 100644
--- a/spta/util/parallel_example.py
+++ b/spta/util/parallel_example.py
@@ -17,7 +17,7 @@ def worker_func(i):
     print('Working {} -> {}'.format(current_process().name, i))
     X_np = np.frombuffer(var_dict['X']).reshape(var_dict['X_shape'])
     time.sleep(1) # Some heavy computations
-    return np.asscalar(np.sum(X_np[i,:]))
+    return np.sum(X_np[i,:]).item()
 
 # We need this check for Windows to prevent infinitely spawning new child
 # processes.
-- 
2.43.0


From 75fb5a749f79f9bc82eb8edb3f8373b391ca34a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 34/39] fix: a dataset that was not saved before was reported
 as an error loading it

---
 spta/dataset/temp_brazil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/dataset/temp_brazil.py b/spta/dataset/temp_brazil.py
index be13259..73d7e86 100644
--- a/spta/dataset/temp_brazil.py
+++ b/spta/dataset/temp_brazil.py
@@ -99,7 +99,7 @@ def try_load_dataset_interval(name, year_start, year_end, spd):
         if os.path.exists(dataset_filename):
             dataset_interval = np.load(dataset_filename)
         else:
-            logger.debug('Saved dataset not found: {}'.dataset_filename)
+            logger.debug('Saved dataset not found: {}'.format(dataset_filename))
 
     except Exception:
         logger.warn('Error loading dataset: {}'.format(dataset_filename))
-- 
2.43.0


From 8ac7ddf5c6a23e9c6137654e2b0bb0d660e1c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 35/39] fix: partition spatial regions without needing the
 metadata of a spatio-temporal region

---
 spta/clustering/dbscan.py  | 6 +++---
 spta/clustering/regular.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spta/clustering/dbscan.py b/spta/clustering/dbscan.py
index 2e8d2f8..49e5d13 100644
--- a/spta/clustering/dbscan.py
+++ b/spta/clustering/dbscan.py
@@ -57,8 +57,8 @@ class DbscanClusteringAlgorithm(ClusteringAlgorithm):
         '''
         Create a dbscan partition for a spatial region, no medoids.
         '''
-        # The partition method also works for spatial regions, notice how the shape is extracted.
-        return self.partition(spatial_region, with_medoids=False)
+        # The implementation also works for spatial regions, notice how the shape is extracted.
+        return self.partition_impl(spatial_region, with_medoids=False)
 
     def partition_impl(self, spt_region, with_medoids=True, save_csv_at=None):
         '''
@@ -98,7 +98,7 @@ class DbscanClusteringAlgorithm(ClusteringAlgorithm):
         #       % metrics.adjusted_mutual_info_score(labels_true, labels))
         # print("Silhouette Coefficient: %0.3f" % metrics.silhouette_score(spt_region.as_2d, labels))
 
-        _, x_len, y_len = spt_region.shape
+        x_len, y_len = spt_region.x_len, spt_region.y_len
         partition = PartitionRegionCrisp.from_membership_array(labels_with_noise,
                                                                x_len, y_len)
         return partition
diff --git a/spta/clustering/regular.py b/spta/clustering/regular.py
index 4b2037e..708740c 100644
--- a/spta/clustering/regular.py
+++ b/spta/clustering/regular.py
@@ -52,8 +52,8 @@ class RegularClusteringAlgorithm(ClusteringAlgorithm):
         '''
         Create a regular partition for a spatial region, no medoids.
         '''
-        # The partition method also works for spatial regions, notice how the shape is extracted.
-        return self.partition(spatial_region, with_medoids=False)
+        # The implementation also works for spatial regions, notice how the shape is extracted.
+        return self.partition_impl(spatial_region, with_medoids=False)
 
     def partition_impl(self, spt_region, with_medoids=True, save_csv_at=None):
         '''
-- 
2.43.0


From fab5199bf5960565dd540419403f30898e9659ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:42 +0000
Subject: [PATCH 36/39] fix: describe the distances of a cluster that has a
 single point

---
 spta/distance/variance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/distance/variance.py b/spta/distance/variance.py
index 21ef80a..c726fbc 100644
--- a/spta/distance/variance.py
+++ b/spta/distance/variance.py
@@ -80,7 +80,8 @@ class DistanceHistogram(log_util.LoggerMixin):
         # min is the minimum distance after removing the mandatory 0 value from the point of
         # interest, this idiom puts the second-lowest distance at the right place
         # https://stackoverflow.com/a/22546769
-        min_distance_not_zero = np.partition(distances, 1)[1]
+        # a cluster with a single point has no other distance
+        min_distance_not_zero = np.partition(distances, 1)[1] if len(distances) > 1 else np.nan
         max_distance = np.max(distances)
 
         mean = np.mean(distances)
-- 
2.43.0


From f9ee52e07ff14cacfdda68fc85f43bc15a91b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:16 +0000
Subject: [PATCH 37/39] fix: draw the rectangle of a partition that is plotted
 without a given subplot

---
 spta/util/plot.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/spta/util/plot.py b/spta/util/plot.py
index 3de5b4f..b7d923c 100644
--- a/spta/util/plot.py
+++ b/spta/util/plot.py
@@ -130,12 +130,13 @@ def plot_partition(partition, title='', subplot=None, rectangle_region=None, mar
     If rectangle_region is provided, it will also draw a red rectangle representing a region of
     interest within the partition plot. Useful for prediction regions in solvers.
     '''
-    fig = plot_discrete_spatial_region(partition, title, True, subplot, mark_points)
+    fig = None
+    plot_here = subplot
+    if not subplot:
+        # the rectangle can only be drawn in a subplot, and before the plot is shown
+        fig, plot_here = plt.subplots(1, 1)
 
-    plot_here = fig
-    if subplot is not None:
-        # if subplot is provided, then we draw in the subplot
-        plot_here = subplot
+    plot_discrete_spatial_region(partition, title, True, plot_here, mark_points)
 
     if rectangle_region is not None:
 
@@ -153,6 +154,9 @@ def plot_partition(partition, title='', subplot=None, rectangle_region=None, mar
         plot_here.add_patch(Rectangle(xy=xy, width=width, height=height, linewidth=1,
                                       color='red', fill=False))
 
+    if not subplot:
+        plt.show()
+
     return fig
 
 
-- 
2.43.0


From 5d5075389750b18241d6051464daf73b53290359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:30 +0000
Subject: [PATCH 38/39] fix: a descaled cluster of a scaled region is no longer
 marked as scaled

---
 spta/region/temporal.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 3269057..e91e601 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -336,6 +336,16 @@ class SpatioTemporalCluster(SpatialCluster, SpatioTemporalDecorator):
                                      cluster_index=self.cluster_index,
                                      region_metadata=self.region_metadata)
 
+    def descale(self):
+        '''
+        The cluster of the descaled region: using new_spatio_temporal_region here would wrap the
+        descaled data in a scaled region again.
+        '''
+        return SpatioTemporalCluster(decorated_region=self.decorated_region.descale(),
+                                     partition=self.partition,
+                                     cluster_index=self.cluster_index,
+                                     region_metadata=self.region_metadata)
+
     def region_subset(self, region):
         # not allowed for now!
         raise NotImplementedError
-- 
2.43.0


From 060b4d557c7c5499a42fa8289fefa10145afe560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:35 +0000
Subject: [PATCH 39/39] fix: the plots of distances are saved before they are
 shown

---
 experiments/region/distance.py | 8 ++++++--
 spta/kmedoids/silhouette.py    | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/experiments/region/distance.py b/experiments/region/distance.py
index 184b29d..2285ae6 100644
--- a/experiments/region/distance.py
+++ b/experiments/region/distance.py
@@ -93,8 +93,10 @@ def show_distances(spt_region, distance_matrix):
 
     # work on Point at (0, 0)
     distances_0_0_as_region = SpatialRegion(distance_matrix[0].reshape((x_len, y_len)))
+    _, subplot = plt.subplots(1, 1)
     plot_util.plot_discrete_spatial_region(distances_0_0_as_region,
-                                           'Distances to point at (0,0)', clusters=False)
+                                           'Distances to point at (0,0)', clusters=False,
+                                           subplot=subplot)
     plt.draw()
     distances_0_0_output = 'plots/distances_0_0_{}.eps'.format(metadata.name)
     plt.savefig(distances_0_0_output)
@@ -106,8 +108,10 @@ def show_distances(spt_region, distance_matrix):
         # so far the center variable points to first element of 'center' row, add half row
         center = center + int(y_len / 2)
     distances_center_as_region = SpatialRegion(distance_matrix[center].reshape((x_len, y_len)))
+    _, subplot = plt.subplots(1, 1)
     plot_util.plot_discrete_spatial_region(distances_center_as_region,
-                                           'Distances to center point', clusters=False)
+                                           'Distances to center point', clusters=False,
+                                           subplot=subplot)
     plt.draw()
     distances_center_output = 'plots/distances_center_{}.eps'.format(metadata.name)
     plt.savefig(distances_center_output)
diff --git a/spta/kmedoids/silhouette.py b/spta/kmedoids/silhouette.py
index ed3d6d5..5c610aa 100644
--- a/spta/kmedoids/silhouette.py
+++ b/spta/kmedoids/silhouette.py
@@ -131,8 +131,10 @@ class KmedoidsWithSilhouette(object):
 
         # work on Point at (0, 0)
         distances_0_0_as_region = SpatialRegion(distance_matrix[0].reshape((x_len, y_len)))
+        _, subplot = plt.subplots(1, 1)
         plot_util.plot_discrete_spatial_region(distances_0_0_as_region,
-                                               'Distances to point at (0,0)', clusters=False)
+                                               'Distances to point at (0,0)', clusters=False,
+                                               subplot=subplot)
         plt.draw()
         distances_0_0_output = 'plots/distances_0_0_{}.eps'.format(self.sptr_metadata.name)
         plt.savefig(distances_0_0_output)
@@ -145,8 +147,10 @@ class KmedoidsWithSilhouette(object):
             center = center + int(y_len / 2)
 
         distances_center_as_region = SpatialRegion(distance_matrix[center].reshape((x_len, y_len)))
+        _, subplot = plt.subplots(1, 1)
         plot_util.plot_discrete_spatial_region(distances_center_as_region,
-                                               'Distances to center point', clusters=False)
+                                               'Distances to center point', clusters=False,
+                                               subplot=subplot)
         plt.draw()
         distances_center_output = 'plots/distances_center_{}.eps'.format(self.sptr_metadata.name)
         plt.savefig(distances_center_output)
-- 
2.43.0


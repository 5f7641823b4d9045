From 84740119aa144f88121a83f47dedebc09a9282ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 01/67] fix: group features with different multi-unit
 use_previous separately

---
 featuretools/computational_backends/feature_set.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 776c5d6..02f23af 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -203,10 +203,12 @@ class FeatureSet(object):
 # These functions are used for sorting and grouping features
 
 
-def _get_use_previous(f):  # TODO Sort and group features for DateOffset with two different temporal values
+def _get_use_previous(f):
     if isinstance(f, AggregationFeature) and f.use_previous is not None:
         if len(f.use_previous.times.keys()) > 1:
-            return ("", -1)
+            # the joined units differ from every single unit
+            times = sorted(f.use_previous.times.items())
+            return (" ".join(unit for unit, _ in times), tuple(value for _, value in times))
         else:
             unit = list(f.use_previous.times.keys())[0]
             value = f.use_previous.times[unit]
-- 
2.43.0


From 00595376f40530ff52d0de0b7c2db483cce9858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 02/67] fix: aggregate to the default when no row is left for a
 custom or time-dependent primitive

---
 .../computational_backends/feature_set_calculator.py         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 88cd33e..f46882c 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -688,6 +688,11 @@ class FeatureSetCalculator(object):
                 to_merge = base_frame.groupby(base_frame[groupby_var],
                                               observed=True,
                                               sort=False).apply(wrap)
+                if isinstance(to_merge, pd.DataFrame) and to_merge.empty:
+                    # with no group left there is nothing that apply could
+                    # get the feature columns from
+                    to_merge = to_merge.reindex(columns=[name for f in to_apply
+                                                         for name in f.get_feature_names()])
                 frame = pd.merge(left=frame, right=to_merge,
                                  left_index=True,
                                  right_index=True, how='left')
-- 
2.43.0


From 9e7ed5acbc7ce0b99cccd4433361686067a926c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 03/67] fix: a missing where condition does not select the row

---
 .../computational_backends/feature_set_calculator.py        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index f46882c..b295673 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -595,7 +595,11 @@ class FeatureSetCalculator(object):
         base_frame_empty = base_frame.empty if isinstance(base_frame, pd.DataFrame) else False
         where = test_feature.where
         if where is not None and not base_frame_empty:
-            base_frame = base_frame.loc[base_frame[where.get_name()]]
+            selected = base_frame[where.get_name()]
+            if isinstance(base_frame, pd.DataFrame):
+                # a missing condition does not select the row
+                selected = selected.fillna(False).astype(bool)
+            base_frame = base_frame.loc[selected]
 
         # when no child data, just add all the features to frame with nan
         base_frame_empty = base_frame.empty if isinstance(base_frame, pd.DataFrame) else False
-- 
2.43.0


From 8857fe352c217c009adc24e48fd13f93d21d909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 04/67] fix: calculate a multi-output feature before the
 features on its slices

---
 featuretools/computational_backends/feature_set.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/computational_backends/feature_set.py b/featuretools/computational_backends/feature_set.py
index 02f23af..d6cc50c 100644
--- a/featuretools/computational_backends/feature_set.py
+++ b/featuretools/computational_backends/feature_set.py
@@ -183,6 +183,9 @@ class FeatureSet(object):
             if not f.relationship_path:
                 dependencies = f.get_dependencies()
                 for dep in dependencies:
+                    if isinstance(dep, FeatureOutputSlice):
+                        # what has to come first is the feature the slice is of
+                        dep = dep.base_feature
                     order[dep.unique_name()] = \
                         min(order[f.unique_name()] - 1, order[dep.unique_name()])
                     queue.append(dep)
-- 
2.43.0


From 1f5358edd401479c1e1b955dfed5a056fd4761e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 05/67] fix: time since previous needs the whole entity

---
 featuretools/primitives/standard/transform_primitive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/primitives/standard/transform_primitive.py b/featuretools/primitives/standard/transform_primitive.py
index 5db373e..aca2db1 100644
--- a/featuretools/primitives/standard/transform_primitive.py
+++ b/featuretools/primitives/standard/transform_primitive.py
@@ -86,6 +86,7 @@ class TimeSincePrevious(TransformPrimitive):
     name = "time_since_previous"
     input_types = [DatetimeTimeIndex]
     return_type = Numeric
+    uses_full_entity = True
     description_template = "the time since the previous instance of {}"
 
     def __init__(self, unit="seconds"):
-- 
2.43.0


From 54af337165e6c820736656045acf1847427c8f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 06/67] fix: a child with a missing time does not hide the last
 time of its siblings

---
 featuretools/entityset/entityset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 18ad9a4..89eb929 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -874,7 +874,7 @@ class EntitySet(object):
 
                         # sort by time and keep only the most recent
                         lti_df.sort_values(['last_time', entity.index],
-                                           kind="mergesort", inplace=True)
+                                           kind="mergesort", na_position="first", inplace=True)
 
                         lti_df.drop_duplicates(entity.index,
                                                keep='last',
-- 
2.43.0


From bfac4f6ec0227070c89fb0d04902b6b4b284a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 07/67] fix: last time indexes follow every relationship
 between the same two entities

---
 featuretools/entityset/entityset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 89eb929..14a3445 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -771,10 +771,10 @@ class EntitySet(object):
         """
         # Generate graph of entities to find leaf entities
         children = defaultdict(list)  # parent --> child mapping
-        child_vars = defaultdict(dict)
+        child_vars = defaultdict(list)  # parent --> link variables, in step with children
         for r in self.relationships:
             children[r.parent_entity.id].append(r.child_entity)
-            child_vars[r.parent_entity.id][r.child_entity.id] = r.child_variable
+            child_vars[r.parent_entity.id].append(r.child_variable)
 
         updated_entities = updated_entities or []
         if updated_entities:
@@ -843,11 +843,11 @@ class EntitySet(object):
                     continue
 
                 # updated last time from all children
-                for child_e in child_entities:
+                for child_e, child_var in zip(child_entities, child_vars[entity.id]):
                     # TODO: Figure out if Dask code related to indexes is important for Koalas
                     if child_e.last_time_index is None:
                         continue
-                    link_var = child_vars[entity.id][child_e.id].id
+                    link_var = child_var.id
 
                     lti_is_dask = isinstance(child_e.last_time_index, dd.Series)
                     lti_is_koalas = is_instance(child_e.last_time_index, ks, 'Series')
-- 
2.43.0


From 8b0d73c6c4bc9def72ca9c2ceb9cb1c1a1698f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:47 +0000
Subject: [PATCH 08/67] fix: keep numeric last time indexes numeric

---
 featuretools/entityset/entityset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 14a3445..84eb42b 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -892,6 +892,8 @@ class EntitySet(object):
                             lti_df['last_time_old'] = ks.to_datetime(lti_df['last_time_old'])
                             # TODO: Figure out a workaround for fillna and replace
                             lti_df = lti_df.max(axis=1)
+                        elif self.time_type == vtypes.NumericTimeIndex:
+                            lti_df = lti_df[['last_time', 'last_time_old']].astype('float64').max(axis=1)
                         else:
                             lti_df['last_time'] = lti_df['last_time'].astype('datetime64[ns]')
                             lti_df['last_time_old'] = lti_df['last_time_old'].astype('datetime64[ns]')
-- 
2.43.0


From 7678095e32f294c75284aafa224fff15a29b5f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 09/67] fix: accept a secondary time index before the first
 time index, as rebuilding an entity set needs

---
 featuretools/entityset/entity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 1683379..8d6d84e 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -431,7 +431,9 @@ class Entity(object):
             if time_type is None:
                 raise TypeError("%s time index not recognized as numeric or"
                                 " datetime" % (self.id))
-            if self.entityset.time_type != time_type:
+            if self.entityset.time_type is None:
+                self.entityset.time_type = time_type
+            elif self.entityset.time_type != time_type:
                 raise TypeError("%s time index is %s type which differs from"
                                 " other entityset time indexes" %
                                 (self.id, time_type))
-- 
2.43.0


From cc43e8ed380cc0f84ea0e6b9ca4f290fe69fc001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 10/67] fix: hide unknown values from a calculation without
 erasing them from the entity set

---
 featuretools/entityset/entityset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 84eb42b..2419746 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -1021,6 +1021,8 @@ class EntitySet(object):
                 elif is_instance(df, ks, 'DataFrame'):
                     df.loc[mask, columns] = None
                 else:
+                    # df can be the dataframe of the entity itself
+                    df = df.copy()
                     df.loc[mask, columns] = np.nan
 
         return df
-- 
2.43.0


From 48c80469db95ed4f6621925a37c03f2675b0bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 11/67] fix: calculate an aggregation requested under several
 names once, instead of in two different ways

---
 .../feature_set_calculator.py                 | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index b295673..731c152 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -1,5 +1,4 @@
 from datetime import datetime
-from functools import partial
 
 import dask.dataframe as dd
 import numpy as np
@@ -635,6 +634,7 @@ class FeatureSetCalculator(object):
 
             to_agg = {}
             agg_rename = {}
+            agg_copies = {}
             to_apply = set()
             # apply multivariable and time-dependent features as we find them, and
             # save aggregable features for later
@@ -659,21 +659,22 @@ class FeatureSetCalculator(object):
 
                     funcname = func
                     if callable(func):
-                        # if the same function is being applied to the same
-                        # variable twice, wrap it in a partial to avoid
-                        # duplicate functions
                         funcname = str(id(func))
-                        if u"{}-{}".format(variable_id, funcname) in agg_rename:
-                            func = partial(func)
-                            funcname = str(id(func))
 
                         func.__name__ = funcname
 
                     if isinstance(func, dd.Aggregation):
-                        # TODO: handle aggregation being applied to same variable twice
-                        # (see above partial wrapping of functions)
                         funcname = func.__name__
 
+                    # if the same function is being applied to the same
+                    # variable twice, calculate it once: pandas rejects
+                    # duplicate functions, and a wrapped one can be
+                    # calculated differently
+                    same = agg_rename.get(u"{}-{}".format(variable_id, funcname))
+                    if same is not None:
+                        agg_copies[f.get_name()] = same
+                        continue
+
                     to_agg[variable_id].append(func)
                     # this is used below to rename columns that pandas names for us
                     agg_rename[u"{}-{}".format(variable_id, funcname)] = f.get_name()
@@ -719,6 +720,8 @@ class FeatureSetCalculator(object):
                 # rename columns to the correct feature names
                 to_merge.columns = [agg_rename["-".join(x)] for x in to_merge.columns]
                 to_merge = to_merge[list(agg_rename.values())]
+                for name, same in agg_copies.items():
+                    to_merge[name] = to_merge[same]
 
                 # workaround for pandas bug where categories are in the wrong order
                 # see: https://github.com/pandas-dev/pandas/issues/22501
-- 
2.43.0


From 85889e9be10ddc50b35695a000225d58b04cbf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 12/67] fix: an unknown instance may be requested at several
 times of one approximation period

---
 featuretools/computational_backends/feature_set_calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 731c152..a355171 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -126,9 +126,9 @@ class FeatureSetCalculator(object):
         if isinstance(df, pd.DataFrame):
             index_dtype = df.index.dtype.name
             if df.empty:
-                return self.generate_default_df(instance_ids=instance_ids)
+                return self.generate_default_df(instance_ids=pd.unique(instance_ids))
 
-            missing_ids = [i for i in instance_ids if i not in
+            missing_ids = [i for i in pd.unique(instance_ids) if i not in
                            df[target_entity.index]]
             if missing_ids:
                 default_df = self.generate_default_df(instance_ids=missing_ids,
-- 
2.43.0


From 5aef4f494f24d9da96337d839e483348977e6bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:24 +0000
Subject: [PATCH 13/67] fix: name every output of an approximated feature when
 there is no ancestor to calculate it for

---
 featuretools/computational_backends/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 0fc4d59..83ac51f 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -110,7 +110,7 @@ def gather_approximate_features(feature_set):
 
 
 def gen_empty_approx_features_df(approx_features):
-    df = pd.DataFrame(columns=[f.get_name() for f in approx_features])
+    df = pd.DataFrame(columns=[name for f in approx_features for name in f.get_feature_names()])
     df.index.name = approx_features[0].entity.index
     return df
 
-- 
2.43.0


From 91720c117326cd338fb6dc2e85d7026cfc26413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:00 +0000
Subject: [PATCH 14/67] fix: approximation does not overwrite a passed column
 named target_time

---
 featuretools/computational_backends/calculate_feature_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index d690bb2..b903a6f 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -527,6 +527,8 @@ def approximate_features(feature_set, cutoff_time, window, entityset,
     approx_fms_trie = Trie(path_constructor=RelationshipPath)
 
     target_time_colname = 'target_time'
+    # leave the passed columns of the cutoff time dataframe alone
+    cutoff_time = cutoff_time[['instance_id', 'time']].copy()
     cutoff_time[target_time_colname] = cutoff_time['time']
     approx_cutoffs = bin_cutoff_times(cutoff_time, window)
     cutoff_df_time_var = 'time'
-- 
2.43.0


From 7152dc2bbcfb998a14b7f065751dff9ef6983ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:33 +0000
Subject: [PATCH 15/67] fix: round numeric cutoff times down when approximating
 by a number

---
 featuretools/computational_backends/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 83ac51f..2bc4ec1 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -23,7 +23,7 @@ logger = logging.getLogger('featuretools.computational_backend')
 def bin_cutoff_times(cutoff_time, bin_size):
     binned_cutoff_time = cutoff_time.copy()
     if type(bin_size) == int:
-        binned_cutoff_time['time'] = binned_cutoff_time['time'].apply(lambda x: x / bin_size * bin_size)
+        binned_cutoff_time['time'] = binned_cutoff_time['time'].apply(lambda x: x // bin_size * bin_size)
     else:
         bin_size = _check_timedelta(bin_size)
         binned_cutoff_time['time'] = datetime_round(binned_cutoff_time['time'], bin_size)
-- 
2.43.0


From cb5f3d7328764d9c05f66377d946c62b3d01ae0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 16/67] fix: defining a group-by feature does not change the
 list of its base features

---
 featuretools/feature_base/feature_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 4899143..8170963 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -689,7 +689,7 @@ class GroupByTransformFeature(TransformFeature):
         self.groupby = groupby
 
         if hasattr(base_features, '__iter__'):
-            base_features.append(groupby)
+            base_features = list(base_features) + [groupby]
         else:
             base_features = [base_features, groupby]
 
-- 
2.43.0


From de2bf5f4beb15de792e4610db551697e7ea3c303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:46 +0000
Subject: [PATCH 17/67] fix: creating a dask client does not change the
 caller's dask_kwargs

---
 featuretools/computational_backends/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index 2bc4ec1..ed7a1f8 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -135,6 +135,8 @@ def n_jobs_to_workers(n_jobs):
 def create_client_and_cluster(n_jobs, dask_kwargs, entityset_size):
     Client, LocalCluster = get_client_cluster()
 
+    # the options are consumed below, so leave the caller's dictionary alone
+    dask_kwargs = dask_kwargs.copy()
     cluster = None
     if 'cluster' in dask_kwargs:
         cluster = dask_kwargs['cluster']
-- 
2.43.0


From 7a0855c8f975b6601da3e89d2b426167b5be8488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:46 +0000
Subject: [PATCH 18/67] fix: release the dask client and cluster when they turn
 out to be unusable

---
 featuretools/computational_backends/utils.py | 37 ++++++++++++--------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index ed7a1f8..dbf1970 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -182,20 +182,29 @@ def create_client_and_cluster(n_jobs, dask_kwargs, entityset_size):
                     msg = "Dashboard started on port {}"
                     print(msg.format(info['services']['bokeh']))
 
-    client = Client(cluster)
-
-    warned_of_memory = False
-    for worker in list(client.scheduler_info()['workers'].values()):
-        worker_limit = worker['memory_limit']
-        if worker_limit < entityset_size:
-            raise ValueError("Insufficient memory to use this many workers")
-        elif worker_limit < 2 * entityset_size and not warned_of_memory:
-            logger.warning("Worker memory is between 1 to 2 times the memory"
-                           " size of the EntitySet. If errors occur that do"
-                           " not occur with n_jobs equals 1, this may be the "
-                           "cause.  See https://featuretools.alteryx.com/en/stable/guides/performance.html#parallel-feature-computation"
-                           " for more information.")
-            warned_of_memory = True
+    client = None
+    try:
+        client = Client(cluster)
+
+        warned_of_memory = False
+        for worker in list(client.scheduler_info()['workers'].values()):
+            worker_limit = worker['memory_limit']
+            if worker_limit < entityset_size:
+                raise ValueError("Insufficient memory to use this many workers")
+            elif worker_limit < 2 * entityset_size and not warned_of_memory:
+                logger.warning("Worker memory is between 1 to 2 times the memory"
+                               " size of the EntitySet. If errors occur that do"
+                               " not occur with n_jobs equals 1, this may be the "
+                               "cause.  See https://featuretools.alteryx.com/en/stable/guides/performance.html#parallel-feature-computation"
+                               " for more information.")
+                warned_of_memory = True
+    except BaseException:
+        # the caller cannot release what it does not get
+        created = [client] if 'cluster' in dask_kwargs else [client, cluster]
+        for resource in created:
+            if hasattr(resource, 'close'):
+                resource.close()
+        raise
 
     return client, cluster
 
-- 
2.43.0


From e71c60946f6e32b922d5c753ed2411b540259d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:22 +0000
Subject: [PATCH 19/67] fix: the files of saved progress do not overwrite each
 other

---
 featuretools/computational_backends/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/featuretools/computational_backends/utils.py b/featuretools/computational_backends/utils.py
index dbf1970..80c1ea7 100644
--- a/featuretools/computational_backends/utils.py
+++ b/featuretools/computational_backends/utils.py
@@ -1,3 +1,4 @@
+import hashlib
 import logging
 import os
 import warnings
@@ -37,12 +38,14 @@ def save_csv_decorator(save_progress=None):
             if save_progress is None:
                 r = method(*args, **kwargs)
             else:
-                time = args[0].to_pydatetime()
-                file_name = 'ft_' + time.strftime("%Y_%m_%d_%I-%M-%S-%f") + '.csv'
+                time = args[0]
+                label = time.strftime("%Y_%m_%d_%H-%M-%S-%f") if hasattr(time, 'strftime') else str(time)
+                # chunks with the same label need different files
+                chunk = hashlib.md5(repr((time, list(args[1]))).encode()).hexdigest()[:12]
+                file_name = 'ft_' + label + '_' + chunk + '.csv'
                 file_path = os.path.join(save_progress, file_name)
                 temp_dir = os.path.join(save_progress, 'temp')
-                if not os.path.exists(temp_dir):
-                    os.makedirs(temp_dir)
+                os.makedirs(temp_dir, exist_ok=True)
                 temp_file_path = os.path.join(temp_dir, file_name)
                 r = method(*args, **kwargs)
                 r.to_csv(temp_file_path)
-- 
2.43.0


From 45a6287ba08a4bfce54c8fe5ae16f13cc1859f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 20/67] fix: a refused relationship leaves the types of the
 variables alone

---
 featuretools/entityset/entityset.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 2419746..76f340e 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -261,15 +261,6 @@ class EntitySet(object):
             raise ValueError(msg.format(child_v, child_e.id))
         parent_e = relationship.parent_entity
         parent_v = relationship.parent_variable.id
-        if not isinstance(child_e[child_v], vtypes.Id):
-            child_e.convert_variable_type(variable_id=child_v,
-                                          new_type=vtypes.Id,
-                                          convert_data=False)
-
-        if not isinstance(parent_e[parent_v], vtypes.Index):
-            parent_e.convert_variable_type(variable_id=parent_v,
-                                           new_type=vtypes.Index,
-                                           convert_data=False)
         # Empty dataframes (as a result of accessing Entity.metadata)
         # default to object dtypes for discrete variables, but
         # indexes/ids default to ints. In this case, we convert
@@ -287,6 +278,16 @@ class EntitySet(object):
             raise ValueError(msg.format(parent_v, parent_e.id, parent_dtype,
                                         child_v, child_e.id, child_dtype))
 
+        if not isinstance(child_e[child_v], vtypes.Id):
+            child_e.convert_variable_type(variable_id=child_v,
+                                          new_type=vtypes.Id,
+                                          convert_data=False)
+
+        if not isinstance(parent_e[parent_v], vtypes.Index):
+            parent_e.convert_variable_type(variable_id=parent_v,
+                                           new_type=vtypes.Index,
+                                           convert_data=False)
+
         self.relationships.append(relationship)
         self.reset_data_description()
         return self
-- 
2.43.0


From 99d8d09229be82c4cd799f7f83ee4b11264a4ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:21 +0000
Subject: [PATCH 21/67] fix: an entity keeps its data when new data is refused

---
 featuretools/entityset/entity.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 8d6d84e..fa2a656 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -278,13 +278,20 @@ class Entity(object):
             if v.id not in df.columns:
                 raise ValueError("Updated dataframe is missing new {} column".format(v.id))
 
-        # Make sure column ordering matches variable ordering
-        self.df = df[[v.id for v in self.variables]]
-        self.set_index(self.index)
-        if self.time_index is not None:
-            self.set_time_index(self.time_index, already_sorted=already_sorted)
+        previous_df = self.df
+        try:
+            # Make sure column ordering matches variable ordering
+            self.df = df[[v.id for v in self.variables]]
+            self.set_index(self.index)
+            if self.time_index is not None:
+                self.set_time_index(self.time_index, already_sorted=already_sorted)
+
+            self.set_secondary_time_index(self.secondary_time_index)
+        except Exception:
+            # keep the data if the new one is refused
+            self.df = previous_df
+            raise
 
-        self.set_secondary_time_index(self.secondary_time_index)
         if recalculate_last_time_indexes and self.last_time_index is not None:
             self.entityset.add_last_time_indexes(updated_entities=[self.id])
         self.entityset.reset_data_description()
-- 
2.43.0


From ea04fc9a2be6fd8857e45876024a6956de887811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:43 +0000
Subject: [PATCH 22/67] fix: a deleted variable leaves the secondary time index
 too

---
 featuretools/entityset/entity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index fa2a656..09320cb 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -376,6 +376,11 @@ class Entity(object):
             v = self._get_variable(v_id)
             self.variables.remove(v)
 
+        self.secondary_time_index = {
+            time_index: [c for c in columns if c not in variable_ids]
+            for time_index, columns in self.secondary_time_index.items()
+            if time_index not in variable_ids}
+
     def set_time_index(self, variable_id, already_sorted=False):
         # check time type
         if not isinstance(self.df, pd.DataFrame) or self.df.empty:
-- 
2.43.0


From 566b98284c3f1336eb2574ca24dbc80c4765f062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:43 +0000
Subject: [PATCH 23/67] fix: splitting an entity does not move its index or
 relationship variables away

---
 featuretools/entityset/entityset.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 76f340e..d2aaed0 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -599,6 +599,14 @@ class EntitySet(object):
             if v == base_entity.time_index:
                 raise ValueError("Not moving {} as it is the base time index variable. Perhaps, move the variable to the copy_variables.".format(v))
 
+        key_variables = [base_entity.index]
+        for r in self.relationships:
+            if r.child_entity.id == base_entity_id:
+                key_variables.append(r.child_variable.id)
+        for v in additional_variables:
+            if v in key_variables:
+                raise ValueError("Not moving {} as it is the index or a relationship variable of the base entity. Perhaps, move the variable to the copy_variables.".format(v))
+
         if isinstance(make_time_index, str):
             if make_time_index not in base_entity.df.columns:
                 raise ValueError("'make_time_index' must be a variable in the base entity")
-- 
2.43.0


From f72286a4389da77c45dea74e91c72f2bc6fd5a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:43 +0000
Subject: [PATCH 24/67] fix: a refused conversion to numeric keeps the data

---
 featuretools/utils/entity_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index 1ef1f6a..f424468 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -154,14 +154,15 @@ def convert_variable_data(df, column_id, new_type, **kwargs):
             df[column_id] = ks.to_numeric(df[column_id])
         else:
             orig_nonnull = df[column_id].dropna().shape[0]
-            df[column_id] = pd.to_numeric(df[column_id], errors='coerce')
+            converted = pd.to_numeric(df[column_id], errors='coerce')
             # This will convert strings to nans
             # If column contained all strings, then we should
             # just raise an error, because that shouldn't have
             # been converted to numeric
-            nonnull = df[column_id].dropna().shape[0]
+            nonnull = converted.dropna().shape[0]
             if nonnull == 0 and orig_nonnull != 0:
                 raise TypeError("Attempted to convert all string column {} to numeric".format(column_id))
+            df[column_id] = converted
     elif issubclass(new_type, vtypes.Datetime):
         format = kwargs.get("format", None)
         # TODO: if float convert to int?
-- 
2.43.0


From 0e6c216f46c7d9ec928c39119d06b36327e2fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:47 +0000
Subject: [PATCH 25/67] fix: text that looks like a dtype code is not a numeric
 time

---
 featuretools/utils/wrangle.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index 7166a70..0303196 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -105,8 +105,14 @@ def _check_time_type(time):
     Returns "numeric", "datetime", or "unknown" based on results
     '''
     time_type = None
-    if isinstance(time, (datetime, np.datetime64)):
+    if time is None:
+        # numpy takes None for the dtype code of floats
+        return None
+    elif isinstance(time, (datetime, np.datetime64)):
         time_type = variable_types.DatetimeTimeIndex
+    elif isinstance(time, str):
+        # text is not to be taken for a dtype code, such as 'i' or 'f'
+        raise TypeError("data type '%s' not understood" % time)
     elif isinstance(time, (int, float)) or np.issubdtype(time, np.integer) or np.issubdtype(time, np.floating):
         time_type = variable_types.NumericTimeIndex
     return time_type
-- 
2.43.0


From 92d82b77f2ea0cd285f1f137a52ce86a64149c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:41 +0000
Subject: [PATCH 26/67] fix: an entity that is refused does not set the time
 type of the entity set

---
 featuretools/entityset/entityset.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index d2aaed0..3903be1 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -512,16 +512,22 @@ class EntitySet(object):
                                  "Cannot add entity of type {} to an entityset with existing entities "
                                  "of type {}".format(type(dataframe), type(self.entities[0].df)))
 
-        entity = Entity(
-            entity_id,
-            dataframe,
-            self,
-            variable_types=variable_types,
-            index=index,
-            time_index=time_index,
-            secondary_time_index=secondary_time_index,
-            already_sorted=already_sorted,
-            make_index=make_index)
+        time_type = self.time_type
+        try:
+            entity = Entity(
+                entity_id,
+                dataframe,
+                self,
+                variable_types=variable_types,
+                index=index,
+                time_index=time_index,
+                secondary_time_index=secondary_time_index,
+                already_sorted=already_sorted,
+                make_index=make_index)
+        except Exception:
+            # an entity that is not added does not decide on the time type
+            self.time_type = time_type
+            raise
         self.entity_dict[entity.id] = entity
         self.reset_data_description()
         return self
-- 
2.43.0


From bdc8fc866279d0ed6aa395d84b9eef84341883d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:09 +0000
Subject: [PATCH 27/67] fix: metadata is described anew after variables,
 indexes or interesting values change

---
 featuretools/entityset/entity.py        | 5 +++++
 featuretools/variable_types/variable.py | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index 09320cb..f307c3b 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -209,6 +209,7 @@ class Entity(object):
         variable = self._get_variable(variable_id)
         new_variable = new_type.create_from(variable)
         self.variables[self.variables.index(variable)] = new_variable
+        self.entityset.reset_data_description()
 
     def _create_variables(self, variable_types, index, time_index, secondary_time_index):
         """Extracts the variables from a dataframe
@@ -380,6 +381,7 @@ class Entity(object):
             time_index: [c for c in columns if c not in variable_ids]
             for time_index, columns in self.secondary_time_index.items()
             if time_index not in variable_ids}
+        self.entityset.reset_data_description()
 
     def set_time_index(self, variable_id, already_sorted=False):
         # check time type
@@ -416,6 +418,7 @@ class Entity(object):
         self.convert_variable_type(variable_id, t, convert_data=False)
 
         self.time_index = variable_id
+        self.entityset.reset_data_description()
 
     def set_index(self, variable_id, unique=True):
         """
@@ -432,6 +435,7 @@ class Entity(object):
 
         self.convert_variable_type(variable_id, vtypes.Index, convert_data=False)
         self.index = variable_id
+        self.entityset.reset_data_description()
 
     def set_secondary_time_index(self, secondary_time_index):
         for time_index, columns in secondary_time_index.items():
@@ -453,6 +457,7 @@ class Entity(object):
                 columns.append(time_index)
 
         self.secondary_time_index = secondary_time_index
+        self.entityset.reset_data_description()
 
 
 def _create_index(index, make_index, df):
diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index 6668ae1..0a20ba5 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -116,6 +116,7 @@ class Variable(object):
     def interesting_values(self, interesting_values):
         self._interesting_values = pd.Series(interesting_values,
                                              dtype=self._interesting_values.dtype)
+        self.entity.entityset.reset_data_description()
 
     @property
     def series(self):
@@ -157,6 +158,7 @@ class Discrete(Variable):
         self._interesting_values = pd.Series([v for v in values if not
                                               (v in seen or seen_add(v))],
                                              dtype=self._interesting_values.dtype)
+        self.entity.entityset.reset_data_description()
 
 
 class Boolean(Variable):
-- 
2.43.0


From c452ffb96318fe10ec9e66a2ae3fabadce520b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:28 +0000
Subject: [PATCH 28/67] fix: deep neighbour queries end when relationships form
 a cycle

---
 featuretools/entityset/entityset.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 3903be1..211b31f 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -354,7 +354,7 @@ class EntitySet(object):
             for sub_entity_id, sub_path in descendants:
                 yield sub_entity_id, [relationship] + sub_path
 
-    def get_forward_entities(self, entity_id, deep=False):
+    def get_forward_entities(self, entity_id, deep=False, _seen=()):
         """
         Get entities that are in a forward relationship with entity
 
@@ -364,17 +364,21 @@ class EntitySet(object):
 
         Yields a tuple of (descendent_id, path from entity_id to descendant).
         """
+        _seen = _seen or (entity_id,)
         for relationship in self.get_forward_relationships(entity_id):
             parent_eid = relationship.parent_entity.id
+            if deep and parent_eid in _seen:
+                # paths do not contain cycles
+                continue
             direct_path = RelationshipPath([(True, relationship)])
             yield parent_eid, direct_path
 
             if deep:
-                sub_entities = self.get_forward_entities(parent_eid, deep=True)
+                sub_entities = self.get_forward_entities(parent_eid, deep=True, _seen=_seen + (parent_eid,))
                 for sub_eid, path in sub_entities:
                     yield sub_eid, direct_path + path
 
-    def get_backward_entities(self, entity_id, deep=False):
+    def get_backward_entities(self, entity_id, deep=False, _seen=()):
         """
         Get entities that are in a backward relationship with entity
 
@@ -384,13 +388,17 @@ class EntitySet(object):
 
         Yields a tuple of (descendent_id, path from entity_id to descendant).
         """
+        _seen = _seen or (entity_id,)
         for relationship in self.get_backward_relationships(entity_id):
             child_eid = relationship.child_entity.id
+            if deep and child_eid in _seen:
+                # paths do not contain cycles
+                continue
             direct_path = RelationshipPath([(False, relationship)])
             yield child_eid, direct_path
 
             if deep:
-                sub_entities = self.get_backward_entities(child_eid, deep=True)
+                sub_entities = self.get_backward_entities(child_eid, deep=True, _seen=_seen + (child_eid,))
                 for sub_eid, path in sub_entities:
                     yield sub_eid, direct_path + path
 
-- 
2.43.0


From cc56c23a025af7b6754ce9ac885fc0b696b200b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:28 +0000
Subject: [PATCH 29/67] fix: removing low information features keeps
 multi-output features and their outputs

---
 featuretools/selection/selection.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/featuretools/selection/selection.py b/featuretools/selection/selection.py
index 0f287e7..6f4265b 100644
--- a/featuretools/selection/selection.py
+++ b/featuretools/selection/selection.py
@@ -15,12 +15,7 @@ def remove_low_information_features(feature_matrix, features=None):
     keep = [c for c in feature_matrix
             if (feature_matrix[c].nunique(dropna=False) > 1 and
                 feature_matrix[c].dropna().shape[0] > 0)]
-    feature_matrix = feature_matrix[keep]
-    if features is not None:
-        features = [f for f in features
-                    if f.get_name() in feature_matrix.columns]
-        return feature_matrix, features
-    return feature_matrix
+    return _apply_feature_selection(keep, feature_matrix, features)
 
 
 def remove_highly_null_features(feature_matrix, features=None, pct_null_threshold=0.95):
-- 
2.43.0


From 77b1b4efa6fdfe55f8d35058f28bd31b0150e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:28 +0000
Subject: [PATCH 30/67] fix: which correlated column is dropped does not depend
 on the order of features_to_check

---
 featuretools/selection/selection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/selection/selection.py b/featuretools/selection/selection.py
index 6f4265b..cd9b640 100644
--- a/featuretools/selection/selection.py
+++ b/featuretools/selection/selection.py
@@ -119,7 +119,9 @@ def remove_highly_correlated_features(feature_matrix, features=None, pct_corr_th
     boolean = ['bool']
     numeric_and_boolean_dtypes = vtypes.PandasTypes._pandas_numerics + boolean
 
-    fm_to_check = (feature_matrix[features_to_check]).select_dtypes(
+    # columns are compared in the order of the feature matrix
+    in_order = [f_name for f_name in feature_matrix.columns if f_name in set(features_to_check)]
+    fm_to_check = (feature_matrix[in_order]).select_dtypes(
         include=numeric_and_boolean_dtypes)
 
     dropped = set()
-- 
2.43.0


From 9b3d2c3eae0f9ff4856dfc67f021f9e698191183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:51 +0000
Subject: [PATCH 31/67] fix: long unit names of time spans are understood in
 capitals too

---
 featuretools/entityset/timedelta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/entityset/timedelta.py b/featuretools/entityset/timedelta.py
index 5b6f4da..a8f96d0 100644
--- a/featuretools/entityset/timedelta.py
+++ b/featuretools/entityset/timedelta.py
@@ -83,7 +83,7 @@ class Timedelta(object):
 
     @classmethod
     def _check_unit_plural(cls, s):
-        if len(s) > 2 and not s.endswith('s'):
+        if len(s) > 2 and not s.lower().endswith('s'):
             return (s + 's').lower()
         elif len(s) > 1:
             return s.lower()
-- 
2.43.0


From b4245c8039127f1b39e0582ec95d071ef6d87b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 32/67] fix: time spans of several units support milliseconds
 and are named by their units

---
 featuretools/entityset/timedelta.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/timedelta.py b/featuretools/entityset/timedelta.py
index a8f96d0..dadc187 100644
--- a/featuretools/entityset/timedelta.py
+++ b/featuretools/entityset/timedelta.py
@@ -108,6 +108,9 @@ class Timedelta(object):
             return pd.Timedelta(self.times[all_units[0]], all_units[0])
         else:
             readable_times = self.lower_readable_times()
+            if 'milliseconds' in readable_times:
+                # relativedelta has no milliseconds
+                readable_times['microseconds'] = readable_times.pop('milliseconds') * 1000
             return relativedelta(**readable_times)
 
     def check_value(self, value, unit):
@@ -142,9 +145,10 @@ class Timedelta(object):
             return "{} {}".format(self.times[all_units[0]], self._readable_units[all_units[0]])
         final_str = ""
         for unit, value in self.times.items():
+            readable_unit = self._readable_units[unit]
             if value == 1:
-                unit = self.make_singular(unit)
-            final_str += "{} {} ".format(value, self._readable_units[unit])
+                readable_unit = self.make_singular(readable_unit)
+            final_str += "{} {} ".format(value, readable_unit)
         return final_str[:-1]
 
     def get_arguments(self):
-- 
2.43.0


From faa1fb83c9c3ec644d8b754f0223f9f5fc9bd41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 33/67] fix: splitting an entity can copy its time index and
 leaves the list of copied variables alone

---
 featuretools/entityset/entityset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 211b31f..b66b5a2 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -583,6 +583,7 @@ class EntitySet(object):
         base_entity = self.entity_dict[base_entity_id]
         additional_variables = additional_variables or []
         copy_variables = copy_variables or []
+        copies_base_time = False
 
         # Check base entity to make sure time index is valid
         if base_entity.time_index is not None:
@@ -661,8 +662,9 @@ class EntitySet(object):
             assert base_entity.time_index is not None, \
                 "Base entity doesn't have time_index defined"
 
-            if base_time_index not in [v for v in additional_variables]:
-                copy_variables.append(base_time_index)
+            copies_base_time = base_time_index in copy_variables
+            if not copies_base_time:
+                copy_variables = copy_variables + [base_time_index]
 
             transfer_types[new_entity_time_index] = type(base_entity[base_entity.time_index])
         else:
@@ -681,6 +683,8 @@ class EntitySet(object):
 
         if make_time_index:
             new_entity_df2 = new_entity_df2.rename(columns={base_time_index: new_entity_time_index})
+            if copies_base_time and base_time_index != new_entity_time_index:
+                new_entity_df2[base_time_index] = new_entity_df2[new_entity_time_index]
         if make_secondary_time_index:
             assert len(make_secondary_time_index) == 1, "Can only provide 1 secondary time index"
             secondary_time_index = list(make_secondary_time_index.keys())[0]
-- 
2.43.0


From e738f91a08a0fc67e752d4a8766b3bf800f9b6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 34/67] fix: the index of an entity copied by splitting is not
 a second index

---
 featuretools/entityset/entityset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index b66b5a2..52a2927 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -637,6 +637,8 @@ class EntitySet(object):
                 transfer_types[v] = vtypes.Datetime
             elif type(base_entity[v]) == vtypes.NumericTimeIndex:
                 transfer_types[v] = vtypes.Numeric
+            elif type(base_entity[v]) == vtypes.Index:
+                transfer_types[v] = vtypes.Id
             else:
                 transfer_types[v] = type(base_entity[v])
 
-- 
2.43.0


From 46651f6f7ebd2bc6e27b8fdf579cd9599e5aa6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 35/67] fix: variables of a new secondary time index keep their
 types when splitting

---
 featuretools/entityset/entityset.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 52a2927..2bd3e0c 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -630,9 +630,13 @@ class EntitySet(object):
         if index == base_entity.index:
             raise ValueError("'index' must be different from the index column of the base entity")
 
+        secondary_variables = []
+        for time_variable, variables in (make_secondary_time_index or {}).items():
+            secondary_variables += [time_variable] + variables
+
         transfer_types = {}
         transfer_types[index] = type(base_entity[index])
-        for v in additional_variables + copy_variables:
+        for v in additional_variables + copy_variables + secondary_variables:
             if type(base_entity[v]) == vtypes.DatetimeTimeIndex:
                 transfer_types[v] = vtypes.Datetime
             elif type(base_entity[v]) == vtypes.NumericTimeIndex:
@@ -696,6 +700,9 @@ class EntitySet(object):
                 drop_duplicates(index, keep='last')[secondary_variables]
             if new_entity_secondary_time_index:
                 secondary_df = secondary_df.rename(columns={secondary_time_index: new_entity_secondary_time_index})
+                transfer_types[new_entity_secondary_time_index] = transfer_types[secondary_time_index]
+                if secondary_time_index not in new_entity_df2.columns:
+                    del transfer_types[secondary_time_index]
                 secondary_time_index = new_entity_secondary_time_index
             else:
                 new_entity_secondary_time_index = secondary_time_index
-- 
2.43.0


From 831c4f65aa00e12b3dd73ab58e29b178bf4065b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 36/67] fix: setting a secondary time index leaves the lists it
 is given alone

---
 featuretools/entityset/entity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index f307c3b..ad15efc 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -438,6 +438,7 @@ class Entity(object):
         self.entityset.reset_data_description()
 
     def set_secondary_time_index(self, secondary_time_index):
+        secondary_time_index = {time_index: list(columns) for time_index, columns in secondary_time_index.items()}
         for time_index, columns in secondary_time_index.items():
             if is_instance(self.df, (dd, ks), 'DataFrame') or self.df.empty:
                 time_to_check = vtypes.DEFAULT_DTYPE_VALUES[self[time_index]._default_pandas_dtype]
-- 
2.43.0


From a6ad9883ce6a540edbaea0f3b1e9f3c3414917a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 37/67] fix: csv and parquet files of an entity set keep the
 separator, text, truth values and missing values

---
 featuretools/entityset/deserialize.py | 21 ++++++++++++++++++++-
 featuretools/entityset/serialize.py   | 15 +++++++++++++--
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 901c739..15ff558 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -14,6 +14,14 @@ from featuretools.utils.s3_utils import get_transport_params, use_smartopen_es
 from featuretools.utils.wrangle import _is_local_tar, _is_s3, _is_url
 from featuretools.variable_types import LatLong, find_variable_types
 
+# How to read the text of values that are not text themselves
+OBJECT_VALUES = {
+    'boolean': lambda x: x == 'True',
+    'integer': int,
+    'floating': float,
+    'mixed-integer-float': lambda x: int(x) if x.lstrip('-').isdigit() else float(x)
+}
+
 
 def description_to_variable(description, entity=None):
     '''Deserialize variable from variable description.
@@ -136,6 +144,7 @@ def read_entity_data(description, path):
     load_format = description['loading_info']['type']
     entity_type = description['loading_info'].get('entity_type', 'pandas')
     dtypes = description['loading_info'].get('properties', {}).get('dtypes')
+    object_values = description['loading_info'].get('object_values', {})
     read_kwargs = {}
     if entity_type == 'dask':
         lib = dd
@@ -148,12 +157,17 @@ def read_entity_data(description, path):
         kwargs['compression'] = str(kwargs['compression'])
     else:
         lib = pd
+        read_kwargs['dtype'] = {column: object for column in object_values}
     if load_format == 'csv':
+        if entity_type != 'koalas':
+            # only an empty field is a missing value
+            read_kwargs.update(keep_default_na=False, na_values=[''])
         dataframe = lib.read_csv(
             file,
             engine=kwargs['engine'],
             compression=kwargs['compression'],
             encoding=kwargs['encoding'],
+            sep=kwargs.get('sep', ','),
             **read_kwargs
         )
     elif load_format == 'parquet':
@@ -170,6 +184,11 @@ def read_entity_data(description, path):
             if dtype == 'datetime64[ns]':
                 dtypes[col] = np.datetime64
     dataframe = dataframe.astype(dtypes)
+    for column, values in object_values.items():
+        if values in OBJECT_VALUES:
+            parse = OBJECT_VALUES[values]
+            dataframe[column] = pd.Series([x if pd.isnull(x) else parse(x) for x in dataframe[column]],
+                                          index=dataframe.index, dtype=object)
 
     if load_format in ['parquet', 'csv']:
         latlongs = []
@@ -178,7 +197,7 @@ def read_entity_data(description, path):
                 latlongs.append(var_description["id"])
 
         def parse_latlong_tuple(x):
-            return tuple(float(y) for y in x[1:-1].split(","))
+            return tuple(float(y) for y in x[1:-1].split(",")) if isinstance(x, str) else x
 
         def parse_latlong_list(x):
             return list(float(y) for y in x[1:-1].split(","))
diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index dc85e78..123a31b 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -5,6 +5,7 @@ import tarfile
 import tempfile
 
 import dask.dataframe as dd
+import pandas as pd
 
 from featuretools.utils.gen_utils import import_or_none, is_instance
 from featuretools.utils.s3_utils import get_transport_params, use_smartopen_es
@@ -96,6 +97,11 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     location = os.path.join('data', basename)
     file = os.path.join(path, location)
     df = entity.df
+    loading_info = {'location': location, 'type': format, 'params': kwargs}
+    if isinstance(df, pd.DataFrame) and format != 'pickle':
+        # csv and parquet files hold the values of columns of dtype object as text
+        loading_info['object_values'] = {column: pd.api.types.infer_dtype(df[column], skipna=True)
+                                         for column in df.select_dtypes('object').columns}
 
     if format == 'csv':
         if is_instance(df, ks, 'DataFrame'):
@@ -113,9 +119,14 @@ def write_entity_data(entity, path, format='csv', **kwargs):
         # Serializing to parquet format raises an error when columns contain tuples.
         # Columns containing tuples are mapped as dtype object.
         # Issue is resolved by casting columns of dtype object to string.
+        # Missing values are kept.
         df = df.copy()
         columns = list(df.select_dtypes('object').columns)
-        df[columns] = df[columns].astype(str)
+        if is_instance(df, ks, 'DataFrame'):
+            df[columns] = df[columns].astype(str)
+        else:
+            for column in columns:
+                df[column] = df[column].astype(str).mask(df[column].isnull(), None)
         df.to_parquet(file, **kwargs)
     elif format == 'pickle':
         # Dask currently does not support to_pickle
@@ -127,7 +138,7 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     else:
         error = 'must be one of the following formats: {}'
         raise ValueError(error.format(', '.join(FORMATS)))
-    return {'location': location, 'type': format, 'params': kwargs}
+    return loading_info
 
 
 def write_data_description(entityset, path, profile_name=None, **kwargs):
-- 
2.43.0


From 85f955c3b0e4e0759095296a31ad934e93a48bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 38/67] fix: interesting values keep their types when an entity
 set is saved

---
 featuretools/entityset/deserialize.py   | 11 ++++++-----
 featuretools/variable_types/variable.py | 10 +++++++++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 15ff558..1a26250 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -40,8 +40,7 @@ def description_to_variable(description, entity=None):
         variable_class = variable_types.get(variable, variable_types.get('unknown'))
         kwargs = {} if is_type_string else description['type']
         variable = variable_class(description['id'], entity, **kwargs)
-        interesting_values = pd.read_json(description['properties']['interesting_values'], typ='series')
-        variable.interesting_values = interesting_values
+        variable.interesting_values = read_interesting_values(description)
         variable_description = description['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
             variable.description = variable_description
@@ -49,6 +48,10 @@ def description_to_variable(description, entity=None):
     return variable
 
 
+def read_interesting_values(description):
+    return list(json.loads(description['properties']['interesting_values']).values())
+
+
 def description_to_entity(description, entityset, path=None):
     '''Deserialize entity from entity description and add to entityset.
 
@@ -71,9 +74,7 @@ def description_to_entity(description, entityset, path=None):
         secondary_time_index=description['properties'].get('secondary_time_index'),
         variable_types={variable: variable_types[variable][0] for variable in variable_types})
     for variable in es[description['id']].variables:
-        interesting_values = variable_types[variable.id][1]['properties']['interesting_values']
-        interesting_values = pd.read_json(interesting_values, typ="series")
-        variable.interesting_values = interesting_values
+        variable.interesting_values = read_interesting_values(variable_types[variable.id][1])
         variable_description = variable_types[variable.id][1]['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
             variable.description = variable_description
diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index 0a20ba5..26e01b1 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -1,3 +1,4 @@
+import json
 import warnings
 
 import numpy as np
@@ -132,10 +133,17 @@ class Variable(object):
                 'name': self.name,
                 'description': self.description,
                 'entity': self.entity.id,
-                'interesting_values': self._interesting_values.to_json()
+                'interesting_values': self._interesting_values_to_json()
             },
         }
 
+    def _interesting_values_to_json(self):
+        values = self._interesting_values
+        if values.dtype.kind in 'mM':
+            return values.to_json(date_format='iso', date_unit='ns')
+        return json.dumps(dict(enumerate(values.tolist())),
+                          default=lambda x: x.item() if hasattr(x, 'item') else str(x))
+
 
 class Unknown(Variable):
     pass
-- 
2.43.0


From 3ccdbc042be62fa7933c7e26cb5e29d66a5d9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 39/67] fix: names and properties of variables survive saving
 an entity set

---
 featuretools/entityset/deserialize.py   | 9 +++++++++
 featuretools/variable_types/variable.py | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 1a26250..8432ef8 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -40,6 +40,9 @@ def description_to_variable(description, entity=None):
         variable_class = variable_types.get(variable, variable_types.get('unknown'))
         kwargs = {} if is_type_string else description['type']
         variable = variable_class(description['id'], entity, **kwargs)
+        variable_name = description['properties'].get('name', variable.id)
+        if variable_name != variable.id:
+            variable.name = variable_name
         variable.interesting_values = read_interesting_values(description)
         variable_description = description['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
@@ -75,6 +78,12 @@ def description_to_entity(description, entityset, path=None):
         variable_types={variable: variable_types[variable][0] for variable in variable_types})
     for variable in es[description['id']].variables:
         variable.interesting_values = read_interesting_values(variable_types[variable.id][1])
+        if isinstance(variable_types[variable.id][1]['type'], dict):
+            for name, value in variable_types[variable.id][1]['type'].items():
+                setattr(variable, name, value)
+        variable_name = variable_types[variable.id][1]['properties'].get('name', variable.id)
+        if variable_name != variable.id:
+            variable.name = variable_name
         variable_description = variable_types[variable.id][1]['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
             variable.description = variable_description
diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index 26e01b1..52ae630 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -207,7 +207,7 @@ class Categorical(Discrete):
     """
 
     def __init__(self, id, entity, name=None, categories=None):
-        self.categories = None or []
+        self.categories = categories or []
         super(Categorical, self).__init__(id, entity, name=name)
 
     def to_data_description(self):
@@ -249,7 +249,7 @@ class Numeric(Variable):
                  range=None,
                  start_inclusive=True,
                  end_inclusive=False):
-        self.range = None or []
+        self.range = range or []
         self.start_inclusive = start_inclusive
         self.end_inclusive = end_inclusive
         super(Numeric, self).__init__(id, entity, name=name)
-- 
2.43.0


From 82fecf2c33e8019704e9c870ad1e73d770ea23c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:55 +0000
Subject: [PATCH 40/67] fix: loading an entity set keeps the order of the rows

---
 featuretools/entityset/deserialize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 8432ef8..741381e 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -74,6 +74,7 @@ def description_to_entity(description, entityset, path=None):
         dataframe,
         index=description.get('index'),
         time_index=description.get('time_index'),
+        already_sorted=True,
         secondary_time_index=description['properties'].get('secondary_time_index'),
         variable_types={variable: variable_types[variable][0] for variable in variable_types})
     for variable in es[description['id']].variables:
-- 
2.43.0


From ad9272c5f9c2aa4459ddda64692d80d46eaec703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 41/67] fix: columns of dtype category keep their values in csv
 files

---
 featuretools/entityset/deserialize.py | 5 +++--
 featuretools/entityset/serialize.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 741381e..6d4c121 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -159,7 +159,8 @@ def read_entity_data(description, path):
     read_kwargs = {}
     if entity_type == 'dask':
         lib = dd
-        read_kwargs['dtype'] = dtypes
+        # the values of categories are inferred
+        read_kwargs['dtype'] = {column: dtype for column, dtype in dtypes.items() if dtype != 'category'}
     elif entity_type == 'koalas':
         import_error = 'Cannot load Koalas entityset - unable to import Koalas. ' \
                        'Consider doing a pip install with featuretools[koalas] to install Koalas with pip'
@@ -199,7 +200,7 @@ def read_entity_data(description, path):
         if values in OBJECT_VALUES:
             parse = OBJECT_VALUES[values]
             dataframe[column] = pd.Series([x if pd.isnull(x) else parse(x) for x in dataframe[column]],
-                                          index=dataframe.index, dtype=object)
+                                          index=dataframe.index, dtype=object).astype(dtypes[column])
 
     if load_format in ['parquet', 'csv']:
         latlongs = []
diff --git a/featuretools/entityset/serialize.py b/featuretools/entityset/serialize.py
index 123a31b..0dfb0f0 100644
--- a/featuretools/entityset/serialize.py
+++ b/featuretools/entityset/serialize.py
@@ -100,8 +100,9 @@ def write_entity_data(entity, path, format='csv', **kwargs):
     loading_info = {'location': location, 'type': format, 'params': kwargs}
     if isinstance(df, pd.DataFrame) and format != 'pickle':
         # csv and parquet files hold the values of columns of dtype object as text
-        loading_info['object_values'] = {column: pd.api.types.infer_dtype(df[column], skipna=True)
-                                         for column in df.select_dtypes('object').columns}
+        columns = df.select_dtypes(['object', 'category'] if format == 'csv' else 'object').columns
+        loading_info['object_values'] = {column: pd.api.types.infer_dtype(df[column].astype(object), skipna=True)
+                                         for column in columns}
 
     if format == 'csv':
         if is_instance(df, ks, 'DataFrame'):
-- 
2.43.0


From 2dbfd55efa0e6701b7f811813bdcc070c347aea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 42/67] fix: deep comparison of entities sees differing data

---
 featuretools/utils/wrangle.py | 62 ++++++++++++++---------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/featuretools/utils/wrangle.py b/featuretools/utils/wrangle.py
index 0303196..daa5100 100644
--- a/featuretools/utils/wrangle.py
+++ b/featuretools/utils/wrangle.py
@@ -2,11 +2,15 @@ import re
 import tarfile
 from datetime import datetime
 
+import dask.dataframe as dd
 import numpy as np
 import pandas as pd
 
 from featuretools import variable_types
 from featuretools.entityset.timedelta import Timedelta
+from featuretools.utils.gen_utils import import_or_none, is_instance
+
+ks = import_or_none('databricks.koalas')
 
 
 def _check_timedelta(td):
@@ -118,46 +122,30 @@ def _check_time_type(time):
     return time_type
 
 
+def _cells_equal(x, y):
+    if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
+        return len(x) == len(y) and all(_cells_equal(a, b) for a, b in zip(x, y))
+    x_null, y_null = pd.isnull(x), pd.isnull(y)
+    if x_null is True or y_null is True:
+        return x_null is y_null
+    return bool(np.all(x == y))
+
+
 def _dataframes_equal(df1, df2):
-    # ^ means XOR
-    df1_empty = bool(len(df1))
-    df2_empty = bool(len(df2))
-    if df1_empty ^ df2_empty:
+    df1, df2 = [df.compute() if isinstance(df, dd.DataFrame) else
+                df.to_pandas() if is_instance(df, ks, 'DataFrame') else df for df in (df1, df2)]
+    if len(df1) != len(df2) or set(df1.columns) != set(df2.columns):
         return False
-    elif not df1_empty and not df2_empty:
-        if not set(df1.columns) == set(df2.columns):
-            return False
 
-        for c in df1:
-            df1c = df1[c]
-            df2c = df2[c]
-            if df1c.dtype == object:
-                df1c = df1c.astype('unicode')
-            if df2c.dtype == object:
-                df2c = df2c.astype('unicode')
-
-            normal_compare = True
-            if df1c.dtype == object:
-                dropped = df1c.dropna()
-                if not dropped.empty:
-                    if isinstance(dropped.iloc[0], tuple):
-                        dropped2 = df2[c].dropna()
-                        normal_compare = False
-                        for i in range(len(dropped.iloc[0])):
-                            try:
-                                equal = dropped.apply(lambda x: x[i]).equals(
-                                    dropped2.apply(lambda x: x[i]))
-                            except IndexError:
-                                raise IndexError("If column data are tuples, they must all be the same length")
-                            if not equal:
-                                return False
-            if normal_compare:
-                # handle nan equality correctly
-                # This way is much faster than df1.equals(df2)
-                result = df1c == df2c
-                result[pd.isnull(df1c) == pd.isnull(df2c)] = True
-                if not result.all():
-                    return False
+    for c in df1:
+        df1c = df1[c]
+        df2c = df2[c]
+        if isinstance(df1c.dtype, np.dtype) and df1c.dtype != object and df1c.dtype == df2c.dtype:
+            df1c, df2c = df1c.values, df2c.values
+            if not ((df1c == df2c) | (pd.isnull(df1c) & pd.isnull(df2c))).all():
+                return False
+        elif not all(_cells_equal(x, y) for x, y in zip(df1c.tolist(), df2c.tolist())):
+            return False
     return True
 
 
-- 
2.43.0


From 1bbef7e432db5d1ccc07f49d71d56b307190e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 43/67] fix: comparison of entity sets sees additional
 relationships of the other

---
 featuretools/entityset/entityset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 2bd3e0c..10f8862 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -117,9 +117,8 @@ class EntitySet(object):
                 return False
             if not e.__eq__(other[eid], deep=deep):
                 return False
-        for r in self.relationships:
-            if r not in other.relationships:
-                return False
+        if set(self.relationships) != set(other.relationships):
+            return False
         return True
 
     def __ne__(self, other, deep=False):
-- 
2.43.0


From 91326e23c5ca553588d87b7edf9f9d7ae68ba544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 44/67] fix: comparison of variables of related types is
 symmetric

---
 featuretools/variable_types/variable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index 52ae630..50ba770 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -58,7 +58,7 @@ class Variable(object):
         return self.entity.entityset
 
     def __eq__(self, other, deep=False):
-        shallow_eq = isinstance(other, self.__class__) and \
+        shallow_eq = type(other) == type(self) and \
             self.id == other.id and \
             self.entity_id == other.entity_id
         if not deep:
-- 
2.43.0


From bae9caa494b8e67c4d16445c6ec4f31d34c011d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 45/67] fix: combining entity sets adds no last time indexes
 and does not depend on the order of relationships

---
 featuretools/entityset/entityset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/featuretools/entityset/entityset.py b/featuretools/entityset/entityset.py
index 10f8862..8020864 100644
--- a/featuretools/entityset/entityset.py
+++ b/featuretools/entityset/entityset.py
@@ -749,8 +749,7 @@ class EntitySet(object):
         '''
         assert_string = "Entitysets must have the same entities, relationships"\
             ", and variable_ids"
-        assert (self.__eq__(other) and
-                self.relationships == other.relationships), assert_string
+        assert self.__eq__(other), assert_string
 
         for entity in self.entities:
             assert entity.id in other.entity_dict, assert_string
@@ -788,7 +787,8 @@ class EntitySet(object):
             combined_es[entity.id].update_data(df=combined_df,
                                                recalculate_last_time_indexes=False)
 
-        combined_es.add_last_time_indexes(updated_entities=has_last_time_index)
+        if has_last_time_index:
+            combined_es.add_last_time_indexes(updated_entities=has_last_time_index)
         self.reset_data_description()
         return combined_es
 
-- 
2.43.0


From f2053b17d9d0d843c9db9f8aa1ef8de06ebc6e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 46/67] fix: metadata keeps variables under their ids

---
 featuretools/entityset/deserialize.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 6d4c121..86f3f31 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -40,9 +40,6 @@ def description_to_variable(description, entity=None):
         variable_class = variable_types.get(variable, variable_types.get('unknown'))
         kwargs = {} if is_type_string else description['type']
         variable = variable_class(description['id'], entity, **kwargs)
-        variable_name = description['properties'].get('name', variable.id)
-        if variable_name != variable.id:
-            variable.name = variable_name
         variable.interesting_values = read_interesting_values(description)
         variable_description = description['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
@@ -83,7 +80,7 @@ def description_to_entity(description, entityset, path=None):
             for name, value in variable_types[variable.id][1]['type'].items():
                 setattr(variable, name, value)
         variable_name = variable_types[variable.id][1]['properties'].get('name', variable.id)
-        if variable_name != variable.id:
+        if path and variable_name != variable.id:
             variable.name = variable_name
         variable_description = variable_types[variable.id][1]['properties'].get('description')
         if variable_description is not None and variable_description != 'the "{}"'.format(variable.name):
-- 
2.43.0


From 016dc03af1c932f2a8e945a6dfdb1ab5ae8f76de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 47/67] fix: csv files keep every digit of a float

---
 featuretools/entityset/deserialize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/featuretools/entityset/deserialize.py b/featuretools/entityset/deserialize.py
index 86f3f31..fbb2b92 100644
--- a/featuretools/entityset/deserialize.py
+++ b/featuretools/entityset/deserialize.py
@@ -171,6 +171,12 @@ def read_entity_data(description, path):
         if entity_type != 'koalas':
             # only an empty field is a missing value
             read_kwargs.update(keep_default_na=False, na_values=[''])
+            # all digits of a float count
+            if kwargs['engine'] == 'c':
+                read_kwargs['float_precision'] = 'round_trip'
+            else:
+                floats = [column for column, dtype in dtypes.items() if dtype.startswith('float')]
+                read_kwargs['dtype'].update(dict.fromkeys(floats, object))
         dataframe = lib.read_csv(
             file,
             engine=kwargs['engine'],
-- 
2.43.0


From c94945a4fe071a16e0b4650f7c3311900dfd33be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 48/67] fix: renamed identity features can be calculated

---
 featuretools/computational_backends/feature_set_calculator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index a355171..1291b09 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -423,6 +423,9 @@ class FeatureSetCalculator(object):
 
     def _calculate_identity_features(self, features, df, _df_trie, progress_callback):
         for f in features:
+            if f.get_name() not in df.columns and f.variable.id in df.columns:
+                # the feature was renamed
+                df[f.get_name()] = df[f.variable.id]
             assert f.get_name() in df.columns, (
                 'Column "%s" missing frome dataframe' % f.get_name())
 
-- 
2.43.0


From d8f8ddc8439fe2c438a4be301b709408b4be6054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 49/67] fix: saved group-by features keep an input that is also
 the group key

---
 featuretools/feature_base/feature_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/featuretools/feature_base/feature_base.py b/featuretools/feature_base/feature_base.py
index 8170963..21ca307 100644
--- a/featuretools/feature_base/feature_base.py
+++ b/featuretools/feature_base/feature_base.py
@@ -726,8 +726,7 @@ class GroupByTransformFeature(TransformFeature):
 
     def get_arguments(self):
         # Do not include groupby in base_features.
-        feature_names = [feat.unique_name() for feat in self.base_features
-                         if feat.unique_name() != self.groupby.unique_name()]
+        feature_names = [feat.unique_name() for feat in self.base_features[:-1]]
         return {
             'name': self._name,
             'base_features': feature_names,
-- 
2.43.0


From 6fd570614c04018a6e2efe88ff81667acc9da77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 50/67] fix: features can be loaded from a file named by a
 number

---
 featuretools/feature_base/features_deserializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/featuretools/feature_base/features_deserializer.py b/featuretools/feature_base/features_deserializer.py
index 6402f82..0df1948 100644
--- a/featuretools/feature_base/features_deserializer.py
+++ b/featuretools/feature_base/features_deserializer.py
@@ -88,6 +88,9 @@ class FeaturesDeserializer(object):
             try:
                 features_dict = json.loads(features)
             except ValueError:
+                features_dict = None
+            # the name of a file can be valid JSON, too
+            if not isinstance(features_dict, dict):
                 if _is_url(features) or _is_s3(features):
                     transport_params = None
                     if _is_s3(features):
-- 
2.43.0


From 744841281558424dbba5209ec30df9383bcd9dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 51/67] fix: arguments of primitives that are times or numpy
 values can be saved

---
 featuretools/primitives/utils.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/featuretools/primitives/utils.py b/featuretools/primitives/utils.py
index 468a8a7..6dc495f 100644
--- a/featuretools/primitives/utils.py
+++ b/featuretools/primitives/utils.py
@@ -1,7 +1,9 @@
 import importlib.util
 import os
+from datetime import datetime, timedelta
 from inspect import isclass
 
+import numpy as np
 import pandas as pd
 
 import featuretools
@@ -175,9 +177,32 @@ def load_primitive_from_file(filepath):
     return primitives[0]
 
 
+def _serialize_argument(value):
+    """replace what JSON cannot hold in the argument of a primitive"""
+    if isinstance(value, (list, tuple, set, frozenset, np.ndarray, pd.Series, pd.Index)):
+        return [_serialize_argument(item) for item in value]
+    if isinstance(value, (datetime, np.datetime64)):
+        return {'timestamp': pd.Timestamp(value).isoformat()}
+    if isinstance(value, (timedelta, np.timedelta64)):
+        return {'timedelta': str(pd.Timedelta(value))}
+    if isinstance(value, np.generic):
+        return value.item()
+    return value
+
+
+def _deserialize_argument(value):
+    if isinstance(value, list):
+        return [_deserialize_argument(item) for item in value]
+    if isinstance(value, dict) and list(value) == ['timestamp']:
+        return pd.Timestamp(value['timestamp'])
+    if isinstance(value, dict) and list(value) == ['timedelta']:
+        return pd.Timedelta(value['timedelta'])
+    return value
+
+
 def serialize_primitive(primitive):
     """build a dictionary with the data necessary to construct the given primitive"""
-    args_dict = {name: val for name, val in primitive.get_arguments()}
+    args_dict = {name: _serialize_argument(val) for name, val in primitive.get_arguments()}
     cls = type(primitive)
     return {
         'type': cls.__name__,
@@ -217,7 +242,8 @@ class PrimitivesDeserializer(object):
                 raise RuntimeError('Primitive "%s" in module "%s" not found' %
                                    (class_name, module_name))
 
-        arguments = primitive_dict['arguments']
+        arguments = {name: _deserialize_argument(value)
+                     for name, value in primitive_dict['arguments'].items()}
         return cls(**arguments)
 
     def _find_class_in_descendants(self, search_key):
-- 
2.43.0


From cee9aa2ae3bb61433f4b48ac9feb5079ba619a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 52/67] fix: synthesis does not aggregate through ignored
 entities

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index ccf8451..e1bc298 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -402,7 +402,7 @@ class DeepFeatureSynthesis(object):
 
         backward_entities = self.es.get_backward_entities(entity.id, deep=True)
         for b_entity_id, sub_relationship_path in backward_entities:
-            if b_entity_id in self.ignore_entities:
+            if self.ignore_entities.intersection(sub_relationship_path.entities()):
                 continue
 
             new_path = relationship_path + sub_relationship_path
-- 
2.43.0


From 84ec372e9202f2e0dc6288dba2df66d77e86f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 53/67] fix: features through entities on several paths keep to
 the maximum depth

---
 .../synthesis/deep_feature_synthesis.py         | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index e1bc298..678b2d2 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -9,6 +9,7 @@ from featuretools.entityset.relationship import RelationshipPath
 from featuretools.feature_base import (
     AggregationFeature,
     DirectFeature,
+    FeatureOutputSlice,
     GroupByTransformFeature,
     IdentityFeature,
     TransformFeature
@@ -672,6 +673,11 @@ class DeepFeatureSynthesis(object):
 
             new_f = DirectFeature(f, child_entity, relationship=relationship)
 
+            # entities reached by several paths can have deeper features
+            if (self.max_depth is not None and
+                    self._stacking_depth(new_f) > self.max_depth):
+                continue
+
             self._handle_new_feature(all_features=all_features,
                                      new_feature=new_f)
 
@@ -781,6 +787,17 @@ class DeepFeatureSynthesis(object):
 
         return selected_features
 
+    def _stacking_depth(self, feature):
+        """Depth of the feature, not counting conditions and selected outputs"""
+        if any(feature.unique_name() == f.unique_name() for f in self.seed_features):
+            return 0
+        if not feature.base_features:
+            return 0
+        depth = max(self._stacking_depth(f) for f in feature.base_features)
+        if isinstance(feature, FeatureOutputSlice):
+            return depth
+        return depth + 1
+
     def _feature_in_relationship_path(self, relationship_path, feature):
         # must be identity feature to be in the relationship path
         if not isinstance(feature, IdentityFeature):
-- 
2.43.0


From ca9f1ab4a84be471b7cf2ff3dde9afb7db9c11cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 54/67] fix: synthesis finds ignored and included variables by
 their ids

---
 featuretools/primitives/options_utils.py         | 4 ++--
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/featuretools/primitives/options_utils.py b/featuretools/primitives/options_utils.py
index 7c465f8..7f22b1b 100644
--- a/featuretools/primitives/options_utils.py
+++ b/featuretools/primitives/options_utils.py
@@ -171,12 +171,12 @@ def variable_filter(f, options, groupby=False):
     for base_f in dependencies:
         if isinstance(base_f, IdentityFeature):
             if include_vars in options and base_f.entity.id in options[include_vars]:
-                if base_f.get_name() in options[include_vars][base_f.entity.id]:
+                if base_f.variable.id in options[include_vars][base_f.entity.id]:
                     continue  # this is a valid feature, go to next
                 else:
                     return False  # this is not an included feature
             if ignore_vars in options and base_f.entity.id in options[ignore_vars]:
-                if base_f.get_name() in options[ignore_vars][base_f.entity.id]:
+                if base_f.variable.id in options[ignore_vars][base_f.entity.id]:
                     return False  # ignore this feature
         if include_entities in options and \
                 base_f.entity.id not in options[include_entities]:
diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index 678b2d2..d77b550 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -515,7 +515,7 @@ class DeepFeatureSynthesis(object):
         """
         variables = entity.variables
         for v in variables:
-            if v.name in self.ignore_variables[entity.id]:
+            if v.id in self.ignore_variables[entity.id]:
                 continue
             new_f = IdentityFeature(variable=v)
             self._handle_new_feature(all_features=all_features,
-- 
2.43.0


From d608b82a12de096dedfb42bc546a9652e1faf22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 55/67] fix: order of synthesised features does not depend on
 hash values

---
 featuretools/synthesis/deep_feature_synthesis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index d77b550..cc6f72b 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -712,7 +712,8 @@ class DeepFeatureSynthesis(object):
                                                         feature_filter=feature_filter)
             matching_inputs = filter_matches_by_options(matching_inputs,
                                                         current_options)
-            wheres = list(self.where_clauses[child_entity.id])
+            wheres = sorted(self.where_clauses[child_entity.id],
+                            key=lambda where: where.unique_name())
 
             for matching_input in matching_inputs:
                 if not check_stacking(agg_prim, matching_input):
@@ -932,7 +933,7 @@ def match(input_types, features, replace=False, commutative=False, require_direc
             matching_inputs.add(new_match)
 
     if commutative:
-        matching_inputs = {tuple(sorted(s, key=lambda x: x.get_name().lower())) for s in matching_inputs}
+        matching_inputs = {tuple(sorted(s, key=lambda x: (x.get_name().lower(), x.get_name()))) for s in matching_inputs}
 
     return matching_inputs
 
-- 
2.43.0


From 8efb261fd0f7d2be2d92feadef292c3014c8ac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 56/67] fix: aggregations across entities related in several
 ways find their group key

---
 featuretools/utils/gen_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/gen_utils.py b/featuretools/utils/gen_utils.py
index 9f35e1b..7ed11bb 100644
--- a/featuretools/utils/gen_utils.py
+++ b/featuretools/utils/gen_utils.py
@@ -26,7 +26,7 @@ def get_relationship_variable_id(path):
     child_link_name = r.child_variable.id
     for _, r in path[1:]:
         parent_link_name = child_link_name
-        child_link_name = '%s.%s' % (r.parent_entity.id,
+        child_link_name = '%s.%s' % (r.parent_name,
                                      parent_link_name)
     return child_link_name
 
-- 
2.43.0


From c86ae1744390044dd97acfd8294f91618c0a2e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 57/67] fix: included entities take priority over ignored
 entities in primitive options

---
 featuretools/primitives/options_utils.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/featuretools/primitives/options_utils.py b/featuretools/primitives/options_utils.py
index 7f22b1b..82211e5 100644
--- a/featuretools/primitives/options_utils.py
+++ b/featuretools/primitives/options_utils.py
@@ -178,9 +178,9 @@ def variable_filter(f, options, groupby=False):
             if ignore_vars in options and base_f.entity.id in options[ignore_vars]:
                 if base_f.variable.id in options[ignore_vars][base_f.entity.id]:
                     return False  # ignore this feature
-        if include_entities in options and \
-                base_f.entity.id not in options[include_entities]:
-            return False  # not an included entity
+        if include_entities in options:
+            if base_f.entity.id not in options[include_entities]:
+                return False  # not an included entity
         elif ignore_entities in options and \
                 base_f.entity.id in options[ignore_entities]:
             return False  # ignore the entity
@@ -192,18 +192,17 @@ def ignore_entity_for_primitive(options, entity, groupby=False):
     def should_ignore_entity(option):
         if groupby:
             if 'include_groupby_variables' not in option or entity.id not in option['include_groupby_variables']:
-                if 'include_groupby_entities' in option and entity.id not in option['include_groupby_entities']:
-                    return True
+                if 'include_groupby_entities' in option:
+                    if entity.id not in option['include_groupby_entities']:
+                        return True
                 elif 'ignore_groupby_entities' in option and entity.id in option['ignore_groupby_entities']:
                     return True
         if 'include_variables' in option and entity.id in option['include_variables']:
             return False
-        elif 'include_entities' in option and entity.id not in option['include_entities']:
-            return True
-        elif entity.id in option['ignore_entities']:
-            return True
+        elif 'include_entities' in option:
+            return entity.id not in option['include_entities']
         else:
-            return False
+            return entity.id in option['ignore_entities']
     return any([should_ignore_entity(option) for option in options])
 
 
-- 
2.43.0


From de91feff1905c91aaaa0b29af0bdac12b9aa359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 58/67] fix: dropping the first level works with a number of
 values per feature

---
 featuretools/synthesis/encode_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/encode_features.py b/featuretools/synthesis/encode_features.py
index 1732978..b4aee78 100644
--- a/featuretools/synthesis/encode_features.py
+++ b/featuretools/synthesis/encode_features.py
@@ -136,7 +136,7 @@ def encode_features(feature_matrix, features, top_n=DEFAULT_TOP_N, include_unkno
         if isinstance(top_n, dict):
             select_n = top_n.get(f.get_name(), DEFAULT_TOP_N)
         if drop_first:
-            select_n = min(len(val_counts), top_n)
+            select_n = min(len(val_counts), select_n)
             select_n = max(select_n - 1, 1)
         unique = val_counts.head(select_n).index.tolist()
         for label in unique:
-- 
2.43.0


From 807627fb443ff4045339f2866ee4e7b252d8d82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 59/67] fix: the most common element of one is the element
 itself

---
 featuretools/primitives/standard/aggregation_primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featuretools/primitives/standard/aggregation_primitives.py b/featuretools/primitives/standard/aggregation_primitives.py
index 3a64d26..7a130d2 100644
--- a/featuretools/primitives/standard/aggregation_primitives.py
+++ b/featuretools/primitives/standard/aggregation_primitives.py
@@ -354,7 +354,8 @@ class NMostCommon(AggregationPrimitive):
             if len(array) < self.n:
                 filler = np.full(self.n - len(array), np.nan)
                 array = np.append(array, filler)
-            return array
+            # a feature with a single output has the value itself
+            return array if self.n > 1 else array[0]
 
         return n_most_common
 
-- 
2.43.0


From 44c127fc3fd7e95c4bc287799005bc9afeed8faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 60/67] fix: categories that do not occur are not among the
 most common elements

---
 featuretools/primitives/standard/aggregation_primitives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featuretools/primitives/standard/aggregation_primitives.py b/featuretools/primitives/standard/aggregation_primitives.py
index 7a130d2..dc06a7c 100644
--- a/featuretools/primitives/standard/aggregation_primitives.py
+++ b/featuretools/primitives/standard/aggregation_primitives.py
@@ -350,7 +350,9 @@ class NMostCommon(AggregationPrimitive):
 
     def get_function(self, agg_type=Library.PANDAS):
         def n_most_common(x):
-            array = np.array(x.value_counts().index[:self.n])
+            counts = x.value_counts()
+            # categories that do not occur are counted as well
+            array = np.array(counts[counts > 0].index[:self.n])
             if len(array) < self.n:
                 filler = np.full(self.n - len(array), np.nan)
                 array = np.append(array, filler)
-- 
2.43.0


From 5c35e041ab8d61b1dfb6321b861827505bc57c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 61/67] fix: missing places are replaced row by row

---
 featuretools/utils/entity_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/utils/entity_utils.py b/featuretools/utils/entity_utils.py
index f424468..f2cf595 100644
--- a/featuretools/utils/entity_utils.py
+++ b/featuretools/utils/entity_utils.py
@@ -226,4 +226,4 @@ def col_is_datetime(col):
 
 def replace_latlong_nan(values):
     """replace a single `NaN` value with a tuple: `(np.nan, np.nan)`"""
-    return values.where(values.notnull(), pd.Series([(np.nan, np.nan)] * len(values)))
+    return values.where(values.notnull(), pd.Series([(np.nan, np.nan)] * len(values), index=values.index))
-- 
2.43.0


From 7e40a496e474661112fee83fb9bc2ac0201b6d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 62/67] fix: the share of true values of partitioned data can
 be calculated with missing values

---
 featuretools/primitives/standard/aggregation_primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/primitives/standard/aggregation_primitives.py b/featuretools/primitives/standard/aggregation_primitives.py
index dc06a7c..1b50768 100644
--- a/featuretools/primitives/standard/aggregation_primitives.py
+++ b/featuretools/primitives/standard/aggregation_primitives.py
@@ -292,7 +292,7 @@ class PercentTrue(AggregationPrimitive):
         if agg_type == Library.DASK:
             def chunk(s):
                 def format_chunk(x):
-                    return x[:].fillna(0)
+                    return x[:].fillna(0).astype('bool')
 
                 chunk_sum = s.agg(lambda x: format_chunk(x).sum())
                 chunk_len = s.agg(lambda x: len(format_chunk(x)))
-- 
2.43.0


From 3b775a1eb70e67b5a4ee7f6112acd1cd87954dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 63/67] fix: instances with a missing id do not push out the
 rows of others

---
 .../computational_backends/calculate_feature_matrix.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/featuretools/computational_backends/calculate_feature_matrix.py b/featuretools/computational_backends/calculate_feature_matrix.py
index b903a6f..f0e5b9b 100644
--- a/featuretools/computational_backends/calculate_feature_matrix.py
+++ b/featuretools/computational_backends/calculate_feature_matrix.py
@@ -308,7 +308,10 @@ def calculate_feature_matrix(features, entityset=None, cutoff_time=None, instanc
             else:
                 # Maintain index dtype
                 index_dtype = feature_matrix.index.get_level_values(0).dtype
-                feature_matrix = feature_matrix.reindex(cutoff_time[1].astype(index_dtype), level=0)
+                times = feature_matrix.index.get_level_values(1)[:1].repeat(len(cutoff_time[1]))
+                feature_matrix = feature_matrix.reindex(
+                    pd.MultiIndex.from_arrays([cutoff_time[1].astype(index_dtype), times],
+                                              names=feature_matrix.index.names))
             if not cutoff_time_in_index:
                 feature_matrix.reset_index(level='time', drop=True, inplace=True)
 
-- 
2.43.0


From ff9ed31efb249007091d0a62847d90feba11fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 64/67] fix: primitives can exclude the primitives they are an
 input of

---
 featuretools/synthesis/deep_feature_synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/deep_feature_synthesis.py b/featuretools/synthesis/deep_feature_synthesis.py
index cc6f72b..26849ff 100644
--- a/featuretools/synthesis/deep_feature_synthesis.py
+++ b/featuretools/synthesis/deep_feature_synthesis.py
@@ -870,7 +870,7 @@ def check_stacking(primitive, inputs):
 
     for f in inputs:
         if f.primitive.base_of_exclude is not None:
-            if primitive in f.base_of_exclude:
+            if isinstance(primitive, tuple(f.primitive.base_of_exclude)):
                 return False
 
     for f in inputs:
-- 
2.43.0


From 6c99c148674d9b866c2881c41ccb0070087e92e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 65/67] fix: categories that do not occur are not interesting
 values, nor are other values of category columns lost

---
 featuretools/entityset/entity.py        | 1 +
 featuretools/variable_types/variable.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/featuretools/entityset/entity.py b/featuretools/entityset/entity.py
index ad15efc..243a32e 100644
--- a/featuretools/entityset/entity.py
+++ b/featuretools/entityset/entity.py
@@ -325,6 +325,7 @@ class Entity(object):
                     continue
 
                 counts = self.df[variable.id].value_counts()
+                counts = counts[counts > 0]
 
                 # find how many of each unique value there are; sort by count,
                 # and add interesting values to each variable
diff --git a/featuretools/variable_types/variable.py b/featuretools/variable_types/variable.py
index 50ba770..3944ad5 100644
--- a/featuretools/variable_types/variable.py
+++ b/featuretools/variable_types/variable.py
@@ -50,6 +50,9 @@ class Variable(object):
             default_dtype = 'datetime64[ns]'
         if default_dtype == np.timedelta64:
             default_dtype = 'timedelta64[ns]'
+        if pd.api.types.is_categorical_dtype(default_dtype):
+            # the values of interest need not be among the categories
+            default_dtype = 'object'
 
         self._interesting_values = pd.Series(dtype=default_dtype)
 
-- 
2.43.0


From 191d8815c9afc7f31f2c6d12a2deb54acfca9c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:15 +0000
Subject: [PATCH 66/67] fix: features of datetime aggregations can be
 calculated when all of their values are missing

---
 .../computational_backends/feature_set_calculator.py      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/featuretools/computational_backends/feature_set_calculator.py b/featuretools/computational_backends/feature_set_calculator.py
index 1291b09..5a6281a 100644
--- a/featuretools/computational_backends/feature_set_calculator.py
+++ b/featuretools/computational_backends/feature_set_calculator.py
@@ -750,6 +750,14 @@ class FeatureSetCalculator(object):
 
         frame = frame.fillna(fillna_dict)
 
+        # datetimes are still datetimes when all of them are missing
+        if isinstance(frame, pd.DataFrame):
+            for f in features:
+                if issubclass(f.variable_type, variable_types.Datetime):
+                    for name in f.get_feature_names():
+                        if frame[name].isnull().all():
+                            frame[name] = pd.to_datetime(frame[name])
+
         # convert boolean dtypes to floats as appropriate
         # pandas behavior: https://github.com/pydata/pandas/issues/3752
         for f in features:
-- 
2.43.0


From 279096f80029246cad8919ea84d32246c3069909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:57 +0000
Subject: [PATCH 67/67] fix: primitives given by a name in another case are not
 reported as unused

---
 featuretools/synthesis/dfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featuretools/synthesis/dfs.py b/featuretools/synthesis/dfs.py
index 9df604f..5114c44 100644
--- a/featuretools/synthesis/dfs.py
+++ b/featuretools/synthesis/dfs.py
@@ -296,7 +296,7 @@ def get_unused_primitives(specified, used):
     """Get a list of unused primitives based on a list of specified primitives and a list of output features"""
     if not specified:
         return []
-    specified = {primitive if isinstance(primitive, str) else primitive.name for primitive in specified}
+    specified = {primitive.lower() if isinstance(primitive, str) else primitive.name for primitive in specified}
     return sorted(list(specified.difference(used)))
 
 
-- 
2.43.0


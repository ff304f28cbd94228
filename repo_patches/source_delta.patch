From b72f2423d2642eedc4a5f3f27b3373257b193681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:53 +0000
Subject: [PATCH 01/45] fix: MAP@k is 0, not no_relevant_results, when no
 relevant document is in the top k

---
 rankeval/metrics/map.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rankeval/metrics/map.py b/rankeval/metrics/map.py
index dba121b..0e5dc4d 100644
--- a/rankeval/metrics/map.py
+++ b/rankeval/metrics/map.py
@@ -105,8 +105,9 @@ class MAP(Metric):
                 n_relevant_retrieved_at_i += 1
                 precision_at_i += n_relevant_retrieved_at_i / (i + 1)
 
-        if n_relevant_retrieved_at_i > 0:
-            return precision_at_i / min(n_retrieved, np.count_nonzero(y))
+        n_relevant = np.count_nonzero(y)
+        if n_relevant > 0:
+            return precision_at_i / min(n_retrieved, n_relevant)
         else:
             return self.no_relevant_results
 
-- 
2.43.0


From df65fe4e00715f173f3d75cb41cb51fe4be0ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:53 +0000
Subject: [PATCH 02/45] fix: pFound continues with probability 1 -
 p_abandonment after each rank

---
 rankeval/metrics/pfound.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rankeval/metrics/pfound.py b/rankeval/metrics/pfound.py
index b7c4b4e..781e74e 100644
--- a/rankeval/metrics/pfound.py
+++ b/rankeval/metrics/pfound.py
@@ -105,7 +105,8 @@ class Pfound(Metric):
 
         for i, idx in enumerate(idx_y_pred_sorted):
             utility = (pow(2., y[idx]) - 1.) / pow(2., max_grade)
-            pfound += prob_step_down * utility * pow(self.p_abandonment, i)
+            pfound += prob_step_down * utility * \
+                pow(1. - self.p_abandonment, i)
             prob_step_down *= (1. - utility)
 
         return pfound
-- 
2.43.0


From 2f5d32b9baa66cb944e89a97e3cb20a4de1ab00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:40 +0000
Subject: [PATCH 03/45] fix: Kendalltau no longer passes an argument scipy
 removed

---
 rankeval/metrics/kendall_tau.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/rankeval/metrics/kendall_tau.py b/rankeval/metrics/kendall_tau.py
index 07197f1..4fec03b 100644
--- a/rankeval/metrics/kendall_tau.py
+++ b/rankeval/metrics/kendall_tau.py
@@ -69,12 +69,6 @@ class Kendalltau(Metric):
         pairs, T the number of ties only in x, and U the number of ties only
         in y. If a tie occurs for the same pair in both x and y, it is not
         added to either T or U.
-        s
-        Whether to use lexsort or quicksort as the sorting method for the
-        initial sort of the inputs.  Default is lexsort (True), for which
-        kendalltau is of complexity O(n log(n)). If False, the complexity
-        is O(n^2), but with a smaller pre-factor (so quicksort may be faster
-        for small arrays).
 
         Parameters
         ----------
@@ -90,7 +84,7 @@ class Kendalltau(Metric):
         kendalltau: float
             The Kendall tau per query.
         """
-        kendall_tau = stats.kendalltau(y, y_pred, initial_lexsort=True)
+        kendall_tau = stats.kendalltau(y, y_pred)
         return kendall_tau.correlation
 
 
-- 
2.43.0


From e0e80400235f9a9960cc1420b34892e281d0bbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:40 +0000
Subject: [PATCH 04/45] fix: MSE stores per-query scores by query position, not
 by query id

---
 rankeval/metrics/mse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rankeval/metrics/mse.py b/rankeval/metrics/mse.py
index 2cc4f04..7f941ad 100644
--- a/rankeval/metrics/mse.py
+++ b/rankeval/metrics/mse.py
@@ -58,8 +58,9 @@ class MSE(Metric):
 
         self.detailed_scores = np.zeros(dataset.n_queries, dtype=np.float32)
 
-        for qid, q_y, q_y_pred in self.query_iterator(dataset, y_pred):
-            self.detailed_scores[qid] = \
+        for rel_qid, (qid, q_y, q_y_pred) in enumerate(
+                self.query_iterator(dataset, y_pred)):
+            self.detailed_scores[rel_qid] = \
                 self.eval_per_query(q_y, q_y_pred) / dataset.n_instances
         return self.detailed_scores.sum(), self.detailed_scores
 
-- 
2.43.0


From 5fbd5e3f2198ecdbb524ddec68114a699a8daad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:40 +0000
Subject: [PATCH 05/45] fix: RMSE of a query is the root of the mean, not of
 the sum, of its squared errors

---
 rankeval/metrics/rmse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rankeval/metrics/rmse.py b/rankeval/metrics/rmse.py
index ff596f0..3495cf6 100644
--- a/rankeval/metrics/rmse.py
+++ b/rankeval/metrics/rmse.py
@@ -77,8 +77,11 @@ class RMSE(Metric):
         rmse: float
             Represents the RMSE score for one query.
         """
-        mse = self._mse.eval_per_query(y, y_pred)
-        return np.sqrt(mse)
+        n_docs = y.size
+        if self.cutoff is not None:
+            n_docs = min(n_docs, self.cutoff)
+        squared_error = self._mse.eval_per_query(y, y_pred)
+        return np.sqrt(squared_error / n_docs)
 
     def __str__(self):
         s = self.name
-- 
2.43.0


From e8ce868864641f8c4545bba9a8c4f8b5575bd16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:12 +0000
Subject: [PATCH 06/45] fix: NDCG.eval_per_query no longer uses the ideal score
 cached by an earlier eval

---
 rankeval/metrics/ndcg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rankeval/metrics/ndcg.py b/rankeval/metrics/ndcg.py
index 1f5771d..019c78e 100644
--- a/rankeval/metrics/ndcg.py
+++ b/rankeval/metrics/ndcg.py
@@ -94,7 +94,11 @@ class NDCG(Metric):
 
             self._cache_idcg_score[self._current_dataset] = idcg_score
 
-        return super(self.__class__, self).eval(dataset, y_pred)
+        try:
+            return super(self.__class__, self).eval(dataset, y_pred)
+        finally:
+            # the cached ideal scores are valid only within this evaluation
+            self._current_rel_qid = None
 
     def eval_per_query(self, y, y_pred):
         """
-- 
2.43.0


From 513e9441f2e9a0aab2c1950aa0c75b564c54097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:12 +0000
Subject: [PATCH 07/45] fix: dataset equality and hash include the query
 grouping and any array layout or size

---
 rankeval/dataset/dataset.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index c2a154a..4aa7ff3 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -409,17 +409,19 @@ class Dataset(object):
         if self._hash_cached is None:
 
             h = hashlib.md5()
-            for arr in [self.X, self.y, self.query_ids]:
-                h.update(arr)
+            for arr in [self.X, self.y, self.query_ids, self.query_offsets]:
+                h.update(np.ascontiguousarray(arr))
             self._hash_cached = int(h.hexdigest(), 16)
 
         return self._hash_cached
 
     def __eq__(self, other):
-        # use != instead of == because it is more efficient for sparse matrices:
-        x_eq = not(self.X != other.X).any()
-        return x_eq and (self.y == other.y).all() and \
-               (self.query_ids == other.query_ids).all()
+        if not isinstance(other, Dataset):
+            return NotImplemented
+        return np.array_equal(self.X, other.X) and \
+            np.array_equal(self.y, other.y) and \
+            np.array_equal(self.query_ids, other.query_ids) and \
+            np.array_equal(self.query_offsets, other.query_offsets)
 
     def __ne__(self, other):
         # Not strictly necessary, but to avoid having both x==y and x!=y
-- 
2.43.0


From eb6e0ab47bb1cef45cfca28e4c4d39963574cc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:12 +0000
Subject: [PATCH 08/45] fix: get_query_offsets raises LookupError for a missing
 query

---
 rankeval/dataset/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 4aa7ff3..fe1735b 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -316,8 +316,8 @@ class Dataset(object):
         """
         idx = np.where(self.query_ids == query_id)[0]
         if idx.size == 0:
-            raise LookupError("query_id {:d} is missing from the dataset") \
-                .format(query_id)
+            raise LookupError(
+                "query_id {:d} is missing from the dataset".format(query_id))
         # Take first element
         idx = idx[0]
         return self.query_offsets[idx], self.query_offsets[idx + 1]
-- 
2.43.0


From 628a3de816c536e691dfe328f9557cc37484e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:12 +0000
Subject: [PATCH 09/45] fix: Dataset.split puts every query in exactly one
 part, also when the test part is empty or ids are negative

---
 rankeval/dataset/dataset.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index fe1735b..508723c 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -193,17 +193,14 @@ class Dataset(object):
             of each fold, without creating the dataset.
         """
 
-        if train_size < 0 or train_size > 1 or (train_size + vali_size) > 1:
+        if train_size < 0 or train_size > 1 or vali_size < 0 or \
+                (train_size + vali_size) > 1:
             raise Exception("train and/or validation sizes are not correct!")
 
         train_qn = int(round(train_size * self.n_queries))
         vali_qn = int(round(vali_size * self.n_queries))
-        test_qn = self.n_queries - train_qn - vali_qn
 
-        qid_map = np.ndarray(self.n_instances, dtype=np.uint32)
-        for qid, start_offset, end_offset in self.query_iterator():
-            for idx in np.arange(start_offset, end_offset):
-                qid_map[idx] = qid
+        qid_map = self.get_qids_dataset()
 
         # add queries shuffling
         rng = Dataset._check_random_state(random_state)
@@ -211,7 +208,7 @@ class Dataset(object):
 
         train_qid = qids_permutation[:train_qn]
         vali_qid = qids_permutation[train_qn:train_qn + vali_qn]
-        test_qid = qids_permutation[-test_qn:]
+        test_qid = qids_permutation[train_qn + vali_qn:]
 
         train_mask = np.in1d(qid_map, train_qid)
         vali_mask = np.in1d(qid_map, vali_qid)
-- 
2.43.0


From 31169d0129c85fefbe0c27a56140369792ab736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:06 +0000
Subject: [PATCH 10/45] fix: export_scikit_model reads the initial estimate of
 current scikit-learn models

---
 rankeval/model/proxy_ScikitLearn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 990a09c..345392f 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -178,7 +178,9 @@ class ProxyScikitLearn(object):
 
         if not hasattr(model, 'init_'):
             raise TypeError("Base score missing!")
-        if hasattr(model.init_, "quantile"):
+        if hasattr(model.init_, "constant_"):
+            base_score = np.ravel(model.init_.constant_)[0]
+        elif hasattr(model.init_, "quantile"):
             base_score = model.init_.quantile
         elif hasattr(model.init_, "mean"):
             base_score = model.init_.mean
-- 
2.43.0


From 9038dc143b5aa0e76e0f9bb272db700c0d11383b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:06 +0000
Subject: [PATCH 11/45] fix: export_scikit_model writes thresholds, base score
 and learning rate with full precision

---
 rankeval/model/proxy_ScikitLearn.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rankeval/model/proxy_ScikitLearn.py b/rankeval/model/proxy_ScikitLearn.py
index 345392f..dd50264 100644
--- a/rankeval/model/proxy_ScikitLearn.py
+++ b/rankeval/model/proxy_ScikitLearn.py
@@ -191,8 +191,8 @@ class ProxyScikitLearn(object):
         with open(file_path, 'w') as writer:
             if not hasattr(model, 'init_'):
                 raise TypeError("Base score missing!")
-            writer.write("base_score=%f\n" % base_score)
-            writer.write("learning_rate=%f\n" % model.learning_rate)
+            writer.write("base_score=%.17g\n" % base_score)
+            writer.write("learning_rate=%.17g\n" % model.learning_rate)
             for tree_id, tree in enumerate(model.estimators_.flatten()):
                 ProxyScikitLearn._export_tree(writer, tree, tree_id)
 
@@ -213,7 +213,7 @@ class ProxyScikitLearn(object):
             if tree_.feature[node] != _tree.TREE_UNDEFINED:
                 name = "f%d" % tree_.feature[node]
                 threshold = tree_.threshold[node]
-                writer.write("%s%d:[%s<=%f]\n" % (indent, node, name, threshold))
+                writer.write("%s%d:[%s<=%.17g]\n" % (indent, node, name, threshold))
                 recurse(tree_.children_left[node], depth + 1)
                 # print "%s%d:[%s>%f]" % (indent, node, name, threshold)
                 recurse(tree_.children_right[node], depth + 1)
-- 
2.43.0


From 2b2dcea1035e48a48050694d9288c99d34e77a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:59 +0000
Subject: [PATCH 12/45] fix: XGBoost proxy turns < t into <= the next lower
 float also for |t| >= 2^24

---
 rankeval/model/proxy_XGBoost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/model/proxy_XGBoost.py b/rankeval/model/proxy_XGBoost.py
index be9d5fb..38a020c 100644
--- a/rankeval/model/proxy_XGBoost.py
+++ b/rankeval/model/proxy_XGBoost.py
@@ -93,7 +93,7 @@ class ProxyXGBoost(object):
                     # Needed because XGBoost use as split condition
                     # < in place of <=
                     threshold = np.nextafter(
-                        threshold, threshold - 1,
+                        threshold, -np.inf,
                         dtype=model.trees_nodes_value.dtype)
 
                     model.trees_nodes_feature[node_id] = feature_id
-- 
2.43.0


From 03114f75c3320e3949f52df3b2b8c28587e0cf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:22 +0000
Subject: [PATCH 13/45] fix: CatBoost proxy loads ensembles whose trees have
 different depths

---
 rankeval/model/proxy_CatBoost.py | 38 +++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/rankeval/model/proxy_CatBoost.py b/rankeval/model/proxy_CatBoost.py
index 4642f57..16e3af8 100644
--- a/rankeval/model/proxy_CatBoost.py
+++ b/rankeval/model/proxy_CatBoost.py
@@ -67,14 +67,17 @@ class ProxyCatBoost(object):
         # given the shape and size of the ensemble
         model.initialize(n_trees, n_nodes)
 
-        n_nodes_per_tree = int(n_nodes / n_trees)
+        # trees can have a different depth, thus a different number of nodes
+        n_nodes_trees = ProxyCatBoost._count_nodes_per_tree(coreml_model)
+        tree_offsets = np.cumsum(n_nodes_trees) - n_nodes_trees
 
         nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
         behaviors = coremltools.proto.TreeEnsemble_pb2.TreeEnsembleParameters.\
             TreeNode.TreeNodeBehavior
 
         for node in nodes:
-            tree_offset = node.treeId * n_nodes_per_tree
+            n_nodes_per_tree = int(n_nodes_trees[node.treeId])
+            tree_offset = int(tree_offsets[node.treeId])
             node_id_remap = ProxyCatBoost.remap_nodeId(node.nodeId,
                                                        n_nodes_per_tree)
             node_id_off = node_id_remap + tree_offset
@@ -148,15 +151,34 @@ class ProxyCatBoost(object):
             in the model identified by file_path.
         """
 
+        n_nodes_trees = ProxyCatBoost._count_nodes_per_tree(coreml_model)
+
+        return len(n_nodes_trees), np.sum(n_nodes_trees)
+
+    @staticmethod
+    def _count_nodes_per_tree(coreml_model):
+        """
+        Count the number of nodes (both split and leaf nodes) of each tree
+        of the CoreML model.
+
+        Parameters
+        ----------
+        coreml_model : CoreML model
+            The CoreML model to load from
+
+        Returns
+        -------
+        n_nodes_trees : numpy array of int
+            The number of nodes of each tree.
+        """
+
         nodes = coreml_model.get_spec().treeEnsembleRegressor.treeEnsemble.nodes
 
         n_trees = np.max([node.treeId for node in nodes]) + 1
 
-        n_nodes_trees = np.empty(n_trees, dtype=np.uint16)
+        n_nodes_trees = np.zeros(n_trees, dtype=np.int64)
         for node in nodes:
-            n_nodes_trees[node.treeId] = node.nodeId
-
-        # node_Id starts from 0, thus + 1
-        n_nodes = np.sum(n_nodes_trees + 1)
+            # node_Id starts from 0, thus + 1
+            n_nodes_trees[node.treeId] = node.nodeId + 1
 
-        return n_trees, n_nodes
\ No newline at end of file
+        return n_nodes_trees
-- 
2.43.0


From 2889805d76033ccabe12621a910726491b162c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:46 +0000
Subject: [PATCH 14/45] fix: Scorer.get_predicted_leaves returns the leaves
 instead of raising AttributeError

---
 rankeval/scoring/scorer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/scoring/scorer.py b/rankeval/scoring/scorer.py
index 8952b14..702f30a 100644
--- a/rankeval/scoring/scorer.py
+++ b/rankeval/scoring/scorer.py
@@ -139,7 +139,7 @@ class Scorer(object):
             each dataset instance.
 
         """
-        if self.self.y_leaves is None:
+        if self.out_leaves is None:
             self.score(detailed=True)
-        return self.self.y_leaves
+        return self.out_leaves
 
-- 
2.43.0


From d9751783b1edce5f6482117f6c1eac4ca792a8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:34 +0000
Subject: [PATCH 15/45] fix: tree_wise_performance accepts a step larger than
 the number of trees

---
 rankeval/analysis/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 836a2cd..a5f2bfb 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -115,7 +115,7 @@ def tree_wise_performance(datasets, models, metrics, step=10, cache=False):
     def get_tree_steps(model_trees):
         trees = list(xrange(step-1, model_trees, step))
         # Add last tree to the steps
-        if trees[-1] != model_trees-1:
+        if not trees or trees[-1] != model_trees-1:
             trees.append(model_trees-1)
         return np.array(trees)
 
-- 
2.43.0


From 5829fdbf92258292534d4daa65162b9de4cd09e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:33 +0000
Subject: [PATCH 16/45] fix: distribution analyses label each bin with its
 upper end for any range

---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index a5f2bfb..f4caef6 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -307,7 +307,7 @@ def query_wise_performance(datasets, models, metrics, bins=None,
     performance = xr.DataArray(data,
                                name='Query-Wise Performance',
                                coords=[datasets, models, metrics,
-                                       bin_values[:-1] + 1.0 / bins],
+                                       bin_values[1:]],
                                dims=['dataset', 'model', 'metric', 'bin'])
     return performance
 
@@ -473,7 +473,7 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
     performance = xr.DataArray(data,
                                name='Document Graded Relevance',
                                coords=[datasets, models, rel_labels,
-                                       bin_values[:-1] + 1.0 / bins],
+                                       bin_values[1:]],
                                dims=['dataset', 'model', 'label', 'bin'])
     return performance
 
-- 
2.43.0


From c12e17994570ca32c647041b8621b9372ec008d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:33 +0000
Subject: [PATCH 17/45] fix: query_class_performance accepts lists of class
 names

---
 rankeval/analysis/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index f4caef6..f64887d 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -373,7 +373,7 @@ def query_class_performance(datasets, models, metrics, query_classes,
         for idx_model, model in enumerate(models):
             for idx_metric, metric in enumerate(metrics):
                 for idx_query_class, query_class in enumerate(unique_classes):
-                    indices = np.where(query_classes[idx_dataset] == query_class)
+                    indices = np.where(np.asarray(query_classes[idx_dataset]) == query_class)
                     # If this query class is not present in this dataset, skip it
                     if not len(indices):
                         continue
-- 
2.43.0


From 13e122e0ececa72f9e0e67884b56cc7ce93e2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:34 +0000
Subject: [PATCH 18/45] fix: label analyses accept datasets of different sizes

---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index f64887d..67e7bd8 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -450,7 +450,7 @@ def document_graded_relevance(datasets, models, bins=100, start=None, end=None,
 
     bin_values = np.linspace(start=start, stop=end, num=bins+1)
 
-    rel_labels = np.sort(np.unique([dataset.y for dataset in datasets]))
+    rel_labels = np.sort(np.unique(np.concatenate([dataset.y for dataset in datasets])))
 
     data = np.full(shape=(len(datasets), len(models), len(rel_labels), bins),
                    fill_value=np.nan, dtype=np.float32)
@@ -509,7 +509,7 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
         documents with a predicted score smaller than documents with label l_j
     """
 
-    rel_labels = np.sort(np.unique([dataset.y for dataset in datasets])).astype(np.int32)
+    rel_labels = np.sort(np.unique(np.concatenate([dataset.y for dataset in datasets]))).astype(np.int32)
 
     data = np.zeros(shape=(len(datasets), len(models), len(rel_labels),
                            len(rel_labels)), dtype=np.int32)
-- 
2.43.0


From 075bc76061effbcc7d4381b44c81470efd690fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:34 +0000
Subject: [PATCH 19/45] fix: rank_confusion_matrix counts pairs of distinct
 documents, for any set of labels

---
 rankeval/analysis/effectiveness.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 67e7bd8..eab576f 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -519,12 +519,12 @@ def rank_confusion_matrix(datasets, models, skip_same_label=False, cache=False):
             y_pred = model.score(dataset, detailed=False, cache=cache)
             for query_id, start_offset, end_offset in dataset.query_iterator():
                 for i in np.arange(start_offset, end_offset):
-                    for j in np.arange(i, end_offset):
+                    for j in np.arange(i + 1, end_offset):
                         # check if the two documents have the same label and skip them
                         if skip_same_label and dataset.y[i] == dataset.y[j]:
                             continue
-                        y_i = dataset.y[i].astype(np.int32)
-                        y_j = dataset.y[j].astype(np.int32)
+                        y_i = np.searchsorted(rel_labels, dataset.y[i])
+                        y_j = np.searchsorted(rel_labels, dataset.y[j])
                         if y_pred[i] < y_pred[j]:
                             data[idx_dataset][idx_model][y_i, y_j] += 1
                         else:
-- 
2.43.0


From 42baacb6137813da64dafdc5ba978cc43a3b19de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:40 +0000
Subject: [PATCH 20/45] fix: k-fold scoring works outside notebooks and with
 current numpy

---
 rankeval/analysis/statistical.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rankeval/analysis/statistical.py b/rankeval/analysis/statistical.py
index 87c2693..7ca8f8e 100644
--- a/rankeval/analysis/statistical.py
+++ b/rankeval/analysis/statistical.py
@@ -214,7 +214,7 @@ def _kfold_scoring(dataset, k, algo):
         # p-th fold is used for testing
         test_rows = np.full(dataset.n_instances,
                             fill_value=False,
-                            dtype=np.bool)
+                            dtype=bool)
         for q in shuffled_qid[p: p + chunk_query_size]:
             test_rows[dataset.query_offsets[q]:dataset.query_offsets[q+1]] = True
         # other folds are used for training
@@ -222,7 +222,7 @@ def _kfold_scoring(dataset, k, algo):
 
         train_q = np.full(dataset.n_queries,
                           fill_value=True,
-                          dtype=np.bool)
+                          dtype=bool)
         train_q[shuffled_qid[p: p+chunk_query_size]] = False
 
         # get algorithm predictions
@@ -235,9 +235,10 @@ def _kfold_scoring(dataset, k, algo):
         # update scores for the current fold
         scores[test_rows] = fold_scores
         
-    progress_bar.bar_style = "success"
-    progress_bar.close()
-        
+    if ipywidgets:
+        progress_bar.bar_style = "success"
+        progress_bar.close()
+
     return scores
 
 
-- 
2.43.0


From 169bb6189a18cc615b03c53856bfe1a244d14b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:48 +0000
Subject: [PATCH 21/45] fix: a tree made of a single leaf adds no split to the
 feature importance

---
 rankeval/analysis/feature.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 3472958..95d5463 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -139,7 +139,10 @@ def _feature_importance_tree(model, dataset, tree_id, y_pred, metric,
 
     # queue with node_id to be visited and list of documents in the node
     root_node_id = model.trees_root[tree_id]
-    deq = deque([(root_node_id, 0, None)])
+    deq = deque()
+    # a tree made of a single leaf has no split to evaluate
+    if not model.is_leaf_node(root_node_id):
+        deq.append((root_node_id, 0, None))
 
     # we score the tree on a level basis, so that the feature_gain of each split
     # node is computed accordingly to the predictions of the parent level
-- 
2.43.0


From a8d66a5dc8285aaf572c8c698d01d95adc820414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:14 +0000
Subject: [PATCH 22/45] fix: SVMlight rows without features that precede the
 first feature keep their cells

---
 rankeval/dataset/_svmlight_format.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index cc5583d..6719650 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -307,6 +307,9 @@ void parse_line(const std::string &line,
   // it means we have to reshape the dataset to include new columns...
   if (max_feature > 0 && (next_feature - 1) > max_feature) {
     reshape_data(data, max_feature, next_feature - 1);
+  } else if (max_feature == 0) {
+    // the rows read since here have no features at all: add their zeros
+    data.insert(data.begin(), (labels.size() - 1) * (next_feature - 1), 0);
   }
 
   max_feature = std::max(next_feature - 1, max_feature);
-- 
2.43.0


From 08a509db864d45d35f0d162378fa68aff44b0471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:00 +0000
Subject: [PATCH 23/45] fix: dumping a single sample in SVMlight format keeps
 its query id

---
 rankeval/dataset/_svmlight_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 6719650..c24eca7 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -397,7 +397,7 @@ static PyObject *dump_svmlight_file(PyObject *self, PyObject *args)
 
     int n_samples = PyArray_DIM(data_array, 0);
     int n_features = PyArray_DIM(data_array, 1);
-    int n_queries = PyArray_DIM(qids_array, 0) - 1;
+    int n_queries = PyArray_DIM(qids_array, 0);
 
     float *data   = (float*) data_array->data;
     float *y      = (float*) label_array->data;
-- 
2.43.0


From 76a4b1b34db4cfbe8288871369a7880d6b4aef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:00 +0000
Subject: [PATCH 24/45] fix: dumping a Fortran-ordered matrix in SVMlight
 format writes its rows

---
 rankeval/dataset/svmlight_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/svmlight_format.py b/rankeval/dataset/svmlight_format.py
index 8e073ba..4bc44f3 100644
--- a/rankeval/dataset/svmlight_format.py
+++ b/rankeval/dataset/svmlight_format.py
@@ -189,7 +189,7 @@ def dump_svmlight_file(X, y, f, query_id=None, zero_based=False):
         Whether column indices should be written zero-based (True) or one-based
         (False). Default is False.
     """
-    X = np.array(X, dtype=np.float32)
+    X = np.array(X, dtype=np.float32, order="C")
     y = np.array(y, dtype=np.float32)
     if query_id is None:
         query_id = np.ndarray(0, dtype=np.int32)
-- 
2.43.0


From ccd8e1bea67bd9608f344ba214587e78fbd31073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:25 +0000
Subject: [PATCH 25/45] fix: an SVMlight stream whose readline fails or returns
 text raises instead of crashing

---
 rankeval/dataset/_svmlight_format.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index c24eca7..051e961 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -116,6 +116,11 @@ PyTypeObject &vector_owner_type(int typenum)
  * Parsing.
  */
 
+/*
+ * Thrown when the Python error indicator is already set.
+ */
+class PythonError {};
+
 class SyntaxError : public std::runtime_error {
 public:
   SyntaxError(std::string const &msg)
@@ -328,6 +333,14 @@ void parse_file(PyObject *pystream,
   std::string line;
   while (true) {
     PyObject* py_line = PyFile_GetLine(pystream, 0);
+    if (!py_line)
+        throw PythonError();
+    if (!PyBytes_Check(py_line)) {
+        Py_DECREF(py_line);
+        PyErr_SetString(PyExc_TypeError,
+                        "the file must be opened in binary mode");
+        throw PythonError();
+    }
     line = std::string(PyBytes_AS_STRING(py_line));
     if (line.empty())
         break;
@@ -355,6 +368,8 @@ static PyObject *load_svmlight_file(PyObject *self, PyObject *args)
     parse_file(pystream, data, labels, qids);
     return to_dense(data, labels, qids);
 
+  } catch (PythonError const &e) {
+    return 0;
   } catch (SyntaxError const &e) {
     PyErr_SetString(PyExc_ValueError, e.what());
     return 0;
-- 
2.43.0


From c22e9cb3f31d4396a29e1b8166e7ac1f116cb4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:25 +0000
Subject: [PATCH 26/45] fix: the SVMlight loader releases the lines it has read

---
 rankeval/dataset/_svmlight_format.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 051e961..6c6b7dc 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -342,6 +342,7 @@ void parse_file(PyObject *pystream,
         throw PythonError();
     }
     line = std::string(PyBytes_AS_STRING(py_line));
+    Py_DECREF(py_line);
     if (line.empty())
         break;
     lineno++;	  
-- 
2.43.0


From 57e9d258c638a0d57e9ac04cecfe0e3a709d2184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:25 +0000
Subject: [PATCH 27/45] fix: an SVMlight file with query ids for some samples
 only is refused

---
 rankeval/dataset/_svmlight_format.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rankeval/dataset/_svmlight_format.cpp b/rankeval/dataset/_svmlight_format.cpp
index 6c6b7dc..65aed0d 100644
--- a/rankeval/dataset/_svmlight_format.cpp
+++ b/rankeval/dataset/_svmlight_format.cpp
@@ -284,6 +284,11 @@ void parse_line(const std::string &line,
     qids.push_back(idx);
   }
 
+  if (!qids.empty() && qids.size() != labels.size()) {
+  	throw std::invalid_argument( "qid given for some samples only, lineno " +
+  	                              std::to_string(lineno) );
+  }
+
   while (true) {
     if (!reuse_line && !(in >> token))
         break;
-- 
2.43.0


From 81bc132b5769fa3579640dc4fbbfc4d714c47d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:41 +0000
Subject: [PATCH 28/45] fix: squared-error feature importance of a single-leaf
 tree writes no counter outside its array

---
 rankeval/analysis/_efficient_feature_impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index 4c733b9..3d34af9 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -87,7 +87,10 @@ void c_feature_importance_tree(
         y_pred_tree[instance] = mean_y_target;
 
     TreeNode root(trees_root[tree_id], 0, n_instances - 1);
-    std::vector<TreeNode> queue = { root };
+    std::vector<TreeNode> queue;
+    // a tree made of a single leaf has no split to evaluate
+    if (!is_leaf_node(root.node_id, trees_left_child, trees_right_child))
+        queue.push_back(root);
 
     while (!queue.empty()) {
 
-- 
2.43.0


From 9b53f64ccf15a092dcfa7292039c95e0df75d83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:41 +0000
Subject: [PATCH 29/45] fix: squared-error feature importance of a split that
 sends every document right

---
 rankeval/analysis/_efficient_feature_impl.cpp |  2 +-
 rankeval/analysis/_efficient_feature_impl.h   | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature_impl.cpp b/rankeval/analysis/_efficient_feature_impl.cpp
index 3d34af9..21865b7 100644
--- a/rankeval/analysis/_efficient_feature_impl.cpp
+++ b/rankeval/analysis/_efficient_feature_impl.cpp
@@ -132,7 +132,7 @@ void c_feature_importance_tree(
         // compute split gain
         float delta_mse = 0;
         #pragma omp parallel for reduction( + : delta_mse )
-        for (unsigned int i = node.start_id; i <= node.end_id; ++i) {
+        for (int i = node.start_id; i <= node.end_id; ++i) {
             unsigned int instance = split_instance[i];
             float pre_split_mse =
                 pow(y_target[instance] - y_pred_tree[instance], 2);
diff --git a/rankeval/analysis/_efficient_feature_impl.h b/rankeval/analysis/_efficient_feature_impl.h
index 9b78b1a..9f0fd5c 100644
--- a/rankeval/analysis/_efficient_feature_impl.h
+++ b/rankeval/analysis/_efficient_feature_impl.h
@@ -1,12 +1,12 @@
 class TreeNode {
     public:
-        unsigned int node_id;
-        unsigned int start_id;
-        unsigned int end_id;
+        int node_id;
+        int start_id;
+        int end_id;
 
-        TreeNode(unsigned int node_id,
-                 unsigned int start_id,
-                 unsigned int end_id) :
+        TreeNode(int node_id,
+                 int start_id,
+                 int end_id) :
             node_id(node_id),
             start_id(start_id),
             end_id(end_id) {}
-- 
2.43.0


From 265720a3aada26bcdee2cb5b0436247e217b1377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:41 +0000
Subject: [PATCH 30/45] fix: squared-error feature importance of a feature
 matrix in any memory layout and number type

---
 rankeval/analysis/_efficient_feature.pyx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rankeval/analysis/_efficient_feature.pyx b/rankeval/analysis/_efficient_feature.pyx
index 2e3e2c8..f4f4104 100644
--- a/rankeval/analysis/_efficient_feature.pyx
+++ b/rankeval/analysis/_efficient_feature.pyx
@@ -60,9 +60,13 @@ def eff_feature_importance(model, dataset):
     # initialize features importance
     feature_count = np.zeros(dataset.n_features, dtype=np.uint16)
 
+    # the C++ code walks plain row-major single-precision buffers
+    X = np.ascontiguousarray(dataset.X, dtype=np.float32)
+    y = np.ascontiguousarray(dataset.y, dtype=np.float32)
+
     c_feature_importance(
-        <float*> np.PyArray_DATA(dataset.X),
-        <float*> np.PyArray_DATA(dataset.y),
+        <float*> np.PyArray_DATA(X),
+        <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
         <short*> np.PyArray_DATA(model.trees_nodes_feature),
@@ -85,9 +89,13 @@ def eff_feature_importance_tree(model, dataset, tree_id, y_pred,
 
     y_pred_tree = np.zeros(dataset.n_instances, dtype=np.float32);
 
+    # the C++ code walks plain row-major single-precision buffers
+    X = np.ascontiguousarray(dataset.X, dtype=np.float32)
+    y = np.ascontiguousarray(dataset.y, dtype=np.float32)
+
     c_feature_importance_tree(
-        <float*> np.PyArray_DATA(dataset.X),
-        <float*> np.PyArray_DATA(dataset.y),
+        <float*> np.PyArray_DATA(X),
+        <float*> np.PyArray_DATA(y),
         <int*> np.PyArray_DATA(model.trees_root),
         <float*> np.PyArray_DATA(model.trees_weight),
         <short*> np.PyArray_DATA(model.trees_nodes_feature),
-- 
2.43.0


From f53c73f660da9c9b30fdd8f386f57e547e37d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:41 +0000
Subject: [PATCH 31/45] fix: RMSE feature importance takes the root for every
 feature, not only the first

---
 rankeval/analysis/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/feature.py b/rankeval/analysis/feature.py
index 95d5463..c14b71f 100644
--- a/rankeval/analysis/feature.py
+++ b/rankeval/analysis/feature.py
@@ -64,7 +64,7 @@ def feature_importance(model, dataset, metric=None, normalize=True):
     if isinstance(metric, RMSE) or isinstance(metric, MSE):
         feature_imp, feature_count = eff_feature_importance(model, dataset)
         if isinstance(metric, RMSE):
-            feature_imp[0] = np.sqrt(feature_imp[0])
+            feature_imp = np.sqrt(np.maximum(feature_imp, 0))
     else:
         # initialize features importance
         feature_imp = np.zeros(dataset.n_features, dtype=np.float32)
-- 
2.43.0


From 78bd9a3d6ee4673a48cdb3bf92997a2c5e934404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 32/45] fix: the catalogue entry of istella-full names no
 validation file instead of a file called None

---
 rankeval/dataset/write_json_dataset_catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/dataset/write_json_dataset_catalogue.py b/rankeval/dataset/write_json_dataset_catalogue.py
index 3920662..66d735a 100644
--- a/rankeval/dataset/write_json_dataset_catalogue.py
+++ b/rankeval/dataset/write_json_dataset_catalogue.py
@@ -17,7 +17,7 @@ output_file = "dataset_dictionary.json"
 def __add_istella_full__(data):
     item = {'TRAIN_FILE': 'full/train.txt',
             'TEST_FILE': 'full/test.txt',
-            'VALIDATION_FILE': 'None',
+            'VALIDATION_FILE': None,
             'LICENSE_FILE': 'istella-letor-LA.txt',
             'DATASET_ARCHIVE_NAME': 'istella-letor.tar.gz',
             'MODELS_ARCHIVE_NAME': 'istella-letor-models.tar.gz',
-- 
2.43.0


From 667086aa7002c317f4f1a742472b7860b61e9107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:08 +0000
Subject: [PATCH 33/45] fix: without download_if_missing nothing is downloaded,
 also when only the models are missing

---
 rankeval/dataset/datasets_fetcher.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index fc1444e..ad03d1c 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -81,8 +81,11 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
     models_home = os.path.join(data_home, "models")
 
     # DATASET
-    if not download_if_missing and not os.path.exists(data_home):
-        raise IOError('dataset not found')
+    if not download_if_missing:
+        if not os.path.exists(dataset_home):
+            raise IOError('dataset not found')
+        if with_models and not os.path.exists(models_home):
+            raise IOError('models not found')
 
     if (fold is not None) and (dataset_dictionary.get('COMMON_SUBFOLDER_NAME') is None):
         raise Exception('no k-fold available for the dataset')
-- 
2.43.0


From 20feeff716326b4a9247de3cff8c4800010cab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:08 +0000
Subject: [PATCH 34/45] fix: a failed or interrupted download of a dataset is
 not mistaken for available data

---
 rankeval/dataset/datasets_fetcher.py | 51 ++++++++++++++++------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index ad03d1c..536e992 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -50,6 +50,29 @@ def __get_data_home__(data_home=None):
     return data_home
 
 
+def __download_archive__(url, archive_name, target_dir):
+    """
+    Download an archive and decompress it in the given folder. The folder takes
+    its name only once it is complete, so that a failed or interrupted download
+    is not mistaken for available data by the next call.
+    """
+    partial_dir = target_dir + ".partial"
+    if os.path.exists(partial_dir):
+        shutil.rmtree(partial_dir)
+    os.makedirs(partial_dir)
+
+    archive_path = os.path.join(partial_dir, archive_name)
+    opener = urlopen(url)
+    with open(archive_path, 'wb') as f:
+        f.write(opener.read())
+
+    print ("Decompressing %s" % archive_path)
+    with tarfile.open(archive_path, "r:gz") as archive:
+        archive.extractall(path=partial_dir)
+    os.remove(archive_path)
+    os.rename(partial_dir, target_dir)
+
+
 def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
                                  download_if_missing=True, force_download=True,
                                  with_models=True):
@@ -97,9 +120,6 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
             os.makedirs(data_home)
 
     # preparing file names...
-    archive_name = os.path.join(dataset_home, dataset_dictionary['DATASET_ARCHIVE_NAME'])
-    models_archive_name = os.path.join(models_home, dataset_dictionary['MODELS_ARCHIVE_NAME'])
-
     if fold is None:
         train_file_path = os.path.join(dataset_home, dataset_dictionary['TRAIN_FILE'])
         test_file_path = os.path.join(dataset_home, dataset_dictionary['TEST_FILE'])
@@ -121,19 +141,13 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
         dataset_already_downloaded = True
 
     if not dataset_already_downloaded:
-        os.makedirs(dataset_home)
-
         print ("Downloading dataset. This may take a few minutes.")
 
         data_url = dataset_dictionary['DATASET_URL']
         print ("Downloading dataset from %s " % data_url)
-        opener = urlopen(data_url)
-        with open(archive_name, 'wb') as f:
-            f.write(opener.read())
-
-        print ("Decompressing %s" % archive_name)
-        tarfile.open(archive_name, "r:gz").extractall(path=dataset_home)
-        os.remove(archive_name)
+        __download_archive__(data_url,
+                             dataset_dictionary['DATASET_ARCHIVE_NAME'],
+                             dataset_home)
 
     license_agreement = ""
     if dataset_dictionary.get('LICENSE_FILE') is not None:
@@ -158,18 +172,11 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
             models_already_downloaded = True
 
         if not models_already_downloaded:
-            os.makedirs(models_home)
-
             models_url = dataset_dictionary['MODELS_URL']
             print ("Downloading letor models from %s" % models_url)
-            opener = urlopen(models_url)
-            with open(models_archive_name, 'wb') as f:
-                f.write(opener.read())
-
-            print ("Decompressing %s" % models_archive_name)
-            tarfile.open(models_archive_name, "r:gz").extractall(
-                path=models_home)
-            os.remove(models_archive_name)
+            __download_archive__(models_url,
+                                 dataset_dictionary['MODELS_ARCHIVE_NAME'],
+                                 models_home)
 
         # filling data structure to return
         matches = []
-- 
2.43.0


From 347c764a4d91784d56c6fc283a7c71b7b181f274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:08 +0000
Subject: [PATCH 35/45] fix: an interrupted forced download does not leave
 partly removed data behind

---
 rankeval/dataset/datasets_fetcher.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/datasets_fetcher.py b/rankeval/dataset/datasets_fetcher.py
index 536e992..76bcbc8 100644
--- a/rankeval/dataset/datasets_fetcher.py
+++ b/rankeval/dataset/datasets_fetcher.py
@@ -116,7 +116,13 @@ def __fetch_dataset_and_models__(dataset_dictionary, fold=None, data_home=None,
     # delete data_home if force_download is True, then re-create data_home dir
     if force_download:
         if os.path.exists(data_home):
-            shutil.rmtree(data_home)
+            # moved away at once: what an interrupted removal leaves behind
+            # must not look like available data
+            discarded = data_home + ".discarded"
+            if os.path.exists(discarded):
+                shutil.rmtree(discarded)
+            os.rename(data_home, discarded)
+            shutil.rmtree(discarded)
             os.makedirs(data_home)
 
     # preparing file names...
-- 
2.43.0


From 0d42e3a08037f1caadfee0343b938c6de256629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:18 +0000
Subject: [PATCH 36/45] fix: equal datasets hash equal whatever types store
 their values

---
 rankeval/dataset/dataset.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rankeval/dataset/dataset.py b/rankeval/dataset/dataset.py
index 508723c..ff5818d 100644
--- a/rankeval/dataset/dataset.py
+++ b/rankeval/dataset/dataset.py
@@ -406,7 +406,14 @@ class Dataset(object):
         if self._hash_cached is None:
 
             h = hashlib.md5()
-            for arr in [self.X, self.y, self.query_ids, self.query_offsets]:
+            # equal datasets have to hash equal: the digest depends neither on
+            # the type used to store the values nor on the sign of a zero
+            for arr, dtype in [(self.X, np.float32),
+                               (self.y, np.float32),
+                               (self.query_ids, np.int64),
+                               (self.query_offsets, np.int64)]:
+                if arr.dtype.kind in 'biuf':
+                    arr = arr.astype(dtype) + dtype(0)
                 h.update(np.ascontiguousarray(arr))
             self._hash_cached = int(h.hexdigest(), 16)
 
-- 
2.43.0


From a946cd578817d34f0f04b26a68686f77b8b6d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:09 +0000
Subject: [PATCH 37/45] fix: undefined metric scores no longer hide the range
 of query_wise_performance

---
 rankeval/analysis/effectiveness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index eab576f..217ed83 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -278,8 +278,8 @@ def query_wise_performance(datasets, models, metrics, bins=None,
             for idx_metric, metric in enumerate(metrics):
                 _, metric_scores = metric.eval(dataset, y_pred)
                 glob_metric_scores[idx_dataset][idx_model][idx_metric] = metric_scores
-                min_metric_score = np.nanmin([min_metric_score, metric_scores.min()])
-                max_metric_score = np.nanmax([max_metric_score, metric_scores.max()])
+                min_metric_score = np.nanmin(np.append(metric_scores, min_metric_score))
+                max_metric_score = np.nanmax(np.append(metric_scores, max_metric_score))
 
     if start is None:
         start = min_metric_score
-- 
2.43.0


From e8dfde49c63dbb85da3c9982cedbf473f19a8c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:09 +0000
Subject: [PATCH 38/45] fix: query_class_performance averages the queries on
 which the metric is defined, as Metric.eval does

---
 rankeval/analysis/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/analysis/effectiveness.py b/rankeval/analysis/effectiveness.py
index 217ed83..f3cb2df 100644
--- a/rankeval/analysis/effectiveness.py
+++ b/rankeval/analysis/effectiveness.py
@@ -379,7 +379,7 @@ def query_class_performance(datasets, models, metrics, query_classes,
                         continue
 
                     query_class_metric_scores[idx_dataset][idx_model][idx_metric][idx_query_class] = \
-                        glob_metric_scores[idx_dataset][idx_model][idx_metric][indices].mean()
+                        np.nanmean(glob_metric_scores[idx_dataset][idx_model][idx_metric][indices])
 
     performance = xr.DataArray(query_class_metric_scores,
                                name='Query Class Performance',
-- 
2.43.0


From c09cc27b5d1b8ba09cc114ec3c51fc178fa73996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:01 +0000
Subject: [PATCH 39/45] fix: bar plots accept undefined metric values

---
 rankeval/visualization/effectiveness.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 6a75563..1087435 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -103,7 +103,7 @@ def plot_model_performance(performance, compare="models", show_values=False):
         axes.set_title(performance.name + " for " + dataset.name)
         axes.yaxis.grid(True, zorder=0, ls="--")
         
-        y_max = np.ceil(performance.values.max()*1.4*10.)/10.
+        y_max = np.ceil(np.nan_to_num(performance.values).max()*1.4*10.)/10.
         axes.set_ylim([0, y_max])
         plt.tight_layout()
 
@@ -495,7 +495,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_ylabel("Metric Score")
                 axes[i, 0].set_xticks(ind - width/2. + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
-                y_max = np.ceil(performance.values.max()*1.4*10.)/10.
+                y_max = np.ceil(np.nan_to_num(performance.values).max()*1.4*10.)/10.
                 axes[i, 0].set_ylim([0, y_max])
 
             axes[i, 0].legend(performance.coords['metric'].values,
@@ -531,7 +531,7 @@ def plot_query_class_performance(performance, show_values=False, compare="models
                 axes[i, 0].set_ylabel(metric)
                 axes[i, 0].set_xticks(ind - width / 2 + max_width / 2.)
                 axes[i, 0].set_xticklabels(performance.coords['classes'].values)
-                y_max = np.ceil(performance.values.max()*1.4*10.)/10.
+                y_max = np.ceil(np.nan_to_num(performance.values).max()*1.4*10.)/10.
                 axes[i, 0].set_ylim([0, y_max])
 
             axes[i, 0].legend(performance.coords['model'].values,
-- 
2.43.0


From caab3507a3744eafb7f78d48c976499ce8ea7ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:01 +0000
Subject: [PATCH 40/45] fix: plot_tree_wise_performance draws a metric that is
 undefined everywhere without a marker

---
 rankeval/visualization/effectiveness.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index 1087435..b62dc16 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -149,9 +149,10 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[i, 0].plot(k_values, metric_values.values, label=metric)
-                    max_k = np.nanargmax(metric_values)
-                    axes[i, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
-                                   fillstyle="none", label=None)
+                    if not np.isnan(metric_values.values).all():
+                        max_k = np.nanargmax(metric_values)
+                        axes[i, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
+                                       fillstyle="none", label=None)
                 
                 axes[i, 0].plot([], [], "ok", fillstyle="none", label="Max")
                 axes[i, 0].set_ylabel(model)
@@ -175,9 +176,10 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[j, 0].plot(k_values, metric_values.values, label=model)
-                    max_k = np.nanargmax(metric_values)
-                    axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
-                                   fillstyle = "none", label=None)
+                    if not np.isnan(metric_values.values).all():
+                        max_k = np.nanargmax(metric_values)
+                        axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
+                                       fillstyle = "none", label=None)
 
                 axes[j, 0].plot([], [], "ok", fillstyle="none", label="Max")
                 axes[j, 0].set_ylabel(metric)
@@ -201,9 +203,10 @@ def plot_tree_wise_performance(performance, compare="models"):
                                                model=model,
                                                metric=metric)
                     axes[j, 0].plot(k_values, metric_values.values, label=dataset.name)
-                    max_k = np.nanargmax(metric_values)
-                    axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
-                                   fillstyle = "none", label=None)
+                    if not np.isnan(metric_values.values).all():
+                        max_k = np.nanargmax(metric_values)
+                        axes[j, 0].plot(k_values[max_k], metric_values.values[max_k], "ok",
+                                       fillstyle = "none", label=None)
                 axes[j, 0].plot([], [], "ok", fillstyle="none", label="Max")
                 axes[j, 0].set_ylabel(metric)
                 axes[j, 0].yaxis.grid(True, zorder=0, ls="--")
-- 
2.43.0


From e9171c7cde8fc810354a432767c98315109be3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:01 +0000
Subject: [PATCH 41/45] fix: plot_rank_confusion_matrix accepts a single
 relevance label

---
 rankeval/visualization/effectiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/effectiveness.py b/rankeval/visualization/effectiveness.py
index b62dc16..88204d5 100644
--- a/rankeval/visualization/effectiveness.py
+++ b/rankeval/visualization/effectiveness.py
@@ -391,7 +391,7 @@ def is_log_scale_matrix(matrix):
     """
     flat = matrix.values.flatten()
     flat.sort()
-    if flat[-1]/flat[-2] > 2:
+    if flat.size > 1 and flat[-1]/flat[-2] > 2:
         return True
     else:
         return False
-- 
2.43.0


From 4d54385503d3cee63be7782000bb13786ba08ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:01 +0000
Subject: [PATCH 42/45] fix: plot_feature_importance with fewer features than
 max_features

---
 rankeval/visualization/feature.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rankeval/visualization/feature.py b/rankeval/visualization/feature.py
index 0d9a6c1..67c5381 100644
--- a/rankeval/visualization/feature.py
+++ b/rankeval/visualization/feature.py
@@ -62,8 +62,7 @@ def plot_feature_importance(feature_perf, max_features=10, sort_by="gain",
 
     if isinstance(max_features, six.integer_types):
         idx_sorted = idx_sorted[:max_features]
-    else:
-        max_features = len(feature_importance)
+    max_features = len(idx_sorted)
 
     top_features = idx_sorted
     top_importances = feature_importance[idx_sorted]
-- 
2.43.0


From cbe6f4085339e3e2fd6f6e86848594285e135fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:01 +0000
Subject: [PATCH 43/45] fix: plot_shape draws each level in its own ring with
 every matplotlib

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 4ca3663..0f66979 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -105,7 +105,7 @@ def plot_shape(topological, max_level=10):
                 z[start_idx:end_idx, level] = ts[level, node]
 
     # draw the tree nodes frequencies
-    h = ax.pcolormesh(theta, r, z, cmap=cm, vmin=0., vmax=1.)
+    h = ax.pcolormesh(theta, r, z[:-1, :-1], cmap=cm, vmin=0., vmax=1.)
 
     # color bar
     cax = fig.add_axes([.95, 0.15, 0.025, 0.8]) # axes for the colot bar
-- 
2.43.0


From 9a0780fd03b1f1c5700d98a7d3e959d3bc39f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:01 +0000
Subject: [PATCH 44/45] fix: export_graphviz accepts the names of all features
 and refuses too few

---
 rankeval/visualization/topological.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rankeval/visualization/topological.py b/rankeval/visualization/topological.py
index 0f66979..ddf3862 100644
--- a/rankeval/visualization/topological.py
+++ b/rankeval/visualization/topological.py
@@ -393,7 +393,7 @@ def export_graphviz(ensemble, tree_id=0, out_file=None, max_depth=None,
         # n_features_ in the decision_tree
         if feature_names is not None:
             max_feature_id = np.max(ensemble.trees_nodes_feature) + 1
-            if len(feature_names) > max_feature_id:
+            if len(feature_names) < max_feature_id:
                 raise ValueError("Length of feature_names, %d "
                                  "does not match number of features, %d"
                                  % (len(feature_names),
-- 
2.43.0


From 5cb2b0e2d56a4d338f226b04b96ccc7711a09e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:31 +0000
Subject: [PATCH 45/45] fix: load_svmlight_files gives all files the same
 number of features, as documented

---
 rankeval/dataset/svmlight_format.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rankeval/dataset/svmlight_format.py b/rankeval/dataset/svmlight_format.py
index 4bc44f3..589a39b 100644
--- a/rankeval/dataset/svmlight_format.py
+++ b/rankeval/dataset/svmlight_format.py
@@ -149,6 +149,15 @@ def load_svmlight_files(files, query_id=False):
     for f in files:
         result += load_svmlight_file(f, query_id=query_id)
 
+    # samples of all files have the same number of features
+    step = 3 if query_id else 2
+    n_features = max(X.shape[1] for X in result[::step])
+    for i in range(0, len(result), step):
+        X = result[i]
+        if X.shape[1] < n_features:
+            result[i] = np.zeros((X.shape[0], n_features), dtype=X.dtype)
+            result[i][:, :X.shape[1]] = X
+
     return result
 
 
-- 
2.43.0


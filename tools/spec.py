"""Source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
SYM = "symbolic execution of the Python source, z3 decides each path"
PYX = "symbolic execution of the Cython source (typed tree) and its Python callers, z3"
LL = "symbolic execution of clang LLVM IR of the C++ extension and its Python callers, z3"


def p(id, title, statement, over, qtext, why, files, mech, tech=SYM, note=None, observe=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note,
                  observe=observe or [], na=na, state=state or []))


DS = ["rankeval/dataset/dataset.py"]
p("C01", "A dataset's query grouping reproduces the given query ids",
  "For a dataset built from rows whose query ids are contiguous, the ordered query ids, query sizes, query offsets, query count, instance count, per-row query ids, query iteration and per-query offset lookup all describe exactly the given grouping, and rows, labels and features are stored unchanged. "
  "Looking up the offsets of a query that is not in the dataset raises LookupError, and a query-id array whose length differs from the number of rows is refused.",
  ["inputs"], "every number of rows, grouping, query id (any order of ids, negative and large ids), label and feature value",
  "the tests check a handful of files; the grouping must hold for every arrangement of ids", DS,
  [("query_ids, query_offsets, query_iterator, get_query_sizes, get_query_offsets, get_qids_dataset", "Dataset")])
p("C02", "Splitting a dataset partitions its queries",
  "Splitting a dataset into train/(validation)/test parts with valid fractions puts every query, with all its rows in original order and unchanged labels and features, in exactly one part; the training part has round(train_size*n_queries) queries and the validation part round(vali_size*n_queries) (as many as are left), whatever the random order. "
  "The split dataset itself stays as it was, and sizes that are negative or add up to more than 1 are refused.",
  ["inputs", "configurations"], "every dataset, train/validation fraction and random permutation of the queries",
  "the tests try one permutation and one size; a lost or duplicated query depends on sizes and order", DS, [("split", "Dataset.split")])
p("C03", "K-fold splitting gives disjoint train, validation and test sets",
  "With at least 3 folds and at least as many queries as folds, every fold yields train, validation and test sets of complete queries that are pairwise disjoint and together hold every query; over the folds every query is in the test set exactly once and in the validation set exactly once, with rows, labels and features unchanged, in both the dataset and the query-id form.",
  ["inputs", "configurations"], "every dataset, number of folds >= 3 with n_queries >= n_folds, shuffled or not, every permutation",
  "the tests use one dataset and one fold count", DS, [("kfold", "Dataset.kfold")])
p("C04", "Subsets of a dataset keep exactly the requested queries or features",
  "The subset of a dataset by query ids holds exactly the rows of those of the requested queries that exist, in dataset order with unchanged features, labels and query ids. The feature subset holds exactly the requested feature columns in the requested order, with the same labels and grouping; in both cases the source dataset is unchanged.",
  ["inputs"], "every dataset, set of requested query ids (present, absent, repeated, any order) and list of feature indices",
  "the tests pick one subset", DS, [("subset, subset_features", "Dataset")])
p("C05", "Dataset equality and hash follow the content",
  "Two datasets are equal exactly when they have the same features, labels, query ids and grouping of rows into queries, regardless of memory layout; equal datasets have equal hashes and are interchangeable as dictionary keys, and different datasets, also of different sizes, are never taken for each other.",
  ["inputs"], "every pair of datasets, of equal or different size, C/Fortran/strided layout",
  "score caches and metric caches rely on it for every pair of datasets; tests compare none", DS, [("__eq__, __ne__, __hash__", "Dataset")])
SV = ["rankeval/dataset/_svmlight_format.cpp", "rankeval/dataset/svmlight_format.py"]
p("C06", "Loading an SVMlight file yields exactly the data written in its text",
  "Loading a well-formed SVMlight file (sample lines 'label [qid:n] id:value ...' with ascending one-based ids, a qid on every line or on none, and comments from '#' to the end of a line) returns one row per sample line with the label, query id and feature values written in the text: features not listed are 0, id k is column k-1, the matrix is as wide as the largest feature id, comments are ignored, whatever the spacing, the line endings and the presence of a final newline, and a sample without features is a row of zeros.",
  ["inputs"], "every well-formed file within the bounds", "tests load a few fixed files",
  SV, [("parse_line, load_svmlight_file", "_svmlight_format.cpp")], LL)
p("C07", "Dumping and loading a dataset returns the same data",
  "Writing labels, features and query ids to an SVMlight file and reading it back returns the same labels, features and query ids, for any number of samples (also one), any memory layout of the feature matrix, with or without query ids, and any finite single-precision values.",
  ["inputs"], "every dataset within the bounds", "tests round-trip one fixed dataset", SV, [("_dump_svmlight_file, _load_svmlight_file", "_svmlight_format.cpp")], LL)
p("C08", "Malformed SVMlight input is refused without touching memory outside its buffers",
  "For any bytes of the input file, and any read that fails half-way, the loader either raises an exception or returns arrays of consistent lengths (one label per row, query ids for all rows or for none), it reads and writes only inside its own buffers, and it releases every line it read.",
  ["inputs"], "every byte sequence up to the bound as file content", "tests have no malformed files", SV, [("parse_line", "_svmlight_format.cpp")], LL)
SC = ["rankeval/scoring/_efficient_scoring.pyx", "rankeval/scoring/scorer.py", "rankeval/model/rt_ensemble.py"]
p("C10", "Ensemble score is base plus learning rate times the weighted leaf values reached",
  "The score of a document is base_score + learning_rate * sum over trees of tree weight * value of the leaf reached, where a split sends a document left exactly when its feature value is <= the threshold; it holds for every tree shape and parent-before-child node layout and for any memory layout of the feature matrix.",
  ["inputs"], "every ensemble, threshold, leaf value, weight, learning rate, base score and feature value (ties with thresholds included)",
  "tests compare scores of a few models on a few documents", SC, [("basic_scoring", "_efficient_scoring.pyx"), ("RTEnsemble.score, Scorer.score", "rt_ensemble.py, scorer.py")], PYX)
p("C11", "Detailed scoring agrees with basic scoring",
  "Detailed scoring returns the same document scores as basic scoring, one partial score per document and tree (weight * learning rate * reached leaf value, the base score being added to the first tree) whose sum over trees is the document score, and for every document and tree the index of the leaf actually reached; a Scorer's accessors, in any order, return these same arrays before learning rate and base score are applied.",
  ["inputs"], "every ensemble and document within the bounds", "tests only look at shapes and one sum", SC, [("detailed_scoring", "_efficient_scoring.pyx")], PYX)
p("C12", "Scores, topology counts and MSE importances do not depend on thread scheduling",
  "Basic scoring, detailed scoring, topological analysis and squared-error feature importance return the same results for every number of threads and every schedule of their parallel loops: no two parallel iterations access the same element unless both only read it (or combine it as a declared reduction), and no iteration depends on state left by another.",
  ["schedules", "inputs"], "every order of the parallel iterations and every input within the bounds", "a test run samples one schedule", SC + ["rankeval/analysis/_efficient_topological.pyx", "rankeval/analysis/_efficient_feature_impl.cpp"],
  [("prange loops, OpenMP loops", "_efficient_scoring.pyx, _efficient_topological.pyx, _efficient_feature_impl.cpp")], PYX)
p("C13", "Caching of scores is transparent",
  "Whatever sequence of cached or uncached, basic or detailed scorings of equal or different datasets and cache clearings a model has gone through, each scoring returns the scores, partial scores and leaves a freshly loaded model would return.",
  ["histories", "inputs"], "every sequence of score(cache, detailed)/clear_cache calls over datasets that may be equal or differ in a single value",
  "tests score each model once", SC, [("_cache_scores", "RTEnsemble.score")], PYX)
p("C14", "Scoring needs a dataset with all the features the model uses",
  "Scoring (basic or detailed) raises an error exactly when the dataset has fewer features than the model uses (largest feature id + 1), and otherwise reads only elements of the feature matrix.",
  ["inputs", "histories"], "every model feature id in 0..32767, dataset width and position of the feature in the ensemble", "tests use matching datasets only", SC, [("feature check in score", "RTEnsemble.score")], PYX)
p("C15", "Pruned models and copies are faithful and independent",
  "A model loaded with, or copied with, a number k of trees consists of exactly its first min(k, n_trees) trees with the same base score and learning rate and scores accordingly; the source model is unchanged, later changes to the copy do not affect it, and scores cached before the copy do not leak into it.",
  ["inputs", "histories"], "every ensemble, k (0 included) and cache state within the bounds", "tests prune one model once", ["rankeval/model/rt_ensemble.py"], [("copy, _prune_model, initialize", "RTEnsemble")], PYX)
p("C16", "Structural statistics match the trees",
  "The per-tree numbers of leaves and nodes, the tree heights, the largest number of leaves, the total node and tree counts and the leaf test of each node are those of the actual trees, for every tree shape, parent-before-child node layout and pruning.",
  ["inputs"], "every ensemble shape within the bounds", "tests check one model", ["rankeval/model/rt_ensemble.py"], [("num_leaves, num_nodes, height_trees, max_leaves, is_leaf_node", "RTEnsemble")])
p("C17", "Topological analysis counts the trees having each node position",
  "For every ensemble of trees with at least one split, the topology matrix has at row d, column c exactly the number of trees that have a node at that depth and position (only internal nodes when leaves are excluded), the average tree shape is this count over the number of trees, and the reported tree heights and their summary are those of the trees.",
  ["inputs"], "every ensemble shape within the bounds, depths up to 62", "tests check one small model", ["rankeval/analysis/_efficient_topological.pyx", "rankeval/analysis/topological.py"], [("efficient_topological_analysis", "_efficient_topological.pyx")], PYX)
MD = ["rankeval/model/rt_ensemble.py"]
RT = "every tree shape, threshold, leaf value, weight and feature value within the bounds"
p("C20", "A QuickRank model loads as written",
  "Loading a QuickRank XML model yields an ensemble that scores every document as the XML says: sum over trees of tree weight times the output of the leaf reached, going left iff feature value <= threshold, with the one-based feature ids of the file and its numbers at single precision; node, leaf and tree counts match the file, also when only the first k trees are requested.",
  ["inputs"], RT, "tests load one file", MD + ["rankeval/model/proxy_QuickRank.py"], [("load", "ProxyQuickRank")])
p("C21", "An XGBoost text dump loads as written",
  "Loading an XGBoost text dump yields an ensemble that scores every document as XGBoost does: the sum over trees of the reached leaf values, a split [f<t] sending a document to its yes-branch iff its float32 feature value is strictly smaller than the float32 threshold, for any numbering of the nodes (yes-branch written first), plus the base score given (0.5 if none is).",
  ["inputs"], RT, "tests load one file", MD + ["rankeval/model/proxy_XGBoost.py"], [("load", "ProxyXGBoost")])
p("C22", "A LightGBM text model loads as written",
  "Loading a LightGBM text model yields an ensemble that scores every document as the file says: for each tree the leaf reached by going to the left child iff feature value <= threshold, summed over all trees of the file with its numbers at single precision, also for trees that are a single leaf and when only the first k trees are requested.",
  ["inputs"], RT, "tests load one file", MD + ["rankeval/model/proxy_LightGBM.py"], [("load", "ProxyLightGBM")])
p("C23", "A scikit-learn gradient boosting model loads as it predicts",
  "Exporting a scikit-learn gradient boosting model to text and loading the text yields an ensemble whose scores are the model's raw predictions at single precision: initial estimate plus learning rate times the sum of the leaf values reached, going left iff feature value <= threshold. A model that is not a fitted gradient boosting model with a known initial estimate is refused.",
  ["inputs"], RT, "tests convert one model", MD + ["rankeval/model/proxy_ScikitLearn.py"], [("load", "ProxyScikitLearn")])
p("C24", "A JForests model loads as written",
  "Loading a JForests XML model yields an ensemble that scores every document as the file says: sum over trees of tree weight times the output of the leaf reached, going left iff feature value <= threshold, where feature ids are zero-based, numbers are taken at single precision, every tree has at least one split and children are given by the file's node references.",
  ["inputs"], RT, "tests load one file", MD + ["rankeval/model/proxy_Jforests.py"], [("load", "ProxyJforests")])
p("C25", "A CatBoost oblivious-tree model loads as written",
  "Loading a CatBoost CoreML model of oblivious trees, of equal or different depth, yields an ensemble that scores every document as the file says: sum over trees of the value of the leaf reached by following the file's branch conditions (> or <=), numbers at single precision. Other branch conditions are refused.",
  ["inputs"], RT, "tests load one file", MD + ["rankeval/model/proxy_CatBoost.py"], [("load", "ProxyCatBoost")])
p("C26", "A model saved in QuickRank format loads back as the same model",
  "Saving an ensemble, however it was loaded and also after pruning it, in QuickRank XML and loading the file with the same base score and learning rate gives an ensemble with the same trees, weights and scores; saving leaves the ensemble unchanged, and replaces a file that was there.",
  ["inputs", "histories"], RT, "tests round-trip one model and compare file sizes", MD + ["rankeval/model/proxy_QuickRank.py"], [("save, load", "ProxyQuickRank")])
p("C27", "Unsupported model formats are refused",
  "Saving in any format other than QuickRank raises an error, creates no file and leaves a file that was there and the model unchanged; loading a file under any format name other than the six known ones raises an error, whatever the content of the file.",
  ["configurations"], "every format", "tests check some formats", MD, [("initialize, save", "RTEnsemble")])
MT = lambda *f: ["rankeval/metrics/" + x for x in f]
TIE = "every labels, scores (ties in any order), cutoff and query size within the bounds"
p("C30", "DCG@k equals its definition",
  "DCG@k of a query is the sum over the k highest-scored documents (all, if no cutoff or fewer than k) at rank r=1,2,... of gain(label)/log2(r+1), gain being the label itself (flat) or 2^label-1 (exp); it depends on nothing but labels, score order and parameters, ties being broken in any order.",
  ["inputs", "configurations"], TIE, "tests check fixed vectors", MT("dcg.py", "metric.py"), [("eval_per_query", "DCG")])
p("C31", "NDCG@k equals DCG@k over the best achievable DCG@k",
  "NDCG@k of a query is its DCG@k divided by the largest DCG@k any ordering of its documents achieves, hence in [0,1], and the configured value for queries without relevant documents when that largest value is 0.",
  ["inputs", "configurations"], TIE, "tests check fixed vectors", MT("ndcg.py", "dcg.py", "metric.py"), [("eval_per_query", "NDCG")])
p("C32", "Precision@k and Recall@k equal their definitions",
  "Precision@k is the number of relevant documents (label >= threshold) among the top k by score divided by the number of documents ranked (min(k, query size)), Recall@k the same number divided by the number of relevant documents of the query; for Recall, queries without relevant documents get the configured value. PrecisionMax is Precision with the query's highest label as threshold.",
  ["inputs", "configurations"], TIE, "tests check fixed vectors", MT("precision.py", "precision_max.py", "recall.py", "metric.py"), [("eval_per_query", "Precision, Recall")])
p("C33", "MRR@k and MAP@k equal their definitions",
  "MRR@k is the reciprocal rank of the first relevant document in the top k, 0 if there is none; MAP@k is the sum of precision@r over the ranks r <= k holding a document with positive label, divided by the smaller of k and the number of documents with positive label in the query, 0 if none of them is in the top k; for MAP, queries without relevant documents get the configured value.",
  ["inputs", "configurations"], TIE, "tests check fixed vectors", MT("mrr.py", "map.py", "metric.py"), [("eval_per_query", "MRR, MAP")])
p("C34", "RBP@k, ERR@k and pFound@k equal their definitions",
  "RBP@k is (1-p)*sum over the relevant documents at ranks r<=k of p^(r-1); ERR@k and pFound@k follow the cascade model with per-document stop probability R=(2^label-1)/2^(largest label of the query): ERR@k sums (1/r)*R_r*prod_{i<r}(1-R_i), pFound@k sums R_r*prod_{i<r}((1-R_i)*(1-p_abandonment)).",
  ["inputs", "configurations"], TIE, "tests check fixed vectors", MT("rbp.py", "err.py", "pfound.py", "metric.py"), [("eval_per_query", "RBP, ERR, Pfound")])
p("C36", "MSE and RMSE equal their definitions",
  "The squared error of a query is the sum over its top k documents by score (all without cutoff) of (label - score)^2, and its RMSE the square root of the mean of these squares. Evaluating MSE on a dataset (no cutoff) returns for each query, in dataset order and whatever the query ids, its squared error divided by the number of instances of the whole dataset, together with their sum, the dataset's mean squared error.",
  ["inputs", "configurations"], "every dataset, scores, cutoff and query ids within the bounds", "tests check fixed vectors", MT("mse.py", "rmse.py", "metric.py"), [("eval, eval_per_query", "MSE, RMSE")])
p("C37", "Kendall tau and Spearman rho per query equal their definitions",
  "Kendall's tau of a query is tau-b between its labels and scores and Spearman's rho the Pearson correlation of their average ranks, ties included, and not-a-number when one side is constant.",
  ["inputs"], "every labels and scores, with ties, within the bounds", "tests check fixed vectors", MT("kendall_tau.py", "spearman_rho.py"), [("eval_per_query", "Kendalltau, SpearmanRho")])
p("C38", "A metric evaluation depends only on its arguments",
  "Evaluating a metric on a dataset returns for each query, in dataset order, the value the metric gives to that query's labels and scores alone, and their mean (over the queries where the value is defined); both are the same whatever the metric object evaluated before, later evaluations do not change results already returned, and evaluating changes neither the dataset nor the scores.",
  ["inputs", "histories"], "every dataset, scores and earlier use of the metric object within the bounds", "tests use each metric object once", MT("metric.py", "ndcg.py", "mse.py", "dcg.py"),
  [("eval, query_iterator, NDCG's cache of ideal scores", "Metric, NDCG")])
EF = ["rankeval/analysis/effectiveness.py"]
p("C39", "A metric's label names its configuration",
  "The text of a metric (str) is its name, followed by @cutoff when a cutoff is set and by [>threshold] when it has a relevance threshold other than the default 1; so the labels of two metrics with different names, cutoffs or thresholds differ, whatever other metric objects exist.",
  ["inputs", "configurations"], "every name, cutoff and threshold within the bounds", "tests never look at labels", MT("metric.py", "precision.py", "recall.py", "mrr.py", "rbp.py", "ndcg.py"), [("__str__", "all metric classes")])
p("C40", "Model performance table holds the metric of each model's scores",
  "The model performance analysis returns a float table with dimensions dataset, model and metric, labelled by the given objects in the given order, whose every entry is the metric's overall value of that model's scores on that dataset; with caching on or off.",
  ["inputs", "configurations"], "every combination of datasets, models and metrics within the bounds", "tests check one table cell", EF, [("model_performance", "effectiveness.py")])
p("C41", "Tree-wise performance is the metric of the model truncated to its first k trees",
  "The tree-wise performance analysis lists every multiple of the step (up to the number of trees of the largest model) plus that number of trees itself, also when the step is larger; the entry for k trees is the metric of the scores of the model's first min-of-k trees (learning rate, weights and base score included), and the entries after a smaller model's last tree are NaN.",
  ["inputs", "configurations"], "every model, dataset, metric and step within the bounds", "tests check one curve's shape", EF, [("tree_wise_performance", "effectiveness.py")])
p("C42", "Average tree contribution is the mean absolute partial score of each tree",
  "The tree-wise average contribution of a model on a dataset is, for each tree in order, the mean over the documents of the absolute value of the partial score the tree adds (tree weight, learning rate, and the base score in the first tree, included); it is NaN beyond a smaller model's last tree.",
  ["inputs"], "every model and dataset within the bounds", "tests check the shape only", EF, [("tree_wise_average_contribution", "effectiveness.py")])
p("C43", "Query-wise performance is the cumulative distribution of per-query metric values",
  "The query-wise performance analysis returns, for every dataset, model and metric, a cumulative distribution over equal-width bins covering the requested range (default: the smallest and largest per-query value, other than NaN, over everything analysed; default number of bins: the largest number of queries): the entry labelled with a bin's upper end is the fraction of all the dataset's queries whose value lies between the start of the range and that end (the last bin includes its end); queries on which the metric is undefined (NaN) lie in no bin.",
  ["inputs", "configurations"], "every per-query values, range and number of bins within the bounds", "tests check the shape only", EF, [("query_wise_performance", "effectiveness.py")])
p("C44", "Query-class performance averages each class's own queries",
  "The query-class performance analysis returns, for every dataset, model, metric and query class, the mean of the metric over exactly the queries of that class (ignoring, as Metric.eval does, those on which the metric is undefined); the classes (numbers or names, given as lists or arrays per dataset) are listed once each in sorted order, and a class with no such query in a dataset has NaN there.",
  ["inputs", "configurations"], "every assignment of queries to classes within the bounds", "tests check the shape only", EF, [("query_class_performance", "effectiveness.py")])
p("C45", "Relevance-graded score distribution counts each label's documents",
  "The document graded relevance analysis returns, for every dataset, model and relevance label occurring in any of the datasets, a cumulative distribution over equal-width score bins covering the requested range (default: smallest to largest score): the entry labelled with a bin's upper end is the fraction of the dataset's documents with that label whose score lies between the start and that end (the last bin includes its end); it is NaN for a label the dataset lacks, and datasets may differ in size.",
  ["inputs"], "every labels and scores within the bounds", "tests check the shape only", EF, [("document_graded_relevance", "effectiveness.py")])
p("C46", "Rank confusion matrix counts the misordered pairs",
  "The rank confusion matrix has one row and column per distinct label (any integers) of the datasets, which may differ in size; its entry (a, b) with a != b is the number of pairs of documents of the same query, one labelled a and one labelled b, whose a-document is scored lower (in a tie the document later in the dataset counts as lower), and the diagonal entry of a label counts the pairs of distinct documents of the same query with that label, or 0 when same-label pairs are skipped.",
  ["inputs"], "every labels, scores and grouping within the bounds", "tests check the shape only", EF, [("rank_confusion_matrix", "effectiveness.py")])
FE = ["rankeval/analysis/feature.py", "rankeval/analysis/_efficient_feature.pyx", "rankeval/analysis/_efficient_feature_impl.cpp"]
p("C47", "MSE feature importance is the error reduction of each split",
  "With the squared-error metric (the default), trees are taken in order, each fitting the residual of the cumulative prediction of the trees before it (a tree's prediction, the mean residual of the documents in the deepest node each document reaches, times its weight). The importance of a feature is the sum over the splits on it of the drop in mean squared error over the dataset when the documents of the split move to the mean of their child; the count is the number of its splits reached by at least two documents, the root always counted; a single-leaf tree adds nothing. RMSE reports the square roots of these importances. It holds for any memory layout and number type of the dataset, and only the given arrays are accessed.",
  ["inputs"], "every ensemble and dataset within the bounds", "tests check the shape only", FE, [("eff_feature_importance", "_efficient_feature_impl.cpp")], LL)
p("C48", "Feature importance with any metric is the metric difference of each split",
  "With any metric, trees are taken in order, each fitting the residual of the cumulative prediction of the trees before it; its nodes are visited level by level and a document's partial prediction is the mean residual of the documents in the deepest node reached so far. The importance of a feature is the sum, over the splits on it in all trees, of the metric before the split minus the metric after the documents of that split move to their child's mean; the count of a feature is the number of its splits; normalisation divides the importances by their maximum; a single-leaf tree adds nothing; the tree's weight multiplies its prediction when it joins the cumulative one.",
  ["inputs"], "every ensemble and dataset within the bounds", "tests check the shape only", FE, [("feature_importance", "feature.py")])
ST = ["rankeval/analysis/statistical.py"]
p("C49", "Randomization test p-values are the fractions of swaps at least as extreme",
  "Fisher's randomization test swaps, in every permutation, the two systems' values of a random subset of the queries; the one- and two-sided p-values it returns are the fractions of permutations whose mean difference (better system minus worse) is at least as large (two-sided: in absolute value) as the observed one, and statistical_significance reports them under the right dataset and metric labels.",
  ["inputs"], "every pair of metric vectors and every random choices within the bounds", "tests check one p-value range", ST, [("_randomization, statistical_significance", "statistical.py")])
p("C50", "Bias-variance analysis never scores a query with a model trained on it",
  "In the cross-validated bias/variance analysis of a dataset with at least as many queries as folds, every query is scored exactly once per repetition by a model trained on complete other queries with their own labels and sizes, never on the query itself; Error, Bias and Variance are the mean squared deviation of the predictions (MSE) or of the per-query metric values (any other metric) from the label or from 1, the same of their mean over the repetitions, and the mean squared deviation from that mean, so that Error = Bias + Variance.",
  ["inputs", "schedules"], "every dataset, fold count and permutation within the bounds", "tests run one configuration", ST, [("bias_variance, _kfold_scoring", "statistical.py")])
FT = ["rankeval/dataset/datasets_fetcher.py", "rankeval/dataset/write_json_dataset_catalogue.py"]
p("C51", "Fetching a dataset downloads only what is missing and loads what was asked",
  "Loading a dataset by its catalogue name: an unknown name gives None; a fold asked of a dataset without folds is refused and leaves the data as it was; without download_if_missing (and force_download) nothing is downloaded and an IOError is raised if the dataset, or the models when they are asked for, are not there. Otherwise exactly the missing archives are downloaded (with force_download all those asked for), models only when asked, and the container holds the train, test and, where the catalogue names one, validation data of the requested fold, the licence text, and exactly that fold's model files. A download that fails or is interrupted at any point is reported, and what it leaves behind is never taken for available data by a later call. Every dataset of the generated catalogue loads.",
  ["inputs", "histories", "fault_sequences"], "every history of calls with any flags, folds and one failure at any point, within the bounds", "tests cannot download anything", FT, [("load_dataset", "datasets_fetcher.py")])
p("C63", "Loading several SVMlight files gives every file's data with the same features",
  "load_svmlight_files returns, for every file in the order given, exactly the feature values, labels and (when asked for) query ids that loading the file alone gives, with all feature matrices as wide as the widest file, missing values being 0. Files may be paths, open files or file descriptors, in any iterable; open files and descriptors are not closed. A missing or malformed file among them is reported.",
  ["inputs"], "every content, number and kind of files within the bounds", "the tests load the same file several times", ["rankeval/dataset/svmlight_format.py"], [("load_svmlight_files, _open", "svmlight_format.py")], LL)
VZ = ["rankeval/visualization/effectiveness.py", "rankeval/visualization/feature.py"]
p("C60", "Plots show the values of the analysis",
  "The plots of the effectiveness analyses and of the feature importance draw every value of the analysis given exactly once: one figure per dataset (tree-wise comparison of datasets: per model) that names it, one panel per metric or model in the order of the analysis, one bar series or curve per compared element, named in the legend, with every bar at the tick that names its metric, model or class, every curve at its tree counts or bins (query-wise values in percent), the tree-wise marker at a maximum of its curve, bar labels rounded to three digits, and no bar of a non-negative value above the visible range. "
  "Undefined (NaN) values leave gaps and never make plotting fail. The confusion matrix is drawn as counts, or their logarithms when one count is more than twice every other; the feature plot shows the max_features (all if there are fewer) features with the largest importance or count, in decreasing order, each with its own importance, count and name. An unknown comparison mode is refused, and the analysis is not changed.",
  ["inputs", "configurations"], "every analysis result and plotting option within the bounds", "tests do not exercise plotting", VZ, [("plot_*", "effectiveness.py, feature.py")],
  "symbolic execution of the Python source against a recording pyplot, z3 decides each path")
p("C61", "The tree shape plot shows each position's frequency in its own place",
  "plot_shape divides the half disc into one ring per level (at most max_level + 1 of them) and each ring into equal wedges, one per position from the left, and the wedge of a position shows the average number of trees that have a node there (0 where no tree has one).",
  ["inputs", "configurations"], "every average tree shape and max_level within the bounds", "tests do not exercise plotting", ["rankeval/visualization/topological.py"], [("plot_shape", "topological.py")],
  "symbolic execution of the Python source against a recording pyplot, z3 decides each path")
p("C62", "The exported drawing of a tree is that tree",
  "export_graphviz writes a DOT graph with exactly the nodes and edges of the requested tree of the ensemble, each split with its own feature (index or given name) and threshold and each leaf with its output, rounded to the given precision, the branches of the root marked True (left) and False (right); below max_depth nodes are cut to '(...)'. With output leaves, a node's count is the number of documents whose output leaf lies below it, and its proportion that count relative to the largest. Text is returned, written to the named file or to the given file object alike. Feature names may cover more features than the model uses. A tree number, precision, label or list of names that does not fit raises ValueError.",
  ["inputs", "configurations"], "every tree, option and assignment of documents to leaves within the bounds", "tests do not exercise the export", ["rankeval/visualization/topological.py"], [("export_graphviz", "topological.py")],
  "symbolic execution of the Python source, z3 decides each path")

NOTE = "Every path within the stated bounds is decided by z3 over all values; reals stand for floats (comparison tolerance 1e-3 where arithmetic rounds), numpy/scipy are modelled by a facade with documented contracts; counterexamples and samples are re-run on the real code. Bounds and exclusions are in the evidence file and DESIGN.md."

PENDING = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["qtext"]),
                                    why_tests_cant=q["why"], anchors=dict(files=q["files"], state=q["state"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]],
                                                                          observe_at=q["observe"], hook_needed=None))) + "\n")
            assert len(q["title"]) <= 80, q["title"]
    checks, na = [], []
    for q in P:
        if q["na"]:
            na.append(dict(property=q["id"], reason=q["na"]))
        elif not os.path.exists(os.path.join(HERE, "checks", q["id"] + ".py")):
            na.append(dict(property=q["id"], reason=PENDING.get(q["id"], "no check built yet")))
        else:
            cmd = "/opt/venv/bin/python check.py %s " % q["id"]
            checks.append(dict(property=q["id"], quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough", evidence_file="evidence/%s.json" % q["id"],
                               technique=q["tech"], level="model_checking", level_note=q["note"] or NOTE))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import symx, z3; print(z3.get_version_string())'", checks=checks, not_applicable=na,
             notes="No hooks are needed in /repo. See DESIGN.md.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not applicable")


if __name__ == "__main__":
    main()

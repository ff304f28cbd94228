HOW = {
"C01": "`Dataset(...)` is run on every contiguous grouping of the rows (ids forked out of values whose order differs from appearance). The oracle walks the rows and lists each query's span; query ids, offsets, iteration and lookups must agree, lookups of absent ids must raise LookupError.",
"C02": "`Dataset.split` on every grouping, every pair of sizes and every permutation the shuffle may produce (the random permutation is a symbolic choice). Oracle: the parts are a partition of the complete queries with the sizes the documentation states.",
"C03": "`Dataset.kfold` likewise; oracle: k folds whose test parts partition the queries, sizes differing by at most one, train = rest.",
"C04": "`subset` and `subset_features` with every subset of the queries/features; the oracle selects rows and columns by hand.",
"C05": "`__eq__`, `__ne__`, `__hash__` on pairs of symbolic datasets with any memory layout; hash functions are uninterpreted (injective on content) so that the cache behaviour is decided and not sampled.",
"C06": "The C++ loader is run from its LLVM IR on texts whose numbers, spacing, comments and line ends are symbolic. The oracle is the structure the text was made from.",
"C07": "Writer and loader (IR) plus their Python callers, back to back on symbolic matrices; numbers travel as numerals that stand for symbolic values, so that formatting with too few digits, a wrong column or a lost query id is visible. Digits are decided on the writer's precision: 9 significant digits are required.",
"C08": "The loader (IR) on windows of 1 to 4 arbitrary bytes in every position of small files, and on streams that fail, return text or return None. Every memory access is checked against its block, every object reference counted.",
"C10": "Typed Cython tree of `basic_scoring` and its callers on all tree shapes, symbolic thresholds, leaf values, weights and features; the oracle is a nested if-then-else of the tree.",
"C11": "Same with `detailed_scoring` and the accessors of `Scorer` in any order; oracle: leaf reached per tree, partial scores, and their sum.",
"C12": "Parallel loops run in every order of their iterations with private variables unset and accesses logged; the OpenMP regions of the C++ code run with several threads and their accesses are intersected. A shared element with a write is a race.",
"C13": "Histories of scoring calls over two models/datasets with the cache on, equal and unequal datasets, pruning in between; oracle: the same call on a fresh object.",
"C14": "Models whose largest feature index is symbolic against datasets of any width; either an exception or no access outside the matrix (memoryview bounds are assertions in the interpreter).",
"C15": "`copy` and `prune` with every number of trees; oracle: the first trees, byte for byte, and the original unchanged; scores of the copy are those of the first trees.",
"C16": "Counts of nodes, leaves, depth, feature usage on all shapes and layouts; oracle: recursion over the tree.",
"C17": "`topological_analysis` on all shapes; oracle: positions of the nodes in the full binary tree; every statistic is recomputed from them.",
"C20": "XML text with symbolic numerals in every split/leaf, attribute and element order forked; the loader runs on the real parser, numbers map back to symbolic values. Oracle: the tree the text was made from.",
"C21": "XGBoost dumps with node ids in any order, missing-value fields and symbolic thresholds; strict `<` is decided in IEEE single precision (bit-exact) by z3's floating point theory.",
"C22": "LightGBM text with any child numbering; symbolic thresholds, leaf values, shrinkage.",
"C23": "Exporter and loader of scikit-learn models, with the estimator as a stand-in object of symbolic arrays (init estimates of both API generations).",
"C24": "JForests XML with symbolic numbers and any numbering.",
"C25": "CatBoost CoreML JSON with oblivious trees of any depth and symbolic borders, leaf values.",
"C26": "`save` then load through the real files, numbers as symbolic numerals; every value must come back (9 digits).",
"C27": "Every format name and object that is not supported must be refused before anything is written.",
"C30": "DCG per query against the formula over the documents sorted by decreasing score, ties by position (the facade sorts like numpy's stable sort); cutoffs below, at and above the number of documents, both gain implementations.",
"C31": "NDCG = DCG / ideal DCG in [0,1], with the documented value for queries without relevant documents.",
"C32": "Precision and recall against counting, with any threshold and cutoff.",
"C33": "MRR and MAP against their definitions.",
"C34": "RBP, ERR, pFound against their recursive definitions, with symbolic parameters.",
"C36": "MSE and RMSE per query and overall with any query ids.",
"C37": "Correlation of the score order with the label order; scipy's functions are uninterpreted on their arguments, so what is decided is what they are given and what is done with the result; the values are validated on samples.",
"C38": "Every metric's `eval` equals the mean of the per-query values, on a fresh object and after any history of calls with other datasets.",
"C39": "Name, cutoff and threshold are symbolic; the label a metric object prints is parsed and the numbers in it are compared with the configuration.",
"C40": "Table of metric means, addressed by labels; models, datasets and metrics are symbolic stand-ins so that every cell is a distinct term.",
"C41": "Score of the first k trees, for every step the analysis takes.",
"C42": "Mean absolute contribution of each tree.",
"C43": "Cumulative distribution over bins: numpy.histogram is modelled exactly (last bin closed), ranges and values symbolic.",
"C44": "Mean per class for any assignment of queries to classes, classes given as names or numbers.",
"C45": "Cumulative distribution of scores per label.",
"C46": "All pairs of documents of a query; ties between scores included.",
"C47": "IR of `_efficient_feature_impl.cpp` called through the interpreted Cython wrapper and `feature_importance`; the oracle recomputes residuals, means and gains by definition. Every distribution of the documents over the nodes is a path.",
"C48": "Python implementation with a symbolic metric linear in the scores; oracle as stated.",
"C49": "The random choices are symbolic; p-values must be the fractions over exactly those choices.",
"C50": "Folds, permutations and model outputs are symbolic; the training sets each model receives are recorded and compared with the query being scored.",
"C51": "The fetcher runs for real in a scratch folder against a fake server; flags, datasets and the failure point are symbolic choices, the oracle tracks what is available.",
"C60": "The plotting functions run on analyses with symbolic values (undefined ones at every place) against a recording pyplot; the recorded bars, curves, matrices, markers, texts, ticks and legends are matched to the values by the names a reader would use. Samples and counterexamples are drawn with real matplotlib and read back from the figure's artists.",
"C61": "`plot_shape` on symbolic frequencies; the recorded grid and values are read the way pcolormesh draws them (as many values as grid points: cells around the points), and the cell that covers a position's wedge (centre and both borders) must hold that position's frequency. On replay the cells come from the real QuadMesh. This is how the half-level shift with matplotlib >= 3.5 was found.",
"C62": "`export_graphviz` on symbolic trees; numbers are written as tokens standing for the rounded symbolic value, the text is parsed back into nodes and edges and compared with the tree, z3 deciding the rounding distance.",
"C63": "`load_svmlight_files` over the loader's LLVM IR on several files with symbolic numbers; oracle: the structure each text was made from, padded to the widest file. (The documented common width was not implemented: fixed.)",
}

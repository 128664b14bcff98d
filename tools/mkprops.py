"""writes /verif/properties.jsonl (single source of the property texts)"""
import json
P = []
M = 'tslearn/metrics/'


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = state
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


p('P01', 'DTW equals the exact optimum over all admissible alignments',
  'For any two non-empty series of equal dimension, the DTW value is the square root of the smallest sum of squared pointwise '
  'distances over every admissible warping path (monotone, unit steps, corner to corner, inside the global constraint); it is infinite '
  'exactly when no admissible path exists. Variants that take a user metric, a precomputed ground-distance matrix or a subset of the '
  'alignment return the same optimum for that ground distance, and optional arguments never silently change the objective.',
  ['inputs', 'configurations'], 'every pair of lengths, dimensions, values (finite floats, NaN-padded tails trimmed) and every constraint setting',
  'Existing tests compare a handful of short hard-coded series; optimality is a statement over exponentially many paths for every input.',
  [M + '_dtw.py', M + 'utils.py', M + '_masks.py'],
  [('dynamic program over the accumulated cost matrix', M + '_dtw.py:_njit_accumulated_matrix, _njit_acc_matrix_from_dist_matrix'),
   ('vectorised anti-diagonal dynamic program', M + 'utils.py:_torch_acc_matrix_from_dist_matrix'),
   ('public entry points', M + '_dtw.py:dtw, dtw_path, dtw_path_from_metric')],
  ['tslearn.metrics.dtw', 'tslearn.metrics.dtw_path', 'tslearn.metrics.dtw_path_from_metric'])

p('P02', 'Returned alignment paths are valid and achieve the reported score',
  'Every alignment path returned together with an elastic score (DTW, Frechet, metric-based DTW, subsequence DTW, limited-length DTW) '
  'starts and ends where the method prescribes, moves by single monotone steps, stays inside the index range and the global constraint, '
  'and has exactly the reported cost.',
  ['inputs', 'configurations'], 'every input pair, constraint, backend and metric, including ties between predecessors',
  'Tests pin a few literal paths; validity and attainment must hold for every backtracking decision on every matrix.',
  [M + 'utils.py', M + '_dtw.py', M + '_frechet.py', M + 'dtw_variants.py'],
  [('backtracking through the accumulated matrix', M + 'utils.py:_compute_path, _njit_compute_path'),
   ('subsequence backtracking', M + 'dtw_variants.py:_njit_subsequence_path, _subsequence_path'),
   ('limited-length backtracking', M + 'dtw_variants.py:_return_path_limited_warping_length')],
  ['tslearn.metrics.dtw_path', 'tslearn.metrics.frechet_path', 'tslearn.metrics.dtw_subsequence_path', 'tslearn.metrics.dtw_path_limited_warping_length'])

p('P03', 'Global-constraint masks describe exactly the documented region',
  'The Sakoe-Chiba mask admits exactly the cells within the radius of the (length-corrected) diagonal and the Itakura mask exactly the '
  'cells inside the parallelogram of the given maximum slope, on every backend; transposing the two lengths transposes the region. '
  'The constraint a caller requests (by name, by radius, by slope, or by default) is the one that is applied, in single-pair and '
  'pairwise computations alike.',
  ['inputs', 'configurations'], 'every pair of lengths, radius, slope and combination of constraint arguments',
  'Tests print a few small masks; the region is a formula over all lengths and parameters.',
  [M + '_masks.py', M + '_dtw.py', M + '_frechet.py', M + 'dtw_variants.py'],
  [('band and parallelogram construction', M + '_masks.py:sakoe_chiba_mask, itakura_mask'),
   ('constraint selection', M + '_masks.py:_compute_mask, compute_mask'),
   ('constraint code passed to pairwise engine', M + '_dtw.py:cdist_dtw, ' + M + '_frechet.py:cdist_frechet')],
  ['tslearn.metrics.sakoe_chiba_mask', 'tslearn.metrics.itakura_mask', 'tslearn.metrics.compute_mask'])

p('P04', 'Frechet distance is the optimal bottleneck over admissible alignments',
  'The discrete Frechet value of two series is the minimum over admissible warping paths of the largest pointwise distance along the path, '
  'it is symmetric, zero for identical series, and never exceeds the DTW value of the same pair under the same constraint.',
  ['inputs', 'configurations'], 'every pair of series, metric and constraint setting, every backend',
  'Tests check literal values on a few inputs and only some constraint settings.',
  [M + '_frechet.py', M + 'utils.py', M + '_masks.py'],
  [('bottleneck dynamic program', M + '_frechet.py:_njit_accumulated_matrix, _njit_acc_matrix_from_dist_matrix'),
   ('public entry points', M + '_frechet.py:frechet, frechet_path, frechet_path_from_metric')],
  ['tslearn.metrics.frechet', 'tslearn.metrics.frechet_path', 'tslearn.metrics.frechet_path_from_metric'])

p('P05', 'Pairwise matrices equal the pairwise function applied entry by entry',
  'Entry (i, j) of a pairwise (cross-)similarity matrix equals the single-pair function on series i and j with the same parameters, the '
  'matrix has one row and column per series, and self-similarity (second dataset omitted) equals the full cross-similarity of the dataset '
  'with itself. Results do not depend on the number of workers, on the order of other series, or on padding appended to shorter series.',
  ['inputs', 'configurations', 'schedules'], 'every dataset (ragged included), parameters, worker count',
  'Tests compare some entries on a few small datasets; the identity is over all datasets, index pairs and parallel configurations.',
  [M + 'utils.py', M + '_dtw.py', M + '_frechet.py', M + '_gak.py', M + 'softdtw_variants.py', M + 'dtw_variants.py', M + 'ctw.py'],
  [('generic pairwise engine', M + 'utils.py:_cdist_generic'),
   ('callers', M + '_dtw.py:cdist_dtw, ' + M + '_frechet.py:cdist_frechet, ' + M + '_gak.py:cdist_gak, ' + M + '_soft_dtw.py:cdist_soft_dtw, ' + M + 'ctw.py:cdist_ctw')],
  ['tslearn.metrics.cdist_dtw', 'tslearn.metrics.cdist_frechet', 'tslearn.metrics.cdist_gak', 'tslearn.metrics.cdist_soft_dtw', 'tslearn.metrics.cdist_ctw'])

p('P06', 'Soft-DTW is the smoothed minimum and its gradient is exact',
  'Soft-DTW with parameter gamma > 0 equals minus gamma times the log of the sum over all alignments of exp(-cost/gamma) (so it never '
  'exceeds the squared DTW), the returned alignment matrix and gradients are its exact derivatives, and the normalised version is the '
  'corresponding divergence, zero on identical inputs and symmetric.',
  ['inputs', 'configurations'], 'every cost matrix / series pair, every gamma, every backend, batch element and time step',
  'Tests compare some values with stored numbers or coarse finite differences; exactness is over every input and every matrix cell.',
  [M + 'soft_dtw_fast.py', M + '_soft_dtw.py', M + 'softdtw_variants.py', M + 'soft_dtw_loss_pytorch.py'],
  [('forward recursion', M + 'soft_dtw_fast.py:_njit_soft_dtw, _njit_soft_dtw_batch, _soft_dtw'),
   ('backward recursion', M + 'soft_dtw_fast.py:_njit_soft_dtw_grad, _njit_soft_dtw_grad_batch'),
   ('chain rule through the squared distance', M + 'soft_dtw_fast.py:_njit_jacobian_product_sq_euc')],
  ['tslearn.metrics.soft_dtw', 'tslearn.metrics.soft_dtw_alignment', 'tslearn.metrics.SoftDTW', 'tslearn.metrics.SoftDTWLossPyTorch'])

p('P07', 'Global alignment kernel sums every alignment and is a normalised kernel',
  'The global alignment kernel is computed by the recursion that sums, over every alignment, the product of local kernels; its normalised '
  'version is symmetric, equals one for identical series and lies in (0, 1].',
  ['inputs', 'configurations'], 'every pair of series and bandwidth sigma',
  'Tests check a few literal kernel values.',
  [M + '_gak.py'],
  [('kernel recursion', M + '_gak.py:_njit_gak, _gak'), ('local kernel', M + '_gak.py:_gak_gram, _njit_gak_gram'), ('normalisation', M + '_gak.py:gak')],
  ['tslearn.metrics.gak', 'tslearn.metrics.unnormalized_gak', 'tslearn.metrics.cdist_gak'])

p('P08', 'LCSS is the longest common subsequence within the threshold',
  'The LCSS similarity is the length of the longest order-preserving matching of points at distance at most eps inside the global '
  'constraint, divided by the shorter length, hence in [0, 1], non-decreasing in eps and 1 for identical series. The returned path is such a matching: '
  'strictly increasing in both coordinates, every pair within eps and inside the constraint, with exactly the matched length.',
  ['inputs', 'configurations'], 'every pair of series, eps and constraint',
  'Tests check literal similarities and paths of a few inputs, mostly unconstrained.',
  [M + 'dtw_variants.py'],
  [('LCSS dynamic program', M + 'dtw_variants.py:_njit_lcss_accumulated_matrix, lcss_accumulated_matrix'),
   ('LCSS backtracking', M + 'dtw_variants.py:_return_lcss_path, _njit_return_lcss_path')],
  ['tslearn.metrics.lcss', 'tslearn.metrics.lcss_path', 'tslearn.metrics.lcss_path_from_metric'])

p('P09', 'Subsequence and limited-length DTW solve their own problems exactly',
  'Subsequence DTW returns the least cost of aligning the whole query with some contiguous part of the long series, and limited-length DTW '
  'the least cost among warping paths with at most the given number of steps; relaxing the limit never increases the value and a '
  'sufficient limit recovers DTW.',
  ['inputs', 'configurations'], 'every pair of series, every length limit, every backend',
  'Tests check single examples; both are optima over exponentially many alignments.',
  [M + 'dtw_variants.py'],
  [('subsequence recursion', M + 'dtw_variants.py:_njit_subsequence_cost_matrix'),
   ('length-indexed recursion', M + 'dtw_variants.py:_limited_warping_length_cost')],
  ['tslearn.metrics.dtw_subsequence_path', 'tslearn.metrics.dtw_limited_warping_length'])

p('P10', 'LB_Keogh is a true lower bound and envelopes enclose the series',
  'The envelope of a series at each time is the exact minimum and maximum over the window of the given radius, and LB_Keogh never exceeds the '
  'DTW value of two equal-length univariate series under the Sakoe-Chiba constraint of the same radius.',
  ['inputs', 'configurations'], 'every series, every radius',
  'Tests check one or two literal envelopes and one bound; the inequality is universal.',
  [M + 'dtw_variants.py'],
  [('envelope', M + 'dtw_variants.py:lb_envelope, _njit_lb_envelope'), ('bound', M + 'dtw_variants.py:lb_keogh')],
  ['tslearn.metrics.lb_keogh', 'tslearn.metrics.lb_envelope'])

p('P11', 'Dataset containers and conversions preserve every value and length',
  'Building a dataset keeps each series values in order and pads only its tail, so the reported length and the un-padded series are exactly the '
  'input; saving to text and loading back, and converting to another library layout and back, reproduce every value, series, dimension and '
  'length. Helper queries (equal sizes, per-series size, reshaping, NaN checks) report exactly what the data contain.',
  ['inputs', 'histories'], 'every ragged dataset, dimension, dtype and chain of conversions',
  'Tests round-trip a few tiny datasets; the guarantee is for every shape, value and length profile.',
  ['tslearn/utils/utils.py', 'tslearn/utils/cast.py'],
  [('containers', 'tslearn/utils/utils.py:to_time_series, to_time_series_dataset, ts_size, ts_zeros, check_equal_size'),
   ('text format', 'tslearn/utils/utils.py:save_time_series_txt, load_time_series_txt, time_series_to_str, str_to_time_series'),
   ('library casts', 'tslearn/utils/cast.py')],
  ['tslearn.utils'])

p('P12', 'Preprocessing transforms produce exactly their documented statistics',
  'Scalers give every series (per series or per feature as configured, missing tail excluded) the requested range or mean and standard '
  'deviation, constant series included without producing spurious values; resampling keeps endpoints and is linear interpolation in '
  'between; imputation changes only missing values and never the series length, except for the documented trailing handling.',
  ['inputs', 'configurations'], 'every dataset (constant, ragged, multivariate) and every parameter',
  'Tests check a few toy arrays; statistics must hold for every series and feature.',
  ['tslearn/preprocessing/preprocessing.py'],
  [('scalers', 'tslearn/preprocessing/preprocessing.py:TimeSeriesScalerMeanVariance, TimeSeriesScalerMinMax'),
   ('resampler', 'tslearn/preprocessing/preprocessing.py:TimeSeriesResampler'),
   ('imputer', 'tslearn/preprocessing/preprocessing.py:TimeSeriesImputer')],
  ['tslearn.preprocessing'])

p('P13', 'PAA, SAX and 1d-SAX are exact segment summaries with bounding distances',
  'PAA values are the exact means of consecutive equal segments; SAX symbols are the quantile bins of those means, 1d-SAX adds the '
  'least-squares slope bin; inverse transforms are piecewise constant / linear on the same segments. Representation distances are computed '
  'from the documented formulas, are symmetric, and for PAA and SAX never exceed the Euclidean distance of the original series when the segments tile the series exactly.',
  ['inputs', 'configurations'], 'every dataset, number of segments dividing the length or not, alphabet size and scaling option',
  'Tests check a few 1-d arrays; segment arithmetic and lower bounds are over all lengths and parameters.',
  ['tslearn/piecewise/piecewise.py', M + 'cysax.py', M + 'sax.py'],
  [('segment kernels', M + 'cysax.py:cydist_sax, cyslopes, cydist_1d_sax, inv_transform_paa, inv_transform_sax, inv_transform_1d_sax'),
   ('transformers', 'tslearn/piecewise/piecewise.py')],
  ['tslearn.piecewise'])

p('P14', 'Barycenters are means under their alignment and never worsen the objective',
  'The Euclidean barycenter is the weighted mean; each DBA update is the weighted mean of the points aligned to it, so for fixed weights the '
  'weighted DTW objective never increases from one iteration to the next, and the soft-DTW barycenter minimises the weighted sum of '
  'soft-DTW values with exact gradients. A single series (or identical series) is its own Euclidean or DTW barycenter.',
  ['inputs', 'configurations', 'histories'], 'every dataset, weights, size, iteration count',
  'Tests check a couple of stored results; monotonicity and mean identities are for every dataset and weight vector.',
  ['tslearn/barycenters/dba.py', 'tslearn/barycenters/softdtw.py', 'tslearn/barycenters/euclidean.py'],
  [('assignment and valence/warping matrices', 'tslearn/barycenters/dba.py:_mm_assignment, _mm_valence_warping, _mm_update_barycenter, _subgradient_update_barycenter'),
   ('soft objective', 'tslearn/barycenters/softdtw.py:_softdtw_func')],
  ['tslearn.barycenters'])

p('P15', 'Clustering outputs are mutually consistent and deterministic',
  'After fitting, every label is a valid cluster index, each series is assigned to a nearest center under the configured metric, the reported '
  'inertia is the one of the reported labels and centers, and predicting the training data returns the fitted labels (for kernel k-means once it has '
  'converged, for k-shape on z-normalised data). With a fixed random state and '
  'the same data, results are reproducible and independent of the number of workers.',
  ['inputs', 'configurations', 'histories'], 'every dataset, number of clusters, metric, seed, worker count',
  'Tests fit a few random datasets and check some attributes; consistency must hold for every fit.',
  ['tslearn/clustering/kmeans.py', 'tslearn/clustering/kshape.py', 'tslearn/clustering/utils.py'],
  [('assignment and inertia', 'tslearn/clustering/kmeans.py:_assign, _kmeans_init_shared, fit, predict; tslearn/clustering/utils.py:_compute_inertia'),
   ('silhouette', 'tslearn/clustering/utils.py:silhouette_score'),
   ('shape extraction', 'tslearn/clustering/kshape.py')],
  ['tslearn.clustering'])

p('P16', 'Nearest-neighbour queries return the true nearest series',
  'A neighbours query returns, for every query series, the k training series with smallest metric value in non-decreasing order with their '
  'exact distances, excluding the query itself when querying the training set without data; classifiers and regressors vote or average exactly '
  'those neighbours.',
  ['inputs', 'configurations'], 'every training set, query, k, metric (including precomputed) and weights option',
  'Tests compare a few datasets; the ordering property is universal.',
  ['tslearn/neighbors/neighbors.py'],
  [('neighbour search', 'tslearn/neighbors/neighbors.py:KNeighborsTimeSeriesMixin.kneighbors, _ts_metric'),
   ('estimators', 'tslearn/neighbors/neighbors.py:KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor')],
  ['tslearn.neighbors'])

p('P17', 'NumPy and PyTorch backends compute the same values',
  'Every metric and mask offered on several backends returns the same value (up to floating-point rounding), the same path up to ties, and '
  'the same errors whichever backend is selected, explicitly or through the input type, and never modifies its inputs.',
  ['inputs', 'configurations'], 'every metric, parameters and input on both backends',
  'Tests compare backends on a few inputs; equality is over all inputs and parameters.',
  [M + 'utils.py', M + '_masks.py', M + 'soft_dtw_fast.py', M + 'dtw_variants.py', 'tslearn/backend/pytorch_backend.py'],
  [('backend-generic twins of compiled kernels', M + 'utils.py:_torch_acc_matrix_from_dist_matrix; ' + M + 'soft_dtw_fast.py:_soft_dtw; ' + M + 'dtw_variants.py'),
   ('backend adapters', 'tslearn/backend/pytorch_backend.py, tslearn/backend/numpy_backend.py')],
  ['tslearn.metrics'])

p('P18', 'A saved model reloads to an equivalent model',
  'Saving a fitted estimator to any supported format and loading it back gives an estimator with the same parameters and fitted state, '
  'whose predictions, distances and transforms on any data equal the original ones; saving does not alter the estimator.',
  ['inputs', 'configurations', 'histories'], 'every serialisable estimator, parameter setting, training set and format',
  'Tests round-trip a few default-parameter models.',
  ['tslearn/bases/bases.py', 'tslearn/hdftools/hdf5.py' if False else 'tslearn/hdftools/hdftools.py'],
  [('encoding and decoding', 'tslearn/bases/bases.py:BaseModelPackage'), ('hdf5 layout', 'tslearn/hdftools/hdftools.py:save_dict, load_dict')],
  ['tslearn.bases.BaseModelPackage'])

p('P19', 'Matrix profile is the exact nearest-neighbour profile of subsequences',
  'The profile value at each start position is the smallest distance (z-normalised or not, as configured) between that subsequence and any other '
  'non-trivially-overlapping subsequence of the same series, for every implementation option; padding of shorter series takes no part.',
  ['inputs', 'configurations'], 'every series, subsequence length and scaling option',
  'Tests compare one example between implementations.',
  ['tslearn/matrix_profile/matrix_profile.py'],
  [('profile computation', 'tslearn/matrix_profile/matrix_profile.py:MatrixProfile._transform')],
  ['tslearn.matrix_profile.MatrixProfile'])

p('P20', 'Shapelet transforms are minimal sliding distances to learned shapelets',
  'The shapelet transform of a series is, for each shapelet, the smallest mean squared distance between the shapelet and any window of the '
  'series, located at the reported position, ignoring padding; class probabilities are consistent with predicted labels, and reported parameters '
  '(shapelets, sizes) are the ones used.',
  ['inputs', 'configurations'], 'every fitted model and input series',
  'Tests check shapes and one location; the identity is for every series and shapelet.',
  ['tslearn/shapelets/shapelets.py'],
  [('local distance layer', 'tslearn/shapelets/shapelets.py:LocalSquaredDistanceLayer'),
   ('location', 'tslearn/shapelets/shapelets.py:LearningShapelets.locate, transform')],
  ['tslearn.shapelets.LearningShapelets'])

p('P21', 'Forecasting models difference, recurse and invert consistently',
  'Differencing followed by the inverse operation restores the original values, one-step and multi-step forecasts follow the fitted '
  'autoregressive recursion exactly, multi-step forecasts equal iterated one-step forecasts, and neither fitting nor predicting changes the caller data.',
  ['inputs', 'configurations', 'histories'], 'every dataset, order (p, d, q), horizon',
  'Tests check shapes and a toy example.',
  ['tslearn/forecasting/_arima.py'],
  [('difference / inverse', 'tslearn/forecasting/_arima.py:_difference, _undifference'),
   ('recursion', 'tslearn/forecasting/_arima.py:_varma_next')],
  ['tslearn.forecasting.VARIMA'])

p('P22', 'Early classification decisions follow the fitted expected-cost rule',
  'The early classifier stops a series at the first time whose expected cost is minimal among the remaining times, predicts with the classifier '
  'trained for that prefix length, and reports probabilities, times and cost consistent with those decisions; cluster-membership '
  'probabilities sum to one.',
  ['inputs', 'configurations'], 'every fitted model and series, including truncated ones',
  'Tests compare stored outputs on one dataset.',
  ['tslearn/early_classification/early_classification.py'],
  [('expected cost', 'tslearn/early_classification/early_classification.py:_expected_costs, get_cluster_probas, _predict_single_series')],
  ['tslearn.early_classification.NonMyopicEarlyClassifier'])

p('P23', 'CTW and normalised cross-correlation measures satisfy their definitions',
  'Normalised cross-correlation is the full sliding inner product divided by the product of norms, so its values lie in [-1, 1]; its pairwise '
  'distance is the minimum over shifts and zero shift alignment reproduces the series. Canonical time warping returns the DTW cost and path of '
  'the canonically projected series.',
  ['inputs', 'configurations'], 'every pair of series, lengths, dimensions, iteration and component settings',
  'Tests check one toy call.',
  [M + 'cycc.py', M + 'ctw.py'],
  [('cross-correlation', M + 'cycc.py:normalized_cc, cdist_normalized_cc, y_shifted_sbd_vec'), ('CTW', M + 'ctw.py:ctw_path, ctw')],
  ['tslearn.metrics.ctw', 'tslearn.metrics.cycc'])

p('P24', 'Calls never modify caller data, and repeated calls agree',
  'No metric, transformer, estimator method, dataset utility or plotting-free helper modifies the arrays, lists or parameter dictionaries '
  'passed by the caller, and calling the same operation twice on the same inputs (with a fixed random state) returns equal results.',
  ['inputs', 'configurations', 'histories'], 'every public call and input layout (views, Fortran order, lists, read-only arrays)',
  'Tests rarely compare inputs before and after; the frame condition is over all calls.',
  [M + 'utils.py', 'tslearn/utils/utils.py', 'tslearn/preprocessing/preprocessing.py', 'tslearn/forecasting/_arima.py'],
  [('defensive copies', 'tslearn/utils/utils.py:to_time_series_dataset(copy)'), ('kernels writing only to fresh arrays', M + '*')],
  ['tslearn public API'])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))

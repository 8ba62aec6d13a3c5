"""Writes /verif/properties.jsonl (kept as Python so the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=over, text=" ".join(qtext.split())),
             why_tests_cant=" ".join(why.split()),
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

M = "tslearn/metrics/"
SAMPLE = "The tests pin a handful of concrete series; the claim ranges over all real-valued series of every length pair and dimension."

prop("M01", "DTW returns the cost of a cheapest warping path",
 """For any two non-empty series of equal dimension, dtw equals the square root of the smallest sum of squared
 Euclidean point distances over all warping paths (start at both firsts, end at both lasts, steps of 0/1 in each
 series). dtw_path returns that same value together with a valid warping path whose own cost attains it,
 also when several paths tie; trailing NaN padding never changes the result and the inputs are not modified.""",
 ["inputs"], "all real values of both series, all length pairs and dimensions, ties included",
 SAMPLE + " Ties and unequal lengths are hit by luck only.",
 [M+"_dtw.py", M+"utils.py", "tslearn/utils/utils.py"],
 [("accumulated cost recurrence", M+"_dtw.py:_njit_accumulated_matrix"), ("backtracking", M+"utils.py:_compute_path_generic")],
 observe=["tslearn.metrics.dtw", "tslearn.metrics.dtw_path"])

prop("M02", "Global constraints admit exactly the documented cells",
 """Under a Sakoe-Chiba constraint of radius r, or an Itakura constraint of maximum slope s, dtw, dtw_path,
 frechet, lcss and their variants only ever match index pairs inside the documented band or parallelogram and
 optimise over all warping paths inside it. The constraint is taken from global_constraint when given and
 otherwise inferred from the single parameter that is set; when both parameters are set without
 global_constraint, or the parallelogram is infeasible, a RuntimeWarning is raised rather than a value returned.""",
 ["inputs", "configurations"], "all series values, all length pairs, all radii and slopes >= 1, all ways of requesting a constraint",
 "Tests check one or two small masks and few constrained distances; the inference rules and non-square sizes are combinatorial.",
 [M+"_masks.py", M+"_dtw.py", M+"_frechet.py", M+"dtw_variants.py"],
 [("mask construction", M+"_masks.py:_compute_mask_generic"), ("mask use in recurrences", M+"_dtw.py:_njit_accumulated_matrix")],
 observe=["tslearn.metrics.sakoe_chiba_mask", "tslearn.metrics.itakura_mask", "tslearn.metrics.compute_mask", "tslearn.metrics.dtw_path"])

prop("M03", "DTW from a metric or a precomputed matrix is optimal for that cost",
 """dtw_path_from_metric returns a valid warping path and a value equal to the sum of the given ground costs along it,
 which is minimal over all admissible warping paths, for a ground metric name, a callable metric and a precomputed
 cost matrix alike. A precomputed matrix is left unmodified, and a global constraint restricts the path to its band.""",
 ["inputs", "configurations"], "all real cost matrices / series values of each shape, constraint settings",
 "Tests evaluate one metric on one pair of series; arbitrary cost matrices (asymmetric, tied) are never explored.",
 [M+"_dtw.py", M+"utils.py", M+"_masks.py"],
 [("accumulation from a cost matrix", M+"_dtw.py:_njit_acc_matrix_from_dist_matrix"), ("backtracking", M+"utils.py:_compute_path_generic")],
 observe=["tslearn.metrics.dtw_path_from_metric"])

prop("M04", "Length-limited DTW is optimal among paths of bounded length",
 """dtw_limited_warping_length(s1, s2, L) is the square root of the cheapest squared-distance sum over warping paths with at most L
 index pairs, and raises ValueError when L is below the longer length. The path variant returns a valid path with at
 most L pairs whose cost is exactly that value; when L does not bind, the value equals dtw.""",
 ["inputs", "configurations"], "all series values, length pairs and limits L",
 "The tests compare against dtw for non-binding limits and one binding example; binding limits interact with every position of the optimum.",
 [M+"dtw_variants.py"],
 [("length-indexed costs", M+"dtw_variants.py:_limited_warping_length_cost"), ("backtracking", M+"dtw_variants.py:_return_path_limited_warping_length")],
 observe=["tslearn.metrics.dtw_limited_warping_length", "tslearn.metrics.dtw_path_limited_warping_length"])

prop("M05", "Subsequence DTW finds the cheapest window match",
 """dtw_subsequence_path returns the smallest DTW distance between the query and any contiguous window of the long series,
 with a path that matches the whole query to one such window and has exactly that cost. subsequence_cost_matrix gives,
 for every prefix of the query and end index, the cheapest alignment cost ending there, and subsequence_path backtracks an
 alignment of that cost from any chosen end index.""",
 ["inputs"], "all real values of query and long series, all length pairs, every end index",
 SAMPLE,
 [M+"dtw_variants.py"],
 [("open-begin recurrence", M+"dtw_variants.py:_njit_subsequence_cost_matrix"), ("backtracking", M+"dtw_variants.py:_njit_subsequence_path")],
 observe=["tslearn.metrics.dtw_subsequence_path", "tslearn.metrics.subsequence_cost_matrix", "tslearn.metrics.subsequence_path"])

prop("M06", "LB_Keogh never exceeds the banded DTW it bounds",
 """lb_envelope returns at each index the minimum and maximum of the series over the window of the given radius clipped to
 the series. For equal-length univariate series, lb_keogh with that radius is the distance from the query to the candidate's
 envelope and never exceeds dtw under a Sakoe-Chiba band of the same radius, whether the envelope is precomputed or not.""",
 ["inputs", "configurations"], "all real series of equal length and all radii",
 "A lower bound is universally quantified over pairs of series; tests check a few numeric values.",
 [M+"dtw_variants.py"],
 [("envelope", M+"dtw_variants.py:_njit_lb_envelope"), ("bound", M+"dtw_variants.py:lb_keogh")],
 observe=["tslearn.metrics.lb_keogh", "tslearn.metrics.lb_envelope"])

prop("M07", "LCSS similarity is a longest admissible common subsequence",
 """lcss equals the length of a longest strictly increasing sequence of index pairs that lie inside the global constraint and
 whose Euclidean point distance is at most eps, divided by the shorter length. lcss_path and lcss_path_from_metric terminate
 and return that value with such a sequence of matched pairs of exactly that length.""",
 ["inputs", "configurations"], "all series values, length pairs, thresholds eps, constraints",
 "Tests use a few sequences without ties at the threshold and with hardly any constraint; backtracking has input-dependent termination.",
 [M+"dtw_variants.py", M+"_masks.py"],
 [("match-count recurrence", M+"dtw_variants.py:njit_lcss_accumulated_matrix"), ("backtracking", M+"dtw_variants.py:_return_lcss_path")],
 observe=["tslearn.metrics.lcss", "tslearn.metrics.lcss_path", "tslearn.metrics.lcss_path_from_metric"])

prop("M08", "Discrete Frechet distance is the minimax path cost",
 """frechet equals the minimum over warping paths of the largest Euclidean point distance along the path, restricted to the
 global constraint when one is set. frechet_path and frechet_path_from_metric return a valid admissible warping path whose
 largest ground cost is exactly the returned value.""",
 ["inputs", "configurations"], "all series values, cost matrices, length pairs and constraints",
 SAMPLE + " Minimax costs tie almost everywhere, so backtracking decisions are exercised unevenly.",
 [M+"_frechet.py", M+"utils.py"],
 [("minimax recurrence", M+"_frechet.py"), ("backtracking", M+"utils.py:_compute_path_generic")],
 observe=["tslearn.metrics.frechet", "tslearn.metrics.frechet_path", "tslearn.metrics.frechet_path_from_metric"])

prop("M09", "Cross-distance matrices hold exactly the pairwise values",
 """Every entry (i, j) of cdist_dtw, cdist_frechet, cdist_soft_dtw, cdist_gak, cdist_ctw, and cdist_normalized_cc equals the
 corresponding two-series function on series i and j with the same parameters, constraints included, for datasets with
 unequal lengths as well. Omitting the second dataset gives the same matrix as passing the first one twice, and the result
 does not depend on n_jobs.""",
 ["inputs", "configurations", "schedules"], "all datasets (values, counts, lengths), constraint/gamma/sigma settings, n_jobs and task completion orders",
 "Tests compare cdist with pairwise values on one dataset with default parameters; parameter forwarding and triangle mirroring are untested for most settings.",
 [M+"utils.py", M+"_dtw.py", M+"_frechet.py", M+"_soft_dtw.py", M+"_gak.py", M+"ctw.py", M+"cycc.py"],
 [("shared cdist loop and mirroring", M+"utils.py:_cdist_generic")],
 observe=["tslearn.metrics.cdist_dtw", "tslearn.metrics.cdist_frechet", "tslearn.metrics.cdist_soft_dtw", "tslearn.metrics.cdist_gak"])

prop("M10", "soft-DTW is the soft-minimum over all alignments",
 """For gamma > 0, soft_dtw equals -gamma*log of the sum over all warping paths of exp(-cost/gamma), hence never exceeds the
 squared dtw, and for gamma = 0 it equals the squared dtw; cdist_soft_dtw agrees with it for every gamma > 0.
 soft_dtw_alignment returns the same value with the matrix whose entries are the expected use of each index pair.
 cdist_soft_dtw_normalized is sd(x,y) - (sd(x,x)+sd(y,y))/2.""",
 ["inputs", "configurations"], "all series values, length pairs and gamma >= 0",
 SAMPLE + " Soft-minimum and alignment are only compared with stored numbers.",
 [M+"_soft_dtw.py", M+"softdtw_variants.py", M+"soft_dtw_fast.py"],
 [("soft-min recurrence", M+"_soft_dtw.py"), ("alignment backward pass", M+"_soft_dtw.py")],
 observe=["tslearn.metrics.soft_dtw", "tslearn.metrics.soft_dtw_alignment", "tslearn.metrics.cdist_soft_dtw", "tslearn.metrics.cdist_soft_dtw_normalized"])

prop("M11", "soft-DTW gradients are the derivatives of soft-DTW",
 """SoftDTW(D, gamma).compute() returns the soft-minimum alignment cost of the cost matrix D and grad() the matrix of its partial
 derivatives with respect to each entry of D. SquaredEuclidean computes the pairwise squared distances of two series and its
 jacobian_product is the exact chain rule, so that together they give the derivative of soft-DTW with respect to each point of
 the first series.""",
 ["inputs", "configurations"], "all cost matrices / series values, shapes and gamma > 0",
 "Tests compare a gradient with finite differences at a random point.",
 [M+"softdtw_variants.py", M+"soft_dtw_fast.py"],
 [("forward and backward recurrences", M+"soft_dtw_fast.py"), ("chain rule", M+"softdtw_variants.py:SquaredEuclidean")],
 observe=["tslearn.metrics.SoftDTW", "tslearn.metrics.SquaredEuclidean"])

prop("M12", "GAK is the normalised global alignment kernel",
 """unnormalized_gak(s1, s2, sigma) is the sum over all warping paths of the product of local kernels k/(2-k), k the Gaussian
 kernel exp(-d^2/(2 sigma^2)); gak is that value divided by the geometric mean of the two self-values, so gak(x, x) = 1 and
 gak is symmetric. cdist_gak agrees with gak for one or two datasets.""",
 ["inputs", "configurations"], "all series values, lengths, dimension and sigma > 0",
 "Tests compare a few stored numbers; normalisation across unequal lengths is not explored.",
 [M+"_gak.py"], [("kernel recurrence", M+"_gak.py"), ("normalisation", M+"_gak.py")],
 observe=["tslearn.metrics.gak", "tslearn.metrics.unnormalized_gak", "tslearn.metrics.cdist_gak"])

prop("M13", "Normalised cross-correlation equals its time-domain definition",
 """The normalised cross-correlation of two equal-length series equals, at every shift from -(n-1) to n-1, their
 sliding inner product summed over dimensions divided by the product of their norms (all-zero series included); the shape-based distance
 derived from it takes the best shift, and aligning a series on a reference shifts it by that best shift with zero
 padding.""",
 ["inputs"], "all real series of each length and dimension, zero series included",
 "Tests compare a few numbers; FFT padding, shift sign and the zero-norm case depend on length and data.",
 [M+"cycc.py"], [("FFT cross-correlation", M+"cycc.py:normalized_cc"), ("alignment", M+"cycc.py:y_shifted_sbd_vec")],
 observe=["tslearn.metrics.cdist_normalized_cc", "tslearn.metrics.y_shifted_sbd_vec"])

prop("M14", "CTW's score is that of the alignment it returns",
 """ctw_path returns a valid warping path and a score equal to the square root of the DTW cost of that path after both series
 are projected by the returned correlation-analysis object, and ctw returns the same score. For a fixed projection the path is optimal.""",
 ["inputs", "configurations"], "all series and all behaviours of the CCA fit (treated as an arbitrary projection), all iteration limits",
 "CCA output is data dependent; tests check shapes and one value.",
 [M+"ctw.py"], [("alternating loop", M+"ctw.py:ctw_path")], observe=["tslearn.metrics.ctw_path", "tslearn.metrics.ctw"])

prop("M15", "Forecast error metrics follow their definitions",
 """The forecasting error metrics (mean absolute, mean squared, and mean absolute scaled error) equal their textbook formulas averaged
 over series, timestamps and features according to the multioutput option, are zero exactly for perfect forecasts, and reject shape
 mismatches.""",
 ["inputs", "configurations"], "all true/predicted values, shapes and averaging options",
 "Tests evaluate stored examples for a few options.",
 [M+"performance.py"], [("aggregation", M+"performance.py")])

prop("U01", "Time series containers preserve every value",
 """Converting any mix of lists, arrays and padded arrays with to_time_series / to_time_series_dataset keeps every value at its
 index, pads shorter series with NaN at the end only, never truncates a non-NaN value, and is idempotent; ts_size counts up to the last
 row that is not entirely NaN and check_equal_size is true exactly when all sizes agree. Inputs are never modified.""",
 ["inputs"], "all datasets: values, lengths, dimensions, NaN placement, univariate and multivariate forms",
 "Tests use a few hand-written datasets; NaN placement inside/at the end of multivariate rows is combinatorial.",
 ["tslearn/utils/utils.py"], [("padding", "tslearn/utils/utils.py:to_time_series_dataset"), ("size", "tslearn/utils/utils.py:_ts_size")],
 observe=["tslearn.utils.to_time_series", "tslearn.utils.to_time_series_dataset", "tslearn.utils.ts_size"])

prop("U02", "Format conversions round-trip",
 """Converting a dataset to another library's layout (sktime, pyts, seglearn, stumpy, tsfresh, cesium, pyflux) and back gives the
 same dataset, each value staying with its series, timestamp and feature, whatever the row labels or ids of the other layout and with its time order. Text serialisation of series round-trips the values,
 lengths and dimensions exactly.""",
 ["inputs"], "all datasets in the layout's domain: values, counts, lengths, dimensions",
 "Tests round-trip one fixed dataset per format, with default indices and equal lengths.",
 ["tslearn/utils/cast.py", "tslearn/utils/utils.py"], [("layout code", "tslearn/utils/cast.py")])

prop("T01", "Scalers map each series to the documented range or moments",
 """TimeSeriesScalerMinMax maps every non-constant series (per feature or over all features) affinely onto exactly the requested value range,
 and TimeSeriesScalerMeanVariance to exactly the requested mean and standard deviation, ignoring NaN padding, which stays in place;
 constant series yield finite values. With per_timeseries=False the statistics are those of the fitted dataset and are reused on new data;
 order of values is preserved and inputs are not modified.""",
 ["inputs", "configurations", "histories"], "all datasets (values, lengths, features), ranges, mu/std and flag combinations, fit/transform sequences",
 "Tests check a few arrays; flag combinations with padding and constant features are not covered.",
 ["tslearn/preprocessing/preprocessing.py"], [("scaling", "tslearn/preprocessing/preprocessing.py")])

prop("T02", "Resampling and imputation keep what they must keep",
 """TimeSeriesResampler returns series of exactly the requested length that linearly interpolate each original series over its own
 (unpadded) time span: endpoints are preserved and resampling to the same length is the identity. TimeSeriesImputer replaces exactly the missing
 values before the end of each series according to the chosen method (ffill, bfill, linear, mean, median, constant, a callable), leaves every observed
 value and, by default, trailing padding unchanged, leaves missing a value that the method cannot compute, and does not modify its input.""",
 ["inputs", "configurations"], "all series values, NaN patterns, lengths, target sizes and methods",
 "NaN patterns are combinatorial; tests check a couple per method.",
 ["tslearn/preprocessing/preprocessing.py"], [("resampling", "tslearn/preprocessing/preprocessing.py"), ("imputation", "tslearn/preprocessing/preprocessing.py")])

prop("X01", "PAA and SAX encode segment means and breakpoint bins",
 """PiecewiseAggregateApproximation encodes each series as the means of its equal-width segments and inverse_transform repeats each mean over its
 segment. SymbolicAggregateApproximation maps each segment mean to the index of the Gaussian-quantile interval containing it, so
 symbols lie in range and are monotone in the mean; inverse_transform yields the representative of that interval. Each series'
 encoding depends on that series only, given the statistics of the fitted data when scale is set.""",
 ["inputs", "configurations"], "all series values, lengths, dimensions, segment counts and alphabet sizes",
 "Values exactly on a breakpoint, multivariate data and segment/length combinations are not covered by examples.",
 ["tslearn/piecewise/piecewise.py", M+"cysax.py", M+"sax.py"], [("segment means", "tslearn/piecewise/piecewise.py"), ("binning", M+"cysax.py")])

prop("X02", "PAA and SAX distances lower-bound the Euclidean distance",
 """When the length is a multiple of the number of segments, the PAA distance between two series never exceeds their Euclidean
 distance, and the SAX distance between the symbols never exceeds the PAA distance between their segment means. distance(), distance_paa/distance_sax on encodings and cdist_sax
 agree, are symmetric and zero on identical series.""",
 ["inputs", "configurations"], "all series pairs, lengths divisible by the segment count, alphabet sizes",
 "A lower bound ranges over all pairs of series; tests check stored values.",
 ["tslearn/piecewise/piecewise.py", M+"cysax.py", M+"sax.py"], [("distances", M+"cysax.py")])

prop("X03", "1d-SAX encodes each segment's least-squares line",
 """OneD_SymbolicAggregateApproximation fits the least-squares line on each segment and encodes its mean value and slope by the
 Gaussian-quantile intervals containing them; symbols lie in range and are monotone in level and slope. inverse_transform
 rebuilds, on each segment, the line with the representative level and slope, and distance_1d_sax is the Euclidean distance between the two encoded
 piecewise-linear approximations.""",
 ["inputs", "configurations"], "all series values, lengths, dimensions, segment counts, alphabet sizes, slope scales",
 "Tests check stored outputs for one configuration.",
 ["tslearn/piecewise/piecewise.py", M+"cysax.py"], [("slopes", M+"cysax.py:cyslopes"), ("inverse", M+"cysax.py:inv_transform_1d_sax")])

prop("B01", "DTW barycenter averaging never increases its objective",
 """One iteration of dtw_barycenter_averaging (Petitjean and Majorization-Minimization variants) returns the weighted mean of all points aligned
 to each barycenter position by optimal DTW alignments, so the weighted sum of squared DTW to the dataset never increases from one
 iteration to the next, constraints given in metric_params being used throughout; the subgradient variant moves by its step along the weighted subgradient, and iteration stops as the
 tolerance and iteration limits say, for any n_jobs. A dataset of one series is its own barycenter, all-equal weights equal no weights, and the initial barycenter, dataset and weights
 are not modified.""",
 ["inputs", "configurations", "histories"], "all datasets, weights, initial barycenters, iteration counts and constraint settings",
 "Monotone descent is a universally quantified inequality; tests check shapes and one example.",
 ["tslearn/barycenters/dba.py"], [("assignment and update", "tslearn/barycenters/dba.py")])

prop("B02", "Euclidean and soft-DTW barycenters optimise the stated objective",
 """euclidean_barycenter is the weighted mean at each timestamp. softdtw_barycenter minimises the weighted sum of soft-DTW discrepancies: the objective
 and gradient it hands to the optimiser are exactly that sum and its derivative, and weights and init are honoured.""",
 ["inputs", "configurations"], "all datasets, weights, gamma and initial barycenters",
 "Objective/gradient consistency is not tested except through convergence of one run.",
 ["tslearn/barycenters/softdtw.py", "tslearn/barycenters/euclidean.py"], [("objective", "tslearn/barycenters/softdtw.py:_softdtw_func")])

prop("C01", "k-means labels, inertia and predictions are consistent",
 """After TimeSeriesKMeans.fit, every label is the index of a nearest cluster center under the model's metric, inertia is the mean of the
 corresponding (squared for euclidean/DTW) distances to the assigned centers, no cluster is reported empty, and predict on the training data returns the labels.
 Among n_init runs the one with the smallest inertia is kept, a refit depends only on its own data and parameters, and the input is not modified.""",
 ["inputs", "configurations", "histories"], "all datasets, initial centers, seeds, metrics, iteration limits and refit histories",
 "Tests fit a few random datasets; consistency must hold at any stopping point of the iteration.",
 ["tslearn/clustering/kmeans.py", "tslearn/clustering/utils.py"], [("assignment", "tslearn/clustering/kmeans.py:TimeSeriesKMeans._assign"), ("init selection", "tslearn/clustering/kmeans.py:fit")])

prop("C02", "KShape and KernelKMeans predictions agree with their fitted state",
 """KShape's labels after fit are those predict gives on the training data, and each prediction is the cluster whose center has the smallest shape-based distance to
 the (z-normalised) series. KernelKMeans assigns a series to the cluster of largest weighted mean kernel value, so that labels at convergence are
 those predict gives on the training data. Predictions do not depend on the other series of the batch. User-supplied parameter dictionaries are not modified
 and a refit does not reuse state of an earlier fit.""",
 ["inputs", "configurations", "histories"], "all datasets, batches, seeds, kernels and refit histories",
 "Tests predict on the training set only.",
 ["tslearn/clustering/kshape.py", "tslearn/clustering/kmeans.py"], [("shape distances", "tslearn/clustering/kshape.py"), ("kernel distances", "tslearn/clustering/kmeans.py:KernelKMeans")])

prop("C03", "DBSCAN labels are the density-connected clusters",
 """After TimeSeriesDBSCAN.fit, the core series are those with at least min_ts series (itself included) within eps under the configured metric and its parameters, core
 series connected by such neighbourhoods share a label, a border series has the label of a core neighbour, every other series is
 noise (-1), and core_ts_indices_ and components_ describe the core series. silhouette_score uses the distances of the named metric with its parameters, a callable or the given matrix.
 Inputs, also a precomputed matrix, are not modified and an earlier fit leaves no trace.""",
 ["inputs", "configurations", "histories"], "all datasets (values, lengths), metrics and parameters, eps, min_ts and refit histories",
 "Tests fit one dataset per metric; which series are core, border or noise depends on all pairwise distances.",
 ["tslearn/clustering/dbscan.py", "tslearn/clustering/utils.py"], [("neighbourhoods", "tslearn/clustering/dbscan.py"), ("silhouette", "tslearn/clustering/utils.py:silhouette_score")])

prop("K01", "k-nearest-neighbour queries return the nearest series",
 """kneighbors returns for each query the k training series of smallest distance under the configured metric and parameters, in non-decreasing distance order with
 the exact distances; without a query set a training series is not its own neighbour. predict gives the majority class, or mean target, of those neighbours, weighted by inverse
 distance on request. For the sax metric SAX is fitted on the training series. The answer for a query does not depend on the
 other queries in the batch, on n_jobs, or on models fitted or parameters used earlier.""",
 ["inputs", "configurations", "histories", "schedules"], "all training/query sets, metrics and metric parameters, batch compositions, fit/set_params histories",
 "Tests use one dataset per metric and a single batch; state left from earlier fits and batch dependence are not examined.",
 ["tslearn/neighbors/neighbors.py"], [("query", "tslearn/neighbors/neighbors.py:KNeighborsTimeSeriesMixin.kneighbors"), ("fit", "tslearn/neighbors/neighbors.py:KNeighborsTimeSeriesClassifier.fit")])

prop("K02", "Kernel SVMs use one kernel for fitting and prediction",
 """TimeSeriesSVC and TimeSeriesSVR with kernel='gak' train on exactly the matrix of normalised GAK values between the training series
 and predict from the GAK values between the given series and the training series in training order, with the same bandwidth
 (gamma; for gamma='auto' the value gamma_soft_dtw estimates from the training data), for variable-length data too; the other kernels
 receive the flattened series, with gamma='auto' meaning 1 / n_features. The documented constructor parameters reach the underlying
 machine, sample weights included. support_vectors_ are training series in time series format. Refitting (also with other parameters)
 behaves like a fresh model, and parameters set without refitting leave the fitted kernel as it is; data and constructor parameters are never modified; a zero gamma is refused""",
 ["inputs", "configurations", "histories"], "all training/prediction sets, kernels, gamma values and refit histories",
 "Tests check that predictions run and serialise; that the prediction kernel is the training kernel is never checked.",
 ["tslearn/svm/svm.py"], [("kernel preprocessing", "tslearn/svm/svm.py:TimeSeriesSVMMixin._preprocess_sklearn")])

prop("E01", "Early classification predicts at the first accepted timestamp",
 """NonMyopicEarlyClassifier trains for every timestamp t from min_t on a classifier on the first t samples of one half of the data, and estimates on the other half P(prediction | true class, cluster)
 and on all data P(class | cluster). predict_class_and_earliness returns for each series the first timestamp at or after min_t at which the expected cost of deciding now (documented
 formula) is minimal over the remaining horizons, and the class given by that timestamp's classifier. The result for one series is unaffected by the other series or by values after the
 decision time; early_predict and the streaming generators report the current classifier's output and the expected wait for any prefix; early_classification_cost is error rate plus mean time cost.
 Cluster probabilities are always proper probabilities.""",
 ["inputs", "configurations", "histories"], "all classifier outputs on the held-out data, series values, horizons, min_t, lambda and cost coefficients, refits",
 "Tests compare predictions for a couple of fitted models.",
 ["tslearn/early_classification/early_classification.py"], [("decision rule", "tslearn/early_classification/early_classification.py:NonMyopicEarlyClassifier._expected_costs"), ("confusion rates", "tslearn/early_classification/early_classification.py:NonMyopicEarlyClassifier.fit")])

prop("Y01", "Matrix profile holds each window's nearest-neighbour distance",
 """MatrixProfile gives for each window of a series the smallest Euclidean distance to a window of the same series whose start differs by more than a quarter of the
 window length (rounded up), each window being z-normalised when scale is set (constant windows to zeros), and infinity when there is none. Windows over NaN padding match nothing, so that each series' profile is that of
 the series alone; the stumpy implementation honours scale too; the input is not modified.""",
 ["inputs", "configurations"], "all series values, lengths, window sizes and scale settings",
 "Tests compare two implementations on a random series.",
 ["tslearn/matrix_profile/matrix_profile.py"], [("distance matrix with exclusion zone", "tslearn/matrix_profile/matrix_profile.py")])

prop("F01", "VARIMA forecasts follow the fitted recursion",
 """VARIMA forecasts follow, under its fitted intercept_, ar_coeffs_ and ma_coeffs_ (the k-th for lag k), the vector ARMA recursion on the seasonally and d-times differenced data with zero future errors, and
 integrating back is the inverse of differencing, so the forecast continues the level, and trend, of each series. With q = 0 the coefficients of one series are its least-squares fit, and series that follow
 a recursion exactly are continued exactly. predict() equals predict on the training data, forecasting h steps is a prefix of forecasting h+1 steps, a series' forecast does not depend on
 the others or on NaN padding, and predict modifies neither its input nor the model.""",
 ["inputs", "configurations", "histories"], "all series values and lengths, coefficients, orders p, d, q, seasonal periods and horizons",
 "Tests only check shapes and convergence for small orders.",
 ["tslearn/forecasting/_arima.py"], [("undifferencing", "tslearn/forecasting/_arima.py:_undifference"), ("recursion", "tslearn/forecasting/_arima.py")])

prop("S01", "Saving and loading a model preserves its behaviour",
 """A fitted estimator saved with to_json, to_pickle or to_hdf5 (k-means, kernel k-means, k-shape, DBSCAN, the k-nearest-neighbor
 models, PAA / SAX / 1d-SAX, matrix profile) and loaded back has the same constructor parameters (nested dicts, None and strings included) and
 the same documented fitted attributes, with their shapes and values, and predicts, transforms and searches exactly as before, also when the
 loaded model is saved and loaded once more in another format. Saving leaves the model unchanged, never overwrites an existing HDF5 file and
 is refused for a model that is not fitted; loaded models are independent of the original""",
 ["inputs", "configurations"], "all fitted attribute values and constructor parameters of each serialisable estimator",
 "Tests compare predictions on a single dataset for default-like parameters.",
 ["tslearn/bases/bases.py", "tslearn/hdftools/hdftools.py"], [("export", "tslearn/bases/bases.py"), ("hdf5", "tslearn/hdftools/hdftools.py")])

prop("R01", "Numpy and PyTorch backends compute the same function",
 """Every metric that accepts a be argument (dtw, soft-DTW, normalised soft-DTW and soft alignments, LCSS, Frechet, GAK and its bandwidth estimate,
 envelopes, limited-length and subsequence DTW, their path, from-metric and cdist variants, the SoftDTW and SquaredEuclidean objects, masks, and to_time_series / to_time_series_dataset) returns with the PyTorch backend
 the value it returns with the NumPy backend on the same inputs, constraints and parameters, whether the backend is named or inferred from tensors. A returned path is valid, admissible and
 attains the value; inputs are left unmodified. SoftDTWLossPyTorch returns the (normalised) soft-DTW of each pair, and the gradient with respect to its distance matrix is the soft alignment.""",
 ["inputs", "configurations"], "all series values; lengths, constraints and parameters of the listed cases",
 "Tests compare backends at random points with default parameters.",
 ["tslearn/backend/pytorch_backend.py", "tslearn/backend/numpy_backend.py", M+"_dtw.py", M+"utils.py", M+"_soft_dtw.py", M+"_frechet.py", M+"_gak.py"], [("twin implementations", M+"utils.py:_torch_acc_matrix_from_dist_matrix")])

prop("N01", "Gradient-based training converges to a minimum of its loss",
 """Learning shapelets, training TimeSeriesMLP networks and SVM solvers end in parameters whose loss is not larger than at the start of training.""",
 ["inputs", "schedules"], "all datasets, seeds and optimiser states",
 "Floating-point optimisation run by Keras, scikit-learn and libsvm; tests train a few models.",
 ["tslearn/shapelets/shapelets.py", "tslearn/neural_network/neural_network.py"], [("keras training", "tslearn/shapelets/shapelets.py")])

prop("D01", "Dataset loaders return the archive's data unaltered",
 """UCR/UEA loaders return exactly the series and labels stored in the archive's files, split into train and test as shipped, and
 random generators return the documented shapes.""",
 ["inputs", "fault_sequences"], "all archives and download outcomes",
 "Needs network archives; tests use cached files.",
 ["tslearn/datasets/ucr_uea.py", "tslearn/datasets/cached.py"], [("download and parse", "tslearn/datasets/ucr_uea.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")

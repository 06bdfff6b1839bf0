"""Source of properties.jsonl and MANIFEST.json (see gen_meta.py)."""

TECHNIQUE = 'contracts on the real functions, VCs by symbolic execution of /repo, discharged by z3/cvc5'
NOTES = ('Every check imports /repo as it is and executes its functions twice: on symbolic arrays (deductive verification of the '
         'contract for all sizes and values) and on concrete inputs (replay, bounded stand-in, engine conformance). See DESIGN.md.')

W = 'weatherbenchX/'
REAL = 'Floats are reals with NaN/inf; xarray/numpy operations by assumed contracts, tested against the installed libraries on each run. '

PROPS = [
    dict(id='C01', title='Per-element deterministic errors and their derived metrics',
         statement='For every prediction and target, the error, absolute error, squared error, exceedance, relative intensity and wind-vector '
         'statistics are the stated function of the two values at the same labels, missing wherever either value is missing, and are produced '
         'only for variables both inputs have; a mask carried by either input is kept. RMSE-type metrics are the square root of the aggregated squared error, a perfect forecast scores '
         'zero, and |bias| <= MAE.',
         text='all array sizes, values, missing-value patterns, variable sets, dimension orders',
         why='The tests compare a few fixed arrays; they reach no missing-value pattern, dimension order or size other than those.',
         files=[W + 'metrics/deterministic.py', W + 'metrics/base.py'],
         mech=[('PerVariableStatistic.compute', W + 'metrics/base.py'), ('Error, AbsoluteError, SquaredError, ...', W + 'metrics/deterministic.py')],
         note=REAL),
    dict(id='C02', title='Aggregation computes exact weighted, binned, masked sums',
         statement='For every statistic, set of weights, bins and mask, the aggregator returns for each bin the sum over the reduced dimensions of '
         'weight*membership*value and the matching sum of weights, so their quotient is the weighted mean over the unmasked, in-bin elements. '
         'Masked-out elements contribute nothing whatever their value (also when missing); an unmasked missing value makes the result missing '
         'unless skipping missing values was requested, in which case it counts in neither sum. A variable lacking a reduced or binned dimension '
         'is dropped, never silently aggregated differently, and results are named <metric>.<variable>.',
         text='all array sizes, dimension orders, values, missing-value patterns, masks, weights, bins, and option combinations',
         why='Tests sample a handful of shapes with constant weights and masks; the claim is over every value in masked and unmasked positions.',
         files=[W + 'aggregation.py'],
         mech=[('Aggregator.aggregation_fn / aggregate_stat_var', W + 'aggregation.py'), ('AggregationState.mean_statistics / metric_values', W + 'aggregation.py')],
         note=REAL),
    dict(id='C03', title='Aggregation states combine exactly, whatever the chunking or order',
         statement='Summing aggregation states is associative and commutative with the empty state as identity; labels present in only some of the '
         'states are kept with their sums intact. Splitting the data into any chunks, aggregating each and summing gives the same state as '
         'aggregating everything at once, and reducing further dimensions afterwards equals reducing them in the first place, including for '
         'missing values. Conversion to a tree or flat dataset and back loses nothing.',
         over=['inputs', 'schedules'],
         text='all numbers, sizes and orders of chunks, all values and weights, overlapping or disjoint labels',
         why='Tests add two or three fixed states; associativity over any chunking is a universally quantified law.',
         files=[W + 'aggregation.py', W + 'xarray_tree.py'],
         mech=[('combining_sum, AggregationState.sum / sum_along_dims / map_multi', W + 'aggregation.py')],
         note=REAL + 'Label alignment by outer join is checked with a stated bound (concrete labels); the algebra over equal labels is proved. '),
    dict(id='C04', title='Grid-cell area weights are the true area fractions',
         statement='For every strictly monotonic latitude grid (either direction, poles included or not), the weight of each row is proportional to the '
         'area of the band between the midpoints to its neighbours, the outer edges being half a spacing beyond the last rows and clipped at the '
         'poles: non-negative, telescoping to the area of the whole covered band, following the rows when the grid is flipped, and with mean one '
         'when normalised. Data without the latitude dimension get weight one, and a non-monotonic grid is rejected.',
         text='all monotonic latitude vectors of every length, both directions',
         why='Tests use a few regular grids; the telescoping-sum argument is over every spacing and length.',
         files=[W + 'weighting.py'], mech=[('latitude_cell_bounds, cell_area_from_latitude, GridAreaWeighting.weights', W + 'weighting.py')],
         note=REAL + 'sin is an uninterpreted function that is odd, monotone on [-pi/2, pi/2] with sin(pi/2) = 1. '),
    dict(id='C05', title='Region, latitude, longitude and land masks select exactly their region',
         statement='A region mask is true exactly at points whose latitude lies in the closed latitude range and whose longitude lies in the closed '
         'longitude range going eastwards from its west to its east limit, for every longitude convention and for ranges crossing the date line. '
         'Land/sea bins are complementary, combined land regions are the intersection, the global bin covers everything, and latitude/longitude '
         'band bins cover the sphere with the stated band labels. A reversed latitude range is rejected.',
         text='all point positions, region limits, longitude conventions, grids and sparse points',
         why='Tests check a few regions on one grid; wraparound must hold for every pair of limits and every longitude representation.',
         files=[W + 'binning.py'], mech=[('_region_to_mask, Regions, LandSea, LatitudeBins, LongitudeBins', W + 'binning.py')],
         note=REAL),
    dict(id='C06', title='Coordinate, time and set bins classify every element correctly',
         statement='Each element falls into exactly the bins its coordinate value designates: half-open intervals between consecutive edges, equality '
         'for exact-value bins, calendar component or elapsed time for time bins, membership for set bins. Elements outside every edge fall in no '
         'interval bin, added complement bins contain exactly the remaining elements and added global bins contain all of them, and bin labels '
         'identify the bin.',
         text='all coordinate values, bin edges, calendars, sets and options',
         why='Tests sample a few coordinates; partition laws quantify over every value including edges and boundaries.',
         files=[W + 'binning.py'], mech=[('ByExactCoord, ByTimeUnit, ByCoordBins, BySets, ByTimeUnitFromSeconds, ByTimeUnitSets', W + 'binning.py')],
         note=REAL),
    dict(id='C07', title='Anomaly statistics use the climatology valid at the right time',
         statement='Anomaly statistics compare each prediction and target with the climatology of the day of year (and hour, if present) of its valid '
         'time and of its own location and level, whichever way the forecast encodes valid time. The anomaly correlation is the ratio of the '
         'aggregated covariance to the square root of the product of the aggregated squared anomalies, and the related variance-type metrics follow '
         'from the same aggregates, taken over the same elements: a mask carried by either input reaches all of them.',
         text='all valid times, leap years, init/lead layouts, climatology resolutions, array sizes and values',
         why='Tests use one climatology and a few dates; alignment must hold for every time and layout.',
         files=[W + 'metrics/deterministic.py', W + 'metrics/base.py'],
         mech=[('ACC, SquaredPredictionAnomaly, SquaredTargetAnomaly, AnomalyCovariance', W + 'metrics/deterministic.py')],
         note=REAL),
    dict(id='C08', title='Contingency-table counts partition the valid elements',
         statement='For every element with valid prediction and target exactly one of true positive, true negative, false positive and false negative '
         'is one and the rest zero, matching the two boolean events; elements with a missing side are missing in all four. The same holds per '
         'category for the multi-category versions, and a mask carried by either input is kept by all four.',
         text='all predictions, targets, missing patterns and sizes',
         why='Tests check one small table; the partition law is over all inputs including missing values.',
         files=[W + 'metrics/categorical.py'], mech=[('TruePositives, TrueNegatives, FalsePositives, FalseNegatives', W + 'metrics/categorical.py')],
         note=REAL),
    dict(id='C09', title='Categorical scores follow from the contingency table',
         statement='Every categorical score (CSI, accuracy, recall, precision, F1, frequency bias, ETS, Peirce skill, POFD and the like) equals its '
         'textbook formula on the aggregated true/false positive/negative rates, is undefined (missing) exactly when its denominator is zero, and '
         'stays in its textbook range.',
         text='all aggregated rate values including degenerate tables',
         why='Tests evaluate a few tables; formula identity and ranges quantify over every table.',
         files=[W + 'metrics/categorical.py'], mech=[('CSI, Accuracy, Recall, Precision, F1Score, FrequencyBias, ETS, ...', W + 'metrics/categorical.py')],
         note=REAL),
    dict(id='C10', title='SEEPS, ranked probability and reliability-type scores',
         statement='SEEPS assigns each forecast/observation category pair the published penalty for the local dry fraction and masks points whose dry '
         'fraction is out of range; a perfect forecast scores zero. The ranked probability score is the squared distance of the cumulative '
         'category probabilities, missing when an input is missing, and reliability counts put every element in exactly one probability bin. '
         'Statistics that are combined into one score keep a mask carried by either input.',
         text='all category assignments, dry fractions, climatology thresholds, probabilities and sizes',
         why='Tests evaluate a few precomputed numbers.',
         files=[W + 'metrics/categorical.py', W + 'metrics/probabilistic.py'],
         mech=[('SEEPSStatistic, RankedProbabilityScore, Reliability', W + 'metrics/categorical.py'), ('EnsembleRankedProbabilityScore', W + 'metrics/probabilistic.py')],
         note=REAL),
    dict(id='C11', title='Ensemble CRPS: fair and biased estimators, independent of method and order',
         statement='Ensemble CRPS equals mean |member - target| minus half the mean absolute difference between members, over distinct pairs for the fair '
         'estimator and all pairs otherwise; it does not depend on member order or on the algorithm used. With missing members skipped, each '
         'quantity is the one of the ensemble of present members; too few members are refused. The ensemble-of-targets form equals the energy '
         'distance with the same conventions on both sides. A mask carried by either input applies to the error and the spread alike.',
         text='all ensemble sizes, member orders, ties, missing members, values',
         why='Tests compare two algorithms on random arrays without ties or missing members.',
         files=[W + 'metrics/probabilistic.py'], mech=[('CRPSSkill, CRPSSpread, CRPSEnsemble, CRPSEnsembleDistance', W + 'metrics/probabilistic.py')],
         note=REAL + 'The sort-based algorithm is proved equal to the double sum, ranking body included, from the contract of np.argsort; the Wasserstein distance is bounded-checked. '),
    dict(id='C12', title='Ensemble mean, variance, spread and error statistics',
         statement='Ensemble mean, variance (unbiased), spread and debiased error statistics equal their definitions over the members, with the chosen '
         'handling of missing members and of a missing ensemble dimension; the unbiased ensemble-mean squared error subtracts variance/size. '
         'All are invariant under reordering members, and a mask carried by either input applies to all of them.',
         text='all ensemble sizes, member orders, missing patterns, values',
         why='Tests use expected values of fixed random arrays.',
         files=[W + 'metrics/probabilistic.py', W + 'metrics/wrappers.py'],
         mech=[('EnsembleVariance, EnsembleMeanSquaredError, UnbiasedEnsembleMeanSquaredError, SpreadSkillRatio', W + 'metrics/probabilistic.py')],
         note=REAL),
    dict(id='C13', title='Rank histograms and economic value',
         statement='The rank histogram of an element is a one-hot vector over ensemble size + 1 ranks, so it sums to '
         'one, and its position is the number of members strictly below the target, whatever the order of the members. Relative economic value equals its textbook expression in hit rates, '
         'base rate and cost/loss ratio, and never exceeds one.',
         text='all ensembles, ties, targets, cost/loss ratios',
         why='Tests use tie-free ensembles and large-sample statistics.',
         files=[W + 'metrics/probabilistic.py'], mech=[('RankHistogram, RelativeEconomicValue', W + 'metrics/probabilistic.py')],
         note=REAL),
    dict(id='C14', title='Input transforms do exactly what they say before scoring',
         statement='Each wrapper (thresholding, quantisation to intervals, ensemble mean or probability, shifting, selection, renaming, stacking, '
         'or a user function) applies its stated function to exactly the chosen input (prediction, target or both) and variables, '
         'keeps missing values missing, and leaves everything else unchanged.',
         text='all inputs, thresholds, missing patterns, transform chains and sizes',
         why='Tests check each wrapper on one small input.',
         files=[W + 'metrics/wrappers.py'], mech=[('InputTransform, WrappedStatistic, WrappedMetric, SubselectVariables', W + 'metrics/wrappers.py')],
         note=REAL),
    dict(id='C15', title='Each distinct statistic is computed once and reaches the right metric',
         statement='Statistics shared between metrics are computed once, and every metric receives exactly the aggregated value of the statistic it '
         'declared. Two statistics whose results can differ on some input never share an identity, so no metric is computed from the result of a '
         'differently configured statistic.',
         over=['configurations', 'inputs'],
         text='all sets of metrics and all their configuration parameters',
         why='Tests never combine differently configured instances of the same statistic in one evaluation.',
         files=[W + 'metrics/base.py', W + 'metrics/deterministic.py', W + 'metrics/probabilistic.py', W + 'metrics/categorical.py', W + 'metrics/wrappers.py'],
         mech=[('compute_unique_statistics_for_all_metrics, Statistic.unique_name', W + 'metrics/base.py')],
         note=REAL + 'Identity injectivity is checked over enumerated configuration pairs (bounded); routing is proved. '),
    dict(id='C16', title='Fractions skill score over neighbourhoods',
         statement='The neighbourhood fraction at a point is the mean of the event field over the window centred there; a point whose window leaves '
         'the domain (in latitude, or in longitude unless wrapping is requested) gets fraction zero, and under a validity mask is marked invalid, '
         'as is a point whose window contains an invalid point. FSS is one minus the mean squared fraction difference over the sum of the mean '
         'squared fractions: one for a perfect forecast and between zero and one.',
         text='all fields, window sizes, grids, wrap settings',
         why='Tests evaluate one field pair.',
         files=[W + 'metrics/spatial.py'], mech=[('FSS, neighborhood_averaging', W + 'metrics/spatial.py')],
         note=REAL + 'scipy.ndimage.convolve1d is used through an assumed contract (the weighted sum with periodic indexing); window sizes 1, 3, 5 are enumerated, everything else is universal. '),
    dict(id='C17', title='Predictions and targets are paired at the same valid time',
         statement='For every init time and lead time requested, the target loaded for a prediction is the one at valid time = init + lead, laid out with the '
         'same init/lead dimensions as the prediction, whether lead times are given explicitly or as a range. Times not available are reported, '
         'never replaced by others.',
         text='all init/lead time chunks, dataset layouts and time orders',
         why='Tests load a few aligned chunks.',
         files=[W + 'data_loaders/xarray_loaders.py', W + 'data_loaders/base.py'],
         mech=[('PredictionsFromXarray, TargetsFromXarray, ClimatologyFromXarray', W + 'data_loaders/xarray_loaders.py')],
         note=REAL),
    dict(id='C18', title='Loading pipeline applies its steps to exactly the requested data',
         statement='A loader returns exactly the requested variables and chunk, with renaming, preprocessing, selection, interpolation to the reference, '
         'derived coordinates and missing-value masks applied in the documented order. Each variable\'s mask marks an element valid '
         'exactly when its loaded value is present, and the source dataset and reference are never modified.',
         text='all variables, chunks, option combinations, missing patterns',
         why='Tests check options one at a time on one dataset.',
         files=[W + 'data_loaders/base.py', W + 'data_loaders/xarray_loaders.py'],
         mech=[('DataLoader.load_chunk, add_nan_mask_to_data', W + 'data_loaders/base.py')],
         note=REAL + 'Opening a dataset from a path and computing lazily loaded arrays are bounded. '),
    dict(id='C19', title='Latency wrappers never use forecasts not yet available',
         statement='With latency, the forecast used for a nominal init time is the most recent one available by then (init + latency <= query time), '
         'shifted so that valid times are unchanged; never a later one. Lead times and init times in the result are the requested ones, and the '
         'options of the wrapped loader apply.',
         text='all init times, lead times, latencies, forecast frequencies',
         why='Tests cover a few latencies on one dataset.',
         files=[W + 'data_loaders/latency_wrappers.py'],
         mech=[('ConstantLatencyWrapper, XarrayConstantLatencyWrapper, MultipleConstantLatencyWrapper', W + 'data_loaders/latency_wrappers.py')],
         note=REAL),
    dict(id='C20', title='Sparse observations are matched to the right time window',
         statement='Sparse observations returned for a requested valid time are exactly those whose observation time falls in the stated window around it '
         '(with the stated open/closed ends), each assigned to the init and lead time whose valid time it matches, none lost or duplicated.',
         text='all observation times, tolerances, partition layouts, init/lead chunks',
         why='There are no stable tests of the sparse loader.',
         files=[W + 'data_loaders/sparse_parquet.py'], mech=[('SparseObservationsFromParquet', W + 'data_loaders/sparse_parquet.py')],
         note=REAL + 'Tables are represented by arbitrary stored rows and loops over requested times and files by an arbitrary position (vc/rows.py); pandas, parquet filters and '
         'datetime64 rounding enter by assumed contracts, tested against real files on each run. An observation is stored in the file of a time at most file_tolerance from its own. '
         'List of files of an interval, refusals: bounded. '),
    dict(id='C21', title='Interpolation is exact at grid points and bounded by neighbours',
         statement='Interpolating gridded data to reference points returns the grid value at grid points, for linear interpolation the multilinear blend '
         'of the surrounding cells (also across the longitude seam when wrapping is on), for nearest the value of a nearest point. Values outside '
         'the grid follow the configured extrapolation rule, missing neighbours give missing results, and altitude adjustment shifts by the '
         'lapse rate times the height difference.',
         text='all grids, reference points, longitude conventions, missing patterns',
         why='Tests interpolate a few points.',
         files=[W + 'interpolations.py'], mech=[('InterpolateToReferenceCoords, InterpolateToFixedCoords, GridToSparseWithAltitudeAdjustment', W + 'interpolations.py')],
         note=REAL + 'The interpolation routines of xarray/scipy enter by an assumed contract (tested against them on each run); cropping and clipping are bounded. '),
    dict(id='C22', title='Time chunks partition the requested init and lead times',
         statement='Iterating over time chunks yields every (init time, lead time) pair of the request exactly once, in order, each chunk contiguous and at '
         'most the requested size; the number of chunks, indexed access and iteration agree, and reported offsets are the positions of the '
         'chunk in the whole. Invalid chunk sizes are rejected.',
         text='all numbers of times, chunk sizes (incl. none and larger than the data), iteration orders',
         why='Tests enumerate a few sizes.',
         files=[W + 'time_chunks.py'], mech=[('TimeChunks', W + 'time_chunks.py')],
         note='A list comprehension or loop over a range of symbolic length is executed for one arbitrary position (vc/loops.py); odd request types are bounded. '),
    dict(id='C23', title='The parallel pipeline gives the same result as direct evaluation',
         statement='Running the evaluation as a parallel pipeline gives, for every chunking and combination order, the same metric values and aggregated '
         'statistics as computing them directly on all data in one piece; no chunk is dropped, duplicated or misplaced.',
         over=['schedules', 'inputs', 'configurations'],
         text='all chunkings, combine orders and empty partial results',
         why='Tests run one chunking; the result must not depend on it or on worker scheduling.',
         files=[W + 'beam_pipeline.py', W + 'beam_utils.py', W + 'aggregation.py'],
         mech=[('CombiningSum accumulators, ComputeStatisticsAndAggregate...', W + 'beam_pipeline.py')],
         note=REAL + 'The pipeline-building code runs on symbolic data under an executor that respects only the Beam contract of each transform (any bundling, any combine order); the installed Beam runner is run too, with a stated bound on sizes. Statistics whose missing values are not skipped outside their own bin are excluded (documented limit of the aggregator). '),
    dict(id='C24', title='Output files appear complete or not at all',
         statement='Writing results to a file never leaves a partial file under the final name: at every point of failure the final path holds '
         'the previous content (or nothing) or the complete new content, and no temporary file remains after success. '
         'A failed write removes its temporary file, and simultaneous writers of the same path do not disturb each other.',
         over=['crash_points', 'inputs'],
         text='a failure at every system-visible step of the write, all payloads',
         why='There are no stable tests of the writer and none inject failures.',
         files=[W + 'beam_utils.py', W + 'beam_pipeline.py'], mech=[('atomic_write', W + 'beam_utils.py')],
         note='The file system is a ghost model (registered with fsspec) whose operations may each fail; moving within a directory is assumed atomic. Full interleavings and real files are bounded. '),
    dict(id='C25', title='t-test inference: errors, intervals and p-values are consistent',
         statement='Standard errors, confidence intervals and p-values of the t-test methods follow from the per-unit aggregates by the stated estimator '
         '(independent, lag-corrected or HAC), the interval at level 1-alpha excludes zero exactly when the p-value is below alpha, the interval '
         'is symmetric about the point estimate and widens with confidence, and the point estimate is the metric of the full aggregate.',
         text='all unit counts, values, weights, alphas and estimator options',
         why='Tests check coverage statistically on simulated data.',
         files=[W + 'statistical_inference/t_test.py', W + 'statistical_inference/autodiff.py', W + 'statistical_inference/base.py', W + 'statistical_inference/utils.py'],
         mech=[('IIDTTest, LazarusTTest and the other estimators', W + 'statistical_inference/t_test.py')],
         note=REAL),
    dict(id='C26', title='Bootstrap resamples are valid and intervals ordered',
         statement='Every bootstrap replicate is the metric of a resample of whole experimental units: resampled weights are non-negative counts (or '
         'cyclic blocks of consecutive units) totalling the number of units, identical for every statistic and variable within a replicate. Interval '
         'limits are ordered quantiles of the replicates, p-values lie in [0,1], and a fixed seed reproduces the result.',
         text='all unit counts, block lengths, replicate counts, seeds and values',
         why='Tests check coverage statistically for one configuration.',
         files=[W + 'statistical_inference/bootstrap.py'], mech=[('ClusterBootstrap, IIDBootstrap, StationaryBootstrap', W + 'statistical_inference/bootstrap.py')],
         note='The random generators enter by assumed contracts; p-values, seed reproducibility and the choice of block length are bounded.'),
    dict(id='C27', title='Baseline comparisons are differences of the same metric',
         statement='A comparison with a baseline evaluates the same metric on both aggregates over the same units and returns metric(main) minus metric('
         'baseline) (or the stated relative form), with both sides kept apart by name; comparing a system with itself gives zero.',
         text='all aggregates, metrics and variable sets',
         why='Tests compare two fixed systems.',
         files=[W + 'statistical_inference/baseline_comparison.py'], mech=[('BaselineComparison', W + 'statistical_inference/baseline_comparison.py')],
         note=REAL),
    dict(id='C28', title='Linearised per-unit values reproduce the metric to first order',
         statement='The per-unit linearised values used for inference average (with their weights) to the metric of the full aggregate, and differ from '
         'it by exactly the directional derivative of the metric with respect to the mean statistics; for metrics linear in the statistics '
         'they are exact.',
         text='all aggregates, weights and differentiable metrics',
         why='Tests check a couple of metrics on random data.',
         files=[W + 'statistical_inference/autodiff.py'], mech=[('per_unit_values_linearized_around_mean_statistics', W + 'statistical_inference/autodiff.py')],
         note='jax.linearize is an assumed contract (value and directional derivative by the rules of calculus), tested against jax on each run. '),
    dict(id='C29', title='Structure mapping keeps keys, order and leaves paired',
         statement='Mapping a function over nested dictionaries of arrays applies it to leaves at the same path in all inputs, returns the same '
         'structure and never drops or reorders entries. The result has the structure of the first input; an entry missing from another input, or '
         'sequences of different lengths, are refused.',
         text='all nestings, key sets and leaves',
         why='Tests cover one nested structure.',
         files=[W + 'xarray_tree.py'], mech=[('map_structure', W + 'xarray_tree.py')],
         note=REAL),
]

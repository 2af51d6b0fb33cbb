p('C01', 'A point and its linear index denote the same cell everywhere',
  'Every part of the system that turns the points of a rectangular region into a linear sequence, '
  'or a linear index back into a point, uses the same row-major order (index = row * number of '
  'columns + column). Converting a point to an index and back yields the same point, for every '
  'region shape, including regions that are not square.',
  ['inputs', 'configurations'], 'every region shape (rows and columns independent) and every point',
  'The tests use a few small, mostly square regions, where a transposed order gives the same '
  'answers; the agreement must hold between a dozen independent encoders and decoders.',
  ['spta/region/base.py', 'spta/region/metadata.py', 'spta/region/partition.py',
   'spta/region/temporal.py', 'spta/region/spatial.py', 'spta/distance/__init__.py',
   'spta/distance/dtw.py', 'spta/util/arrays.py'],
  [('region iteration order', 'spta/region/base.py BaseRegion.__next__'),
   ('index to absolute point', 'spta/region/metadata.py index_to_absolute_point'),
   ('list of series and its inverse', 'spta/region/temporal.py as_list, spta/region/spatial.py '
    'create_from_1d'),
   ('cluster membership by index', 'spta/region/partition.py'),
   ('distance matrix rows', 'spta/distance/__init__.py distances_to_point_with_matrix')])
p('C02', 'Coordinate frames of queries, domain and dataset convert consistently',
  'A prediction result that is asked for a coordinate relative to the queried region answers with '
  'the forecast, error, test data, cluster and reported position of exactly that cell of the '
  'domain, for every kind of result. Converting between relative, domain and absolute coordinates '
  'adds or subtracts the corner of the frame, and the conversions undo each other.',
  ['inputs', 'configurations'], 'every query rectangle, domain rectangle and point',
  'Tests use one or two queries, often at the origin or at symmetric offsets, where a missing or '
  'doubled offset or a swapped axis is invisible.',
  ['spta/solver/result.py', 'spta/region/metadata.py'],
  [('relative to domain and back', 'spta/solver/result.py to_domain_coordinates, '
    'to_relative_coordinates'),
   ('absolute positions', 'spta/region/metadata.py absolute_position_of_point, '
    'index_to_absolute_point'),
   ('accessors by relative point', 'spta/solver/result.py prediction_forecast_at, '
    'prediction_error_at, prediction_test_at, cluster_index_for_point')])
p('C03', 'Training never sees the test samples',
  'Splitting a region into training and test parts puts all but the last samples of every series '
  'in the training part and exactly the requested number of last samples in the test part, with '
  'nothing shared and nothing lost, for every kind of region and length. Models whose error is '
  'reported are trained on the training part only, and their forecasts are compared with the test '
  'part; models retrained for unseen data use the whole series.',
  ['inputs', 'configurations'], 'every region kind, data and test length',
  'A leak of test samples into training makes errors smaller and all tests still pass; tests '
  'split one or two small regions.',
  ['spta/model/train.py', 'spta/model/forecast.py', 'spta/solver/train.py',
   'spta/region/temporal.py'],
  [('splitter', 'spta/model/train.py SplitTrainingAndTestLast.split'),
   ('training for analysis', 'spta/model/forecast.py ForecastAnalysis.train_models'),
   ('training of the solver', 'spta/solver/train.py SolverTrainer.train')])
p('C04', 'A prediction is the forecast of the cluster medoid for that point',
  'A prediction query answers, for each point of the queried region, the forecast of the model of '
  'the medoid of the cluster that contains the point, in original units when the data was '
  'scaled, together with the error of that medoid. An in-sample query (zero extra samples) uses '
  'models trained on the training part and compares with test data; an out-of-sample query uses '
  'models trained on the whole series, and repeating a query gives the same answer.',
  ['inputs', 'configurations', 'histories'],
  'every query region, forecast length, partition, with and without scaling, repeated queries',
  'Tests run a few queries against a tiny dataset with stub models and cannot vary partition, '
  'scaling and query position together.',
  ['spta/solver/model.py', 'spta/solver/result.py', 'spta/region/function.py'],
  [('query preparation', 'spta/solver/model.py Solver.prepare_for_predictions, predict'),
   ('result builder', 'spta/solver/result.py PredictionQueryResultBuilder'),
   ('medoid models', 'spta/region/function.py')])
p('C05', 'A cluster exposes exactly its own members',
  'A cluster of a partitioned region gives access to exactly the points whose label is the index '
  'of the cluster: iteration, size, indices, series, values and rectangles never include a point '
  'of another cluster and never miss a member. Access to a point of another cluster is rejected.',
  ['inputs', 'configurations'], 'every label matrix, cluster index and point',
  'Tests check a handful of fixed partitions; membership is a condition on every point of every '
  'partition.',
  ['spta/region/partition.py', 'spta/region/spatial.py', 'spta/region/temporal.py'],
  [('membership test', 'spta/region/partition.py is_member'),
   ('access gates', 'spta/region/spatial.py SpatialCluster, spta/region/temporal.py '
    'SpatioTemporalCluster'),
   ('cluster creation', 'spta/region/partition.py create_all_spatial_clusters, '
    'create_all_spt_clusters')])
p('C06', 'A derived region keeps the kind, shape and membership of its source',
  'A region derived from another one (rectangle, interval, repetition, empty or new region with '
  'the same layout, result of applying a function) has the data the derivation asks for, and '
  'remains of the same kind: clusters stay clusters of the same partition and index, scaled '
  'regions stay scaled. This holds for every stack of decorations around a region.',
  ['inputs', 'configurations', 'programs'], 'every region kind and stack, data and bounds',
  'There are dozens of combinations of decorations and derivations; tests cover a few of them with '
  'fixed data.',
  ['spta/region/spatial.py', 'spta/region/temporal.py', 'spta/region/scaling.py',
   'spta/region/partition.py'],
  [('derivations of spatial regions', 'spta/region/spatial.py'),
   ('derivations of spatio-temporal regions', 'spta/region/temporal.py'),
   ('derivations of scaled regions', 'spta/region/scaling.py')])
p('C07', 'Descaling restores the original values with the bounds of the same point',
  'Scaling a series maps it with the minimum and maximum of its own point, and descaling applies '
  'the inverse with the same bounds, so that descaling a scaled region restores the original '
  'values, also after taking subsets or deriving new regions. Scaling bounds always accompany the '
  'points they belong to.',
  ['inputs', 'configurations'], 'every series, point, bounds and derivation of a scaled region',
  'Tests use regions where a wrong bound or a missing guard for constant series is not exercised, '
  'and few derivations.',
  ['spta/region/scaling.py', 'spta/region/temporal.py'],
  [('scaling function', 'spta/region/scaling.py ScaleFunction, DescaleFunction'),
   ('scaled region', 'spta/region/scaling.py SpatioTemporalScaled')])
p('C08', 'Forecast errors compare matching points in original units',
  'The error at a point is computed from the forecast, the observation and the training series of '
  'that same point, all in original units, with the error measure that was asked for. The overall '
  'error of a region combines the errors of all its points once each, and errors never mix '
  'forecasts of previously trained models.',
  ['inputs', 'configurations', 'histories'], 'every region, point, measure, with and without '
  'scaling and training data, repeated analyses',
  'Swapping two same-shaped series or missing a descaling yields plausible numbers; the tests '
  'check few numeric cases.',
  ['spta/model/error.py', 'spta/model/forecast.py', 'spta/util/error.py'],
  [('error at a point', 'spta/model/error.py MeasureForecastingError.function_at'),
   ('overall error', 'spta/model/error.py ErrorRegion.overall_error'),
   ('analysis', 'spta/model/error.py ErrorAnalysis, spta/model/forecast.py ForecastAnalysis')])
p('C09', 'Stored results are found again only under the parameters that produced them',
  'The name and directory under which a result is stored (partitions, trained models, solvers, '
  'region data, classifier results, distance matrices) tell apart every parameter that influences '
  'the result, and what is written under a name is what is read back under it. The representation '
  'of a set of parameters identifies all of them, and parsing it gives back equal parameters.',
  ['inputs', 'configurations', 'histories'],
  'every pair of parameter values, every pickle/output directory, every order of saves and loads',
  'A forgotten parameter in a filename only shows when two runs differ in just that parameter and '
  'share a directory; each test uses one set of parameters and usually a mock or fresh directory.',
  ['spta/solver/metadata.py', 'spta/solver/train.py', 'spta/solver/model.py',
   'spta/clustering/base.py', 'spta/clustering/kmedoids.py', 'spta/clustering/regular.py',
   'spta/region/metadata.py', 'spta/classifier/train.py', 'spta/arima/__init__.py',
   'spta/distance/dtw.py'],
  [('solver and model filenames', 'spta/solver/metadata.py'),
   ('pickling of partitions', 'spta/clustering/base.py ClusteringAlgorithm, ClusteringMetadata'),
   ('representation of parameters', 'spta/clustering/kmedoids.py KmedoidsMetadata.__repr__, '
    'from_repr; spta/arima/__init__.py'),
   ('region metadata', 'spta/region/metadata.py SpatioTemporalRegionMetadata.__repr__')])
p('C10', 'What is written as text is read back as the same parameters',
  'The textual representation of a clustering configuration, the label a classifier is trained '
  'with, and the rows of the tables of suite results are read back to exactly the parameters that '
  'were written: kind of clustering, number of clusters, every option, and the coordinates of '
  'every medoid in the same order.',
  ['inputs', 'configurations'], 'every kind of clustering, combination of options and medoid list',
  'Writer and reader live in different modules and the tests check each against a fixed string; '
  'an option lost by one combination or a swapped coordinate is not visible there.',
  ['spta/clustering/kmedoids.py', 'spta/clustering/regular.py', 'spta/clustering/factory.py',
   'spta/clustering/suite.py', 'spta/classifier/train.py', 'spta/classifier/train_input.py',
   'experiments/clustering/partition_analysis.py'],
  [('representation and parser', 'spta/clustering/kmedoids.py as_dict/__repr__/from_repr, '
    'spta/clustering/factory.py from_repr'),
   ('table of suite results', 'spta/clustering/suite.py retrieve_suite_result_csv')])
p('C11', 'A name selects exactly what it names',
  'Every named region, clustering suite, experiment, error measure, clustering kind and model '
  'kind that can be asked for by name yields the object described by that name with all the '
  'parameters given, unknown names are rejected, and names that refer to other named things refer '
  'to existing ones.',
  ['configurations', 'inputs'], 'every entry of every table of names and every parameter value',
  'The tables have dozens of entries and the tests use a few; a wrong entry silently runs another '
  'experiment under the given name.',
  ['experiments/metadata/region.py', 'experiments/metadata/clustering.py',
   'experiments/metadata/arima.py', 'experiments/metadata/arima_clustering.py',
   'spta/clustering/factory.py', 'spta/clustering/suite.py', 'spta/model/error.py'],
  [('predefined regions', 'experiments/metadata/region.py predefined_regions'),
   ('clustering factory', 'spta/clustering/factory.py'),
   ('suites', 'spta/clustering/suite.py ClusteringSuite, experiments/metadata/clustering.py'),
   ('error measures', 'spta/model/error.py get_error_func')])
p('C12', 'Every table carries under each header the value the header names',
  'In the result files of a prediction query, every row has as many values as the header has '
  'columns, and the value in each column is the one the header names for the point of that row: '
  'absolute position, cluster, error, forecast, test series, label, and the parameters and summary '
  'statistics of the query.',
  ['inputs', 'configurations'], 'every kind of result, query, point and set of parameters',
  'Headers and rows are produced by different methods of a stack of decorations; the tests do not '
  'look at the files.',
  ['spta/solver/result.py', 'spta/clustering/kmedoids.py', 'spta/clustering/regular.py'],
  [('result rows', 'spta/solver/result.py result_header, result_tuple_for_point'),
   ('summary row', 'spta/solver/result.py summary_header, summary_tuple, '
    'spta/clustering/kmedoids.py as_tuple/header')])
p('C13', 'Each point is modelled and forecast from its own series and parameters',
  'Training a region gives every point the model that its own series and its own parameters '
  'determine, retraining keeps the parameters found at the point, and the forecast of a point is '
  'made by the model of that point with the requested number of samples. When only '
  'representatives are trained, each of them keeps its own model and every point of a cluster '
  'is given the model of the representative of its own cluster.',
  ['inputs', 'configurations'], 'every region, cluster, point, parameters and number of samples',
  'The trainers bind functions in loops and pass arrays of models through several layers; tests '
  'train tiny regions with equal parameters, where a model of a neighbour looks the same.',
  ['spta/model/train.py', 'spta/model/base.py', 'spta/model/knn.py', 'spta/model/mean.py',
   'spta/arima/train.py', 'spta/arima/model.py', 'spta/region/function.py',
   'spta/region/partition.py'],
  [('training function of a point', 'spta/model/train.py ModelTrainer.__init__, apply_to'),
   ('application of functions by point', 'spta/region/spatial.py apply_function_scalar, '
    'apply_function_series'),
   ('retraining', 'spta/arima/train.py TrainerRefitArima'),
   ('forecast by point', 'spta/model/base.py ModelRegion.function_at'),
   ('replication over clusters', 'spta/region/partition.py merge_with_representatives_2d, '
    'merge_clusters_2d')])
p('C14', 'Missing models and data stay missing and are counted',
  'A fit that fails, and a point without data or without parameters, gives no model and does not '
  'stop the training of the other points; the number of points without a model is counted anew at '
  'each training. A point without a model is forecast as missing values of the requested length, '
  'has no AIC and no valid order, stays without a model when retrained, and missing values do not '
  'turn the combined error or the extremes of a region into a missing value.',
  ['inputs', 'fault_sequences'], 'every subset of points whose fit fails, every region and parameters',
  'The tests contain no failing fits; which points fail depends on the data and the libraries.',
  ['spta/model/train.py', 'spta/arima/train.py', 'spta/model/base.py', 'spta/model/mean.py',
   'spta/region/spatial.py', 'spta/region/temporal.py', 'spta/util/arrays.py',
   'spta/model/error.py'],
  [('count of missing models', 'spta/model/train.py ModelTrainer.apply_to'),
   ('failed fits', 'spta/arima/train.py training_function'),
   ('missing AIC and order', 'spta/arima/train.py extract_aic, extract_pdq'),
   ('forecast without model', 'spta/model/base.py function_at'),
   ('missing errors', 'spta/util/arrays.py mean_squared, minimum_value_and_index')])
p('C15', 'K-medoids assigns by distance and keeps the cheapest medoids',
  'For given distances, each item is labelled with its nearest medoid, and the costs and total '
  'cost reported are those distances and their sum; the search replaces the medoids exactly when '
  'the total improves by more than the tolerance, the labels, costs and medoids returned describe '
  'one and the same partition, and a seed makes the initial medoids reproducible. Fuzzy '
  'memberships of an item sum to one and follow the relative distances to the medoids, and the '
  'silhouette analysis reports the number of clusters with the best average.',
  ['inputs', 'configurations'], 'every distance matrix, number of clusters, mode, tolerance, seed '
  'and number of iterations',
  'The outcome depends on the whole distance matrix and on the order of improving swaps; tests '
  'run a few small data sets with well separated clusters.',
  ['spta/kmedoids/kmedoids.py', 'spta/kmedoids/kmedoids_fuzzy.py', 'spta/kmedoids/silhouette.py',
   'spta/kmedoids/__init__.py', 'spta/clustering/kmedoids.py', 'spta/clustering/silhouette.py'],
  [('costs and labels', 'spta/kmedoids/kmedoids.py _get_cost'),
   ('search', 'spta/kmedoids/kmedoids.py kmedoids and run_kmedoids*'),
   ('fuzzy memberships', 'spta/kmedoids/kmedoids_fuzzy.py'),
   ('silhouette', 'spta/kmedoids/silhouette.py, spta/clustering/silhouette.py')])
p('C16', 'Distances between points are those of their series',
  'The distance matrix of a region or of a list of series holds at each pair the distance measure '
  'of the two series, a missing value when one of them has missing values, whether it is computed '
  'by one process or by several; a saved matrix is used only when its size fits the region, and '
  'the distances to a point are the row of that point at the requested points. The spatially '
  'weighted variant adds the weighted euclidean distance of the two points exactly once, and the '
  'centroid of a region is the point with the smallest sum of distances to the points of the '
  'region.',
  ['inputs', 'configurations'], 'every region, list of series, point, subset of points, weight '
  'and number of processes',
  'Each element of a matrix over pairs of points is a separate computation; tests look at a few '
  'elements of tiny regions where rows and columns are easily confused.',
  ['spta/distance/__init__.py', 'spta/distance/dtw.py', 'spta/distance/dtw_parallel.py',
   'spta/distance/rmse.py', 'spta/util/parallel.py', 'spta/util/arrays.py',
   'spta/region/centroid.py'],
  [('matrices', 'spta/distance/dtw.py compute_distance_matrix*'),
   ('saved matrices', 'spta/distance/__init__.py load_distance_matrix_2d, distances_to_point'),
   ('weights', 'spta/distance/dtw.py DistanceBySpatialDTW'),
   ('several processes', 'spta/util/parallel.py InterPointsOperation, '
    'spta/distance/dtw_parallel.py'),
   ('centroid', 'spta/region/centroid.py CalculateCentroid')])
p('C17', 'Classifier training data and queries refer to the medoid they name',
  'For each sampled point (never a medoid, reproducible with the seed) the training table records '
  'the clustering, cluster and medoid with the smallest distance, or smallest prediction error, '
  'among all medoids of the suite that were not yet chosen as often as the threshold allows, '
  'together with the series of that point; the table of medoids holds every medoid of the suite '
  'with its position and own series, and synthetic tables are reproducible with their seed. A '
  'query labels each point with what the classifier answers for the last samples of that point in '
  'the region asked for, and forecasts it with the trained model of the medoid that the label '
  'names.',
  ['inputs', 'configurations', 'histories'], 'every suite, region, seed, threshold, criterion, '
  'label and sequence of queries',
  'Tests cover single helper functions with fixed small tables; the choice over all medoids of a '
  'suite, the threshold and repeated queries are not exercised, and the classifier itself is not '
  'available to the tests.',
  ['spta/classifier/train_input.py', 'spta/classifier/model.py', 'spta/classifier/dnn.py',
   'spta/classifier/synthetic.py', 'spta/util/maths.py'],
  [('choice of the medoid', 'spta/classifier/train_input.py MedoidsChoiceStrategy.choose_medoid'),
   ('scores', 'spta/classifier/train_input.py MedoidsChoiceMinDistance, '
    'MedoidsChoiceMinPredictionError'),
   ('tables', 'spta/classifier/train_input.py evaluate_score_of_random_points, '
    'MedoidSeriesFormatter; spta/classifier/synthetic.py'),
   ('queries', 'spta/classifier/model.py SolverFromClassifier'),
   ('labels', 'spta/classifier/dnn.py ClassifierDNN.label_for_series')])
p('C18', 'A nearest-neighbour forecast is the mean of the closest past windows',
  'The windows of a series are all its runs of consecutive samples of the window length, in '
  'order, at multiples of the stride, and the windows of a labelled series keep its label and '
  'their offset. The forecast at a point is the sample-by-sample mean of the k windows of the '
  'training series of that point that are closest, by the configured distance, to its last '
  'window, which is not itself a candidate; too few candidates, or candidates of another length, '
  'are rejected.',
  ['inputs', 'configurations'], 'every series, window length, stride, number of neighbours and '
  'distance measure',
  'Tests use a few short series with clear neighbours; ties, boundaries at the number of '
  'candidates and other strides are samples of an unbounded space.',
  ['spta/util/arrays.py', 'spta/model/knn.py', 'spta/classifier/sliding_window.py'],
  [('windows', 'spta/util/arrays.py sliding_window'),
   ('neighbours', 'spta/model/knn.py find_k_nearest_neighbors'),
   ('forecast', 'spta/model/knn.py predict_future_values_with_knn'),
   ('labelled windows', 'spta/classifier/sliding_window.py')])

p('C19', 'A dataset holds the years and samples per day it is asked for',
  'A dataset asked for by years holds exactly the samples from the first of January of the first '
  'year to the end of the last year, leap days included, in order, for every point; with one '
  'sample per day each sample is the mean of the four samples of that day, and years outside the '
  'data set, reversed years or another number of samples per day are rejected. A saved dataset is '
  'used only for the same name, years and samples per day, and what is saved is what is returned; '
  'a region made from metadata is the rectangle of that dataset which the metadata names, scaled '
  'when the metadata says so.',
  ['inputs', 'configurations'], 'every range of years, samples per day, rectangle and scaling',
  'The raw data set is not available to the tests, which only check a few conversions of years; '
  'off-by-one samples and swapped axes of the daily averages depend on years and sizes not tried.',
  ['spta/util/maths.py', 'spta/dataset/temp_brazil.py', 'spta/region/metadata.py'],
  [('samples of a range of years', 'spta/util/maths.py years_to_series_interval'),
   ('reading and saving', 'spta/dataset/temp_brazil.py read_hdf5_dataset_by_year, '
    'retrieve_dataset_interval, try_load_dataset_interval, save_dataset_interval'),
   ('daily means', 'spta/dataset/temp_brazil.py average_4spd_to_1spd'),
   ('regions from metadata', 'spta/region/metadata.py '
    'SpatioTemporalRegionMetadata.create_instance')])
p('C20', 'Selections return the best value and where it is',
  'The minimum or maximum of a spatial region is the first of the points it iterates over that '
  'has the smallest or largest value (missing values never win), with that value, and likewise '
  'for arrays with their index. An error analysis reports, for the models trained on that region, '
  'the error of each model at its own point, and of the errors of single models over the whole '
  'region the smallest, the one of the model with the smallest local error, the one at the '
  'centroid (missing without one) and the largest. The elbow of a suite is, per random seed, the '
  'clustering whose cost has the largest second derivative over the numbers of clusters in '
  'ascending order, each cost being that of the partition of the same clustering.',
  ['inputs', 'configurations'], 'every region, membership, error measure, suite, number of '
  'clusters and seed',
  'A selection that is off by one, ignores ties or mixes the minimum with the local minimum agrees '
  'with the right one on most small inputs; elbows and error analyses have no tests.',
  ['spta/region/spatial.py', 'spta/util/arrays.py', 'spta/model/forecast.py',
   'spta/clustering/suite.py'],
  [('extremes of a region', 'spta/region/spatial.py SpatialRegion.find_minimum, find_maximum'),
   ('extremes of an array', 'spta/util/arrays.py minimum_value_and_index, '
    'maximum_value_and_index'),
   ('error analysis', 'spta/model/forecast.py ForecastAnalysis.analyze_errors'),
   ('elbow', 'spta/clustering/suite.py FindSuiteElbow, OrganizeClusteringSuite')])

p('C21', 'Everything the code refers to exists and is used as it is meant to be',
  'Every module, function, class, attribute, method and command-line option that a function '
  'refers to exists where it is looked up, for every class that can run it, and every call '
  'passes arguments that its target accepts. Every text template is given a value for each of its '
  'places, no computed result that has no other effect is thrown away, no method is tested in '
  'place of its result, and no definition silently hides another of the same scope.',
  ['inputs', 'configurations'], 'every function of the library and of the experiments, every '
  'concrete class that inherits it and every path through it',
  'Most entry points (experiments, plots, analyses, solvers) have no tests, and a reference to a '
  'missing name fails only when its line runs, in the configuration that reaches it.',
  ['spta', 'experiments'],
  [('the class hierarchies', 'spta/region/base.py DomainRegion; spta/model/base.py; '
    'spta/solver/base.py; spta/clustering/algorithm.py'),
   ('command-line options', 'experiments/arguments.py and the argparse parsers of experiments'),
   ('text templates', 'spta/util/log.py and every use of str.format')])

p('C22', 'An experiment runs what its command line asks for',
  'Training or querying a solver, forecasting, computing distances or centroids and analysing '
  'partitions, medoids and training errors from the command line use exactly the region, the '
  'clustering (kind, number of clusters, seed, suite), the model parameters, the error measure, '
  'the test length, the forecast length and the query rectangle that the arguments name, with '
  'the documented defaults for those left out. What they report is stored under the directory '
  'that belongs to those arguments, and each row of a report belongs to the clustering or the '
  'cluster that it names.',
  ['inputs', 'configurations'], 'every choice of the arguments of the experiment programs',
  'No test runs an experiment program: an argument that is dropped, swapped with another or '
  'replaced by its default gives results that look plausible, for another question.',
  ['experiments/auto_arima', 'experiments/baseline', 'experiments/arima', 'experiments/region',
   'experiments/clustering', 'experiments/classifier', 'experiments/metadata/centroid.py'],
  [('training and querying', 'experiments/auto_arima/solver.py, experiments/baseline/'
    'solver_mean_past.py, experiments/baseline/solver_knn_medoids.py: train_request, '
    'predict_request; solver_each.py, solver_knn_each.py, experiments/classifier/solver_dnn.py'),
   ('analyses of clusterings', 'experiments/clustering/partition_analysis.py, '
    'medoid_distances.py, find_elbows.py, extraction_lstm.py'),
   ('analyses of models', 'experiments/arima/training_error_analysis.py, experiments/auto_arima/'
    'training_error_analysis.py, distance_errors.py, error_between_medoids.py')])

p('C23', 'A clustering covers its region and its medoids represent their clusters',
  'Clustering a region gives every point exactly one label in its own position; a regular '
  'clustering divides the rows and columns in bands that cover the whole region, as many as the '
  'most balanced factors of the number of clusters, labelled row by row, and a region with too few '
  'rows or columns is rejected. The medoids found for a partition are, in the order of the '
  'clusters, the centroids of the clusters under the distance of the algorithm, and the report of '
  'a clustering gives for each cluster its number of points and its share of the region. A point '
  'belongs to the fuzzy clusters whose membership is within the threshold of its best one.',
  ['inputs', 'configurations'],
  'every shape of region, number of clusters, distance, threshold and membership',
  'Tests try a handful of shapes and numbers of clusters; uneven divisions, prime numbers of '
  'clusters, narrow regions, loaded partitions and other algorithms take other paths.',
  ['spta/clustering', 'spta/region/partition.py', 'spta/region/mask.py', 'spta/util/arrays.py',
   'spta/util/maths.py'],
  [('regular partition', 'spta/util/arrays.py regular_partitioning; spta/util/maths.py '
    'two_balanced_divisors_order_x_y; spta/region/partition.py with_regular_partition'),
   ('clustering algorithms', 'spta/clustering/__init__.py ClusteringAlgorithm.partition, '
    'find_medoids_for_partition, save_to_csv; regular.py; dbscan.py'),
   ('fuzzy membership', 'spta/region/mask.py MaskRegionFuzzy')])

p('C24', 'Computations leave their inputs as they were, and repeating them changes nothing',
  'Scaling, clustering, training, forecasting, measuring errors or distances and describing results '
  'never alter the regions, series, points, partitions, models or parameters that they are given. '
  'Objects change only through the operations that exist to change them (loading a distance matrix, '
  'preparing a solver, advancing an iterator, filling the results of an analysis), and nothing kept '
  'from one call is returned by a later call with other arguments or after such a change. No other '
  'operation alters tables shared by the whole program or restarts its random numbers.',
  ['inputs', 'histories'],
  'every sequence of calls on shared regions, series, partitions, matrices and parameters',
  'A test builds its inputs, calls once and looks at the result; an input that was altered, or a '
  'result kept from an earlier call with other arguments, shows only when the same object is used '
  'again.',
  ['spta/region', 'spta/model', 'spta/solver', 'spta/clustering', 'spta/classifier',
   'spta/distance', 'spta/kmedoids', 'spta/arima', 'spta/util', 'experiments'],
  [('region and partition queries', 'spta/region/temporal.py, spta/region/partition.py, '
    'spta/region/scaling.py, spta/region/function.py'),
   ('models, errors and solvers', 'spta/model/base.py, spta/model/error.py, spta/util/error.py, '
    'spta/solver/model.py, spta/solver/train.py, spta/solver/result.py'),
   ('distances and clustering', 'spta/distance, spta/kmedoids/kmedoids.py, '
    'spta/util/arrays.py')])

p('C25', 'What is saved is what is loaded again',
  'A solver, partition, region or dataset interval that is loaded with the parameters it was saved '
  'under is the one that was saved: each of its parts comes back in its own place, and everything '
  'that is saved can be written to a file whose directory exists. A partition that was asked for '
  'with a place to keep it is found there by the solver and by later requests, which do not '
  'compute it again; one that cannot be found is computed with its medoids.',
  ['inputs', 'histories'],
  'every region, clustering configuration, model, error measure and place to keep the results',
  'Training and querying happen in different runs, and tests rarely write to the places a real run '
  'uses; parts that are exchanged or files that are never found show as wrong forecasts or as '
  'repeated work, not as failures.',
  ['spta/solver/model.py', 'spta/clustering/__init__.py', 'spta/region/partition.py',
   'spta/region/base.py', 'spta/region/temporal.py', 'spta/dataset/temp_brazil.py'],
  [('solver files', 'spta/solver/model.py SolverPickler.save_solver, load_solver, load_partition'),
   ('partition files', 'spta/clustering/__init__.py ClusteringAlgorithm.partition, save_partition, '
    'try_load_previous_partition; spta/region/partition.py to_pickle, try_from_pickle'),
   ('region and dataset files', 'spta/region/temporal.py pickle; spta/region/base.py from_pickle; '
    'spta/dataset/temp_brazil.py save_dataset_interval')])
p('C26', 'Plots show the data they are named after',
  'A plot shows the data that its title, labels and file name say: each cell has the colour of its '
  'own label or value, medoids and queried rectangles are drawn at their own cells, distances are '
  'paired with the errors of the same points, and each cluster has its own histogram or bar. '
  'Histograms of several clusters share one scale, random points are drawn outside the cluster, '
  'and the statistics and scores shown are those of the data drawn.',
  ['inputs'],
  'every partition, region, query rectangle, distance measure, cluster, number of random points '
  'and destination',
  'Tests do not look at figures; exchanged axes, a rectangle at other cells or a histogram in the '
  'place of another cluster give a plot that looks right.',
  ['spta/util/plot.py', 'spta/distance/variance.py', 'spta/solver/model.py',
   'spta/clustering/silhouette.py', 'spta/model/forecast.py', 'spta/util/maths.py'],
  [('partitions and heat maps', 'spta/util/plot.py plot_partition, plot_2d_clusters, '
    'plot_discrete_spatial_region, plot_pandas_heatmap'),
   ('queries', 'spta/solver/model.py SolverWithMedoids.plot_regions, get_plot_filename'),
   ('silhouettes', 'spta/util/plot.py plot_clustering_silhouette; spta/clustering/silhouette.py'),
   ('distances', 'spta/distance/variance.py; spta/util/plot.py plot_distances_vs_forecast_errors; '
    'spta/model/forecast.py plot_distances_vs_errors')])
na('C27', 'Fitted models are the numerical optimum of their statistical method',
   'The orders found by automatic ARIMA have the lowest information criterion of the orders '
   'searched, an ARIMA fit maximises the likelihood of its series, and a DTW distance is the cost '
   'of the cheapest alignment.',
   ['inputs'], 'every series, order and search range',
   'A test compares a handful of fits with recorded numbers; it cannot say that no better fit or '
   'alignment exists.',
   ['spta/arima/train.py', 'spta/distance/dtw.py'],
   [('fits', 'spta/arima/train.py TrainerArimaPDQ, TrainerAutoArima (statsmodels, pmdarima)'),
    ('alignments', 'spta/distance/dtw.py (tslearn.metrics.dtw)')],
   'The optimisation happens inside statsmodels, pmdarima and tslearn, on floating-point runtime '
   'data; the source of this repository only hands the series over (which C13, C14 and C16 decide). '
   'No static argument bounds the result of a numerical search.')
na('C28', 'Forecast errors of clustered models stay close to those of individual models',
   'Using the model of a medoid for its whole cluster loses little accuracy against one model per '
   'point, more clusters do not make predictions worse, and the classifier chooses a medoid whose '
   'forecast is nearly the best available.',
   ['inputs'], 'every dataset, clustering and forecast length',
   'Accuracy on the data of a test says nothing about other data.',
   ['spta/solver/train.py', 'spta/classifier/train_input.py', 'experiments'],
   [('solver', 'spta/solver/train.py; spta/solver/model.py'),
    ('classifier', 'spta/classifier/train_input.py; spta/classifier/model.py')],
   'A statistical statement about data that is only present at run time; what the source determines '
   '(which model predicts which point, and how its error is measured) is decided by C04, C08, C13 '
   'and C17.')

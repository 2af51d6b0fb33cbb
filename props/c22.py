'''C22: an experiment runs what its command line asks for.'''
from sa.prop import *     # noqa

P = Prop('C22', 'Value-graph evaluation of the experiment programs as functions of the parsed '
         'arguments: which regions, clusterings, model parameters, trainers, query regions and '
         'lengths reach the library; and the table of options each parser declares.',
         cfg={'attr_types': {'distance_measure': 'DistanceBetweenSeries'}})
E = 'experiments.'


def assigned(name):
    '''the values that an attribute of other objects receives'''
    def f(r, I):
        return mk('set', tuple(sorted({I.reify(e.extra[2], r.heap) for e in r.trace
                                       if e.kind == 'setattr' and e.extra[1] == name})))
    return f


HEAD = '''
    from experiments.metadata.region import predefined_regions
    from experiments.metadata.arima import predefined_auto_arima
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata
    from spta.clustering.regular import RegularClusteringMetadata
    from spta.distance.dtw import DistanceByDTW
    from spta.arima.train import TrainerAutoArima
    from spta.model.knn import KNNParams, TrainerKNN
    from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
    from spta.region import Region
    from spta.solver.model import SolverPickler
    from spta.solver.train import SolverTrainer
    from spta.solver.metadata import SolverMetadataBuilder
'''
CLUST = '''
    if args.clustering == 'kmedoids':
        cm = KmedoidsClusteringMetadata(args.k, random_seed=args.seed)
    elif args.clustering == 'regular':
        cm = RegularClusteringMetadata(args.k)
    else:
        raise ValueError
'''
CHOICES = '''
    if args.clustering != 'kmedoids' and args.clustering != 'regular':
        raise ValueError
'''
FACTORIES = ('predefined_regions', 'predefined_auto_arima')
SOLVERS = (
    ('auto_arima.solver', 'predefined_auto_arima()[args.auto_arima]', 'TrainerAutoArima', 'tp'),
    ('baseline.solver_knn_medoids', 'KNNParams(args.knn, DistanceByDTW())', 'TrainerKNN', 'test'),
    ('baseline.solver_mean_past', 'MeanOfPastParams(args.past)', 'TrainerMeanOfPast', 'test'),
)
for mod, params, trainer, tp in SOLVERS:
    P.law('metadata of ' + mod, E + mod + '.metadata_from_args', '''
def a(args):
    from experiments.%s import metadata_from_args
%s
    return metadata_from_args(args)
''' % (mod, CHOICES), '''
def b(args):
%s
%s
    return predefined_regions()[args.region], cm, %s
''' % (HEAD, CLUST, params), keep=FACTORIES)
    P.law('training by ' + mod, E + mod + '.train_request', '''
def a(args):
    from experiments.%s import train_request
%s
    train_request(args)
''' % (mod, CHOICES), '''
def b(args):
%s
%s
    rm = predefined_regions()[args.region]
    params = %s
    SolverTrainer(region_metadata=rm, clustering_metadata=cm, distance_measure=DistanceByDTW(),
                  model_trainer=%s(params, rm.x_len, rm.y_len), model_params=params,
                  test_len=args.%s, error_type=args.error).train().save()
''' % (HEAD, CLUST, params, trainer, tp), keep=FACTORIES + ('train', '!train', 'save'),
          aspect=calls('save', recv=True))
    P.law('query of ' + mod, E + mod + '.predict_request', '''
def a(args):
    from experiments.%s import predict_request
%s
    predict_request(args)
''' % (mod, CHOICES), '''
def b(args):
%s
%s
    rm = predefined_regions()[args.region]
    md = SolverMetadataBuilder(region_metadata=rm, model_params=%s, test_len=args.%s,
                               error_type=args.error).with_clustering(
                                   clustering_metadata=cm, distance_measure=DistanceByDTW()).build()
    r = SolverPickler(solver_metadata=md).load_solver().predict(
        Region(int(args.lat1), int(args.lat2), int(args.long1), int(args.long2)),
        forecast_len=args.tf)
    for p in r:
        r.lines_for_point(p)
    r.save_as_csv()
''' % (HEAD, CLUST, params, tp), keep=FACTORIES + ('load_solver', '!load_solver', 'predict',
                                                   'lines_for_point', 'save_as_csv'),
          aspect=calls('lines_for_point', 'save_as_csv', recv=True))
EACH = (
    ('auto_arima.solver_each', 'predefined_auto_arima()[args.auto_arima]', 'TrainerAutoArima'),
    ('baseline.solver_knn_each', 'KNNParams(args.knn, DistanceByDTW())', 'TrainerKNN'),
)
OWN = FACTORIES + ('create_instance', 'region_subset', '!train_models', '!forecast_at_each_point',
                   'train_models', 'forecast_at_each_point', '!build', 'lines_for_point',
                   'save_as_csv', 'descale', '!descale')
for mod, params, trainer in EACH:
    P.law('query of ' + mod, E + mod + '.process_request', '''
def a(args):
    from experiments.%s import process_request
    process_request(args)
''' % mod, '''
def b(args):
%s
    from spta.model.forecast import ForecastAnalysis
    from spta.solver.result import PredictionQueryResultBuilder
    from spta.region.scaling import SpatioTemporalScaled
    rm = predefined_regions()[args.region]
    params = %s
    query = Region(int(args.lat1), int(args.lat2), int(args.long1), int(args.long2))
    md = SolverMetadataBuilder(region_metadata=rm, model_params=params, test_len=args.tf,
                               error_type=args.error).build()
    whole = rm.create_instance()
    spt = whole.region_subset(query)
    fa = ForecastAnalysis(%s(params, spt.x_len, spt.y_len), parallel_workers=None)
    fa.train_models(spt, test_len=args.tf)
    f = fa.forecast_at_each_point(args.tf, args.error)
    forecast = f[0]
    test = fa.test_region
    if rm.scaled:
        forecast = SpatioTemporalScaled(forecast, scale_min=spt.scale_min,
                                        scale_max=spt.scale_max).descale()
        test = SpatioTemporalScaled(test, scale_min=spt.scale_min,
                                    scale_max=spt.scale_max).descale()
    r = PredictionQueryResultBuilder(solver_metadata=md, forecast_len=args.tf,
                                     forecast_subregion=forecast, test_subregion=test,
                                     error_subregion=f[1], prediction_region=query,
                                     spt_region=whole, output_home='outputs',
                                     is_out_of_sample=False).build()
    for p in r:
        r.lines_for_point(p)
    r.save_as_csv()
''' % (HEAD, params, trainer), keep=OWN, aspect=calls('lines_for_point', 'save_as_csv', recv=True))
P.law('query of classifier.solver_dnn', E + 'classifier.solver_dnn.process_request', '''
def a(args):
    from experiments.classifier.solver_dnn import process_request
    process_request(args)
''', '''
def b(args):
%s
    from experiments.metadata.classifier import classifier_experiments
    from experiments.metadata.arima_clustering import auto_arima_clustering_experiments
    from experiments.metadata.clustering import get_suite
    from spta.classifier.model import SolverFromClassifier
    rm = predefined_regions()[args.region]
    e = auto_arima_clustering_experiments()[args.auto_arima_clustering_id]
    params = predefined_auto_arima()[e.auto_arima_id]
    c = classifier_experiments()[args.classifier]
    other = predefined_regions()[args.out_of_sample] if args.out_of_sample else None
    r = SolverFromClassifier(region_metadata=rm, distance_measure=DistanceByDTW(),
                             clustering_suite=get_suite(e.clustering_type, e.clustering_suite_id),
                             model_trainer=TrainerAutoArima(params, rm.x_len, rm.y_len),
                             model_params=params, classifier_params=c, test_len=args.tf,
                             error_type=args.error).predict(
        Region(int(args.lat1), int(args.lat2), int(args.long1), int(args.long2)),
        tp=c.window_size, out_of_sample_region=other, output_home='outputs')
    for p in r:
        r.lines_for_point(p)
    r.save_as_csv()
''' % HEAD, keep=FACTORIES + ('classifier_experiments', 'auto_arima_clustering_experiments',
                              'get_suite', 'predict', '!predict', 'lines_for_point',
                              'save_as_csv', 'spta.classifier.model.SolverFromClassifier'),
      aspect=calls('lines_for_point', 'save_as_csv', recv=True))
LOADED = '''
    from experiments.metadata.clustering import get_suite
    rm = predefined_regions()[args.region]
    dm = DistanceByDTW()
    dm.load_distance_matrix_2d(rm.distances_filename, rm.region)
'''
LKEEP = FACTORIES + ('get_suite', 'create_instance', 'load_distance_matrix_2d',
                     '!load_distance_matrix_2d')
for asp in ('evaluate_score_of_random_points', 'produce_csv', 'load_distance_matrix_2d'):
    P.law('extraction: ' + asp, E + 'clustering.extraction_lstm.analyze_suite', '''
def a(args, logger):
    from experiments.clustering.extraction_lstm import analyze_suite
    analyze_suite(args, logger)
''', '''
def b(args, logger):
%s
%s
    from spta.classifier.train_input import TrainDataWithRandomPoints, MedoidSeriesFormatter
    suite = get_suite(args.clustering_type, args.clustering_suite)
    suite.identifier = args.clustering_suite
    TrainDataWithRandomPoints(rm, dm).evaluate_score_of_random_points(
        clustering_suite=suite, count=args.random, random_seed=args.random_seed,
        criterion=args.criterion, threshold=args.threshold, output_home='outputs',
        model_params=predefined_auto_arima()[args.auto_arima], test_len=args.tp,
        error_type=args.error)
    MedoidSeriesFormatter(rm, dm, suite).produce_csv('outputs')
''' % (HEAD, LOADED), keep=LKEEP + ('!evaluate_score_of_random_points', '!produce_csv',
                        'evaluate_score_of_random_points', 'produce_csv',
                        'spta.classifier.train_input.TrainDataWithRandomPoints',
                        'spta.classifier.train_input.MedoidSeriesFormatter'),
          aspect=calls(asp, recv=True))
for name, asp in (('elbows of a suite', calls('calculate_elbows_kmedoids', recv=True)),
                  ('elbows of a suite: matrix', calls('load_distance_matrix_2d'))):
    P.law(name, E + 'clustering.find_elbows.analyze_suite', '''
def a(args, logger):
    from experiments.clustering.find_elbows import analyze_suite
    analyze_suite(args, logger)
''', '''
def b(args, logger):
%s
%s
    from spta.clustering.suite import FindSuiteElbow
    suite = get_suite('kmedoids', args.clustering_suite)
    suite.identifier = args.clustering_suite
    FindSuiteElbow(suite, rm.create_instance(), dm).calculate_elbows_kmedoids('pickle')
''' % (HEAD, LOADED), keep=LKEEP + ('!calculate_elbows_kmedoids', '!organize_kmedoids_suite',
                        'calculate_elbows_kmedoids', 'organize_kmedoids_suite',
                        'spta.clustering.suite.FindSuiteElbow',
                        'spta.clustering.suite.OrganizeClusteringSuite'),
          aspect=asp)
P.law('metadata of clustering.find_elbows', E + 'clustering.find_elbows.metadata_from_args', '''
def a(args):
    from experiments.clustering.find_elbows import metadata_from_args
    rm, suite = metadata_from_args(args)
    return rm, suite, suite.identifier
''', '''
def b(args):
%s
    from experiments.metadata.clustering import get_suite
    suite = get_suite('kmedoids', args.clustering_suite)
    suite.identifier = args.clustering_suite
    return predefined_regions()[args.region], suite, args.clustering_suite
''' % HEAD, keep=LKEEP)
WRITER = "csv.writer(f, delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL)"
TAB = '''
    import csv
    import os
'''
for name, asp in (('table of distances between medoids', tables),
                  ('distances between medoids: partitions', calls('partition', recv=True)),
                  ('distances between medoids: matrix', calls('load_distance_matrix_2d'))):
    P.law(name, E + 'clustering.medoid_distances.do_medoid_distances', '''
def a(args, logger):
    from experiments.clustering.medoid_distances import do_medoid_distances
    do_medoid_distances(args, logger)
''', '''
def b(args, logger):
%s
%s
%s
    from spta.clustering.factory import ClusteringFactory
    whole = rm.create_instance()
    for cm in get_suite(args.clustering, args.clustering_suite):
        algorithm = ClusteringFactory(dm).instance(cm)
        medoids = algorithm.partition(whole, with_medoids=True).medoids
        at = [p.x * whole.shape[2] + p.y for p in medoids]
        with open(os.path.join(cm.output_dir('outputs', rm, dm), 'medoid_distances.csv'), 'w') as f:
            w = %s
            w.writerow(['k'] + [str(i) for i in range(algorithm.k)])
            for i in range(algorithm.k):
                d = dm.distances_to_point_with_matrix(whole, medoids[i], at)
                w.writerow([str(i)] + ['{:.3f}'.format(x) for x in d])
''' % (HEAD, LOADED, TAB, WRITER),
          keep=LKEEP + ('ClusteringFactory.instance', 'instance', '!instance', 'partition',
                        'output_dir', 'distances_to_point_with_matrix',
                        '!distances_to_point_with_matrix'), aspect=asp)
P.law('centroid of the region asked for', E + 'region.centroid.calculate_centroid_with_args', '''
def a(args):
    from experiments.region.centroid import calculate_centroid_with_args
    calculate_centroid_with_args(args)
''', '''
def b(args):
%s
    from spta.region.centroid import CalculateCentroid
    CalculateCentroid.for_sptr_metadata(predefined_regions()[args.region], DistanceByDTW())
''' % HEAD, keep=FACTORIES + ('spta.region.centroid.CalculateCentroid.for_sptr_metadata',), aspect=calls('for_sptr_metadata'))
P.law('matrix of distances of the region asked for',
      E + 'region.distance.calculate_distances_with_args', '''
def a(args, logger):
    from experiments.region.distance import calculate_distances_with_args
    if args.distance != 'dtw':
        raise ValueError
    calculate_distances_with_args(args, logger)
''', '''
def b(args, logger):
%s
    from spta.distance.dtw_parallel import DistanceByDTWParallel
    import numpy as np
    if args.distance != 'dtw':
        raise ValueError
    rm = predefined_regions()[args.region]
    whole = rm.create_instance()
    if args.parallel and int(args.parallel):
        d = DistanceByDTWParallel(int(args.parallel)).compute_distance_matrix(whole)
    else:
        d = DistanceByDTW().compute_distance_matrix(whole)
    np.save(rm.distances_filename, d)
''' % HEAD, keep=FACTORIES + ('create_instance', 'show_distances'),
      aspect=calls('np.save'))
P.law('plots of distances', E + 'region.distance.calculate_distances_with_args', '''
def a(args, logger):
    from experiments.region.distance import calculate_distances_with_args
    if args.distance != 'dtw':
        raise ValueError
    calculate_distances_with_args(args, logger)
''', '''
def b(args, logger):
%s
    from experiments.region.distance import show_distances
    from spta.distance.dtw_parallel import DistanceByDTWParallel
    if args.distance != 'dtw':
        raise ValueError
    whole = predefined_regions()[args.region].create_instance()
    if args.parallel and int(args.parallel):
        d = DistanceByDTWParallel(int(args.parallel)).compute_distance_matrix(whole)
    else:
        d = DistanceByDTW().compute_distance_matrix(whole)
    if args.plots:
        show_distances(whole, d)
''' % HEAD, keep=FACTORIES + ('create_instance', 'show_distances'),
      aspect=calls('show_distances'))
P.same(E + 'metadata.centroid.centroid_by_region_and_distance', '''
def w(sptr_name, distance_measure: 'DistanceByDTW'):
    from experiments.metadata.region import predefined_regions
    from experiments.metadata.centroid import precalculated_centroids
    from spta.region.centroid import CalculateCentroid
    if (sptr_name, 'DistanceByDTW') in precalculated_centroids():
        return precalculated_centroids()[(sptr_name, 'DistanceByDTW')]
    return CalculateCentroid.for_sptr_metadata(predefined_regions()[sptr_name], distance_measure)
''', keep=FACTORIES + (
    'spta.region.centroid.CalculateCentroid.for_sptr_metadata', 'precalculated_centroids'))
P.law('ARIMA models of the region asked for', E + 'arima.forecast.do_arima_forecast', '''
def a(args):
    from experiments.arima.forecast import do_arima_forecast
    do_arima_forecast(args)
''', '''
def b(args):
%s
    from experiments.metadata.arima import arima_suite_by_name
    from experiments.metadata.centroid import centroid_by_region_and_distance
    from spta.arima.train import TrainerArimaPDQ
    from spta.model.forecast import ForecastAnalysis
    r = predefined_regions()[args.region].create_instance()
    r.centroid = centroid_by_region_and_distance(args.region, DistanceByDTW())
    for p in arima_suite_by_name(args.arima).arima_params_gen():
        ForecastAnalysis(TrainerArimaPDQ(p, r.shape[1], r.shape[2]),
                         int(args.parallel) if args.parallel else None).analyze_errors(r, 'MASE')
''' % HEAD, keep=FACTORIES + ('create_instance', 'arima_suite_by_name', '!analyze_errors',
                              'centroid_by_region_and_distance'),
      aspect=calls('analyze_errors', recv=True))
SUITE = '''
    from experiments.metadata.clustering import get_suite
    from experiments.metadata.arima_clustering import (auto_arima_clustering_experiments,
                                                       experiments_for_arima_with_clusters)
    from spta.clustering.factory import ClusteringFactory
    from spta.model.forecast import ForecastAnalysis
    from spta.arima.train import TrainerArimaPDQ
    import os
    import csv
'''
SKEEP = LKEEP + ('auto_arima_clustering_experiments', 'experiments_for_arima_with_clusters',
                 'arima_suite_by_name', 'instance', '!instance', 'partition', 'output_dir',
                 'create_all_spt_clusters', '!analyze_errors', 'analyze_errors',
                 'analysis_csv_filepath', 'distances_to_point', '!distances_to_point',
                 'combine', '!combine', 'absolute_position_of_point',
                 'spta.distance.variance.DistanceHistogramClusters.cluster_histograms',
                 'spta.clustering.silhouette.SilhouetteAnalysis',
                 'experiments.clustering.partition_analysis.analyze_partition',
                 'experiments.auto_arima.training_error_analysis.analyze_auto_arima_for_cluster',
                 'plot_distances_vs_errors', '!plot_distances_vs_errors', 'perform_analysis')
PA = '''
%s
%s
%s
    from spta.clustering.silhouette import SilhouetteAnalysis
    from experiments.clustering.partition_analysis import analyze_partition
    suite = get_suite(args.clustering_type, args.clustering_suite)
    suite.identifier = args.clustering_suite
    if args.silhouette:
        SilhouetteAnalysis(rm, dm, suite).perform_analysis('outputs', 'pickle')
    with open(suite.analysis_csv_filepath('outputs', rm, dm), 'w') as f:
        w = %s
        w.writerow(['clustering', 'total_cost', 'medoids'])
        for cm in suite:
            w.writerow(analyze_partition(rm, ClusteringFactory(dm).instance(cm), 'outputs',
                                         logger, args))
''' % (HEAD, LOADED, SUITE, WRITER)
for name, asp in (('table', tables), ('silhouette', calls('perform_analysis', recv=True)),
                  ('matrix', calls('load_distance_matrix_2d'))):
    P.law('analysis of the partitions of a suite: ' + name,
          E + 'clustering.partition_analysis.analyze_suite', '''
def a(args, logger):
    from experiments.clustering.partition_analysis import analyze_suite
    analyze_suite(args, logger)
''', 'def b(args, logger):' + PA, keep=SKEEP, aspect=asp)
AP = '''
%s
    from spta.distance.variance import DistanceHistogramClusters
    whole = rm.create_instance()
    dm = algorithm.distance_measure
    partition = algorithm.partition(whole, with_medoids=True, save_csv_at=home,
                                    pickle_home='pickle')
    clusters = partition.create_all_spt_clusters(whole, medoids=partition.medoids)
    costs = []
    text = ''
    for i in range(algorithm.k):
        c = clusters[i]
        at = whole.region_metadata.absolute_position_of_point(c.centroid)
        text += '({},{}) '.format(at.x, at.y)
        costs.append(dm.combine(dm.distances_to_point(c, c.centroid, c.all_point_indices)))
    if args.variance:
        DistanceHistogramClusters.cluster_histograms(
            clusters=clusters, clustering_algorithm=algorithm,
            random_points=int(args.random) if args.random else None, bins=args.bins,
            with_statistics=True, plot_dir=algorithm.output_dir(home, rm), alpha=0.5)
    return ['{!r}'.format(algorithm), '{:0.3f}'.format(dm.combine(costs)), text]
''' % SUITE
for name, asp in (('row', 'value'), ('histograms', calls('cluster_histograms'))):
    P.law('analysis of a partition: ' + name,
          E + 'clustering.partition_analysis.analyze_partition', '''
def a(rm, algorithm, home, logger, args):
    from experiments.clustering.partition_analysis import analyze_partition
    return analyze_partition(rm, algorithm, home, logger, args)
''', 'def b(rm, algorithm, home, logger, args):' + AP,
          keep=tuple(k for k in SKEEP if 'analyze_partition' not in k), aspect=asp)
EKEEP = SKEEP + ('prepare_for_training', '!prepare_for_training', 'train_models_at_medoids',
                 '!train_models_at_medoids', 'with_repeated_forecast', '!with_repeated_forecast',
                 '!split', 'split', 'function_at', 'value_at', 'extract_pdq',
                 'plot_distances_vs_forecast_errors')
for mod, fn, arg, metas in (
        ('auto_arima.error_between_medoids', 'do_auto_arima_errors', 'auto_arima_cluster', 0),
        ('auto_arima.distance_errors', 'do_auto_arima_distance_errors', 'auto_arima_cluster', 1)):
    P.law('metadata of ' + mod, E + mod + '.metadata_from_args', '''
def a(args):
    from experiments.%s import metadata_from_args
    return metadata_from_args(args)
''' % mod, '''
def b(args):
%s
%s
    e = auto_arima_clustering_experiments()[args.%s]
    return (predefined_regions()[args.region], get_suite(e.clustering_type, e.clustering_suite_id),
            predefined_auto_arima()[e.auto_arima_id]%s)
''' % (HEAD, SUITE, arg, '' if metas else ', args.flen, args.error'), keep=SKEEP)
for mod, fac in (('arima.training_error_analysis', 'experiments_for_arima_with_clusters'),
                 ('auto_arima.training_error_analysis', 'auto_arima_clustering_experiments')):
    arima = mod.startswith('arima')
    P.law('metadata of ' + mod, E + mod + '.metadata_from_args', '''
def a(args):
    from experiments.%s import metadata_from_args
    r, s, m, d = metadata_from_args(args)
    return r, s, m, d%s
''' % (mod, ', m.name' if arima else ''), '''
def b(args):
%s
%s
    from experiments.metadata.arima import arima_suite_by_name
    e = %s()[args.%s]
    m = %s
    return (predefined_regions()[args.region], get_suite(e.clustering_type, e.clustering_suite_id),
            m, e.distance%s)
''' % (HEAD, SUITE, fac, 'arima_clustering_id' if arima else 'auto_arima_clustering_id',
       'arima_suite_by_name(e.arima_suite_id)' if arima else
       'predefined_auto_arima()[e.auto_arima_id]', ', e.arima_suite_id' if arima else ''),
          keep=SKEEP)
TRAINER = '''
    trainer = SolverTrainer(region_metadata=rm, clustering_metadata=cm,
                            distance_measure=DistanceByDTW(),
                            model_trainer=TrainerAutoArima(params, rm.x_len, rm.y_len),
                            model_params=params, test_len=n, error_type=kind)
    trainer.prepare_for_training()
    partition = trainer.clustering_algorithm.partition(whole, with_medoids=True,
                                                       save_csv_at='outputs', pickle_home='pickle')
'''
EBM = '''
%s
%s
%s
    from spta.model.error import ErrorAnalysis
    from spta.model.train import SplitTrainingAndTestLast
    medoids = partition.medoids
    training, test = SplitTrainingAndTestLast(n).split(whole)
    ea = ErrorAnalysis(test, training_region=training, parallel_workers=None)
    models = trainer.train_models_at_medoids(training, medoids)
    with open(os.path.join(trainer.metadata.output_dir('outputs'),
                           'error-between-medoids__{!r}__{}.csv'.format(cm, kind)), 'w') as f:
        w = %s
        w.writerow(['cluster'] + [str(i) for i in range(cm.k)])
        models.forecast_len = n
        for i, m in enumerate(medoids):
            forecast = models.function_at(m)(None)
            e = ea.with_repeated_forecast(forecast, kind)
            w.writerow([str(i)] + ['{:.3f}'.format(e.value_at(o)) for o in medoids])
''' % (HEAD, SUITE, TRAINER, WRITER)
for name, asp in (('table', tables), ('partition', calls('partition', recv=True)),
                  ('models', calls('train_models_at_medoids', recv=True)),
                  ('errors', calls('with_repeated_forecast', recv=True)),
                  ('preparation', calls('prepare_for_training', recv=True)),
                  ('length', assigned('forecast_len'))):
    P.law('errors between medoids: ' + name,
          E + 'auto_arima.error_between_medoids.do_auto_arima_errors_for_clustering', '''
def a(whole, rm, cm, params, n, kind, logger):
    from experiments.auto_arima.error_between_medoids import do_auto_arima_errors_for_clustering
    do_auto_arima_errors_for_clustering(whole, rm, cm, params, n, kind, logger)
''', 'def b(whole, rm, cm, params, n, kind, logger):' + EBM, keep=EKEEP, aspect=asp)
DE = '''
%s
%s
    from spta.model.error import ErrorAnalysis
    from spta.model.train import SplitTrainingAndTestLast
    from spta.arima.train import extract_pdq
    training, test = SplitTrainingAndTestLast(n).split(cluster)
    training.centroid = cluster.centroid
    dm = trainer.distance_measure
    d = dm.distances_to_point(cluster, cluster.centroid, cluster.all_point_indices)
    models = trainer.train_models_at_medoids(training_region=training,
                                             medoids=(cluster.centroid,))
    ea = ErrorAnalysis(test, training_region=training, parallel_workers=None)
    models.forecast_len = n
    e = ea.with_repeated_forecast(models.function_at(cluster.centroid)(None), kind)
    errors = [v for _, v in e]
    pdq = extract_pdq(models.value_at(cluster.centroid))
    with open(os.path.join(trainer.metadata.output_dir('outputs'),
                           'dist-error__{!r}__{}__{}__auto-arima-p{}-d{}-q{}.csv'.format(
                               trainer.clustering_metadata, kind, cluster.name,
                               pdq[0], pdq[1], pdq[2])), 'w') as f:
        w = %s
        w.writerow(['position', 'distance_{}'.format(dm), 'forecast_error'])
        for i, (p, _) in enumerate(cluster):
            w.writerow([trainer.region_metadata.absolute_position_of_point(p),
                        '{:.3f}'.format(d[i]), '{:.3f}'.format(errors[i])])
    if plots:
        from spta.util import plot as plot_util
        plot_util.plot_distances_vs_forecast_errors(
            distances_to_point=d, forecast_errors=errors, distance_measure=dm, error_type=kind,
            info_text='\\n'.join(('{}'.format(cluster), 'ARIMA: {}'.format(
                models.value_at(cluster.centroid).model.order),
                '{}'.format(trainer.clustering_metadata))),
            plot_filename=os.path.join(trainer.metadata.output_dir('outputs'),
                'dist-error__{!r}__{}__{}__auto-arima-p{}-d{}-q{}.pdf'.format(
                    trainer.clustering_metadata, kind, cluster.name, pdq[0], pdq[1], pdq[2])))
''' % (HEAD, SUITE, WRITER)
for name, asp in (('table', tables), ('distances', calls('distances_to_point', recv=True)),
                  ('models', calls('train_models_at_medoids', recv=True)),
                  ('errors', calls('with_repeated_forecast', recv=True)),
                  ('length', assigned('forecast_len')),
                  ('plot', calls('plot_distances_vs_forecast_errors')),
                  ('medoid', assigned('centroid'))):
    P.law('distances and errors of a cluster: ' + name,
          E + 'auto_arima.distance_errors.distance_vs_errors_for_cluster', '''
def a(cluster, trainer, partition, n, kind, plots, logger):
    from experiments.auto_arima.distance_errors import distance_vs_errors_for_cluster
    distance_vs_errors_for_cluster(cluster, trainer, partition, n, kind, plots, logger)
''', 'def b(cluster, trainer, partition, n, kind, plots, logger):' + DE, keep=EKEEP, aspect=asp)

P.law('errors between medoids of the clusterings asked for',
      E + 'auto_arima.error_between_medoids.do_auto_arima_errors', '''
def a(args, logger):
    from experiments.auto_arima.error_between_medoids import do_auto_arima_errors
    do_auto_arima_errors(args, logger)
''', '''
def b(args, logger):
%s
%s
    from experiments.auto_arima.error_between_medoids import do_auto_arima_errors_for_clustering
    e = auto_arima_clustering_experiments()[args.auto_arima_cluster]
    rm = predefined_regions()[args.region]
    whole = rm.create_instance()
    for cm in get_suite(e.clustering_type, e.clustering_suite_id):
        do_auto_arima_errors_for_clustering(whole, rm, cm, predefined_auto_arima()[e.auto_arima_id],
                                            args.flen, args.error, logger)
''' % (HEAD, SUITE), keep=EKEEP + ('do_auto_arima_errors_for_clustering',),
      aspect=calls('do_auto_arima_errors_for_clustering'))
for name, asp in (('', calls('distance_vs_errors_for_cluster')),
                  (': preparation', calls('prepare_for_training', recv=True))):
    P.law('distances and errors of the clusters of the clusterings asked for' + name,
          E + 'auto_arima.distance_errors.do_auto_arima_distance_errors', '''
def a(args, logger):
    from experiments.auto_arima.distance_errors import do_auto_arima_distance_errors
    do_auto_arima_distance_errors(args, logger)
''', '''
def b(args, logger):
%s
%s
    from experiments.auto_arima.distance_errors import distance_vs_errors_for_cluster
    e = auto_arima_clustering_experiments()[args.auto_arima_cluster]
    rm = predefined_regions()[args.region]
    whole = rm.create_instance()
    params = predefined_auto_arima()[e.auto_arima_id]
    n, kind = args.flen, args.error
    for cm in get_suite(e.clustering_type, e.clustering_suite_id):
%s
        for c in partition.create_all_spt_clusters(whole, medoids=partition.medoids):
            distance_vs_errors_for_cluster(c, trainer, partition, n, kind, args.plots, logger)
''' % (HEAD, SUITE, TRAINER.replace('\n    ', '\n        ')),
          keep=EKEEP + ('distance_vs_errors_for_cluster',), aspect=asp)
for mod, fn, inner, fac in (
        ('arima.training_error_analysis', 'do_arima_error_analysis',
         'do_arima_error_analysis_for_clustering',
         "experiments_for_arima_with_clusters()[args.arima_clustering_id]"),
        ('auto_arima.training_error_analysis', 'do_auto_arima_error_analysis',
         'do_auto_arima_error_analysis_for_clustering',
         "auto_arima_clustering_experiments()[args.auto_arima_clustering_id]")):
    arima = mod.startswith('arima')
    P.law('errors of the clusterings asked for: ' + mod, E + mod + '.' + fn, '''
def a(args, logger):
    from experiments.%s import %s
    %s(args, logger)
''' % (mod, fn, fn), '''
def b(args, logger):
%s
%s
%s
    from experiments.metadata.arima import arima_suite_by_name
    from experiments.%s import %s
    e = %s
    if e.distance != 'dtw':
        raise ValueError
    whole = rm.create_instance()
    m = %s
    for cm in get_suite(e.clustering_type, e.clustering_suite_id):
        %s(whole, ClusteringFactory(dm).instance(cm), m, args.error,
           int(args.parallel) if args.parallel else None, True if args.plots else False, logger)
''' % (HEAD, SUITE, LOADED, mod, inner, fac,
       'arima_suite_by_name(e.arima_suite_id)' if arima else
       'predefined_auto_arima()[e.auto_arima_id]', inner),
          keep=EKEEP + (inner,), aspect=calls(inner))

ROW = """
    overall, t_forecast, t_elapsed = fa.analyze_errors(c, kind)
"""
NUMS = """'{:.3f}'.format(t_forecast), '{:.3f}'.format(t_elapsed), '{:.3f}'.format(overall.each),
                 '{:.3f}'.format(overall.minimum), '{:.3f}'.format(overall.min_local),
                 '{:.3f}'.format(overall.centroid), '{:.3f}'.format(overall.maximum)"""
AEA = """
%s
%s
    partition = algorithm.partition(whole, with_medoids=True, save_csv_at='outputs',
                                    pickle_home='pickle')
    clusters = partition.create_all_spt_clusters(whole, medoids=partition.medoids)
    out = os.path.join(algorithm.output_dir('outputs', whole.region_metadata),
                       'arima-{}'.format(suite.name))
    with open(os.path.join(out, 'error-analysis__{!r}__{}__{}.csv'.format(
            algorithm, suite.name, kind)), 'w') as f:
        w = %s
        w.writerow(('cluster', 'size', 'p', 'd', 'q', 'failed', 't_forecast', 't_elapsed',
                    'error_each', 'error_min', 'error_min_local', 'error_medoid', 'error_max'))
        for i in range(algorithm.k):
            c = clusters[i]
            for params in suite.arima_params_gen():
                trainer = TrainerArimaPDQ(params, whole.x_len, whole.y_len)
                fa = ForecastAnalysis(trainer, parallel_workers=workers)
                overall, t_forecast, t_elapsed = fa.analyze_errors(c, kind)
                p, d, q = params
                w.writerow((i, c.cluster_len, p, d, q, trainer.missing_count, %s))
                if plots:
                    fa.plot_distances_vs_errors(
                        c.centroid, fa.DEFAULT_FORECAST_LENGTH, kind, algorithm.distance_measure,
                        plot_name=os.path.join(out, 'dist-error__{!r}__{}__{}__arima-p{}-d{}-q{}.pdf'
                            .format(algorithm, kind, c.name, params.p, params.d, params.q)),
                        plot_desc='{!r}'.format(algorithm))
""" % (HEAD, SUITE, WRITER, NUMS)
for name, asp in (('table', tables), ('analyses', calls('analyze_errors', recv=True)),
                  ('plots', calls('plot_distances_vs_errors', recv=True))):
    P.law('errors of ARIMA models of clusters: ' + name,
          E + 'arima.training_error_analysis.do_arima_error_analysis_for_clustering', """
def a(whole, algorithm, suite, kind, workers, plots, logger):
    from experiments.arima.training_error_analysis import do_arima_error_analysis_for_clustering
    do_arima_error_analysis_for_clustering(whole, algorithm, suite, kind, workers, plots, logger)
""", 'def b(whole, algorithm, suite, kind, workers, plots, logger):' + AEA, keep=EKEEP, aspect=asp)
AAEA = """
%s
%s
    from experiments.auto_arima.training_error_analysis import analyze_auto_arima_for_cluster
    partition = algorithm.partition(whole, with_medoids=True, save_csv_at='outputs',
                                    pickle_home='pickle')
    clusters = partition.create_all_spt_clusters(whole, medoids=partition.medoids)
    out = os.path.join(algorithm.output_dir('outputs', whole.region_metadata),
                       '{!r}'.format(params))
    path = os.path.join(out, 'error-analysis__{!r}__{!r}__{}.csv'.format(algorithm, params, kind))
    with open(path, 'w') as f:
        w = %s
        w.writerow(('cluster', 'size', 'p_medoid', 'd_medoid', 'q_medoid', 'aic_medoid', 'failed',
                    't_forecast', 't_elapsed', 'error_each', 'error_min', 'error_min_local',
                    'error_medoid', 'error_max'))
    for i in range(algorithm.k):
        analyze_auto_arima_for_cluster(clusters[i], i, algorithm, params, kind, workers, plots, path,
                                       out, logger)
""" % (HEAD, SUITE, WRITER)
for name, asp in (('table', tables), ('clusters', calls('analyze_auto_arima_for_cluster'))):
    P.law('errors of auto ARIMA models of clusters: ' + name,
          E + 'auto_arima.training_error_analysis.do_auto_arima_error_analysis_for_clustering', """
def a(whole, algorithm, params, kind, workers, plots, logger):
    from experiments.auto_arima.training_error_analysis import (
        do_auto_arima_error_analysis_for_clustering)
    do_auto_arima_error_analysis_for_clustering(whole, algorithm, params, kind, workers, plots,
                                                logger)
""", 'def b(whole, algorithm, params, kind, workers, plots, logger):' + AAEA, keep=EKEEP, aspect=asp)
AC = """
%s
%s
    trainer = TrainerAutoArima(params, c.x_len, c.y_len)
    fa = ForecastAnalysis(trainer, workers)
    overall, t_forecast, t_elapsed = fa.analyze_errors(c, kind)
    models = fa.model_region
    p, d, q = models.pdq_region.series_at(c.centroid)
    with open(path, 'a') as f:
        w = %s
        w.writerow((i, c.cluster_len, p, d, q, '{:.3f}'.format(models.aic_region.value_at(c.centroid)),
                    models.missing_count, %s))
    if plots:
        fa.plot_distances_vs_errors(
            c.centroid, ForecastAnalysis.DEFAULT_FORECAST_LENGTH, kind, algorithm.distance_measure,
            plot_name=os.path.join(out, 'dist-error__{!r}__{}__{}__auto-arima-p{}-d{}-q{}.pdf'
                                   .format(algorithm, kind, c.name, p, d, q)),
            plot_desc='{!r}'.format(algorithm))
""" % (HEAD, SUITE, WRITER, NUMS)
for name, asp in (('row', tables), ('analyses', calls('analyze_errors', recv=True)),
                  ('plots', calls('plot_distances_vs_errors', recv=True))):
    P.law('errors of auto ARIMA models of a cluster: ' + name,
          E + 'auto_arima.training_error_analysis.analyze_auto_arima_for_cluster', """
def a(c, i, algorithm, params, kind, workers, plots, path, out, logger):
    from experiments.auto_arima.training_error_analysis import analyze_auto_arima_for_cluster
    analyze_auto_arima_for_cluster(c, i, algorithm, params, kind, workers, plots, path, out, logger)
""", 'def b(c, i, algorithm, params, kind, workers, plots, path, out, logger):' + AC,
          keep=tuple(k for k in EKEEP if 'analyze_auto_arima' not in k) + ('series_at',), aspect=asp)


def _members(t):
    '''the collection of choices, whatever the container'''
    def f(u):
        while True:
            if u.op == 'call' and u.args[0] in ('list', 'tuple', 'set', 'sorted', 'dict.keys',
                                                'frozenset') and len(u.args[1]) == 1:
                u = u.args[1][0]
            elif u.op == 'mcall' and u.args[1] == 'keys' and not u.args[2]:
                u = u.args[0]
            else:
                break
        if u.op in ('list', 'tuple', 'set'):
            items = u.args[1] if u.op == 'tuple' else u.args[0]
            return mk('set', tuple(sorted(items)))
        return u
    return T.map_leaves(t, f)


def options(r, I):
    '''the options that a command line has: where they are declared, name, type, default, choices'''
    out = []
    for e in r.trace:
        if e.kind != 'mcall' or e.args[1] not in ('add_argument', 'set_defaults', 'add_parser'):
            continue
        if e.args[1] == 'add_parser':
            # the options of 'all' are those of each command that inherits them
            out.append(mk('tuple', '', (e.args[2][0], const(
                'parents' in e.args[3]))))
            continue
        rc, n, a, kw = e.args
        who = 'all'
        if rc is not None and rc.op == 'mcall' and rc.args[1] == 'add_parser' and rc.args[2]:
            who = rc.args[2][0].args[0]
        d = dict(kw)
        for k in ('help', 'metavar'):
            d.pop(k, None)
        if d.get('action') is const('store_true') and d.get('default') is FALSE:
            d.pop('default')
        if d.get('default') is mk('none'):
            d.pop('default')
        if d.get('required') is FALSE:
            d.pop('required')
        if 'choices' in d:
            d['choices'] = _members(I.reify(d['choices'], r.heap))
        if n == 'set_defaults':
            for k, v in d.items():
                if v.op == 'bound' or v.op == 'func':
                    d[k] = const(str(v.args[-1]))
        body = mk('tuple', '', (const(who), const(n), mk('set', tuple(sorted(a)))) + tuple(
            mk('tuple', '', (const(k), I.reify(d[k], r.heap))) for k in sorted(d)))
        if e.loops:
            raise T.Unsupported('options declared in a loop')
        out.append(mk('tuple', '', (canon(body), e.pc)))
    return mk('set', tuple(sorted(set(out))))


REGION = "p.add_argument('region', choices=predefined_regions())"
LOGC = "p.add_argument('--log', default='INFO', choices=('WARN', 'INFO', 'DEBUG'))"
LOG = "p.add_argument('--log')"
ERROR = "p.add_argument('--error', default='sMAPE', choices=error_functions())"
KIND = "p.add_argument('%s', choices=('kmedoids', 'regular'))"
SUITES = "p.add_argument('clustering_suite', choices=suite_options())"
AUTO = "p.add_argument('auto_arima', choices=predefined_auto_arima())"
INT = "p.add_argument('--%s', default=%d, type=int)"
COORDS = ["%s.add_argument('" + c + "')" for c in ('lat1', 'lat2', 'long1', 'long2')]
WITH_K = [KIND % 'clustering', "p.add_argument('-k', required=True, type=int)", INT % ('seed', 1)]
TWO = ["t = s.add_parser('train', parents=[p])",
       "q = s.add_parser('predict', parents=[p])"] + \
    [c % 'q' for c in COORDS] + ["q.add_argument('--tf', default=0, type=int)",
                                 "t.set_defaults(func=%s.train_request)",
                                 "q.set_defaults(func=%s.predict_request)"]
AAC = "p.add_argument('%s', choices=auto_arima_clustering_experiments())"
PLOTS = "p.add_argument('--plots', action='store_true')"
PARSERS = {
    'auto_arima.solver': ('processRequest', [REGION, AUTO] + WITH_K + [INT % ('tp', 8), ERROR, LOGC] + TWO),
    'baseline.solver_knn_medoids': ('processRequest', [
        REGION, "p.add_argument('knn', type=int)"] + WITH_K + [INT % ('test', 8), ERROR, LOGC] + TWO),
    'baseline.solver_mean_past': ('processRequest', [REGION] + WITH_K + [
        INT % ('past', 10), INT % ('test', 8), ERROR, LOGC] + TWO),
    'auto_arima.solver_each': ('call_parser', [REGION, AUTO] + [c % 'p' for c in COORDS] + [
        ERROR, INT % ('tf', 8), LOGC]),
    'baseline.solver_knn_each': ('call_parser', [REGION, "p.add_argument('knn', type=int)"] + [
        c % 'p' for c in COORDS] + [ERROR, INT % ('tf', 8), LOGC]),
    'classifier.solver_dnn': ('call_parser', [
        REGION, AAC % 'auto_arima_clustering_id',
        "p.add_argument('classifier', choices=classifier_experiments())",
        "p.add_argument('--out-of-sample', choices=predefined_regions())"] + [
        c % 'p' for c in COORDS] + [ERROR, INT % ('tf', 8), LOGC]),
    'clustering.extraction_lstm': ('processRequest', [
        REGION, KIND % 'clustering_type', SUITES,
        "p.add_argument('criterion', choices=('min_distance', 'min_error'))",
        INT % ('random', 1000), INT % ('random-seed', 0), INT % ('threshold', 0), INT % ('tp', 8),
        "p.add_argument('--auto-arima', default='simple', choices=predefined_auto_arima())",
        ERROR, LOGC]),
    'clustering.find_elbows': ('call_parser', [
        REGION, "p.add_argument('clustering_suite', choices=kmedoids_suites())", LOGC]),
    'clustering.medoid_distances': ('processRequest', [REGION, KIND % 'clustering', SUITES, LOG]),
    'clustering.partition_analysis': ('processRequest', [
        REGION, KIND % 'clustering_type', SUITES, LOGC,
        "p.add_argument('--silhouette', action='store_true')",
        "p.add_argument('--variance', action='store_true')",
        "p.add_argument('--random')", "p.add_argument('--bins', default='auto')"]),
    'auto_arima.distance_errors': ('processRequest', [
        REGION, AAC % 'auto_arima_cluster', INT % ('flen', 8), ERROR, PLOTS, LOGC]),
    'auto_arima.error_between_medoids': ('processRequest', [
        REGION, AAC % 'auto_arima_cluster', INT % ('flen', 8), ERROR, LOG]),
    'auto_arima.training_error_analysis': ('processRequest', [
        REGION, AAC % 'auto_arima_clustering_id', ERROR, "p.add_argument('--parallel')", PLOTS,
        LOGC]),
    'arima.training_error_analysis': ('processRequest', [
        REGION, "p.add_argument('arima_clustering_id', choices=experiments_for_arima_with_clusters())",
        ERROR, "p.add_argument('--parallel')", PLOTS, LOGC]),
    'arima.forecast': ('processRequest', [
        REGION, "p.add_argument('arima', choices=predefined_arima_suites())",
        "p.add_argument('--parallel')", LOG]),
    'region.distance': ('processRequest', [
        REGION, "p.add_argument('distance', choices=['dtw'])", "p.add_argument('--parallel')",
        PLOTS, LOG]),
    'region.centroid': ('processRequest', [REGION, LOG]),
}
REQUESTS = ('process_request', 'analyze_suite', 'do_medoid_distances', 'do_auto_arima_errors',
            'do_auto_arima_distance_errors', 'do_auto_arima_error_analysis',
            'do_arima_error_analysis', 'do_arima_forecast', 'calculate_distances_with_args',
            'calculate_centroid_with_args')
for mod, (fn, opts) in PARSERS.items():
    lines = [o.replace('%s.', '') if 'set_defaults' in o else o for o in opts]
    if opts[-1] is TWO[-1]:
        lines.insert(0, 'from experiments.%s import train_request, predict_request' % mod)
    P.law('options of ' + mod, E + mod + '.' + fn, '''
def a():
    from experiments.%s import %s
    %s()
''' % (mod, fn, fn), '''
def b():
%s
%s
    import argparse
    from experiments.metadata.arima import predefined_arima_suites
    from experiments.metadata.classifier import classifier_experiments
    from experiments.metadata.clustering import suite_options, kmedoids_suites
    from spta.model.error import error_functions
    p = argparse.ArgumentParser()
    s = p.add_subparsers()
    %s
''' % (HEAD, SUITE, '\n    '.join(lines)),
          aspect=options, keep=SKEEP + REQUESTS + (
              'predefined_arima_suites', 'classifier_experiments', 'suite_options',
              'kmedoids_suites', 'error_functions', 'train_request', 'predict_request',
              'setup_log_argparse'))


def started(mod, fn):
    def rule(cx):
        from sa.obl import Outcome, OK, VIOLATION, UNDECIDED
        names = REQUESTS if PARSERS[mod][1][-1] is not TWO[-1] else ('func',)
        f = cx.find(E + mod + '.' + fn)
        I = cx.interp(keep=SKEEP + REQUESTS + ('setup_log_argparse',))
        r = I.run(f)
        cx.functions |= I.functions_seen
        mine = [e for e in r.trace if e.kind in ('call', 'mcall', 'apply') and
                str(e.args[1]).rsplit('.', 1)[-1] in names]
        if [e for e in mine if e.loops]:
            return Outcome(UNDECIDED, 'requests in a loop')
        when = T.FALSE
        for e in mine:
            a = e.args[2]
            if not a or a[0].op != 'mcall' or a[0].args[1] != 'parse_args' or a[0].args[2]:
                return Outcome(UNDECIDED, 'the request does not get the parsed arguments', cx.where(f))
            if T.b_and(when, e.pc) is not T.FALSE:
                return Outcome(VIOLATION, 'the request may be processed twice', cx.where(f))
            when = T.b_or(when, e.pc)
        if when is T.TRUE:
            return Outcome(OK)
        if not mine:
            used = {str(e.args[1]) for e in r.trace if e.kind in ('call', 'mcall', 'apply')}
            if any(u.startswith(('experiments.', 'spta.')) and u.rsplit('.', 1)[-1] not in KNOWN_CALLS
                   for u in used):
                return Outcome(UNDECIDED, 'the request may be processed by another function')
            return Outcome(VIOLATION, 'the parsed request is never processed', cx.where(f))
        if when is T.FALSE or cx.known(when, T.TRUE) is None:
            return Outcome(VIOLATION, 'the parsed request is processed only if %s'
                           % T.show(when)[:200], cx.where(f))
        return Outcome(UNDECIDED, 'unknown condition of the request')
    return rule


KNOWN_CALLS = SKEEP + ('predefined_arima_suites', 'classifier_experiments', 'suite_options',
                       'kmedoids_suites', 'error_functions', 'setup_log_argparse')
for mod, (fn, opts) in PARSERS.items():
    P.rule('request of ' + mod, 'the program passes the parsed arguments to the function that '
           'answers the request exactly once, under no condition')(started(mod, fn))


def with_directory(q):
    def rule(cx):
        from sa.obl import Outcome, OK, VIOLATION, UNDECIDED
        f, I, r = cx.summarise(q, keep=tuple(
            k for k in EKEEP if not q.startswith(k)) + ('!output_dir',))
        made, out = [], []

        def parts(t):
            return [u.args[2] if u.op == 'conv' and u.args[:2] == ('s', '') else u
                    for u in (t.args[0] if t.op == 'fmt' else (t,))]

        def base(t):
            while t.op == 'index' and t.args[0].op == 'call' and \
                    t.args[0].args[0] == 'os.path.split' and t.args[1] is const(0) or \
                    t.op == 'call' and t.args[0] == 'os.path.dirname':
                t = t.args[0].args[1][0] if t.op == 'index' else t.args[1][0]
            return t
        for e in r.trace:
            if e.kind not in ('call', 'mcall'):
                continue
            n = str(e.args[1]).rsplit('.', 1)[-1]
            if n in ('makedirs', 'mkdir') and e.args[2]:
                made.append(parts(base(I.reify(e.args[2][0], r.heap))))
            elif n == 'open' and e.args[2]:
                a, kw = e.args[2], e.args[3]
                mode = a[1] if len(a) > 1 else kw.get('mode', T.const('r'))
                if mode.op != 'str' or not set(mode.args[0]) & set('wx'):
                    continue
                path = parts(I.reify(a[0], r.heap))
                ok = [m for m in made if path[:len(m)] == m]
                if not ok:
                    out.append(Outcome(UNDECIDED if made else VIOLATION,
                                       'the directory of the file is not created before the file',
                                       cx.where(f)))
                cx.sites += 1
        return out or Outcome(OK)
    return rule


for q in (E + 'auto_arima.error_between_medoids.do_auto_arima_errors_for_clustering',
          E + 'auto_arima.distance_errors.distance_vs_errors_for_cluster',
          E + 'arima.training_error_analysis.do_arima_error_analysis_for_clustering',
          E + 'auto_arima.training_error_analysis.do_auto_arima_error_analysis_for_clustering',
          E + 'clustering.medoid_distances.do_medoid_distances',
          E + 'clustering.partition_analysis.analyze_suite'):
    P.rule('directory of the results of ' + q, 'a directory is created before a file is written '
           'in it')(with_directory(q))

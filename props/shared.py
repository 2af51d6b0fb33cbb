'''The training of a solver, evaluated for the properties that speak about it.'''
from sa.prop import *     # noqa


def _part(I, recv, args, kw, e):
    t = I.opaque_method(recv, 'partition', args, kw, e, None)
    I.set_type(t, 'PartitionRegionCrisp')
    return I.sym('part', 'PartitionRegionCrisp')


TRAIN_CFG = dict(
    keep=('TrainAtRepresentatives', 'MeasureForecastingError', 'ClusteringFactory',
          'SolverMetadataBuilder', 'metadata', 'train_models', 'series_at', 'value_at', 'is_member',
          'apply_to', 'create_instance', 'partition', 'create_refitter', 'instance', 'descale',
          'create_all_spatial_clusters', 'merge_with_representatives_2d',
          'load_distance_matrix_2d', 'retrieve_dataset_interval', 'mkdir',
          'split_training_and_test', 'get_error_func', 'scale_min', 'scale_max'),
    attr_types={'region_metadata': 'SpatioTemporalRegionMetadata', 'partition': 'PartitionRegion',
                'region': 'Region', 'model_trainer': 'ModelTrainer', 'trainer': 'ModelTrainer'},
    ret_types={'create_instance': 'SpatioTemporalRegion', 'apply_to': 'ModelRegion',
               'merge_with_representatives_2d': 'SpatialRegion'},
    hooks={'.partition': _part},
    name_types={'trainer': 'ModelTrainer', 'rm': 'SpatioTemporalRegionMetadata',
                'part': 'PartitionRegionCrisp', 'lo': 'SpatialRegion', 'hi': 'SpatialRegion'})

TARGS = "rm, cm, dm, trainer: 'ModelTrainer', params, t, err, out, part: 'PartitionRegionCrisp'"
REF = '''
def b(%s):
    spt = rm.create_instance()
    tr, te = SplitTrainingAndTestLast(t).split(spt)
    mt = TrainAtRepresentatives(trainer, part.medoids).apply_to(tr)
    rt = mt.instance(part.merge_with_representatives_2d(
        part.create_all_spatial_clusters(mt), part.medoids).as_numpy)
    er = MeasureForecastingError(get_error_func(err), te, tr).apply_to(
        rt.apply_to(te, te.series_len))
    mw = trainer.create_refitter(mt).apply_to(spt)
    rw = mw.instance(part.merge_with_representatives_2d(
        part.create_all_spatial_clusters(mw), part.medoids).as_numpy)
    return %s
'''
ACT = '''
def a(%s):
    s = SolverTrainer(rm, cm, dm, trainer, params, t, err).train(out)
    return %s
'''
ATTRS = (
        ('model_region_training', 'rt', 'the evaluated models are trained on the training prefix '
         'at the medoids and replicated over their clusters'),
        ('model_region_whole', 'rw', 'the future models are refitted on the whole series'),
        ('generalization_errors', 'er', 'errors compare forecasts of the training models with the '
         'test suffix'),
        ('partition', 'part', 'the solver keeps the partition it trained with'))


def solver_training(P, *attrs):
    for attr, exp, rule in ATTRS:
        if attr not in attrs:
            continue
        P.law('SolverTrainer.train: ' + attr, 'spta.solver.train.SolverTrainer.train',
              ACT % (TARGS, 's.' + attr), REF % (TARGS, exp), rule=rule, **TRAIN_CFG)


PREP = '''
def a(rm, cm, dm, trainer, params, t, err):
    s = SolverTrainer(rm, cm, dm, trainer, params, t, err)
    s.prepare_for_training()
    return %s
'''
PREP_CFG = dict(keep=('ClusteringFactory', 'load_distance_matrix_2d'),
                name_types={'rm': 'SpatioTemporalRegionMetadata'})


def solver_distances(P):
    P.law('distances of a solver', 'spta.solver.train.SolverTrainer.prepare_for_training',
          PREP % 'None', '''
def b(rm, cm, dm, trainer, params, t, err):
    dm.load_distance_matrix_2d(rm.distances_filename, rm.region)
''', aspect=calls('load_distance_matrix_2d', recv=True),
          rule='the distances are those of the region that is trained', **PREP_CFG)


def solver_metadata(P):
    for attr, want in (('region_metadata', 'rm'), ('model_params', 'params'), ('test_len', 't'),
                       ('error_type', 'err'), ('clustering_metadata', 'cm'),
                       ('distance_measure', 'dm')):
        P.law('trained solver is described by its %s' % attr,
              'spta.solver.train.SolverTrainer.prepare_for_training', PREP % ('s.metadata.' + attr),
              'def b(rm, cm, dm, trainer, params, t, err):\n    return %s\n' % want,
              rule='the parameters that were trained with', strict=False, **PREP_CFG)

'''C03: every series is split into a training prefix and a test suffix; models never see the test.'''
from sa.prop import *     # noqa
from props.shared import solver_training

P = Prop('C03',
         'Value-graph evaluation of the splitter on every kind of region (plain, scaled, cluster, '
         'and stacks of them) for symbolic data and lengths, plus the dataflow of the training and '
         'test parts through training, error measurement and refitting.',
         cfg={'keep': ('series_at', 'value_at', 'is_member', 'apply_to', 'create_instance',
                       'partition', 'create_refitter', 'instance', 'descale',
                       'create_all_spatial_clusters', 'merge_with_representatives_2d',
                       'load_distance_matrix_2d', 'retrieve_dataset_interval', 'mkdir',
                       'split_training_and_test', 'get_error_func', 'scale_min', 'scale_max'),
              'attr_types': {'region_metadata': 'SpatioTemporalRegionMetadata',
                             'partition': 'PartitionRegion', 'region': 'Region',
                             'model_trainer': 'ModelTrainer', 'trainer': 'ModelTrainer'},
              'name_types': {'part': 'PartitionRegionCrisp', 'rm': 'SpatioTemporalRegionMetadata',
                             'lo': 'SpatialRegion', 'hi': 'SpatialRegion'}})

S = 'spta.model.train.SplitTrainingAndTestLast.split'
ARGS = "d, t, part, ci, lo, hi, rm, m"
KINDS = {
    'plain': 'SpatioTemporalRegion(d, rm)',
    'scaled': 'SpatioTemporalScaled(SpatioTemporalRegion(d), lo, hi, region_metadata=rm)',
    'cluster': 'SpatioTemporalCluster(SpatioTemporalRegion(d), part, ci, rm)',
    'cluster of scaled': 'SpatioTemporalCluster(SpatioTemporalScaled(SpatioTemporalRegion(d), '
                         'lo, hi), part, ci, rm)',
}
for kind, new in KINDS.items():
    P.law('split of a %s region' % kind, S,
          'def a(%s):\n    x, y = SplitTrainingAndTestLast(t).split(%s)\n'
          '    return (x.numpy_dataset, y.numpy_dataset)\n' % (ARGS, new),
          'def b(%s):\n    n = d.shape[0]\n'
          '    return (d[0:n - t, :, :], d[n - t:n, :, :])\n' % ARGS,
          rule='training is [0, n-t), test is [n-t, n), at every point')
    P.law('interval of a %s region' % kind,
          'spta.region.temporal.SpatioTemporalRegion.interval_subset',
          'def a(%s, i: "TimeInterval"):\n    x = %s.interval_subset(i)\n'
          '    return x.numpy_dataset\n' % (ARGS, new),
          'def b(%s, i: "TimeInterval"):\n    return d[i.t1:i.t2, :, :]\n' % ARGS,
          rule='an interval subset is the half-open interval at every point')

P.law('splitting a cluster preserves membership', S,
      'def a(%s):\n    x, y = SplitTrainingAndTestLast(t).split(%s)\n'
      '    return (x.partition, x.cluster_index, y.partition, y.cluster_index)\n'
      % (ARGS, KINDS['cluster']),
      'def b(%s):\n    return (part, ci, part, ci)\n' % ARGS,
      rule='both halves belong to the same cluster')
P.law('splitting a scaled region preserves scaling', S,
      'def a(%s):\n    x, y = SplitTrainingAndTestLast(t).split(%s)\n'
      '    return (x.scale_min, x.scale_max, y.scale_min, y.scale_max)\n'
      % (ARGS, KINDS['scaled']),
      'def b(%s):\n    return (lo, hi, lo, hi)\n' % ARGS,
      rule='both halves keep the scaling data')


STUB = '''
    class Trainer:
        def apply_to(self, region):
            return region
        def create_refitter(self, models):
            return self
'''
P.law('ForecastAnalysis trains on the training part',
      'spta.model.forecast.ForecastAnalysis.train_models',
      "def a(d, t, w):\n" + STUB +
      "    fa = ForecastAnalysis(Trainer(), w)\n"
      "    m = fa.train_models(SpatioTemporalRegion(d), t)\n"
      "    e = fa.error_analysis\n"
      "    return (m.numpy_dataset, e.observation_region.numpy_dataset, "
      "e.training_region.numpy_dataset)\n",
      "def b(d, t, w):\n"
      "    n = d.shape[0]\n    return (d[0:n - t, :, :], d[n - t:n, :, :], d[0:n - t, :, :])\n",
      rule='models are trained on the prefix; errors compare with the suffix and scale by the prefix')


solver_training(P, 'model_region_training', 'model_region_whole', 'generalization_errors', 'partition')

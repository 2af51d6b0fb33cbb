'''C06: deriving a region from another keeps its kind, cluster and data rectangle.'''
from sa.prop import *     # noqa

P = Prop('C06',
         'Value-graph evaluation of every derivation (subset, interval, repeat, new region, empty '
         'region, function result) on every kind of region and stack of decorators: resulting '
         'data, kind, partition, cluster index and shape.',
         cfg={'attr_types': {'partition': 'PartitionRegionCrisp'},
              'name_types': {'p': 'Point', 'part': 'PartitionRegionCrisp', 'pr': 'Region',
                             'rm': 'SpatioTemporalRegionMetadata', 'ti': 'TimeInterval',
                             'lo': 'SpatialRegion', 'hi': 'SpatialRegion'}})
R = 'spta.region.'
ARGS = 'd, e, v, s, part, ci, p, pr, ti, rm, lo, hi'
KINDS = {   # constructor, is temporal, is cluster, keeps scaling
    'spatial': ('SpatialRegion(d)', 0, 0, 0),
    'spatial cluster': ('SpatialCluster(SpatialRegion(d), part, ci)', 0, 1, 0),
    'error': ('ErrorRegion(SpatialRegion(d))', 0, 0, 0),
    'error of cluster': ('ErrorRegion(SpatialCluster(SpatialRegion(d), part, ci))', 0, 1, 0),
    'temporal': ('SpatioTemporalRegion(d, rm)', 1, 0, 0),
    'scaled': ('SpatioTemporalScaled(SpatioTemporalRegion(d), lo, hi, region_metadata=rm)',
               1, 0, 1),
    'temporal cluster': ('SpatioTemporalCluster(SpatioTemporalRegion(d), part, ci, rm)', 1, 1, 0),
    'cluster of scaled': ('SpatioTemporalCluster(SpatioTemporalScaled(SpatioTemporalRegion(d), '
                          'lo, hi), part, ci, rm)', 1, 1, 1),
    'scaled cluster': ('SpatioTemporalScaled(SpatioTemporalCluster(SpatioTemporalRegion(d), '
                       'part, ci), lo, hi)', 1, 1, 1),
}


def at_cluster(kind, x):
    '''the cluster layer of a derived region'''
    if kind == 'scaled cluster' and 'spatial' not in x:
        return x + '.decorated_region'
    return x


SHAPE2 = '(d.shape[d.ndim - 2], d.shape[d.ndim - 1])'
for kind, (new, temporal, cluster, scaled) in KINDS.items():
    cls = new.split('(')[0]
    home = R + {'SpatialRegion': 'spatial.DomainRegion', 'SpatialCluster': 'spatial.SpatialCluster',
                'ErrorRegion': 'spatial.SpatialDecorator',
                'SpatioTemporalRegion': 'temporal.SpatioTemporalRegion',
                'SpatioTemporalScaled': 'scaling.SpatioTemporalScaled',
                'SpatioTemporalCluster': 'temporal.SpatioTemporalCluster'}[cls]
    # ------------------------------------------------ new regions
    P.law('%s: new spatial region' % kind, 'spta.region.base.BaseRegion.new_spatial_region',
          'def a(%s):\n    x = %s.new_spatial_region(e)\n    return (x.numpy_dataset, '
          'isinstance(x, SpatialRegion), isinstance(x, SpatialCluster), '
          'isinstance(x, SpatioTemporalRegion)%s)\n'
          % (ARGS, new, ', x.partition, x.cluster_index' if cluster else ''),
          'def b(%s):\n    return (e, True, %s, False%s)\n'
          % (ARGS, bool(cluster), ', part, ci' if cluster else ''),
          rule='the result is spatial, holds the given data and stays in the cluster')
    P.law('%s: new spatio-temporal region' % kind, home + '.new_spatio_temporal_region',
          'def a(%s):\n    x = %s.new_spatio_temporal_region(e)\n    return (x.numpy_dataset, '
          'isinstance(x, SpatioTemporalRegion), x.has_scaling(), x.series_len)\n' % (ARGS, new),
          'def b(%s):\n    return (e, True, %s, e.shape[0])\n' % (ARGS, bool(scaled)),
          rule='the result is spatio-temporal, holds the given data and keeps the scaling')
    if cluster:
        P.law('%s: cluster of a new spatio-temporal region' % kind,
              home + '.new_spatio_temporal_region',
              'def a(%s):\n    x = %s.new_spatio_temporal_region(e)%s\n'
              '    return (isinstance(x, SpatioTemporalCluster), x.partition, x.cluster_index)\n'
              % (ARGS, new, '.decorated_region' if kind == 'scaled cluster' else ''),
              'def b(%s):\n    return (True, part, ci)\n' % ARGS,
              rule='the result stays in the same cluster')
    P.law('%s: empty region' % kind, 'spta.region.base.BaseRegion.empty_region_2d',
          'def a(%s):\n    x = %s.empty_region_2d()\n    return (x.numpy_dataset.shape, '
          'isinstance(x, SpatioTemporalRegion)%s)\n'
          % (ARGS, new, ', x.partition, x.cluster_index' if cluster else ''),
          'def b(%s):\n    return (%s, False%s)\n'
          % (ARGS, SHAPE2, ', part, ci' if cluster else ''),
          rule='same 2-d shape, same cluster')
    P.law('%s: shape' % kind, 'spta.region.base.BaseRegion.__init__',
          'def a(%s):\n    x = %s\n    return (x.x_len, x.y_len, x.as_numpy%s)\n'
          % (ARGS, new, ', x.series_len' if temporal else ''),
          'def b(%s):\n    return (d.shape[d.ndim - 2], d.shape[d.ndim - 1], d%s)\n'
          % (ARGS, ', d.shape[0]' if temporal else ''),
          rule='sizes are those of the data')
    # ------------------------------------------------ repeats
    if temporal:
        P.law('%s: repeat series' % kind, R + 'temporal.SpatioTemporalRegion.repeat_series',
              'def a(%s):\n    x = %s.repeat_series(s)\n'
              '    return (x.numpy_dataset, x.has_scaling())\n' % (ARGS, new),
              'def b(%s):\n    n = d.shape[d.ndim - 2] * d.shape[d.ndim - 1]\n'
              '    return (np.repeat(s, repeats=n).reshape((len(s), d.shape[d.ndim - 2], '
              'd.shape[d.ndim - 1])), %s)\n' % (ARGS, bool(scaled)),
              rule='every point gets the series')
        P.law('%s: repeat point' % kind, R + 'temporal.SpatioTemporalRegion.repeat_point',
              'def a(%s):\n    x = %s\n    return x.repeat_point(p).numpy_dataset\n' % (ARGS, new),
              'def b(%s):\n    x = %s\n    return x.repeat_series(x.series_at(p)).numpy_dataset\n'
              % (ARGS, new), rule='every point gets the series of the point')
        P.law('%s: interval' % kind, R + 'temporal.SpatioTemporalRegion.interval_subset',
              'def a(%s):\n    x = %s.interval_subset(ti)\n'
              '    return (x.numpy_dataset, x.has_scaling())\n' % (ARGS, new),
              'def b(%s):\n    return (d[ti.t1:ti.t2, :, :], %s)\n' % (ARGS, bool(scaled)),
              rule='half-open interval at every point')
        if cluster:
            for what, op in (('interval', 'interval_subset(ti)'), ('repeated series', 'repeat_series(s)'),
                             ('repeated point', 'repeat_point(p)')):
                P.law('%s: cluster of the %s' % (kind, what), R + 'temporal.SpatioTemporalCluster.' + op.split('(')[0],
                      'def a(%s):\n    x = %s.%s%s\n    return (isinstance(x, SpatioTemporalCluster), '
                      'x.partition, x.cluster_index)\n'
                      % (ARGS, new, op, '.decorated_region' if kind == 'scaled cluster' else ''),
                      'def b(%s):\n    %sreturn (True, part, ci)\n' % (
                          ARGS, 'if p is None or part.numpy_dataset[p.x, p.y] != ci:\n        '
                          'raise ValueError\n    ' if 'point' in what else ''),
                      rule='the result stays in the same cluster')
        if not cluster:
            P.law('%s: rectangle' % kind, home + '.region_subset',
                  'def a(%s):\n    x = %s.region_subset(pr)\n'
                  '    return (x.numpy_dataset, x.has_scaling(), '
                  'isinstance(x, SpatioTemporalRegion))\n' % (ARGS, new),
                  'def b(%s):\n    return (d[:, pr.x1:pr.x2, pr.y1:pr.y2], %s, True)\n'
                  % (ARGS, bool(scaled)), rule='half-open rectangle of every sample')
    else:
        P.law('%s: repeat value' % kind, R + 'spatial.SpatialRegion.repeat_value',
              'def a(%s):\n    x = %s.repeat_value(v)\n    return (x.numpy_dataset%s)\n'
              % (ARGS, new, ', x.partition, x.cluster_index' if cluster else ', 0'),
              'def b(%s):\n    x = spta.util.arrays.copy_value_as_matrix_elements(v, d.shape[d.ndim - 2], '
              'd.shape[d.ndim - 1])\n    return (x%s)\n'
              % (ARGS, ', part, ci' if cluster else ', 0'),
              rule='every point gets the value')
        P.law('%s: repeat point' % kind, R + 'spatial.SpatialRegion.repeat_point',
              'def a(%s):\n    x = %s\n    return x.repeat_point(p).numpy_dataset\n' % (ARGS, new),
              'def b(%s):\n    x = %s\n    return x.repeat_value(x.value_at(p)).numpy_dataset\n'
              % (ARGS, new), rule='every point gets the value of the point')
        if not cluster:
            P.law('%s: rectangle' % kind, R + 'spatial.SpatialRegion.region_subset',
                  'def a(%s):\n    x = %s.region_subset(pr)\n'
                  '    return (x.numpy_dataset, isinstance(x, SpatioTemporalRegion))\n'
                  % (ARGS, new),
                  'def b(%s):\n    return (d[pr.x1:pr.x2, pr.y1:pr.y2], False)\n' % ARGS,
                  rule='half-open rectangle')
for kind in ('temporal', 'scaled'):
    P.law('%s: rectangle and interval' % kind, R + 'temporal.SpatioTemporalRegion.subset',
          'def a(%s):\n    x = %s.subset(pr, ti)\n    return (x.series_at(p), x.has_scaling())\n'
          % (ARGS, KINDS[kind][0]),
          'def b(%s):\n    x = %s.region_subset(pr).interval_subset(ti)\n'
          '    return (x.series_at(p), x.has_scaling())\n' % (ARGS, KINDS[kind][0]),
          rule='the same as cutting the rectangle, then the interval')
P.law('one value everywhere', 'spta.util.arrays.copy_value_as_matrix_elements', '''
def a(v, m, n, i, j):
    from spta.util.arrays import copy_value_as_matrix_elements
    x = copy_value_as_matrix_elements(v, m, n)
    return x[i, j], x.shape
''', '''
def b(v, m, n, i, j):
    return v, (m, n)
''', rule='every cell holds the value itself, not a converted value')
P.law('zero region', R + 'spatial.SpatialRegion.region_with_zeroes',
      'def a(pr):\n    return SpatialRegion.region_with_zeroes(pr).numpy_dataset\n',
      'def b(pr):\n    return np.zeros((pr.x2 - pr.x1, pr.y2 - pr.y1))\n',
      rule='the size of the region')
P.law('repeated series region', R + 'temporal.SpatioTemporalRegion.repeat_series_over_region',
      'def a(s, sh):\n    return SpatioTemporalRegion.repeat_series_over_region(s, sh).numpy_dataset\n',
      'def b(s, sh):\n    return np.repeat(s, repeats=sh[0] * sh[1]).reshape((len(s), sh[0], sh[1]))\n',
      rule='every point gets the series')

# ------------------------------------------------------------------ results of functions
FUN = '''
    class F(%s):
        def function_at(self, point):
            return fn
    f = F(np.zeros((d.shape[1], d.shape[2]), dtype=object))
    x = %s.%s
'''
for kind in ('temporal', 'temporal cluster', 'scaled', 'cluster of scaled', 'scaled cluster'):
    new, temporal, cluster, scaled = KINDS[kind]
    for base, op, temp in (('FunctionRegionScalar', 'apply_function_scalar(f)', 0),
                           ('FunctionRegionSeries', 'apply_function_series(f, n)', 1)):
        P.law('%s: kind of the result of a function, %s' % (kind, op.split('(')[0]), R + 'spatial.DomainRegion.' + op.split('(')[0],
              'def a(%s, fn, n):\n    from spta.region.function import %s\n%s    return (isinstance(x, '
              'SpatioTemporalRegion), isinstance(x, SpatialRegion)%s%s)\n' % (ARGS, base, FUN % (base, new, op),
              ', x.has_scaling()' if temp else '',
              '' if not cluster else ', isinstance(y, %s), y.partition, y.cluster_index'.replace(
                  'y', 'x.decorated_region' if temp and kind == 'scaled cluster' else 'x')
              % ('SpatioTemporalCluster' if temp else 'SpatialCluster')),
              'def b(%s, fn, n):\n    return (%s, %s%s%s)\n' % (
                  ARGS, bool(temp), not temp or kind != 'temporal', ', %s' % bool(scaled) if temp else '',
                  ', True, part, ci' if cluster else ''),
              ndims={'d': 3}, rule='the result is of the kind of the region, and stays in its cluster')

DATA = '''
    class F(%s):
        def function_at(self, point):
            return lambda x: x - g[point.x, point.y]
    f = F(np.zeros((d.shape[d.ndim - 2], d.shape[d.ndim - 1])), dtype=dt)
    x = %s.%s
'''
for kind, base, op, cell, rows in (
        ('temporal', 'FunctionRegionScalar', 'apply_function_scalar(f)', 'i, j', ''),
        ('spatial', 'FunctionRegionScalar', 'apply_function_scalar(f)', 'i, j', ''),
        ('temporal', 'FunctionRegionSeries', 'apply_function_series(f, n)', ':, i, j', 'n, ')):
    what = 'series' if 'series' in op else 'value'
    P.law('%s: %s of a function at every point' % (kind, what), R + 'spatial.DomainRegion.' + op.split('(')[0],
          'def a(%s, g, n, dt):\n    from spta.region.function import %s\n%s    return x.numpy_dataset\n'
          % (ARGS, base, DATA % (base, KINDS[kind][0].replace('(d, rm)', '(d)'), op)),
          'def b(%s, g, n, dt):\n    X = d.shape[d.ndim - 2]\n    Y = d.shape[d.ndim - 1]\n'
          '    r = np.zeros((%sX, Y), dtype=dt)\n    for i in range(X):\n        for j in range(Y):\n'
          '            r[%s] = d[%s] - g[i, j]\n    return r\n'
          % (ARGS, rows, cell, ':, i, j' if kind == 'temporal' else 'i, j'),
          ndims={'d': 3 if kind == 'temporal' else 2},
          rule='the function of the point applied to the data of the point, in an array of the type of the function')
for kind in ('cluster of scaled', 'scaled cluster'):
    P.law('%s: descaled' % kind, R + 'temporal.SpatioTemporalDecorator.descale',
          'def a(%s):\n    x = %s.descale()\n    return (x.has_scaling(), isinstance(x, SpatioTemporalCluster), '
          'x.partition, x.cluster_index)\n' % (ARGS, KINDS[kind][0]),
          'def b(%s):\n    return (False, True, part, ci)\n' % ARGS, strict=False,
          rule='a descaled cluster is no longer scaled and stays in its cluster')
P.law('scaled: metadata of a new region', R + 'scaling.SpatioTemporalScaled.new_spatio_temporal_region',
      'def a(%s):\n    return %s.new_spatio_temporal_region(e).region_metadata\n' % (ARGS, KINDS['scaled'][0]),
      'def b(%s):\n    return rm\n' % ARGS, rule='a new region of the same layout keeps the metadata')
P.law('temporal cluster: metadata of a new region', R + 'temporal.SpatioTemporalCluster.new_spatio_temporal_region',
      'def a(%s):\n    return %s.new_spatio_temporal_region(e).region_metadata\n' % (ARGS, KINDS['temporal cluster'][0]),
      'def b(%s):\n    return rm\n' % ARGS, rule='a new region of the same layout keeps the metadata')

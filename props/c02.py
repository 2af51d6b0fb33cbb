'''C02: prediction-relative, domain and absolute coordinates convert consistently.'''
from sa.prop import *     # noqa

P = Prop('C02',
         'Value-graph (GVN) evaluation of every coordinate conversion for symbolic points, regions '
         'and offsets, with the objects built by their own constructors, against the translation '
         'each frame change must be.',
         cfg={'keep': ('series_at', 'value_at', 'is_member', 'membership_of_points',
                       'membership_of_point_indices', 'region_subset'),
              'attr_types': {'region_metadata': 'SpatioTemporalRegionMetadata',
                             'partition': 'PartitionRegion', 'region': 'Region',
                             'forecast_subregion': 'SpatioTemporalRegion',
                             'error_subregion': 'SpatialRegion',
                             'prediction_region': 'Region'},
              'name_types': {'p': 'Point', 'pr': 'Region', 'fs': 'SpatioTemporalRegion',
                             'es': 'SpatialRegion', 'ts': 'SpatioTemporalRegion',
                             'meta': 'MetadataWithClustering', 'rm': 'SpatioTemporalRegionMetadata',
                             'spt': 'SpatioTemporalRegion'}})

R = 'spta.solver.result.'
M = 'spta.region.metadata.SpatioTemporalRegionMetadata.'
NEW = {
    'PredictionQueryResult': 'PredictionQueryResult(meta, fl, fs, es, pr, spt, out)',
    'InSampleResult': 'InSampleResult(meta, fs, ts, es, pr, spt, out)',
    'OutOfSampleResult': 'OutOfSampleResult(meta, fl, fs, es, pr, spt, out)',
    'ResultWithPartition':
        'ResultWithPartition(OutOfSampleResult(meta, fl, fs, es, pr, spt, out), part)',
    'ResultFromClassifier':
        'ResultFromClassifier(OutOfSampleResult(meta, fl, fs, es, pr, spt, out), suite, labels)',
}
ARGS = "meta, fl, fs, ts, es, pr: 'Region', spt, out, part: 'PartitionRegion', suite, labels"

for cls, new in NEW.items():
    P.law('%s: relative to domain' % cls, R + 'PredictionQueryResult.to_domain_coordinates',
          'def a(%s, p):\n    return %s.to_domain_coordinates(p)\n' % (ARGS, new),
          'def b(%s, p):\n    return Point(p.x + pr.x1, p.y + pr.y1)\n' % ARGS,
          rule='translation by the corner of the prediction region')
    P.law('%s: domain to relative' % cls, R + 'PredictionQueryResult.to_relative_coordinates',
          'def a(%s, p):\n    return %s.to_relative_coordinates(p)\n' % (ARGS, new),
          'def b(%s, p):\n    return Point(p.x - pr.x1, p.y - pr.y1)\n' % ARGS,
          rule='inverse translation')
    P.law('%s: round trip' % cls, R + 'PredictionQueryResult.to_relative_coordinates',
          'def a(%s, p):\n    r = %s\n    return r.to_relative_coordinates('
          'r.to_domain_coordinates(p))\n' % (ARGS, new),
          'def b(%s, p):\n    return Point(p.x, p.y)\n' % ARGS,
          rule='to_relative undoes to_domain')
    P.law('%s: domain to absolute' % cls, R + 'PredictionQueryResult.absolute_coordinates_of',
          'def a(%s, p):\n    return %s.absolute_coordinates_of(p)\n' % (ARGS, new),
          'def b(%s, p):\n    return Point(p.x + meta.region_metadata.region.x1, '
          'p.y + meta.region_metadata.region.y1)\n' % ARGS,
          rule='translation by the corner of the domain region')
    P.law('%s: reported point' % cls, R + 'PredictionQueryResult.result_tuple_for_point',
          'def a(%s, p):\n    return %s.result_tuple_for_point(p)[0]\n' % (ARGS, new),
          'def b(%s, p):\n    return Point(p.x + pr.x1 + meta.region_metadata.region.x1, '
          'p.y + pr.y1 + meta.region_metadata.region.y1)\n' % ARGS,
          rule='reported coordinates are absolute')

for cls in ('InSampleResult', 'OutOfSampleResult', 'ResultWithPartition', 'ResultFromClassifier'):
    extra = {'ResultWithPartition': ("Point: {} (cluster {})", 'part.membership_of_points('
                                     '[Point(p.x + pr.x1, p.y + pr.y1)])[0]'),
             'ResultFromClassifier': ("Point: {} (label {})", 'labels[Point(p.x, p.y)]')}.get(cls)
    pt = 'Point(p.x + pr.x1 + meta.region_metadata.region.x1, ' \
         'p.y + pr.y1 + meta.region_metadata.region.y1)'
    exp = ("'Point: {}'.format(%s)" % pt) if extra is None else \
        "'%s'.format(%s, %s)" % (extra[0], pt, extra[1])
    P.law('%s: text coordinates' % cls, R + cls + '.lines_for_point',
          'def a(%s, p):\n    return %s.lines_for_point(Point(p.x, p.y))[0]\n' % (ARGS, NEW[cls]),
          'def b(%s, p):\n    return %s\n' % (ARGS, exp),
          rule='reported text uses absolute coordinates and data of the same point')

P.law('cluster of a reported point', R + 'ResultWithPartition.result_tuple_for_point',
      'def a(%s, p):\n    return %s.result_tuple_for_point(p)[1]\n' % (ARGS,
                                                                     NEW['ResultWithPartition']),
      'def b(%s, p):\n    return part.membership_of_points([Point(p.x + pr.x1, p.y + pr.y1)])[0]\n'
      % ARGS, rule='the partition is indexed with domain coordinates')
P.law('label of a reported point', R + 'ResultFromClassifier.result_tuple_for_point',
      'def a(%s, p):\n    return %s.result_tuple_for_point(Point(p.x, p.y))[1]\n' % (
          ARGS, NEW['ResultFromClassifier']),
      'def b(%s, p):\n    return labels[Point(p.x, p.y)]\n' % ARGS,
      rule='labels are indexed with prediction-relative coordinates')

for meth, exp in (
        ('prediction_forecast_at', 'fs.series_at(p)'),
        ('prediction_error_at', 'es.value_at(p)')):
    for cls, new in NEW.items():
        P.law('%s.%s' % (cls, meth), R + 'PredictionQueryResult.' + meth,
              'def a(%s, p):\n    return %s.%s(p)\n' % (ARGS, new, meth),
              'def b(%s, p):\n    return %s\n' % (ARGS, exp),
              rule='subregions are indexed with prediction-relative coordinates')
P.law('InSampleResult.prediction_test_at', R + 'InSampleResult.prediction_test_at',
      'def a(%s, p):\n    return %s.prediction_test_at(p)\n' % (ARGS, NEW['InSampleResult']),
      'def b(%s, p):\n    return ts.series_at(p)\n' % ARGS,
      rule='subregions are indexed with prediction-relative coordinates')

MNEW = "SpatioTemporalRegionMetadata(name, region, y0, y1, spd)"
MARGS = "name, region: 'Region', y0, y1, spd, p, sub: 'Region', index"
P.law('absolute position of a point', M + 'absolute_position_of_point',
      'def a(%s):\n    return %s.absolute_position_of_point(p)\n' % (MARGS, MNEW),
      'def b(%s):\n    return Point(p.x + region.x1, p.y + region.y1)\n' % MARGS,
      rule='translation by the corner of the domain region')
P.law('absolute coordinates of a region', M + 'absolute_coordinates_of_region',
      'def a(%s):\n    return %s.absolute_coordinates_of_region(sub)\n' % (MARGS, MNEW),
      'def b(%s):\n    return Region(sub.x1 + region.x1, sub.x2 + region.x1, '
      'sub.y1 + region.y1, sub.y2 + region.y1)\n' % MARGS,
      rule='both corners translated')
P.law('index to absolute point', M + 'index_to_absolute_point',
      'def a(%s):\n    return %s.index_to_absolute_point(index)\n' % (MARGS, MNEW),
      'def b(%s):\n    n = region.y2 - region.y1\n'
      '    return Point(index // n + region.x1, index %% n + region.y1)\n' % MARGS,
      rule='decode in the domain, then translate')

'''C07: scaling and descaling are inverse per point; scaling data always follows the region.'''
from sa.prop import *     # noqa

P = Prop('C07',
         'Value-graph evaluation of the scaling and descaling functions applied to a symbolic '
         'series at a symbolic point (guards included), and of the scaling data carried by every '
         'derived region.',
         cfg={'keep': ('is_member',),
              'attr_types': {'region_metadata': 'SpatioTemporalRegionMetadata',
                             'region': 'Region'},
              'name_types': {'p': 'Point', 'lo': 'SpatialRegion', 'hi': 'SpatialRegion',
                             'rm': 'SpatioTemporalRegionMetadata',
                             'part': 'PartitionRegionCrisp'}},
         assumptions=['real arithmetic: scale/descale cancellation is exact (rounding ignored)'])

SC = 'spta.region.scaling.'
STUB = '''
    class Stub(SpatioTemporalScaled):
        def apply_function_series(self, f, n):
            return SpatioTemporalRegion(f.function_at(p)(s))
'''
ARGS = 'd, lo, hi, rm, p, s'
VALID = '''
    if p is None:
        raise ValueError
'''
P.law('descale at a point', SC + 'SpatioTemporalScaled.descale',
      'def a(%s):%s    return Stub(SpatioTemporalRegion(d), lo, hi).descale().numpy_dataset\n'
      % (ARGS, STUB),
      'def b(%s):%s    a = lo.value_at(p)\n    return s * (hi.value_at(p) - a) + a\n'
      % (ARGS, VALID), rule='x = s * (max - min) + min with the extremes of the same point')
P.law('descale of every derived region', SC + 'SpatioTemporalScaled.descale',
      'def a(%s):%s    return Stub(SpatioTemporalRegion(d), lo, hi).descale().has_scaling()\n'
      % (ARGS, STUB), 'def b(%s):\n    return False\n' % ARGS,
      rule='a descaled region is no longer scaled')

SCALE = '''
def a(d, lo, hi, p, s, n):
    f = ScaleFunction(d.shape[1], d.shape[2])
    f.scale_min = lo
    f.scale_max = hi
    f.series_len = n
    return f.function_at(p)(s)
'''
P.law('scale at a point', SC + 'ScaleFunction.function_at', SCALE, '''
def b(d, lo, hi, p, s, n):
    if p is None:
        raise ValueError
    a = lo.value_at(p)
    b = hi.value_at(p)
    if np.isnan(a) or np.isnan(b):
        return np.repeat(np.nan, repeats=n)
    if a == b:
        return np.zeros(n)
    return (s - a) / (b - a)
''', rule='(x - min) / (max - min); constant series become zero; unknown extremes become NaN')

P.law('descale undoes scale', SC + 'SpatioTemporalScaled.descale', '''
def a(d, lo, hi, p, s, n):
    f = ScaleFunction(d.shape[1], d.shape[2])
    f.scale_min = lo
    f.scale_max = hi
    f.series_len = n
    t = f.function_at(p)(s)
    class Stub(SpatioTemporalScaled):
        def apply_function_series(self, f, n):
            return SpatioTemporalRegion(f.function_at(p)(t))
    return Stub(SpatioTemporalRegion(d), lo, hi).descale().numpy_dataset
''', '''
def b(d, lo, hi, p, s, n):
    a = lo.value_at(p)
    b = hi.value_at(p)
    if p is None or np.isnan(a) or np.isnan(b) or a == b:
        raise ValueError
    return s
''', rule='the original series comes back wherever the extremes differ')

APPLY = '''
def a(d, rm, p, s, n):
    class Reg(SpatioTemporalRegion):
        def apply_function_scalar(self, f):
            return SpatialRegion(f.function_at(p)(s))
        def apply_function_series(self, f, n):
            return SpatioTemporalRegion(d)
    r = ScaleFunction(d.shape[1], d.shape[2]).apply_to(Reg(d, rm), d.shape[0])
    return %s
'''
for a, e, rule in (
        ('r.scale_min.numpy_dataset', 'np.nanmin(s)', 'the minimum ignores missing values'),
        ('r.scale_max.numpy_dataset', 'np.nanmax(s)', 'the maximum ignores missing values'),
        ('r.numpy_dataset', 'd', 'the scaled data is kept'),
        ('r.region_metadata', 'rm', 'metadata is kept'),
        ('r.has_scaling()', 'True', 'the result is known to be scaled')):
    P.law('scaled region: ' + a, SC + 'ScaleFunction.apply_to', APPLY % a, '''
def b(d, rm, p, s, n):
    if p is None:
        raise ValueError
    return %s
''' % e, rule=rule, name_types={'p': 'Point'}, hooks={'np.reshape': lambda I, r, a, k, e: None})

K = {
    'scaled': 'SpatioTemporalScaled(SpatioTemporalRegion(d), lo, hi, region_metadata=rm)',
    'cluster of scaled': 'SpatioTemporalCluster(SpatioTemporalScaled(SpatioTemporalRegion(d), '
                         'lo, hi), part, ci, rm)',
}
A2 = 'd, lo, hi, rm, part, ci, e, p, i: "TimeInterval", r: "Region", s'
for op in ('new_spatio_temporal_region(e)', 'interval_subset(i)', 'repeat_series(s)'):
    P.law('scaled: ' + op, SC + 'SpatioTemporalScaled.new_spatio_temporal_region',
          'def a(%s):\n    x = %s.%s\n    return (x.scale_min, x.scale_max, x.has_scaling())\n'
          % (A2, K['scaled'], op),
          'def b(%s):\n    return (lo, hi, True)\n' % A2,
          rule='derived regions keep the scaling data')
    P.law('cluster of scaled: ' + op, SC + 'SpatioTemporalScaled.new_spatio_temporal_region',
          'def a(%s):\n    x = %s.%s\n    y = x.decorated_region\n'
          '    return (y.scale_min, y.scale_max, x.has_scaling())\n'
          % (A2, K['cluster of scaled'], op),
          'def b(%s):\n    return (lo, hi, True)\n' % A2,
          rule='derived regions keep the scaling data')
P.law('scaled: region_subset', SC + 'SpatioTemporalScaled.region_subset',
      'def a(%s):\n    x = %s.region_subset(r)\n'
      '    return (x.scale_min.numpy_dataset, x.scale_max.numpy_dataset, x.numpy_dataset, '
      'x.has_scaling())\n' % (A2, K['scaled']),
      'def b(%s):\n    return (lo.numpy_dataset[r.x1:r.x2, r.y1:r.y2], '
      'hi.numpy_dataset[r.x1:r.x2, r.y1:r.y2], d[:, r.x1:r.x2, r.y1:r.y2], True)\n' % A2,
      rule='data and both extremes are cut by the same rectangle')
for kind, want in (('SpatioTemporalRegion(d)', 'False'), (K['scaled'], 'True'),
                   (K['cluster of scaled'], 'True'),
                   ('SpatioTemporalCluster(SpatioTemporalRegion(d), part, ci)', 'False')):
    P.law('has_scaling of ' + kind, 'spta.region.temporal.SpatioTemporalRegion.has_scaling',
          'def a(%s):\n    return %s.has_scaling()\n' % (A2, kind),
          'def b(%s):\n    return %s\n' % (A2, want), rule='scaling is reported truthfully')
for a in ('scale_min', 'scale_max', 'numpy_dataset', 'series_len'):
    P.law('scaling a second region: ' + a, SC + 'ScaleFunction.apply_to', '''
def a(d, p, s, n):
    class Reg(SpatioTemporalRegion):
        def apply_function_scalar(self, f):
            return SpatialRegion(f.function_at(p)(self.numpy_dataset[:, p.x, p.y]))
        def apply_function_series(self, f, n):
            return SpatioTemporalRegion(self.numpy_dataset)
    f = ScaleFunction(d.shape[1], d.shape[2])
    f.apply_to(Reg(s), s.shape[0])
    r = f.apply_to(Reg(d), d.shape[0])
    return r.%s
''' % (a + '.numpy_dataset' if a.startswith('scale') else a), '''
def b(d, p, s, n):
    class Reg(SpatioTemporalRegion):
        def apply_function_scalar(self, f):
            return SpatialRegion(f.function_at(p)(self.numpy_dataset[:, p.x, p.y]))
        def apply_function_series(self, f, n):
            return SpatioTemporalRegion(self.numpy_dataset)
    r = ScaleFunction(d.shape[1], d.shape[2]).apply_to(Reg(d), d.shape[0])
    return r.%s
''' % (a + '.numpy_dataset' if a.startswith('scale') else a), strict=False, name_types={'p': 'Point'},
          ndims={'d': 3, 's': 3}, hooks={'np.reshape': lambda I, r, a, k, e: None},
          rule='nothing is left of the region that was scaled before')

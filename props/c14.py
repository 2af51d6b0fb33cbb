'''C14: points without data or model are carried as missing and counted as such.'''
from sa.prop import *     # noqa

P = Prop('C14',
         'Value-graph evaluation of training, retraining, forecasting and error measurement at a '
         'point without data, without parameters or without a model, and of the counter of such '
         'points.',
         cfg={'name_types': {'p': 'Point'}, 'ints': ('L',), 'ndims': {'d': 3, 'ms': 2}})
M = 'spta.model.'
A = 'spta.arima.train.'
STUB = '''
    class T(ModelTrainer):
        def training_function(self, params, series):
            return tf(params, series)
        def create_model_region(self, arr):
            return SpatialRegion(arr)
'''
CNT = 'sum([1 if %s is None else 0 for k in range(d.shape[1] * d.shape[2])])'
TF = 'tf(mp, d[:, k // d.shape[2], k % d.shape[2]])'

P.law('count of missing models', M + 'train.ModelTrainer.apply_to',
      'def a(tf, mp, d):' + STUB + '    t = T((mp, d.shape[1], d.shape[2]))\n'
      '    t.apply_to(SpatioTemporalRegion(d))\n    return t.missing_count\n',
      'def b(tf, mp, d):    return %s\n' % (CNT % TF),
      rule='the models that could not be trained are counted, each once')
P.law('count of second training', M + 'train.ModelTrainer.apply_to',
      'def a(tf, mp, d):' + STUB + '    t = T((mp, d.shape[1], d.shape[2]))\n'
      '    t.apply_to(SpatioTemporalRegion(d))\n    t.apply_to(SpatioTemporalRegion(d))\n'
      '    return t.missing_count\n',
      'def b(tf, mp, d):    return %s\n' % (CNT % TF),
      rule='every training counts anew')
P.law('count with representatives', M + 'train.TrainAtRepresentatives.create_model_region', '''
def a(tf, mp, d, reps):
    class T(TrainerArimaPDQ):
        def training_function(self, params, series):
            return tf(params, series)
    t = TrainAtRepresentatives(T(mp, d.shape[1], d.shape[2]), reps)
    m = t.apply_to(SpatioTemporalRegion(d))
    return (t.missing_count, m.missing_count)
''', '''
def b(tf, mp, d, reps):
    n = sum([0 if Point(k // d.shape[2], k % d.shape[2]) in reps and tf(mp, d[:, k // d.shape[2], k % d.shape[2]]) is not None else 1 for k in range(d.shape[1] * d.shape[2])])
    return (n, n)
''', rule='points that were not trained count as missing, in the models as well')
P.law('second count with representatives', M + 'train.TrainAtRepresentatives.create_model_region', '''
def a(tf, mp, d, reps):
    class T(TrainerArimaPDQ):
        def training_function(self, params, series):
            return tf(params, series)
    t = TrainAtRepresentatives(T(mp, d.shape[1], d.shape[2]), reps)
    t.apply_to(SpatioTemporalRegion(d))
    m = t.apply_to(SpatioTemporalRegion(d))
    return (t.missing_count, m.missing_count, t.decorated.missing_count)
''', '''
def b(tf, mp, d, reps):
    n = sum([0 if Point(k // d.shape[2], k % d.shape[2]) in reps and tf(mp, d[:, k // d.shape[2], k % d.shape[2]]) is not None else 1 for k in range(d.shape[1] * d.shape[2])])
    return (n, n, n)
''', rule='every training counts anew')
for cls in ('TrainerArimaPDQ', 'TrainerAutoArima'):
    P.law('count of ' + cls, A + cls + '.create_model_region', '''
def a(tf, mp, d):
    class T(%s):
        def training_function(self, params, series):
            return tf(params, series)
    t = T(mp, d.shape[1], d.shape[2])
    m = t.apply_to(SpatioTemporalRegion(d))
    return (t.missing_count, m.missing_count)
''' % cls, '''
def b(tf, mp, d):
    n = %s
    return (n, n)
''' % (CNT % TF), rule='the trained models know how many are missing')
    P.law('aic of a missing model: ' + cls, A + 'extract_aic', '''
def a(tf, mp, d, p):
    class T(%s):
        def training_function(self, params, series):
            return tf(params, series)
    return T(mp, d.shape[1], d.shape[2]).apply_to(SpatioTemporalRegion(d)).aic_region.value_at(p)
''' % cls, '''
def b(tf, mp, d, p):
    f = tf(mp, d[:, p.x, p.y])
    if f is not None or p is None:
        raise ValueError
    return np.nan
''', rule='a point without model has no AIC')
P.law('order of a missing model', A + 'extract_pdq', '''
def a(tf, mp, d, p):
    class T(TrainerAutoArima):
        def training_function(self, params, series):
            return tf(params, series)
    return T(mp, d.shape[1], d.shape[2]).apply_to(SpatioTemporalRegion(d)).pdq_region.series_at(p)
''', '''
def b(tf, mp, d, p):
    f = tf(mp, d[:, p.x, p.y])
    if f is not None or p is None:
        raise ValueError
    return np.array([-1, -1, -1])
''', rule='a point without model has no valid order')

for cls, mk_ in ((A + 'TrainerArimaPDQ', 'TrainerArimaPDQ(o, X, Y)'),
                 (A + 'TrainerAutoArima', 'TrainerAutoArima(o, X, Y)'),
                 (M + 'mean.TrainerMeanOfPast', 'TrainerMeanOfPast(o, X, Y)')):
    P.law('no data: ' + cls.split('.')[-1], cls + '.training_function',
          'def a(o, X, Y):\n    return %s.training_function(o, None)\n' % mk_,
          'def b(o, X, Y):\n    return None\n', strict='raises',
          rule='a point without data gets no model')
for cls in ('TrainerArimaPDQ', 'TrainerAutoArima'):
    P.law('no parameters: ' + cls, A + cls + '.training_function',
          'def a(s, X, Y):\n    return %s(None, X, Y).training_function(None, s)\n' % cls,
          'def b(s, X, Y):\n    return None\n', strict='raises',
          rule='a point without parameters gets no model')


def failures(q, lib):
    @P.rule('failed fits: ' + q.split('.')[0], 'a fit that fails gives no model and does not stop '
            'the training of the other points')
    def check(cx):
        f = cx.find(A + q)
        I = cx.interp()
        r = I.client('def a(o, s, X, Y):\n    return %s(None, X, Y).training_function(o, s)\n'
                     % q.split('.')[0])
        cx.functions |= I.functions_seen
        out = []
        atoms = {n.args[0] for n in T.dd_nodes(r.value) if n.args[0].op == 'call' and
                 n.args[0].args[0] == 'exc'} | {
            n.args[0] for n in T.dd_nodes(r.value) if n.args[0].op == 'exc'}
        own = [a for a in atoms if {lib, 'fit'} & set(a.args[2].split(','))]
        if not own:
            return Outcome(VIOLATION, 'a failing fit is not caught', cx.where(f),
                           functions=I.functions_seen)
        for a in own:
            for lf in T.leaves(T.restrict(r.value, a, True)):
                if lf is not NONE:
                    out.append(Outcome(VIOLATION, 'a failed fit gives a model', cx.where(f),
                                       NONE, lf, I.functions_seen))
        txt = ' '.join(T.show(a) for a in own)
        for want in ('ValueError', 'LinAlgError'):
            if want not in txt and 'Exception' not in txt.replace('LinAlgError', ''):
                out.append(Outcome(VIOLATION, '%s of a fit is not caught' % want, cx.where(f),
                                   functions=I.functions_seen))
        return out or Outcome(OK, functions=I.functions_seen)


failures('TrainerArimaPDQ.training_function', 'ARIMA')
failures('TrainerAutoArima.training_function', 'auto_arima')

P.law('retraining without model', A + 'TrainerRefitArima.__init__', '''
def a(ms, d, p):
    t = TrainerAutoArima(None, ms.shape[0], ms.shape[1])
    return t.create_refitter(ModelRegionArima(ms)).apply_to(SpatioTemporalRegion(d)).value_at(p)
''', '''
def b(ms, d, p):
    if p is None or ms.shape[0] != d.shape[1] or ms.shape[1] != d.shape[2]:
        raise ValueError
    if ms[p.x, p.y] is not None:
        raise ValueError
    return None
''',
      rule='a point without model has none after retraining')
for name, cls in (('ARIMA', 'spta.arima.model.ModelRegionArima'),
                  ('KNN', M + 'knn.ModelRegionKNN'),
                  ('mean of past', M + 'mean.ModelRegionMeanOfPast')):
    P.law('forecast without model: ' + name, M + 'base.ModelRegion.function_at',
          'def a(ms, d, p, n):\n    return %s(ms).apply_to(SpatialRegion(d), n).series_at(p)\n'
          % cls.split('.')[-1], '''
def b(ms, d, p, n):
    if p is None or ms.shape[0] != d.shape[1] or ms.shape[1] != d.shape[2]:
        raise ValueError
    if ms[p.x, p.y] is not None:
        raise ValueError
    return np.repeat(np.nan, n)
''', keep=('predict_future_values_with_knn',),
          rule='a point without model is forecast as missing values, as many as were asked for')
    P.law('forecasts without model of different lengths: ' + name,
          M + 'base.ModelRegion.function_at', '''
def a(ms, d, p, n, n2):
    m = %s(ms)
    m.forecast_len = n
    first = m.function_at(p)(None)
    m.forecast_len = n2
    return first, m.function_at(p)(None)
''' % cls.split('.')[-1], '''
def b(ms, d, p, n, n2):
    if p is None:
        raise ValueError
    if ms[p.x, p.y] is not None:
        raise ValueError
    return np.repeat(np.nan, n), np.repeat(np.nan, n2)
''', keep=('predict_future_values_with_knn',),
          rule='a point without model is forecast as missing values, as many as were asked for')

for kind, mk_, guard in (
        ('region', 'SpatioTemporalRegion(d)', ''),
        ('scaled region', 'SpatioTemporalScaled(SpatioTemporalRegion(d), lo, hi)', ''),
        ('cluster', 'PartitionRegionCrisp(L, k).create_spt_cluster(SpatioTemporalRegion(d), i)', '')):
    if kind == 'scaled region':
        continue
    P.law('series of no point: ' + kind, 'spta.region.temporal.SpatioTemporalRegion.series_at',
          'def a(d, L, k, i):\n    return %s.series_at(None)\n' % mk_,
          'def b(d, L, k, i):\n    return np.repeat(np.nan, d.shape[0])\n',
          strict=False, rule='no point has a series of missing values')
for kind, mk_ in (
        ('region', 'SpatialRegion(d)'),
        ('cluster', 'PartitionRegionCrisp(L, k).create_spatial_cluster(SpatialRegion(d), i)'),
        ('errors', 'ErrorRegion(SpatialRegion(d))')):
    P.law('value of no point: ' + kind, 'spta.region.spatial.SpatialRegion.value_at',
          'def a(d, L, k, i):\n    return %s.value_at(None)\n' % mk_,
          'def b(d, L, k, i):\n    return np.nan\n', strict=False, rule='no point has a missing value')

P.same(M + 'error.overall_error_generic', '''
    def spec(error_func, point, forecast_series, observation_region: 'SpatioTemporalRegion', training_region: 'SpatioTemporalRegion', with_print):
        if not np.isnan(forecast_series).all():
            raise ValueError
        return np.nan
''', rule='a forecast without any value has no error over the region')
for fn, spec in (('mean_squared', 'np.nanmean(np.array(array) ** 2)'),
                 ('root_mean_squared', 'np.nanmean(np.array(array) ** 2) ** 0.5')):
    P.same('spta.util.arrays.' + fn, 'def spec(array):\n    return %s\n' % spec,
           rule='missing errors do not make the combined error missing')
for fn, np_ in (('minimum_value_and_index', 'nanmin'), ('maximum_value_and_index', 'nanmax')):
    @P.rule(fn, 'missing values are left out of the extremes')
    def check(cx, fn=fn, np_=np_):
        f, I, r = cx.summarise('spta.util.arrays.' + fn)
        v = r.ok
        want = T.mk('call', 'np.' + np_, (T.mk('sym', 'numpy_dataset'),), ())
        got = T.index(v, T.const(0))
        return cx.compare(got, want, cx.where(f), I.functions_seen)
for cls, lib in (('TrainerArimaPDQ', 'ARIMA'), ('TrainerAutoArima', 'auto_arima')):
    P.law('data is used: ' + cls, A + cls + '.training_function',
          'def a(o, s, X, Y):\n    %s(None, X, Y).training_function(o, s)\n' % cls,
          'def b(o, s, X, Y):\n    from spta.arima.train import %s\n'
          '    if o is not None and s is not None:\n        %s(s)\n' % (lib, lib),
          aspect=calls(lib, only=(0,), kwargs=False), strict=False,
          rule='a point with data and parameters is trained with all of its data')


@P.rule('orders keep their sign', 'the order of a missing model is stored as it is')
def pdq_type(cx):
    f = cx.find(A + 'ExtractPDQFromAutoArima.__init__')
    I = cx.interp()
    r = I.client('def a(x, y):\n    from spta.arima.train import ExtractPDQFromAutoArima\n'
                 '    return ExtractPDQFromAutoArima(x, y).dtype\n')
    cx.functions |= I.functions_seen
    names = {u.args[0] for u in T.subterms(r.ok) if u.op == 'ext'}
    if not names:
        raise Skip('the type of the orders is not known')
    bad = sorted(n for n in names if n.startswith('np.uint') or n in ('bool', 'np.bool_'))
    if bad:
        return Outcome(VIOLATION, 'the orders are stored as %s' % bad[0], cx.where(f),
                       functions=I.functions_seen)
    return Outcome(OK, functions=I.functions_seen)

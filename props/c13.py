'''C13: every model is trained on the series of its own point and forecasts for it.'''
from sa.prop import *     # noqa
from props import shared

P = Prop('C13',
         'Value-graph evaluation of training, retraining, replication and forecasting over a '
         'whole symbolic region: the loops over the points are turned into a function of the cell '
         'and the model (or forecast) at a symbolic point is compared with the one its own series '
         'and parameters determine.',
         cfg={'name_types': {'p': 'Point'}, 'ints': ('L',)})
M = 'spta.model.'
A = 'spta.arima.train.'

STUB = '''
    class T(ModelTrainer):
        def training_function(self, params, series):
            return tf(params, series)
        def create_model_region(self, arr):
            return SpatialRegion(arr)
'''
P.law('one set of parameters', M + 'train.ModelTrainer.__init__',
      'def a(tf, mp, d, p, X, Y):' + STUB +
      '    return T((mp, X, Y)).apply_to(SpatioTemporalRegion(d)).value_at(p)\n',
      '''def b(tf, mp, d, p, X, Y):
    if p is None or X != d.shape[-2] or Y != d.shape[-1]:
        raise ValueError
    return tf(mp, d[:, p.x, p.y])
''', rule='the model at a point is trained with the parameters on the series of that point')
P.law('parameters by point', M + 'train.ModelTrainer.__init__',
      'def a(tf, mp, d, p):' + STUB +
      '    return T(model_params_region=SpatialRegion(mp)).apply_to('
      'SpatioTemporalRegion(d)).value_at(p)\n',
      '''def b(tf, mp, d, p):
    if p is None or mp.shape[mp.ndim - 2] != d.shape[d.ndim - 2] or mp.shape[mp.ndim - 1] != d.shape[d.ndim - 1]:
        raise ValueError
    return tf(mp[p.x, p.y], d[:, p.x, p.y])
''', rule='the model at a point is trained with the parameters of that point on its series')
P.law('representatives', M + 'train.TrainAtRepresentatives.function_at',
      'def a(tf, mp, d, p, X, Y, reps):' + STUB +
      '    t = T((mp, X, Y))\n    return TrainAtRepresentatives(t, reps).apply_to('
      'SpatioTemporalRegion(d)).value_at(p)\n',
      '''def b(tf, mp, d, p, X, Y, reps):
    if p is None or X != d.shape[-2] or Y != d.shape[-1]:
        raise ValueError
    return tf(mp, d[:, p.x, p.y]) if Point(p.x, p.y) in reps else None
''', rule='representatives are trained on their own series and no other point is trained')
P.law('training in a cluster', M + 'train.ModelTrainer.apply_to',
      'def a(tf, mp, d, p, X, Y, L, k, i):' + STUB +
      '    c = PartitionRegionCrisp(L, k).create_spt_cluster(SpatioTemporalRegion(d), i)\n'
      '    return T((mp, X, Y)).apply_to(c).value_at(p)\n',
      '''def b(tf, mp, d, p, X, Y, L, k, i):
    if p is None or X != d.shape[-2] or Y != d.shape[-1] or L[p.x, p.y] != i or L.ndim != 2:
        raise ValueError
    if k != int(np.max(L)) + 1 or d.shape[-2] != L.shape[-2] or d.shape[-1] != L.shape[-1]:
        raise ValueError
    return tf(mp, d[:, p.x, p.y])
''', rule='members of the cluster are trained on their own series')
P.law('trained already', M + 'train.NoTrainer.apply_to',
      "def a(m: 'ModelRegion', d: 'SpatioTemporalRegion'):\n"
      "    return NoTrainer(m).apply_to(d).numpy_dataset\n",
      "def b(m: 'ModelRegion', d: 'SpatioTemporalRegion'):\n    if m is None:\n        raise ValueError\n    return m.numpy_dataset\n",
      rule='trained models are handed out as they are')


# ---------------------------------------------------------------- ARIMA
def fitted(r, I):
    '''the models that are produced; fits that failed give no model'''
    def g(u):
        if u.op == 'none':
            return T.DONTCARE
        return strip(u)

    def strip(u):
        if u.op == 'call' and u.args[0].endswith('.ARIMA'):
            kw = tuple((k, v) for k, v in u.args[2] if not (k == 'seasonal_order' and v is canon(
                T.tup(ZERO, ZERO, ZERO, ZERO))))
            return mk('call', u.args[0], u.args[1], kw)
        return T.rebuild(u, strip) if T.contains(u, lambda x: x.op == 'call') else u
    return T.map_leaves(r.ok, g)


P.law('ARIMA of given order', A + 'TrainerArimaPDQ.training_function',
      'def a(o, s, X, Y):\n    return TrainerArimaPDQ(None, X, Y).training_function(o, s)\n',
      'def b(o, s, X, Y):\n    return spta.arima.train.ARIMA(s, order=(o.p, o.d, o.q)).fit()\n',
      aspect=fitted, rule='ARIMA(p, d, q) fitted to the series')
P.law('automatic ARIMA', A + 'TrainerAutoArima.training_function',
      'def a(o, s, X, Y):\n    return TrainerAutoArima(None, X, Y).training_function(o, s)\n',
      '''def b(o, s, X, Y):
    m = spta.arima.train.auto_arima(s, start_p=o.start_p, start_q=o.start_q, max_p=o.max_p, max_q=o.max_q, d=o.d,
        stepwise=o.stepwise, seasonal=False, suppress_warnings=True)
    p, d, q = m.order
    return spta.arima.train.ARIMA(s, order=(p, d, q)).fit()
''', aspect=fitted, rule='the order is searched within the given limits on the same series')


GUARD = '''
    if p is None or X != d.shape[-2] or Y != d.shape[-1]:
        raise ValueError
'''
PDQ = 'spta.arima.train.ARIMA(s, order=(o.p, o.d, o.q)).fit()'
AUTO = '''
    m = spta.arima.train.auto_arima(s, start_p=o.start_p, start_q=o.start_q, max_p=o.max_p, max_q=o.max_q, d=o.d,
        stepwise=o.stepwise, seasonal=False, suppress_warnings=True)
    p_, d_, q_ = m.order
'''
AUTOV = 'spta.arima.train.ARIMA(s, order=(p_, d_, q_)).fit()'
FIT = dict(aspect=fitted)
for name, cls, acc, pre, want, kw in (
        ('ARIMA', A + 'TrainerArimaPDQ', '', '', PDQ, FIT),
        ('automatic ARIMA', A + 'TrainerAutoArima', '', AUTO, AUTOV, FIT),
        ('KNN', M + 'knn.TrainerKNN', '.training_series', '', 's', {}),
        ('KNN parameters', M + 'knn.TrainerKNN', '.model_params', '', 'o', {}),
        ('mean of past', M + 'mean.TrainerMeanOfPast', '', '', 'np.mean(s[-o.past:])', {})):
    P.law('region of models: ' + name, cls + '.create_model_region',
          'def a(o, d, p, X, Y):\n    return %s(o, X, Y).apply_to(SpatioTemporalRegion(d))'
          '.value_at(p)%s\n' % (cls.split('.')[-1], acc),
          'def b(o, d, p, X, Y):%s    s = d[:, p.x, p.y]\n%s    return %s\n' % (GUARD, pre, want),
          rule='the model of every point is trained on the series of the point and kept there', **kw)

FITS = '''
def a(o, d, p, X, Y):
    class T(%(cls)s):
        def training_function(self, o, s):
            return tf(o, s)
    m = T(o, X, Y).apply_to(SpatioTemporalRegion(d))
    return m.%(what)s
'''
for cls in ('TrainerArimaPDQ', 'TrainerAutoArima'):
    for what, want in (('aic_region.value_at(p)', 'f.aic'),
                       ('pdq_region.series_at(p)', 'np.array([f.model.order[0], '
                        'f.model.order[1], f.model.order[2]])')):
        if cls == 'TrainerArimaPDQ' and 'pdq' in what:
            continue
        P.law('%s: %s' % (cls, what.split('_')[0]), A + cls + '.create_model_region',
              (FITS % dict(cls=cls, what=what)).replace('(o, d, p', '(tf, o, d, p', 1),
              'def b(tf, o, d, p, X, Y):%s    f = tf(o, d[:, p.x, p.y])\n    if f is None or '
              'f == 0:\n        raise ValueError\n    return %s\n' % (GUARD, want),
              rule='the %s of a point is that of its own model' % what.split('_')[0])

REFIT = '''
def a(ms, d, p):
    t = TrainerAutoArima(None, ms.shape[0], ms.shape[1])
    return t.create_refitter(ModelRegionArima(ms)).apply_to(SpatioTemporalRegion(d)).value_at(p)
'''
RGUARD = '''
    if p is None or ms.shape[ms.ndim - 2] != d.shape[d.ndim - 2] or ms.shape[ms.ndim - 1] != d.shape[d.ndim - 1]:
        raise ValueError
    if ms[p.x, p.y] is None or ms[p.x, p.y] == 0:
        raise ValueError
'''
P.law('retraining', A + 'TrainerRefitArima.__init__', REFIT,
      '''def b(ms, d, p):%s    o = ms[p.x, p.y].model.order
    if o[0] == -1 and o[1] == -1 and o[2] == -1:
        raise ValueError
    return spta.arima.train.ARIMA(d[:, p.x, p.y], order=(o[0], o[1], o[2])).fit()
''' % RGUARD, aspect=fitted, ndims={'ms': 2},
      rule='a point keeps the order of its own model and is fitted to its own new series')

# ---------------------------------------------------------------- forecasts
FARGS = 'ms, d, p, n'
FG = '''
    if p is None or ms.shape[ms.ndim - 2] != d.shape[d.ndim - 2] or ms.shape[ms.ndim - 1] != d.shape[d.ndim - 1]:
        raise ValueError
    m = ms[p.x, p.y]
    if m is None:
        raise ValueError
'''
for name, cls, want in (
        ('ARIMA', 'spta.arima.model.ModelRegionArima', 'm.forecast(n)'),
        ('KNN', M + 'knn.ModelRegionKNN', 'predict_future_values_with_knn(time_series='
         'm.training_series, k=m.model_params.k, forecast_len=n, '
         'distance_measure=m.model_params.distance_measure)'),
        ('mean of past', M + 'mean.ModelRegionMeanOfPast', 'np.repeat(m, n)')):
    for kind, reg, acc in (('', 'SpatialRegion(d)', 'series_at(p)'),
                           (' over series', 'SpatioTemporalRegion(d)', 'series_at(p)'),
                           (' after instance()', 'SpatialRegion(d)', 'series_at(p)')):
        mk_ = '%s(ms)' % cls.split('.')[-1]
        if 'instance' in kind:
            mk_ = '%s(ms).instance(ms)' % cls.split('.')[-1]
        P.law('forecast of %s models%s' % (name, kind), cls + '.forecast_from_model',
              'def a(%s):\n    return %s.apply_to(%s, n).%s\n' % (FARGS, mk_, reg, acc),
              'def b(%s):%s    return %s\n' % (FARGS, FG, want),
              keep=('predict_future_values_with_knn',),
              rule='a point is forecast by its own model, with the requested number of samples')
P.law('two forecasts of different length', M + 'base.ModelRegion.apply_to',
      'def a(ms, d, p, n, n2):\n    m = ModelRegionMeanOfPast(ms)\n'
      '    m.apply_to(SpatialRegion(d), n2)\n'
      '    return m.apply_to(SpatialRegion(d), n).series_at(p)\n',
      'def b(ms, d, p, n, n2):%s    return np.repeat(m, n)\n' % FG,
      rule='each forecast has the length of its own request')

# ---------------------------------------------------------------- replication over clusters
P.law('replication over clusters', 'spta.region.partition.PartitionRegionCrisp.'
      'merge_with_representatives_2d', '''
def a(L, k, ms, p, meds):
    part = PartitionRegionCrisp(L, k)
    c = part.create_all_spatial_clusters(SpatialRegion(ms))
    return part.merge_with_representatives_2d(c, meds).value_at(p)
''', '''
def b(L, k, ms, p, meds):
    m = meds[L[p.x, p.y]]
    if p is None or m is None or L.ndim != 2 or k != int(np.max(L)) + 1 or len(meds) != k:
        raise ValueError
    if ms.shape[ms.ndim - 2] != L.shape[L.ndim - 2] or ms.shape[ms.ndim - 1] != L.shape[L.ndim - 1]:
        raise ValueError
    return ms[m.x, m.y]
''', strict=False, rule='every point gets the model of the representative of its own cluster')
P.law('merge of clusters', 'spta.region.partition.PartitionRegionCrisp.merge_clusters_2d', '''
def a(L, k, c0, c1, p):
    part = PartitionRegionCrisp(L, 2)
    a0, a1 = SpatialCluster(SpatialRegion(c0), part, 0), SpatialCluster(SpatialRegion(c1), part, 1)
    return (part.merge_clusters_2d([a0, a1]).value_at(p), part.merge_clusters_2d([a1, a0]).value_at(p))
''', '''
def b(L, k, c0, c1, p):
    v = c0[p.x, p.y] if L[p.x, p.y] == 0 else c1[p.x, p.y]
    if p is None or L[p.x, p.y] != 0 and L[p.x, p.y] != 1 or L.ndim != 2:
        raise ValueError
    return (v, v)
''', strict=False, rule='every point gets the value of its own cluster, in whatever order the clusters come')
P.law('data of merged clusters', 'spta.region.partition.PartitionRegionCrisp.merge_clusters_2d', '''
def a(L, k, c0, c1, p):
    part = PartitionRegionCrisp(L, 2)
    a0, a1 = SpatialCluster(SpatialRegion(c0), part, 0), SpatialCluster(SpatialRegion(c1), part, 1)
    return part.merge_clusters_2d([a0, a1]).numpy_dataset.dtype
''', '''
def b(L, k, c0, c1, p):
    return c0.dtype
''', strict=False, rule='the merged region holds what the clusters hold')
P.law('representatives in the order of the clusters', 'spta.region.partition.PartitionRegionCrisp.'
      'merge_with_representatives_2d', '''
def a(L, k, c0, c1, p, m: 'Point', q: 'Point'):
    part = PartitionRegionCrisp(L, 2)
    a0, a1 = SpatialCluster(SpatialRegion(c0), part, 0), SpatialCluster(SpatialRegion(c1), part, 1)
    return part.merge_with_representatives_2d([a1, a0], [m, q]).value_at(p)
''', '''
def b(L, k, c0, c1, p, m: 'Point', q: 'Point'):
    if p is None or m is None or q is None or L[p.x, p.y] != 0 and L[p.x, p.y] != 1 or L.ndim != 2:
        raise ValueError
    return c0[q.x, q.y] if L[p.x, p.y] == 0 else c1[m.x, m.y]
''', strict=False, rule='each cluster gets the value at its own representative')
shared.solver_training(P, 'model_region_training', 'model_region_whole')

'''C08: forecast errors compare matching points in original units.'''
import ast
from sa.prop import *     # noqa
from props import shared

P = Prop('C08',
         'Value-graph evaluation of the error functions applied at a symbolic point, for plain and '
         'scaled observations, training and forecast regions, and of what each error analysis '
         'feeds to them.',
         cfg={'keep': ('series_at', 'value_at', '!descale', 'descale', 'mean_squared',
                       'root_mean_squared', 'repeat_series'),
              'attr_types': {},
              'ret_types': {'descale': 'SpatioTemporalRegion', 'repeat_series':
                            'SpatioTemporalRegion'},
              'name_types': {'p': 'Point', 'obs': 'SpatioTemporalRegion', 'pr': 'Region',
                             'tr': 'SpatioTemporalRegion', 'fr': 'SpatioTemporalRegion',
                             'sobs': 'SpatioTemporalScaled', 'str_': 'SpatioTemporalScaled',
                             'sfr': 'SpatioTemporalScaled', 'e0': 'SpatialRegion'}})
E = 'spta.model.error.'
M = E + 'MeasureForecastingError'
ARGS = 'ef, obs, tr, sobs, str_, fr, sfr, p, f'
for name, new, want in (
        ('plain', 'MeasureForecastingError(ef, obs, tr)',
         'ef(f, obs.series_at(p), tr.series_at(p))'),
        ('plain, no training', 'MeasureForecastingError(ef, obs)', 'ef(f, obs.series_at(p), None)'),
        ('scaled', 'MeasureForecastingError(ef, sobs, str_)',
         'ef(f, sobs.descale().series_at(p), str_.descale().series_at(p))'),
        ('scaled, no training', 'MeasureForecastingError(ef, sobs)',
         'ef(f, sobs.descale().series_at(p), None)')):
    P.law('error at a point: ' + name, M + '.function_at',
          'def a(%s):\n    return %s.function_at(p)(f)\n' % (ARGS, new),
          'def b(%s):\n    if tr is None or str_ is None or str_.descale() is None:\n'
          '        raise ValueError\n    return %s\n' % (ARGS, want),
          rule='forecast, observation and training series of the same point, in original units')

SUB = '''
    class M(MeasureForecastingError):
        pass
'''
for name, reg, want in (('plain', 'fr', 'fr'), ('scaled', 'sfr', 'sfr.descale()')):
    P.law('forecast units: ' + name, M + '.apply_to',
          'def a(%s):\n    return MeasureForecastingError(ef, obs, tr).apply_to(%s)\n' % (ARGS, reg),
          'def b(%s):\n    %s.apply_function_scalar(obs)\n' % (ARGS, want),
          aspect=lambda r, I: call_args('apply_function_scalar', 'recv')(r, I),
          keep=('apply_function_scalar', '!apply_function_scalar'),
          rule='scaled forecasts are descaled first')
    P.law('forecast units without training data: ' + name, M + '.apply_to',
          'def a(%s):\n    return MeasureForecastingError(ef, obs).apply_to(%s)\n' % (ARGS, reg),
          'def b(%s):\n    %s.apply_function_scalar(obs)\n' % (ARGS, want),
          aspect=lambda r, I: call_args('apply_function_scalar', 'recv')(r, I),
          keep=('apply_function_scalar', '!apply_function_scalar'),
          rule='scaled forecasts are descaled first')
P.law('error region', M + '.apply_to', '''
def a(ef, obs, tr, v, p):
    class Fr(SpatioTemporalRegion):
        def apply_function_scalar(self, f):
            return SpatialRegion(v)
    r = MeasureForecastingError(ef, obs, tr).apply_to(Fr(obs.numpy_dataset))
    return (isinstance(r, ErrorRegion), r.value_at(p))
''', '''
def b(ef, obs, tr, v, p):
    return (True, SpatialRegion(v).value_at(p))
''', rule='the error region holds the computed errors')

P.law('overall error', E + 'ErrorRegion.overall_error',
      'def a(e0, cf):\n    return ErrorRegion(e0, cf).overall_error\n',
      'def b(e0, cf):\n    return cf([v for p, v in ErrorRegion(e0, cf)])\n',
      rule='all errors of the region, once each')
P.law('overall error default', E + 'ErrorRegion.__init__',
      'def a(e0):\n    return ErrorRegion(e0).overall_error\n',
      'def b(e0):\n    return spta.util.arrays.root_mean_squared([v for p, v in ErrorRegion(e0)])\n',
      rule='root mean squared by default')
P.law('error region iteration', E + 'ErrorRegion.__next__',
      'def a(e0):\n    return ErrorRegion(e0).__next__()\n',
      'def b(e0):\n    return e0.__next__()\n', keep=('__next__',),
      rule='iterates like the decorated region')

for fn, want in (('mase', 'MASE'), ('smape', 'sMAPE'), ('mse', 'MSE')):
    P.law('error function ' + want, E + 'get_error_func',
          'def a():\n    return get_error_func("%s")\n' % want,
          'def b():\n    return spta.util.error.%s\n' % fn, rule='the name selects its measure')
    P.law('overall error function ' + want, E + 'get_overall_error_func',
          'def a(p, f, obs, tr):\n    return get_overall_error_func("%s")(p, f, obs, tr, '
          'with_print=False)\n' % want,
          'def b(p, f, obs, tr):\n    return overall_error_generic(spta.util.error.%s, p, f, obs, '
          'tr, False)\n' % fn, keep=('overall_error_generic',),
          rule='the name selects its measure')
for fn in ('get_error_func', 'get_overall_error_func'):
    P.law('unknown error type: ' + fn, E + fn,
          'def a(t):\n    return 1 if %s(t) is None else 1\n' % fn,
          'def b(t):\n    if t not in ("MASE", "sMAPE", "MSE"):\n        raise ValueError\n'
          '    return 1\n', strict='raises', rule='unsupported measures are rejected')

GEN = '''
def a(ef, p, f, obs, tr):
    class M2:
        pass
    return overall_error_generic(ef, p, f, obs, tr, False)
'''
P.law('one forecast for the whole region', E + 'overall_error_generic', GEN, '''
def b(ef, p, f, obs, tr):
    if np.isnan(f).all():
        return np.nan
    return MeasureForecastingError(ef, obs, tr).apply_to(obs.repeat_series(f)).overall_error
''', keep=('MeasureForecastingError', 'apply_to', 'overall_error'),
      rule='the forecast is repeated at every point; a missing forecast has a missing error')
P.law('single forecast function', E + 'OverallErrorForEachForecast.function_at',
      'def a(obs, tr, p, f):\n    return OverallErrorForEachForecast("MSE", obs, tr)'
      '.function_at(p)(f)\n',
      'def b(obs, tr, p, f):\n    return overall_error_generic(spta.util.error.mse, p, f, obs, tr, '
      'False)\n', keep=('overall_error_generic',),
      rule='each forecast is compared with the observations of the whole region')

AN = 'ErrorAnalysis(obs, tr, w)'
P.law('analysis of a forecast region', E + 'ErrorAnalysis.with_forecast_region',
      'def a(obs, tr, w, fr, t):\n    return %s.with_forecast_region(fr, t)\n' % AN,
      'def b(obs, tr, w, fr, t):\n    return MeasureForecastingError(get_error_func(t), obs, tr)'
      '.apply_to(fr)\n', keep=('MeasureForecastingError', 'get_error_func', 'apply_to'),
      rule='observation and training regions in their roles')
P.law('analysis of a repeated forecast', E + 'ErrorAnalysis.with_repeated_forecast',
      'def a(obs, tr, w, f, t):\n    return %s.with_repeated_forecast(f, t)\n' % AN,
      'def b(obs, tr, w, f, t):\n    return MeasureForecastingError(get_error_func(t), obs, tr)'
      '.apply_to(obs.repeat_series(f))\n',
      keep=('MeasureForecastingError', 'get_error_func', 'apply_to'),
      rule='the forecast is repeated over the observed region')
P.law('analysis of all forecasts', E + 'ErrorAnalysis.overall_with_each_forecast',
      'def a(obs, tr, w, fr, t):\n    return %s.overall_with_each_forecast(fr, t)\n' % AN,
      'def b(obs, tr, w, fr, t):\n    return OverallErrorForEachForecast(t, obs, tr, w)'
      '.apply_to(fr)\n', keep=('OverallErrorForEachForecast', 'apply_to'),
      rule='observation and training regions in their roles')

# ---------------------------------------------------------------- forecast analysis
F = 'spta.model.forecast.ForecastAnalysis.'
SETUP = '''
    class Trainer:
        def apply_to(self, region):
            return models
    fa = ForecastAnalysis(Trainer(), w)
    fa.train_models(%s, n)
'''
FK = dict(keep=('apply_to', 'overall_with_each_forecast', 'with_forecast_region',
                'with_repeated_forecast', '!overall_with_each_forecast', '!with_forecast_region',
                '!with_repeated_forecast', 'time', 'empty_region_2d', '!empty_region_2d'),
          ret_types={'apply_to': 'SpatioTemporalRegion', 'with_forecast_region': 'ErrorRegion'},
          name_types={'models': 'ModelRegion', 'rm': 'SpatioTemporalRegionMetadata'})
FARGS = "d, models: 'ModelRegion', w, n, t, p, lo: 'SpatialRegion', hi: 'SpatialRegion'"
for kind, new, conv in (
        ('plain', 'SpatioTemporalRegion(d)', 'f'),
        ('scaled', 'SpatioTemporalScaled(SpatioTemporalRegion(d), lo, hi)',
         'spt.new_spatio_temporal_region(f.numpy_dataset)')):
    P.law('forecast at each point: %s, forecast' % kind, F + 'forecast_at_each_point',
          'def a(%s):%s    return fa.forecast_at_each_point(n, t)[0].numpy_dataset\n'
          % (FARGS, SETUP % new),
          'def b(%s):\n    if models is None:\n        raise ValueError\n    spt = %s\n'
          '    x, y = SplitTrainingAndTestLast(n).split(spt)\n'
          '    f = models.apply_to(x.empty_region_2d(), n)\n    return f.numpy_dataset\n'
          % (FARGS, new), rule='each point is forecast by its own model', **FK)
    P.law('forecast at each point: %s, scaling' % kind, F + 'forecast_at_each_point',
          'def a(%s):%s    return fa.forecast_at_each_point(n, t)[0].has_scaling()\n'
          % (FARGS, SETUP % new),
          'def b(%s):\n    if models is None:\n        raise ValueError\n    return %s\n' % (FARGS, kind == 'scaled'),
          rule='forecasts of scaled data are known to be scaled', hooks={
              '.has_scaling': lambda I, r, a, k, e: FALSE if r.op == 'mcall' else None}, **FK)


def _single(meth):
    P.law('%s uses forecasts of the current models' % meth, F + meth.split('(')[0], '''
def a(d, d2, models: 'ModelRegion', models2: 'ModelRegion', w, n, t, p):
    class Trainer:
        def apply_to(self, region):
            return models
    fa = ForecastAnalysis(Trainer(), w)
    fa.train_models(SpatioTemporalRegion(d), n)
    fa.%s
    class Trainer2:
        def apply_to(self, region):
            return models2
    fa.trainer = Trainer2()
    fa.train_models(SpatioTemporalRegion(d2), n)
    fa.%s
    return fa.forecast_region_each.numpy_dataset
''' % (meth, meth), '''
def b(d, d2, models: 'ModelRegion', models2: 'ModelRegion', w, n, t, p):
    if models is None or models2 is None:
        raise ValueError
    x, y = SplitTrainingAndTestLast(n).split(SpatioTemporalRegion(d2))
    return models2.apply_to(x.empty_region_2d(), n).numpy_dataset
''', rule='training again invalidates earlier forecasts', strict=False, **FK)


_single('forecast_whole_region_with_single_model(p, n, t)')
_single('forecast_whole_region_with_all_models(n, t)')
P.obs[-1].name = 'all models: forecasts of the current models'
P.obs[-2].name = 'single model: forecasts of the current models'
P.law('single model: repeated forecast', F + 'forecast_whole_region_with_single_model',
      "def a(d, models: 'ModelRegion', w, n, t, p):%s"
      "    return fa.forecast_whole_region_with_single_model(p, n, t)\n"
      % (SETUP % 'SpatioTemporalRegion(d)'),
      "def b(d, models: 'ModelRegion', w, n, t, p):\n"
      "    x, y = SplitTrainingAndTestLast(n).split(SpatioTemporalRegion(d))\n"
      "    return 0\n", aspect=lambda r, I: call_args('with_repeated_forecast', 0)(r, I),
      **FK)
P.obs.pop()

# ---------------------------------------------------------------- parallel computation
EP = 'spta.model.error_parallel.'
PKW = dict(name_types={'p': 'Point'}, strict=False)
PARGS = 'fr, ob, tr, out, p, ef'
for what, asp in (('the error is stored at its point', stores),):
    P.law('parallel: ' + what, EP + 'error_function_wrapper', '''
def a(%s):
    from spta.model.error_parallel import init_process, error_function_wrapper
    init_process(fr, ob, tr, out)
    error_function_wrapper((p, ef))
''' % PARGS, '''
def b(%s):
    from spta.model.error_parallel import init_process
    init_process(fr, ob, tr, out)
    n, x, y = fr.shape
    np.frombuffer(out.get_obj()).reshape((x, y))[p.x, p.y] = ef(p, fr.series_at(p), ob, tr)
''' % PARGS, aspect=asp, rule='each process handles one point with the shared regions', **PKW)
P.law('parallel: extents of the result', EP + 'ParallelForecastError.__init__', '''
def a(k, fr, ob, tr):
    from spta.model.error_parallel import ParallelForecastError
    e = ParallelForecastError(k, fr, ob, tr)
    return e.output_2d_shape, e.output_1d_len
''', '''
def b(k, fr, ob, tr):
    n, x, y = fr.shape
    return (x, y), x * y
''', rule='one value per point of the forecast region')
P.law('parallel: which error function', E + 'OverallErrorForEachForecast.apply_to', '''
def a(obs, tr, k, fr):
    if not k:
        raise ValueError
    return OverallErrorForEachForecast("MSE", obs, tr, k).apply_to(fr)
''', '''
def b(obs, tr, k, fr):
    from spta.model.error_parallel import ParallelForecastError
    if not k:
        raise ValueError
    return ParallelForecastError(k, fr, obs, tr).operate(get_overall_error_func("MSE"))
''', keep=('operate', '!operate', 'get_overall_error_func'), strict=False,
      rule='forecasts, observations and training data in their roles')


def _pool(I, recv, args, kw, e):
    """The pool of processes, one after the other: each is initialised as the pool demands."""
    a = dict(zip(('processes', 'initializer', 'initargs'), args), **kw)
    if 'initializer' in a:
        v = I.reify(I.rv(a['initargs'])) if 'initargs' in a else T.tup()
        if v.op not in ('tuple', 'list'):
            return None
        I.apply(a['initializer'], list(v.args[1] if v.op == 'tuple' else v.args[0]), {}, e)
    return T.mk('sym', 'pool')


def _pool_map(I, recv, args, kw, e):
    if recv is not T.mk('sym', 'pool') or len(args) < 2:
        return None
    I.st.env['_f'], I.st.env['_items'] = args[0], args[1]
    I.exec_block(ast.parse('for _i in _items:\n    _f(_i)\n').body)
    return NONE


OPKW = dict(hooks={'multiprocessing.Pool': _pool, '.map': _pool_map,
                   '.__enter__': lambda I, r, a, k, e: r if r is T.mk('sym', 'pool') else None},
            keep=('empty_region_2d',), strict=False)
for what, asp in (('where the errors go', stores), ('the region returned', 'value')):
    P.law('parallel: ' + what, EP + 'ParallelForecastError.operate', '''
def a(k, fr, ob, tr, ef):
    from spta.model.error_parallel import ParallelForecastError
    return ParallelForecastError(k, fr, ob, tr).operate(ef)
''', '''
def b(k, fr, ob, tr, ef):
    import ctypes
    import multiprocessing as mp
    from spta.model.error_parallel import init_process
    n, x, y = fr.shape
    out = mp.Array(ctypes.c_double, x * y)
    init_process(fr, ob, tr, out)
    for p, s in fr:
        np.frombuffer(out.get_obj()).reshape((x, y))[p.x, p.y] = ef(p, fr.series_at(p), ob, tr)
    e = fr.empty_region_2d()
    np.copyto(e.as_numpy, np.frombuffer(out.get_obj()).reshape((x, y)))
    return ErrorRegion(e)
''', aspect=asp, rule='every point of the forecast region once, with the shared regions', **OPKW)

# ---------------------------------------------------------------- which forecasts are judged
P.same(F + 'check_forecast_request', '''
def check(self, forecast_len):
    if self.model_region is None:
        raise ValueError
    if self.error_analysis is None:
        raise ValueError
    if forecast_len != self.test_len:
        raise AssertionError
''', strict='raises')
for what, meth, want in (
        ('single model', 'forecast_whole_region_with_single_model(p, n, t)',
         'with_repeated_forecast(fa.forecast_region_each.series_at(p), t)'),
        ('all models', 'forecast_whole_region_with_all_models(n, t)',
         'overall_with_each_forecast(fa.forecast_region_each, t)')):
    P.law('%s: forecasts at hand are judged' % what, F + meth.split('(')[0], '''
def a(fa: ForecastAnalysis, p, n, t):
    return fa.%s
''' % meth, '''
def b(fa: ForecastAnalysis, p, n, t):
    fa.check_forecast_request(n)
    if fa.forecast_region_each is None:
        raise ValueError
    return fa.error_analysis.%s
''' % want, keep=('check_forecast_request', 'forecast_at_each_point'), strict=False,
          rule='the forecasts of the analysis against its observations')
    P.law('%s: forecasts are made when absent' % what, F + meth.split('(')[0], '''
def a(fa: ForecastAnalysis, p, n, t):
    fa.%s
''' % meth, '''
def b(fa: ForecastAnalysis, p, n, t):
    fa.check_forecast_request(n)
    if fa.forecast_region_each is None:
        fa.forecast_at_each_point(n, t)
''', aspect=calls('forecast_at_each_point'), keep=('check_forecast_request',
                                                 'forecast_at_each_point'), strict=False,
          rule='with the requested length and kind of error')
P.law('error of the forecasts', F + 'forecast_at_each_point', '''
def a(fa: ForecastAnalysis, n, t):
    fr, er, time = fa.forecast_at_each_point(n, t)
    return er
''', '''
def b(fa: ForecastAnalysis, n, t):
    fa.check_forecast_request(n)
    fr, er, time = fa.forecast_at_each_point(n, t)
    return fa.error_analysis.with_forecast_region(fr, t)
''', keep=('check_forecast_request',), strict=False, rule='the error of the forecasts made')
shared.solver_training(P, 'generalization_errors')

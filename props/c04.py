'''C04: in-sample and out-of-sample queries use the right models, length, test data and region.'''
from sa.prop import *     # noqa
from props import shared

P = Prop('C04',
         'Value-graph evaluation of a whole prediction query (solver built by its constructor, '
         'prepared by its own code, result read through the public accessors) for a symbolic '
         'region, forecast length and scaling flag.',
         cfg={'keep': ('series_at', 'value_at', 'is_member', 'apply_to', 'create_instance',
                       'instance', 'descale', '!descale', 'plot_regions', 'membership_of_points'),
              'attr_types': {'region_metadata': 'SpatioTemporalRegionMetadata',
                             'partition': 'PartitionRegionCrisp', 'region': 'Region'},
              'ret_types': {'instance': 'ModelRegion', 'apply_to': 'SpatioTemporalRegion'},
              'name_types': {'p': 'Point', 'pr': 'Region', 'meta': 'MetadataWithClustering',
                             'part': 'PartitionRegionCrisp', 'mtr': 'ModelRegion',
                             'mwh': 'ModelRegion', 'ge': 'ErrorRegion', 'ge0': 'SpatialRegion',
                             'solver_metadata': 'MetadataWithClustering'}})

ARGS = 'meta, part, mtr, mwh, ge0, pr, fl, out, p'
ACT = '''
def a(%s):
    s = SolverWithMedoids(meta, part, mtr, mwh, ErrorRegion(ge0))
    %%s
    r = s.predict(pr, fl, out, plot=False)
    return %%s
''' % ARGS
REF = '''
def b(%s):
    spt = meta.region_metadata.create_instance()
    sub = ErrorRegion(ge0).region_subset(pr)
    if fl > 0:
        n = fl
        m = mwh
    else:
        n = meta.test_len
        m = mtr
    f = m.instance(m.numpy_dataset[pr.x1:pr.x2, pr.y1:pr.y2]).apply_to(sub, n)
    tr, te = SplitTrainingAndTestLast(meta.test_len).split(spt)
    if te.has_scaling():
        te = te.descale()
    if meta.region_metadata.scaled:
        q = spt.region_subset(pr)
        f = SpatioTemporalScaled(f, scale_min=q.scale_min, scale_max=q.scale_max).descale()
    %%s
    return %%s
''' % ARGS

KINDS = (('plain', 'SpatioTemporalRegion', 'if meta.region_metadata.scaled:\n        raise ValueError'),
         ('scaled', 'SpatioTemporalScaled',
          'if not meta.region_metadata.scaled:\n        raise ValueError'))
PRED = 'spta.solver.model.SolverWithMedoids.predict'
IN = 'if fl > 0:\n        raise ValueError'
OUTS = 'if not (fl > 0):\n        raise ValueError'

for kind, ty, guard in KINDS:
    rt = {'create_instance': ty, 'instance': 'ModelRegion',
          'descale': 'SpatioTemporalRegion'}

    def law(name, a, e, rule, pre='pass', g=guard, rt=rt, kind=kind, at=PRED):
        P.law('%s: %s' % (kind, name), at, ACT % (pre, a), REF % (g, e), rule=rule, ret_types=rt)

    law('forecast', 'r.prediction_forecast_at(p)', 'f.series_at(p)',
        'out of sample: whole-series models over the requested length; in sample: training models '
        'over the test length; both cut to the queried region and descaled with its own extremes')
    law('error', 'r.prediction_error_at(p)', 'sub.value_at(p)',
        'reported errors are the generalization errors of the queried region')
    law('kind', 'r.result_prefix()', "'query-result-future' if fl > 0 else 'query-result'",
        'future queries are reported as such')
    law('length', 'r.decorated.forecast_len', 'fl if fl > 0 else 0',
        'in-sample results are marked by length 0')
    law('test data', 'r.result_tuple_for_point(p)[4]', 'te.region_subset(pr).series_at(p)',
        'in-sample results compare with the test suffix of the queried region, in original units',
        g=guard + '\n    ' + IN)
    law('region', 'r.prediction_region', 'pr', 'the result describes the queried region')
    law('partition', 'r.partition', 'part', 'results report clusters of the solver partition')
    law('metadata', 'r.metadata', 'meta', 'results report the solver parameters')
    law('output', 'r.output_home', 'out', 'results are saved under the requested home')
    law('dataset', 'r.spt_region.numpy_dataset', 'spt.numpy_dataset',
        'summaries of any query can read the dataset', g=guard)
    law('repeated query', 's.predict(pr, fl, out, plot=False).prediction_forecast_at(p)',
        'f.series_at(p)', 'a second query gives the same answer')

B = 'spta.solver.result.PredictionQueryResultBuilder.__init__'
BARGS = 'meta, fl, fs: "SpatioTemporalRegion", ts: "SpatioTemporalRegion", es: "SpatialRegion", ' \
        'pr, spt, out, oos, part'
for w, wn in (('', 'bare'), ('.with_partition(part)', 'with partition')):
    for a, e in (('prediction_forecast_at(p)', 'fs.series_at(p)'),
                 ('prediction_error_at(p)', 'es.value_at(p)'),
                 ('result_prefix()', "'query-result-future' if oos else 'query-result'"),
                 ('result_tuple_for_point(p)[-1]', 'fs.series_at(p) if oos else ts.series_at(p)')):
        P.law('builder %s: %s' % (wn, a), B,
              'def a(%s, p):\n    return PredictionQueryResultBuilder(meta, fl, fs, ts, es, pr, '
              'spt, out, oos)%s.build().%s\n' % (BARGS, w, a),
              'def b(%s, p):\n    return %s\n' % (BARGS, e),
              rule='the builder selects the result kind and passes every part through')
shared.solver_training(P, 'model_region_training', 'model_region_whole', 'generalization_errors')

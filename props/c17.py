'''C17: training data and queries of the classifier.'''
import ast

from sa.prop import *     # noqa

P = Prop('C17', 'Value-graph equality of the choice of a medoid, of the tables of training data and '
         'of the queries of the classifier with their reference semantics.',
         cfg={'ints': ('index',), 'name_types': {'point': 'Point', 'prediction_region': 'Region'}})
TI = 'spta.classifier.train_input.'
CM = 'spta.classifier.model.SolverFromClassifier.'
KEEP = ('get_medoid_penalties', 'distances_to_point')

CHOOSE = '''def b(st, suite, point, th, hist):
    best = np.inf
    where = (None, None, None)
    for rep, meds in suite.items():
        p = st.get_medoid_penalties(rep, meds, point)
        %s
        j = np.argmin(p)
        if p[j] < best:
            best = p[j]
            where = (rep, j, meds[j])
    if np.isinf(best):
        raise ValueError
    return %s
'''
LIMIT = '''for i in range(len(meds)):
            if hist.get((rep, i), 0) > th:
                raise AssertionError
            if hist.get((rep, i), 0) == th:
                p[i] = np.inf'''
for nm, th, body in (('without threshold', '0', 'pass'), ('threshold', '3', LIMIT.replace('th', '3'))):
    for i, what in enumerate(('clustering', 'cluster', 'medoid')):
        P.law('chosen %s, %s' % (what, nm), TI + 'MedoidsChoiceStrategy.choose_medoid',
              'def a(st: MedoidsChoiceStrategy, suite, point, hist):\n'
              '    return st.choose_medoid(suite, point, %s, hist)[%d]\n' % (th, i),
              (CHOOSE % (body, 'where[%d]' % i)).replace('th,', ''), keep=KEEP, strict=False)
P.law('the choice is counted', TI + 'MedoidsChoiceStrategy.choose_medoid',
      'def a(st: MedoidsChoiceStrategy, suite, point, hist):\n'
      '    r = st.choose_medoid(suite, point, 0, hist)\n    return hist[r[0], r[1]]\n',
      'def b(st: MedoidsChoiceStrategy, suite, point, hist):\n'
      '    old = dict(hist)\n    r = st.choose_medoid(suite, point, 0, {})\n'
      '    return hist.get((r[0], r[1]), 0) + 1\n', keep=KEEP)

# ------------------------------------------------------------------ penalties
P.law('distance of the medoids', TI + 'MedoidsChoiceMinDistance.get_medoid_penalties',
      'def a(rm: SpatioTemporalRegionMetadata, dm: DistanceByDTW, rep, meds, point):\n'
      '    st = MedoidsChoiceMinDistance(rm, dm)\n    return st.get_medoid_penalties(rep, meds, point)\n',
      'def b(rm: SpatioTemporalRegionMetadata, dm: DistanceByDTW, rep, meds, point):\n    sr = rm.create_instance()\n'
      '    at = [(m.x - rm.region.x1) * sr.y_len + (m.y - rm.region.y1) for m in meds]\n'
      '    return dm.distances_to_point(spt_region=sr, point=point, all_point_indices=at, '
      'only_if_precalculated=True)\n', keep=KEEP + ('create_instance',))
ERR = '''def %s(rm: SpatioTemporalRegionMetadata, dm: DistanceByDTW, oh, mp, tl, et, rep, meds, point, point2):
    import numpy as np
    from spta.clustering.factory import ClusteringMetadataFactory
    from spta.solver.metadata import SolverMetadataBuilder
    from spta.solver.model import SolverPickler
    %s
'''
RM = ("SpatioTemporalRegionMetadata('n', Region(x1, x2, y1, y2), 2014, 2015, 1, scaled=False)")
SOLVERKEEP = ('!create_instance', 'from_repr', '!from_repr', 'create_instance', 'load_solver', '!load_solver')
OWN = '''sm = (SolverMetadataBuilder(rm, mp, tl, et)
          .with_clustering(ClusteringMetadataFactory().from_repr(rep), dm).build())
    s = SolverPickler(sm).load_solver()
    c = s.partition.membership_of_points((%(p)s,))[0]
    p = np.repeat(np.inf, repeats=len(meds))
    p[c] = s.predict(Region(%(p)s.x, %(p)s.x + 1, %(p)s.y, %(p)s.y + 1), forecast_len=0, output_home=oh, plot=False).prediction_error_at(Point(0, 0))
    return p'''
P.law('error of the medoid of the own cluster', TI + 'MedoidsChoiceMinPredictionError.get_medoid_penalties',
      ERR % ('a', 'return MedoidsChoiceMinPredictionError(rm, dm, oh, mp, tl, et).get_medoid_penalties(rep, meds, point)'),
      ERR % ('b', OWN % {'p': 'point'}), keep=SOLVERKEEP)
CACHE = '''st = MedoidsChoiceMinPredictionError(rm, dm, oh, mp, tl, et)
    sm = (SolverMetadataBuilder(rm, mp, tl, et)
          .with_clustering(ClusteringMetadataFactory().from_repr(rep), dm).build())
    st.solvers = {repr(sm): s}
    return st.get_medoid_penalties(rep, meds, point)'''
KNOWN = ERR.replace('point2', 's: SolverWithMedoids, x1, x2, y1, y2').replace(
    'rm: SpatioTemporalRegionMetadata, ', '').replace('    %s', '    rm = ' + RM + '\n    %s')
P.law('solver that was loaded before', TI + 'MedoidsChoiceMinPredictionError.get_medoid_penalties',
      KNOWN % ('a', CACHE), KNOWN % ('b', (OWN % {'p': 'point'}).replace('SolverPickler(sm).load_solver()', 's')), keep=SOLVERKEEP + ('predict', 'membership_of_points'))
P.law('loaded solvers are kept under their own name', TI + 'MedoidsChoiceMinPredictionError.get_medoid_penalties',
      ERR % ('a', 'st = MedoidsChoiceMinPredictionError(rm, dm, oh, mp, tl, et)\n'
             '    st.get_medoid_penalties(rep, meds, point)\n    return st.solvers'),
      ERR % ('b', (OWN % {'p': 'point'}).replace('return p', 'return {repr(sm): s}')), keep=SOLVERKEEP)

# ------------------------------------------------------------------ tables
def hook_choose(I, recv, args, kw, e):
    I.set_content(args[3], mk('call', 'chosen_so_far', (), ()), e)
    return mk('call', 'chosen', (I.reify(args[1]), I.reify(args[0]), I.reify(args[2])), ())


TABLE = '''def %s(rm: SpatioTemporalRegionMetadata, dm: DistanceByDTW, cs: ClusteringSuite, count, seed, th, oh, mp, tl, et):
    import csv
    from spta.clustering.factory import ClusteringMetadataFactory
    from spta.classifier.train_input import extract_all_medoid_indices_from_suite_result
    %s
'''
TKEEP = ('retrieve_suite_result_csv', 'from_repr', '!from_repr', 'as_dict', 'create_instance',
         'csv_filepaths', '!csv_filepaths', 'get_random_points_different_to_medoids',
         '!get_random_points_different_to_medoids', 'series_at',
         'spta.classifier.train_input.extract_all_medoid_indices_from_suite_result')
RUN = ('TrainDataWithRandomPoints(rm, dm).evaluate_score_of_random_points(cs, count, seed, '
       '"%s", th, oh, model_params=mp, test_len=tl, error_type=et)')
ROWS = '''sr = rm.create_instance()
    gen = TrainDataWithRandomPoints(rm, dm)
    st = MedoidsChoiceMinDistance(rm, dm)
    res = cs.retrieve_suite_result_csv(output_home=oh, region_metadata=rm, distance_measure=dm)
    first = ClusteringMetadataFactory().from_repr(list(res.keys())[0])
    hist = {}
    w = csv.writer(open('x', 'w'), delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL)
    w.writerow(['region_id'] + list(first.as_dict().keys()) + ['cluster_index', 'medoid_x', 'medoid_y']
               + ['s' + str(i) for i in range(sr.shape[0])])
    points = gen.get_random_points_different_to_medoids(
        count, seed, extract_all_medoid_indices_from_suite_result(res, sr), sr.shape[1], sr.shape[2])
    for p in points:
        c = st.choose_medoid(res, p, th, hist)
        w.writerow([repr(rm)] + list(ClusteringMetadataFactory().from_repr(c[0]).as_dict().values())
                   + [c[1], c[2].x, c[2].y] + ['{:0.3f}'.format(v) for v in sr.series_at(p)])
    w = csv.writer(open('y', 'w'), delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL)
    w.writerow(('clustering_repr', 'cluster_index', 'count'))
    for key, n in hist.items():
        w.writerow((key[0], str(key[1]), str(n)))'''
for crit in ('min_distance', 'min_error'):
    P.law('table of random points, ' + crit, TI + 'TrainDataWithRandomPoints.evaluate_score_of_random_points',
          TABLE % ('a', RUN % crit), TABLE % ('b', ROWS), aspect=rows, keep=TKEEP,
          hooks={'.choose_medoid': hook_choose})

# ------------------------------------------------------------------ random points
DRAW = 'def a(gen: TrainDataWithRandomPoints, count, seed, meds, xl, yl, v):\n' \
       '    r = gen.get_random_points_different_to_medoids(count, seed, meds, xl, yl)\n    return %s\n'
RP = TI + 'TrainDataWithRandomPoints.get_random_points_different_to_medoids'


def drawing(cx):
    f = cx.find(RP)
    I = cx.interp()
    r = I.client(DRAW % 'r')
    cx.functions |= I.functions_seen
    evs = [e for e in r.trace if e.kind in ('call', 'mcall') and e.args and
           isinstance(e.args[1], str) and e.args[1].startswith(('np.random', 'random.'))]
    return f, I, r, evs


@P.rule('points are drawn from those that are not medoids',
        'membership in the population of the draw, as a condition on the index')
def population(cx):
    f, I, r, evs = drawing(cx)
    pick = [e for e in evs if e.args[1].endswith(('.choice', '.sample'))]
    if len(pick) != 1 or not pick[0].args[2]:
        raise Skip('the points are not drawn by one choice')
    v = mk('sym', 'v')
    m = I.compare(ast.In(), v, I.reify(pick[0].args[2][0], r.heap))
    J, w = cx.spec('def b(meds, xl, yl, v):\n    return 0 <= v and v < xl * yl and not (v in meds)\n')
    return cx.compare(canon(m), canon(w.ok), cx.where(f), I.functions_seen, 'population')


@P.rule('points are drawn once and in a reproducible way',
        'the generator is seeded with the given seed before the draw, without replacement')
def seeded(cx):
    f, I, r, evs = drawing(cx)
    names = [e.args[1].rsplit('.', 1)[-1] for e in evs]
    out = []
    if 'choice' not in names:
        raise Skip('the points are not drawn by a choice')
    k = names.index('choice')
    c = evs[k]
    seeds = [e for e in evs[:k] if e.args[1].endswith('.seed')]
    if not seeds:
        if any(n in ('default_rng', 'RandomState', 'Generator') for n in names):
            raise Skip('another generator')
        return Outcome(VIOLATION, 'the draw is not seeded', cx.where(f))
    e = seeds[-1]
    got = canon(e.args[2][0] if e.args[2] else e.args[3].get('seed', NONE))
    want = mk('sym', 'seed')
    out.append(cx.compare(got, want, cx.where(f), I.functions_seen, 'seed'))
    size = c.args[2][1] if len(c.args[2]) > 1 else c.args[3].get('size', NONE)
    out.append(cx.compare(canon(size), mk('sym', 'count'), cx.where(f), I.functions_seen, 'count'))
    rep = c.args[2][2] if len(c.args[2]) > 2 else c.args[3].get('replace', TRUE)
    out.append(cx.compare(canon(rep), FALSE, cx.where(f), I.functions_seen, 'replacement'))
    return out


@P.rule('an index is drawn for the point at its row and column',
        'the point built from a drawn index, as a function of the index')
def drawn(cx):
    f, I, r, evs = drawing(cx)
    n, el, cond = I.domain(I.content(r.raw))
    i = mk('bv', 'i')
    pt = canon(I.reify(el(i)))
    pick = {u for u in T.subterms(pt) if u.op == 'index' and u.args[0].op == 'call' and
            u.args[0].args[0].endswith('.choice')}
    if len(pick) != 1:
        raise Skip('points are not built from one drawn index each')
    pt = T.subst(pt, {pick.pop(): mk('sym', 'v')})
    J, w = cx.spec('def b(yl, v):\n    return Point(v // yl, v % yl)\n')
    return cx.compare(canon(pt), canon(w.ok), cx.where(f), I.functions_seen, 'point')


# ------------------------------------------------------------------ medoid series
MEDS = '''def %s(rm: SpatioTemporalRegionMetadata, dm, cs, res, sr: SpatioTemporalRegion, i, j, x1, x2, y1, y2):
    %s
'''
GET = '''fm = MedoidSeriesFormatter(rm, dm, cs)
    d = fm.retrieve_medoid_data({'a': [Point(x1, y1), Point(x2, y2)], 'b': [Point(y1, y2)]}, sr)
    return %s'''
for key, k, pt in (('a', 0, ('x1', 'y1')), ('a', 1, ('x2', 'y2')), ('b', 0, ('y1', 'y2'))):
    for what, want in (('cluster_index', str(k)), ('medoid_x', pt[0]), ('medoid_y', pt[1]),
                       ('series', 'sr.series_at(Point(%s - rm.region.x1, %s - rm.region.y1))' % pt)):
        P.law('%s of medoid %s of clustering %s' % (what, k, key),
              TI + 'MedoidSeriesFormatter.retrieve_medoid_data',
              MEDS % ('a', GET % ('d[%r][%d][%r]' % (key, k, what))), MEDS % ('b', 'return ' + want),
              keep=('series_at', 'create_instance', '!create_instance'))
P.law('every medoid has its series', TI + 'MedoidSeriesFormatter.retrieve_medoid_data',
      MEDS % ('a', GET % "[len(d[q]) for q in ('a', 'b')]"), MEDS % ('b', 'return [2, 1]'),
      keep=('series_at', 'create_instance'))
MROWS = '''sr = rm.create_instance()
    fm = MedoidSeriesFormatter(rm, dm, cs)
    res = cs.retrieve_suite_result_csv(output_home=oh, region_metadata=rm, distance_measure=dm)
    first = ClusteringMetadataFactory().from_repr(list(res.keys())[0])
    data = fm.retrieve_medoid_data(res, sr)
    w = csv.writer(open('x', 'w'), delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL)
    w.writerow(['region_id'] + list(first.as_dict().keys()) + ['cluster_index', 'medoid_x', 'medoid_y']
               + ['s' + str(i) for i in range(sr.series_len)])
    for rep, entries in data.items():
        for e in entries:
            w.writerow([repr(rm)] + list(ClusteringMetadataFactory().from_repr(rep).as_dict().values())
                       + [e['cluster_index'], e['medoid_x'], e['medoid_y']] + ['{:0.3f}'.format(v) for v in e['series']])'''
P.law('table of medoids', TI + 'MedoidSeriesFormatter.produce_csv',
      TABLE % ('a', 'MedoidSeriesFormatter(rm, dm, cs).produce_csv(oh)'), TABLE % ('b', MROWS),
      aspect=rows, keep=TKEEP + ('retrieve_medoid_data', '!retrieve_medoid_data'))
for what, src, name in (
        ('medoids', 'MedoidSeriesFormatter(rm, dm, cs).produce_csv(oh)', 'cs.medoid_series_csv_filepath(oh, rm, dm)'),
        ('random points', RUN % 'min_distance', 'MedoidsChoiceMinDistance(rm, dm).csv_filepaths(oh, cs, count, seed)[0]'),
        ('random points, by error', RUN % 'min_error', 'MedoidsChoiceMinPredictionError(rm, dm, oh, mp, tl, et).csv_filepaths(oh, cs, count, seed)[0]')):
    P.law('file of the table of ' + what, TI + ('MedoidSeriesFormatter.produce_csv' if what == 'medoids' else
          'TrainDataWithRandomPoints.evaluate_score_of_random_points'),
          TABLE % ('a', src), TABLE % ('b', 'open(%s, "w", newline="")' % name + (
              '\n    open(%s, "w", newline="")' % name.replace('[0]', '[1]') if '[0]' in name else '')),
          aspect=calls('open', only=(0, 1)), keep=TKEEP + ('retrieve_medoid_data', '!retrieve_medoid_data',
          'medoid_series_csv_filepath'), hooks={'.choose_medoid': hook_choose})
P.law('indices of the medoids to avoid', TI + 'extract_all_medoid_indices_from_suite_result',
      'def a(sr: SpatioTemporalRegion, i, x1, x2, y1, y2):\n'
      '    from spta.classifier.train_input import extract_all_medoid_indices_from_suite_result\n'
      '    r = extract_all_medoid_indices_from_suite_result({"a": [Point(x1, y1)]}, sr)\n    return r[0]\n',
      'def b(sr: SpatioTemporalRegion, i, x1, x2, y1, y2):\n    r = sr.region_metadata.region\n'
      '    return (x1 - r.x1) * sr.y_len + (y1 - r.y1)\n')
P.law('every medoid is avoided', TI + 'extract_all_medoid_indices_from_suite_result',
      'def a(sr: SpatioTemporalRegion, i, x1, x2, y1, y2, z):\n'
      '    from spta.classifier.train_input import extract_all_medoid_indices_from_suite_result\n'
      '    r = extract_all_medoid_indices_from_suite_result('
      '{"a": [Point(x1, y1), Point(y1, x1)], "b": [Point(x2, y2)]}, sr)\n    return z in r\n',
      'def b(sr: SpatioTemporalRegion, i, x1, x2, y1, y2, z):\n    r = sr.region_metadata.region\n'
      '    f = lambda x, y: (x - r.x1) * sr.y_len + (y - r.y1)\n'
      '    return z == f(x1, y1) or z == f(y1, x1) or z == f(x2, y2)\n')

# ------------------------------------------------------------------ queries
SOLVER = ('SolverFromClassifier(region_metadata=rm, distance_measure=dm, clustering_suite=cs, '
          'model_trainer=tr, model_params=mp, classifier_params=cp, test_len=tl, error_type=et)')
Q = '''def %s(rm: SpatioTemporalRegionMetadata, dm: DistanceByDTW, cs: ClusteringSuite, tr, mp, cp, tl, et, tp, pr: Region, oos: SpatioTemporalRegionMetadata, oh, lab, p, s: SolverWithMedoids, k, seed, ci):
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata
    from spta.solver.metadata import SolverMetadataBuilder
    from spta.solver.model import SolverPickler
    sv = ''' + SOLVER + '''
    %s
'''
QKEEP = ('create_instance', '!create_instance', 'label_for_series', '!label_for_series', 'ClassifierDNN',
         'load_solver', '!load_solver', 'subset', 'value_at', 'create_model_region')
MODEL = 'spta.classifier.model.SolverFromClassifier.'


def query(name, at, actual, expected, aspect='value', keep=QKEEP, **kw):
    P.law(name, MODEL + at, Q % ('a', actual), Q % ('b', expected), aspect=aspect, keep=keep, **kw)


LABELS = '''from spta.classifier.dnn import ClassifierDNN
    r = %s.create_instance()
    q = r.subset(pr, TimeInterval(r.shape[0] - tp, r.shape[0]))
    return {pt: ClassifierDNN(cp).label_for_series(sr) for pt, sr in q}'''
query('label of a point', 'get_labels_from_classifier',
      'sv.prepare(None)\n    return sv.get_labels_from_classifier(pr, tp)', LABELS % 'rm')
query('label of a point, out of sample', 'get_labels_from_classifier',
      'sv.prepare(oos)\n    return sv.get_labels_from_classifier(pr, tp)', 'if oos is None:\n        raise ValueError\n    ' + LABELS % 'oos')
BUILD = '''SolverMetadataBuilder(region_metadata=rm, model_params=mp, test_len=tl, error_type=et).with_clustering(
        KmedoidsClusteringMetadata.from_classifier_label(%s), dm).build()'''
LBL = "str(k) + '-' + str(seed) + '-' + str(ci)"
for attr in ('region_metadata', 'model_params', 'test_len', 'error_type', 'clustering_metadata', 'distance_measure'):
    query('solver that a label names: ' + attr, 'solver_metadata_for_classifier_label',
          'return sv.solver_metadata_for_classifier_label(%s)' % LBL,
          'return ' + BUILD % LBL, aspect='attr:' + attr, atomic=('k', 'seed', 'ci'))
for what, want in (('k', 'int(k)'), ('random_seed', 'seed')):
    query('clustering that a label names: ' + what, 'solver_metadata_for_classifier_label',
          'return sv.solver_metadata_for_classifier_label(%s).clustering_metadata.%s' % (LBL, what),
          'return ' + want, ints=('k', 'seed', 'ci'), atomic=('k', 'seed', 'ci'))
ONE = '''smd = ''' + BUILD + '''
    so = SolverPickler(smd).load_solver()
    return so.model_region_training.value_at(so.partition.medoids[ci])'''
query('model that a label names', 'retrieve_model_for_solver',
      'smd = %s\n    return sv.retrieve_model_for_solver(smd, %s)' % (BUILD % LBL, LBL), ONE % LBL, atomic=('k', 'seed', 'ci'))
TWO = '''smd = %s
    x = sv.retrieve_model_for_solver(smd, '2-0-1')
    smd = %s
    return sv.retrieve_model_for_solver(smd, %s)'''
for lab in ('2-0-0', '3-0-1', '2-1-1', '12-0-10'):
    query('model that label %s names, after that of 2-0-1' % lab, 'retrieve_model_for_solver',
          TWO % (BUILD % "'2-0-1'", BUILD % repr(lab), repr(lab)),
          (ONE % repr(lab)).replace('[ci]', '[%s]' % lab.split('-')[2]))
PQ = {'create_model_region': None}
CELLM = '''m = {Point(0, 0): p, Point(0, 1): lab, Point(1, 0): oh}
    g = sv.build_model_region_for_models(Region(0, 2, 0, 2), m)
    return %s'''
GRID = 'def %s(rm: SpatioTemporalRegionMetadata, dm: DistanceByDTW, cs: ClusteringSuite, tr, mp, cp, tl, et, x1, x2, y1, y2, m, n, o):\n    sv = ' + SOLVER + '\n    %s\n'


def hook_model_region(I, recv, args, kw, e):
    return I.reify(args[0])


for cell, want in (('0, 0', 'm'), ('0, 1', 'n'), ('1, 0', 'o')):
    P.law('model at (%s) of the region of models' % cell, MODEL + 'build_model_region_for_models',
          GRID % ('a', 'd = {Point(0, 0): m, Point(0, 1): n, Point(1, 0): o}\n'
                  '    g = sv.build_model_region_for_models(Region(x1, x2, y1, y2), d)\n    return g[%s]' % cell),
          GRID % ('b', 'return ' + want), hooks={'.create_model_region': hook_model_region})
P.law('size of the region of models', MODEL + 'build_model_region_for_models',
      GRID % ('a', 'return sv.build_model_region_for_models(Region(x1, x2, y1, y2), {}).shape'),
      GRID % ('b', 'return (x2 - x1, y2 - y1)'), hooks={'.create_model_region': hook_model_region})

FULL = ('spta.model.forecast.ForecastAnalysis', 'spta.model.train.NoTrainer', 'spta.solver.result.PredictionQueryResultBuilder',
        'spta.region.scaling.SpatioTemporalScaled', 'region_subset', 'create_instance', '!create_instance')
RES = '''def %s(rm: SpatioTemporalRegionMetadata, dm: DistanceByDTW, cs: ClusteringSuite, tr, mp, cp, tl, et, tp, pr: Region, oh, mr, labels):
    from spta.model.forecast import ForecastAnalysis
    from spta.model.train import NoTrainer
    from spta.solver.result import PredictionQueryResultBuilder
    from spta.solver.metadata import SolverMetadataBuilder
    from spta.region.scaling import SpatioTemporalScaled
    sv = ''' + SOLVER + '''
    sv.spt_region = rm.create_instance()
    sv.solver_metadata = 'md'
    %s
'''
RESULT = '''sub = rm.create_instance().region_subset(pr)
    fa = ForecastAnalysis(NoTrainer(mr), parallel_workers=None)
    fa.train_models(sub, tl)
    fc, er, t = fa.forecast_at_each_point(forecast_len=tl, error_type=et)
    ts = fa.test_region
    if rm.scaled:
        fc = SpatioTemporalScaled(fc, scale_min=sub.scale_min, scale_max=sub.scale_max).descale()
        ts = SpatioTemporalScaled(ts, scale_min=sub.scale_min, scale_max=sub.scale_max).descale()
    return PredictionQueryResultBuilder(solver_metadata='md', forecast_len=tl, forecast_subregion=fc,
        test_subregion=ts, error_subregion=er, prediction_region=pr, spt_region=rm.create_instance(),
        output_home=oh, is_out_of_sample=False).from_classifier(cs, labels).build()'''
P.law('forecasts of a query', MODEL + 'create_prediction_query_result',
      RES % ('a', 'return sv.create_prediction_query_result(pr, mr, labels, oh)'), RES % ('b', RESULT), keep=FULL)
P.law('models are trained on the region of the query', MODEL + 'create_prediction_query_result',
      RES % ('a', 'return sv.create_prediction_query_result(pr, mr, labels, oh)'), RES % ('b', RESULT),
      keep=FULL + ('!train_models', '!forecast_at_each_point', 'train_models', 'forecast_at_each_point'),
      aspect=calls('train_models', 'forecast_at_each_point'))

ALLQ = RES.replace("    sv.spt_region = rm.create_instance()\n    sv.solver_metadata = 'md'\n", '').replace(
    '    %s\n', '    from spta.solver.model import SolverPickler\n    from spta.clustering.kmedoids import KmedoidsClusteringMetadata\n'
    '    from spta.classifier.dnn import ClassifierDNN\n    %s\n').replace('mr, labels', 'mr, labels, oos: SpatioTemporalRegionMetadata')
WHOLE = '''r = rm.create_instance()
    t = %s.create_instance()
    c = ClassifierDNN(cp)
    labels = {pt: c.label_for_series(x) for pt, x in t.subset(pr, TimeInterval(t.shape[0] - tp, t.shape[0]))}
    models = {}
    for pt, l in labels.items():
        models[pt] = sv.retrieve_model_for_solver(sv.solver_metadata_for_classifier_label(l), l)
    mr = sv.build_model_region_for_models(pr, models)
    ''' + RESULT.replace("'md'", 'SolverMetadataBuilder(region_metadata=rm, model_params=mp, test_len=tl, '
                         'error_type=et).for_suite(cs, dm).build()')
WKEEP = FULL + QKEEP


def stand_in(name):
    return lambda I, recv, args, kw, e: mk('call', name, tuple(I.reify(x) for x in args) + tuple(
        I.reify(kw[k]) for k in sorted(kw)), ())


WHOOKS = {'.' + m: stand_in(m) for m in ('solver_metadata_for_classifier_label', 'retrieve_model_for_solver',
                                          'build_model_region_for_models')}
for what, act, reg in (('', 'return sv.predict(pr, tp, output_home=oh)', 'rm'),
                       (' out of sample', 'if oos is None:\n        raise ValueError\n    return sv.predict(pr, tp, oos, oh)', 'oos'),
                       (' in sample after one out of sample', 'sv.predict(pr, tp, oos, oh)\n    return sv.predict(pr, tp, output_home=oh)', 'rm'),
                       (' out of sample after one in sample', 'if oos is None:\n        raise ValueError\n    sv.predict(pr, tp, output_home=oh)\n    return sv.predict(pr, tp, oos, oh)', 'oos')):
    P.law('result of a query' + what, MODEL + 'predict', ALLQ % ('a', act),
          ALLQ % ('b', ('if oos is None:\n        raise ValueError\n    ' if reg == 'oos' else '') + WHOLE % reg), keep=WKEEP, hooks=WHOOKS, strict=False)

DNN = 'spta.classifier.dnn.ClassifierDNN.'
CLF = '''def %s(s):
    from spta.classifier.dnn import ClassifierDNN, ClassifierDNNParams
    import numpy as np
    import pandas as pd
    from keras.models import Sequential
    from sklearn.preprocessing import normalize
    c = ClassifierDNN(ClassifierDNNParams('nm', 'mpath', 'lpath', 15))
    %s
'''
P.law('label of a series', DNN + 'label_for_series', CLF % ('a', 'return c.label_for_series(s)'),
      CLF % ('b', '''names = pd.read_csv('lpath')
    x = normalize(np.array(s).reshape(1, 15), norm='l1').reshape(1, 15, 1)
    return names.iloc[np.argmax(c.model.predict(x)), 1]'''))
P.law('weights of the classifier', DNN + '__init__', CLF % ('a', 'return c'), CLF % ('b', "Sequential().load_weights('mpath')"),
      aspect=calls('load_weights', only=(0,)))

SYN = '''def %s(ks, seeds, nm, ne, sl, rs, xl, yl, aw, bm, bx, no):
    import random
    import csv
    import numpy as np
    from spta.classifier.synthetic import generate_synthetic_series, generate_synthetic_csv
    from spta.dataset.synthetic_temporal import synthetic_temperature
    %s
'''
SY = 'spta.classifier.synthetic.'
MEDO = '[(random.choice(range(0, xl)), random.choice(range(0, yl))) for _ in range(nm)]'
ONE_ = '''k = random.choice(ks)
        s = random.choice(seeds)
        c = random.choice(range(0, k))
        m = random.choice(%s)
        d = {'k': k, 's': s, 'c': c, 'x': m[0], 'y': m[1], 'series': synthetic_temperature(sl, (k - c) * (s %% 2 * 2 - 1) * aw, bm, bx, no)}
''' % MEDO
for what in ('k', 'seed', 'cluster_index', 'medoid_x', 'medoid_y', 'series'):
    P.law('synthetic series: ' + what, SY + 'generate_synthetic_series',
          SYN % ('a', 'g = generate_synthetic_series(ks, seeds, nm, ne, sl, rs, xl, yl, aw, bm, bx, no)\n    return [e[%r] for e in g]' % what),
          SYN % ('b', 'o = []\n    for i in range(ne):\n        ' + ONE_ + '        o.append(d[%r])\n    return o' % {
              'seed': 's', 'cluster_index': 'c', 'medoid_x': 'x', 'medoid_y': 'y'}.get(what, what)),
          keep=('synthetic_temperature',), hooks={'random.choice': lambda I, recv, args, kw, e: mk('call', 'draw', tuple(I.reify(x) for x in args), ())})
P.law('synthetic series are reproducible', SY + 'generate_synthetic_series',
      SYN % ('a', 'generate_synthetic_series(ks, seeds, nm, ne, sl, rs, xl, yl, aw, bm, bx, no)'),
      SYN % ('b', 'random.seed(rs)\n    np.random.seed(rs)'), aspect=calls('random.seed', 'np.random.seed', only=(0,)),
      keep=('synthetic_temperature',))
P.law('table of synthetic series', SY + 'generate_synthetic_csv',
      SYN % ('a', "generate_synthetic_csv(ks, seeds, nm, ne, sl, rs, xl, yl, 'x', 'reg', 'ty', 'mo', aw, bm, bx, no)"),
      SYN % ('b', '''w = csv.writer(open('x', 'w'), delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL)
    w.writerow(['region_id', 'type', 'k', 'seed', 'mode', 'cluster_index', 'medoid_x', 'medoid_y'] + ['s' + str(i) for i in range(sl)])
    for e in generate_synthetic_series(ks, seeds, nm, ne, sl, rs, xl, yl, aw, bm, bx, no):
        w.writerow(['reg', 'ty', e['k'], e['seed'], 'mo', e['cluster_index'], e['medoid_x'], e['medoid_y']]
                   + ['{:0.3f}'.format(v) for v in e['series']])'''), keep=('generate_synthetic_series',), aspect=rows)

# ------------------------------------------------------------------ no medoid left
P.law('no medoid is left to choose', TI + 'MedoidsChoiceStrategy.choose_medoid',
      'def a(st: MedoidsChoiceStrategy, suite, point, hist):\n'
      '    return st.choose_medoid(suite, point, 0, hist)[0]\n',
      (CHOOSE % ('pass', 'where[0]')).replace('th,', ''), keep=KEEP, strict='raises',
      rule='when every medoid is used up the choice fails and does not return an empty one')

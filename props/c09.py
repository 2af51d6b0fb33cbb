'''C09: what is saved is found again, under a path that identifies it.'''
from sa.prop import *     # noqa
from props import shared
from sa import dep

P = Prop('C09',
         'Value-graph evaluation of the paths and objects of every writer and of every reader, '
         'compared pairwise, and a dependence analysis that decides for every stored result and '
         'every parameter whether the path tells different values of the parameter apart.',
         cfg={'name_types': {'rm': 'SpatioTemporalRegionMetadata', 'dm': 'DistanceByDTW',
                             'dm2': 'DistanceBySpatialDTW', 'rg': 'Region', 'pr': 'Region',
                             'part': 'PartitionRegionCrisp', 'spt': 'SpatioTemporalRegion'},
              'attr_types': {'region': 'Region', 'prediction_region': 'Region'},
              'keep': ('create_instance', 'run_kmedoids', 'try_load_distance_matrix',
                       'load_distance_matrix_md', 'time')})
S = 'spta.solver.model.SolverPickler.'
PRE = '''
    cm = KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode, initial_medoids=im, max_iter=mi, tol=tol)
    md = SolverMetadataBuilder(rm, mp, tp, et).with_clustering(cm, dm).build()
'''
ARGS = "k, seed, mode, im, mi, tol, rm, mp, tp, et, dm, mt, mw, ge, part"
SAVE = 'def a(%s):%s    s = SolverWithMedoids(md, part, mt, mw, ge)\n    s.save()\n' % (ARGS, PRE)
LOAD = "def a(%s):%s    return SolverPickler(md).load_solver()\n" % (ARGS, PRE)
STORED = (('models of the training part', 'mt', 'model_region_training'),
          ('models of the whole series', 'mw', 'model_region_whole'),
          ('generalization errors', 'ge', 'generalization_errors'))


def attr_of(v, name):
    def f(u):
        if u.op == 'obj':
            d = dict(u.args[1])
            if name in d:
                return d[name]
        if u.op == 'raise':
            return T.DONTCARE
        raise Skip('no attribute %s' % name)
    return T.map_leaves(v, f)


def only(xs, what):
    if not xs:
        raise Skip('%s is not pickled here' % what)
    return xs


def path_part(t):
    return T.map_leaves(t, lambda u: u.args[1][0])


def pairing(label, sym, attr):
    @P.rule('solver: %s' % label, 'the path written by save is the path read by load, in binary')
    def f(cx):
        fn = cx.find(S + 'save_solver')
        I = cx.interp()
        r = I.client(SAVE)
        J = cx.interp(keep=('load_partition', '!load_partition'))
        s = J.client(LOAD)
        cx.functions |= I.functions_seen | J.functions_seen
        w = only(dep.dumped_path(r, mk('sym', sym)), label)
        got = canon(dep.loaded_from(attr_of(s.ok, attr)))
        outs = []
        for x in w:
            outs.append(cx.compare(canon(dep.with_mode(x, 'rb')), got, cx.where(fn),
                                   I.functions_seen, 'path of the ' + label))
            outs.append(cx.compare(canon(x), canon(dep.with_mode(x, 'wb')), cx.where(fn),
                                   I.functions_seen, 'file mode of the ' + label))
        return outs


for x in STORED:
    pairing(*x)


@P.rule('solver: one file per object', 'the objects of a solver are saved to different paths')
def _(cx):
    fn = cx.find(S + 'save_solver')
    I = cx.interp()
    r = I.client(SAVE)
    cx.functions |= I.functions_seen
    outs = []
    ps = [(n, canon(only(dep.dumped_path(r, mk('sym', s)), n)[0])) for n, s, _ in STORED]
    for i, (n, p) in enumerate(ps):
        for m, q in ps[i + 1:]:
            if p is q:
                outs.append(Outcome(VIOLATION, 'the %s overwrite the %s' % (m, n), cx.where(fn)))
            else:
                outs.append(Outcome(OK))
    return outs


@P.rule('solver: directory exists', 'the directory of the files is created before writing')
def _(cx):
    fn = cx.find(S + 'save_solver')
    I = cx.interp()
    r = I.client(SAVE)
    cx.functions |= I.functions_seen
    made = [(i, e.args[2][0]) for i, e in enumerate(r.trace)
            if e.kind == 'call' and e.args[1] in ('os.makedirs', 'os.mkdir')]
    first = min([i for i, e in enumerate(r.trace)
                 if e.kind == 'call' and e.args[1] == 'open'] or [None])
    if first is None:
        raise Skip('nothing opened')
    if not [i for i, p in made if i < first]:
        return Outcome(VIOLATION, 'no directory is created before the files are written',
                       cx.where(fn))
    return Outcome(OK)


def solver_loaded(attr, want, label):
    P.law('solver: loaded %s' % label, S + 'load_solver',
          'def a(%s):%s    return SolverPickler(md).load_solver().%s\n' % (ARGS, PRE, attr),
          'def b(%s):%s    return %s\n' % (ARGS, PRE, want),
          keep=('load_partition', '!load_partition'),
          rule='the loaded solver has the metadata and partition it was saved with')


solver_loaded('metadata.test_len', 'tp', 'test length')
solver_loaded('metadata.error_type', 'et', 'error type')
solver_loaded('partition', 'SolverPickler(md).load_partition()', 'partition')

# ---------------------------------------------------------------- what identifies a result
def identity(label, at, src, pick, params, cfg=None, rule=None):
    for p in params:
        def f(cx, p=p):
            fn = cx.find(at)
            I = cx.interp(**(cfg or {}))
            r = I.client(src)
            cx.functions |= I.functions_seen
            if isinstance(p, str):
                x = mk('sym', p) if '.' not in p else \
                    mk('attr', mk('sym', p.split('.')[0]), p.split('.')[1])
            t = pick(r)
            ans = dep.identifies(t, x)
            if ans is dep.NO:
                return Outcome(VIOLATION, 'results of a different %s are stored under the same '
                               'name' % NAMES.get(p, p), cx.where(fn), x, t, I.functions_seen)
            if ans is dep.UNKNOWN:
                return Outcome(UNDECIDED, 'dependence on %s not understood' % p, cx.where(fn), x, t)
            return Outcome(OK)
        P.rule('%s identified by %s' % (label, p),
               rule or 'the name depends injectively on every parameter of the result')(f)


NAMES = {'k': 'number of clusters', 'seed': 'random seed', 'im': 'set of initial medoids',
         'mi': 'maximum of iterations', 'tol': 'tolerance', 'mp': 'model parameters',
         'tp': 'test length', 'et': 'error type', 'rm.name': 'region',
         'rm.year_start': 'first year', 'rm.year_end': 'last year',
         'rm.spd': 'number of samples per day', 'rm.scaled': 'scaling'}
CLUST = ('k', 'seed', 'mode', 'im', 'mi', 'tol')
REGION = ('rm.name', 'rm.year_start', 'rm.year_end', 'rm.spd', 'rm.scaled')
for n, s, _a in STORED:
    params = CLUST + REGION + ('mp',) + (('tp',) if s != 'mw' else ()) + \
        (('et',) if s == 'ge' else ())
    identity(n, S + 'save_solver', SAVE,
             lambda r, s=s: only(dep.dumped_path(r, mk('sym', s)), s)[0], params)
val = lambda r: r.ok      # noqa
identity('partition', 'spta.clustering.ClusteringAlgorithm.pickle_full_path', '''
def a(%s):%s
    return ClusteringFactory(dm).instance(cm).pickle_full_path(rm)
''' % (ARGS, PRE), val, CLUST + REGION)
identity('partition (regular)', 'spta.clustering.ClusteringAlgorithm.pickle_full_path', '''
def a(k, rm, dm):
    return ClusteringFactory(dm).instance(RegularClusteringMetadata(k)).pickle_full_path(rm)
''', val, ('k',) + REGION)
DIFF = "result = {'%s': (%s, %s)}"


def distinct(label, at, srcs, rule, cfg=None):
    '''values of an enumeration lead to different names'''
    @P.rule(label, rule)
    def f(cx):
        fn = cx.find(at)
        seen = {}
        outs = []
        for key, src in srcs:
            I = cx.interp(**(cfg or {}))
            t = canon(I.client(src).ok)
            cx.functions |= I.functions_seen
            bad = cx.known(t, TRUE)
            if bad is not None:
                outs.append(Outcome(UNDECIDED, '%s: %s' % (key, bad), cx.where(fn)))
            elif t in seen:
                outs.append(Outcome(VIOLATION, '%s and %s share the name' % (seen[t], key),
                                    cx.where(fn), None, t))
            else:
                outs.append(Outcome(OK))
            seen[t] = key
        return outs


distinct('partition names of each clustering and distance',
         'spta.clustering.ClusteringAlgorithm.pickle_full_path',
         [('%s/%s' % (c, d), 'def a(k, seed, rm):\n    return ClusteringFactory(%s).instance(%s)'
           '.pickle_full_path(rm)\n' % (d, c))
          for c in ('RegularClusteringMetadata(k)', 'KmedoidsClusteringMetadata(k, random_seed=seed)')
          for d in ('DistanceByDTW()', 'DistanceByRMSE()', 'DistanceBySpatialDTW(1)',
                    'DistanceBySpatialDTW(2)')],
         'different algorithms and distance measures use different names')

SUITE = "ClusteringSuite(ident, 'kmedoids', k=ks, random_seed=seeds)"
for meth, extra, params in (
        ('analysis_csv_filepath(out, rm, dm)', '', ()),
        ('medoid_series_csv_filepath(out, rm, dm)', '', ()),
        ('csv_suite_dir(out, rm, dm)', '', ()),
        ('classifier_csv_filename(pr, tp)', '', ('pr.x1', 'pr.x2', 'pr.y1', 'pr.y2', 'tp'))):
    nm = meth.split('(')[0]
    identity('suite %s' % nm, 'spta.clustering.suite.ClusteringSuite.' + nm,
             'def a(ident, ks, seeds, out, rm, dm, pr, tp):\n    return %s.%s\n' % (SUITE, meth),
             val, ('ident',) + (params or REGION + ('out',)),
             cfg={'keep': ('_ClusteringSuite__create_metadata_instances',
                           '__create_metadata_instances', '!__create_metadata_instances')})

RM = 'SpatioTemporalRegionMetadata(name, rg, y0, y1, spd, scaled=sc, dataset_dir=dd)'
RARGS = 'name, rg, y0, y1, spd, sc, dd, out'
for prop in ('dataset_filename', 'distances_filename', 'scaled_min_filename',
             'scaled_max_filename'):
    identity('region %s' % prop, 'spta.region.metadata.SpatioTemporalRegionMetadata.' + prop,
             'def a(%s):\n    return %s.%s\n' % (RARGS, RM, prop), val,
             ('name', 'y0', 'y1', 'spd', 'sc', 'dd'))
identity('region pickle', 'spta.region.metadata.SpatioTemporalRegionMetadata.pickle_filename',
         'def a(%s):\n    return %s.pickle_filename(out)\n' % (RARGS, RM), val,
         ('name', 'y0', 'y1', 'spd', 'sc', 'out'))
distinct('files of a region', 'spta.region.metadata.SpatioTemporalRegionMetadata.__init__',
         [(p, 'def a(%s):\n    return %s.%s\n' % (RARGS, RM, p)) for p in (
             'dataset_filename', 'distances_filename', 'scaled_min_filename',
             'scaled_max_filename', "pickle_filename(dd)")],
         'the files of a region have different names')

for kind, pre, cls in (
        ('basic', 'SolverMetadataBuilder(rm, mp, tp, et).build()', 'SolverMetadataBasic'),
        ('with clustering', 'SolverMetadataBuilder(rm, mp, tp, et).with_clustering('
         'KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode, initial_medoids=im, '
         'max_iter=mi, tol=tol), dm).build()', 'MetadataWithClustering')):
    src = 'def a(pre, pr, out, tf, %s):\n    m = %s\n    return %%s\n' % (
        ARGS.replace(', mt, mw, ge, part', ''), pre)
    identity('result directory (%s)' % kind, 'spta.solver.metadata.%s.output_dir' % cls,
             src % 'm.output_dir(out)', val,
             REGION + ('mp', 'out') + (CLUST if 'clust' in kind else ()))
    identity('result csv (%s)' % kind, 'spta.solver.metadata.%s.csv_filename' % cls,
             src % 'os.path.join(m.csv_dir(out, pr), m.csv_filename(pre, pr, tf))', val,
             REGION + ('mp', 'out', 'pre', 'pr.x1', 'pr.x2', 'pr.y1', 'pr.y2', 'tp', 'tf', 'et') +
             (CLUST if 'clust' in kind else ()))
identity('result directory (suite)', 'spta.solver.metadata.MetadataForClusteringSuite.output_dir',
         'def a(rm, mp, tp, et, dm, ident, ks, seeds, out):\n    m = SolverMetadataBuilder(rm, mp, '
         'tp, et).for_suite(%s, dm).build()\n    return m.output_dir(out)\n' % SUITE, val,
         REGION + ('mp', 'out', 'ident'),
         cfg={'keep': ('__create_metadata_instances', '!__create_metadata_instances')})
identity('representation of solver metadata', 'spta.solver.metadata.MetadataWithClustering.__repr__',
         'def a(%s):%s    return repr(md)\n' % (ARGS, PRE), val, CLUST + REGION + ('mp', 'et'))

for label, at, new, params in (
        ('KNN parameters', 'spta.model.knn.KNNParams.__repr__', 'KNNParams(k, dm)', ('k',)),
        ('mean parameters', 'spta.model.mean.MeanOfPastParams.__repr__', 'MeanOfPastParams(k)',
         ('k',)),
        ('auto ARIMA parameters', 'spta.arima.AutoArimaParams.__repr__',
         'AutoArimaParams(a1, a2, a3, a4, a5, a6)', ('a1', 'a2', 'a3', 'a4', 'a5', 'a6')),
        ('regular clustering', 'spta.clustering.ClusteringMetadata.__repr__',
         'RegularClusteringMetadata(k)', ('k',)),
        ('k-medoids clustering', 'spta.clustering.kmedoids.KmedoidsClusteringMetadata.__repr__',
         'KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode, initial_medoids=im, '
         'max_iter=mi, tol=tol)', CLUST),
        ('weighted distance', 'spta.distance.dtw.DistanceBySpatialDTW.__repr__',
         'DistanceBySpatialDTW(w)', ('w',))):
    identity('representation of ' + label, at,
             'def a(k, dm, a1, a2, a3, a4, a5, a6, seed, mode, im, mi, tol, w):\n'
             '    return repr(%s)\n' % new, val, params,
             rule='the representation used in names depends on every parameter')
distinct('representation of KNN parameters of each distance', 'spta.model.knn.KNNParams.__repr__',
         [(d, 'def a(k):\n    return repr(KNNParams(k, %s))\n' % d) for d in (
             'DistanceByDTW()', 'DistanceByRMSE()', 'DistanceBySpatialDTW(1)')],
         'different distance measures have different representations')
TI = 'spta.classifier.train_input.'
for cls, new, params in (
        ('MedoidsChoiceMinDistance', 'MedoidsChoiceMinDistance(rm, dm)', ()),
        ('MedoidsChoiceMinPredictionError', 'MedoidsChoiceMinPredictionError(rm, dm, out, mp, tp, '
         'et)', ('mp', 'tp', 'et'))):
    src = 'def a(rm, dm, out, mp, tp, et, ident, ks, seeds, count, seed):\n    s = %s\n' \
          '    return s.csv_filepaths(out, %s, count, seed)[%%d]\n' % (new, SUITE)
    for i in (0, 1):
        identity('classifier training file %d of %s' % (i, cls), TI + cls + '.csv_filepaths',
                 src % i, val, REGION + ('out', 'ident', 'count', 'seed') + params,
                 cfg={'keep': ('__create_metadata_instances', '!__create_metadata_instances')})
    distinct('training and histogram files of ' + cls, TI + cls + '.csv_filepaths',
             [(str(i), src % i) for i in (0, 1)], 'two different files',
             cfg={'keep': ('__create_metadata_instances', '!__create_metadata_instances')})

# ---------------------------------------------------------------- partitions
CA = 'spta.clustering.ClusteringAlgorithm.'
for c, new, ar in (('regular', 'RegularClusteringMetadata(k)', 'k, rm, dm, part, ph'),
                   ('k-medoids', 'KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode, '
                    'initial_medoids=im, max_iter=mi, tol=tol)',
                    'k, seed, mode, im, mi, tol, rm, dm, part, ph')):
    def pp(cx, new=new, ar=ar):
        fn = cx.find(CA + 'save_partition')
        outs = []
        for home in ('ph', None):
            call = (', %s' % home) if home else ''
            I = cx.interp()
            r = I.client('def a(%s):\n    ClusteringFactory(dm).instance(%s).save_partition(part, rm'
                         '%s)\n' % (ar, new, call))
            J = cx.interp()
            s = J.client('def a(%s):\n    return ClusteringFactory(dm).instance(%s)'
                         '.load_previous_partition(rm%s)\n' % (ar, new, call))
            cx.functions |= I.functions_seen | J.functions_seen
            w = only(dep.dumped_path(r, mk('sym', 'part')), 'partition')
            got = canon(dep.loaded_from(s.ok))
            for x in w:
                outs.append(cx.compare(canon(dep.with_mode(x, 'rb')), got, cx.where(fn),
                                       I.functions_seen, 'path of the partition'))
                outs.append(cx.compare(canon(x), canon(dep.with_mode(x, 'wb')), cx.where(fn),
                                       I.functions_seen, 'file mode of the partition'))
            if home:
                ans = dep.identifies(w[0], mk('sym', 'ph'))
                outs.append(Outcome(VIOLATION, 'the requested directory is ignored', cx.where(fn))
                            if ans is dep.NO else Outcome(OK if ans is dep.YES else UNDECIDED))
        return outs
    P.rule('partition saved and loaded: ' + c,
           'the path written is the path read, under the requested directory')(pp)

NEWC = """
    class Algo(ClusteringAlgorithm):
        def try_load_previous_partition(self, region_metadata, pickle_home='pickle'):
            return %s
        def partition_impl(self, spt_region, with_medoids):
            return computed
    al = Algo(RegularClusteringMetadata(k), dm)
"""
P.law('partition: found', CA + 'partition',
      "def a(k, dm, spt, computed: 'PartitionRegionCrisp', part, ph):%s"
      "    return al.partition(spt, pickle_home=ph)\n" % (NEWC % 'part'),
      "def b(k, dm, spt, computed, part, ph):\n"
      "    if ph is not None and spt.region_metadata is not None and part is not None:\n"
      "        return part\n    return computed\n",
      rule='a saved partition is used when there is one, otherwise it is computed')
P.law('partition: saved when computed', CA + 'partition',
      "def a(k, dm, spt, computed: 'PartitionRegionCrisp', part, ph):%s"
      "    if spt.region_metadata is None:\n        return 0\n"
      "    al.partition(spt, pickle_home=ph)\n" % (NEWC % 'part'),
      "def b(k, dm, spt, computed: 'PartitionRegionCrisp', part, ph):\n"
      "    if spt.region_metadata is None:\n        return 0\n"
      "    if ph is not None and part is None:\n"
      "        ClusteringAlgorithm(RegularClusteringMetadata(k), dm).save_partition(computed, "
      "spt.region_metadata, ph)\n",
      aspect=calls('pickle.dump', only=(0,)),
      rule='a computed partition is saved exactly when saving was asked for')
P.law('partition: an unreadable file counts as missing', CA + 'try_load_previous_partition',
      "def a(k, dm, rm, part):\n"
      "    class Algo(ClusteringAlgorithm):\n"
      "        def load_previous_partition(self, region_metadata, pickle_home='pickle'):\n"
      "            if part is None:\n                raise ValueError\n            return part\n"
      "    v = Algo(RegularClusteringMetadata(k), dm).try_load_previous_partition(rm)\n"
      "    return v is None or v is part\n",
      "def b(k, dm, rm, part):\n    return True\n", strict='raises',
      rule='a missing or damaged file is not an error')
P.law('partition: not saved without a directory', CA + 'partition',
      "def a(k, dm, spt, computed: 'PartitionRegionCrisp', part):%s"
      "    al.partition(spt)\n" % (NEWC % 'part'),
      "def b(k, dm, spt, computed, part):\n    return 0\n", aspect=calls('pickle.dump', 'open', never=True),
      rule='nothing is written unless asked for')


@P.rule('solver: partition file', 'the trainer saves the partition where the solver looks for it')
def _(cx):
    fn = cx.find('spta.solver.train.SolverTrainer.train')
    outs = []
    K = dict(keep=('SplitTrainingAndTestLast', 'split', 'train_models_at_medoids',
                   'replicate_representative_models', 'calculate_errors', 'create_refitter',
                   '!train_models_at_medoids', '!replicate_representative_models',
                   '!calculate_errors', 'try_load_previous_partition', 'save_to_csv',
                   'load_distance_matrix_2d', '!try_load_previous_partition', '!save_to_csv'))
    ar = 'k, seed, mode, im, mi, tol, rm, mp, tp, et, dm, mtr'
    I = cx.interp(**K)
    r = I.client('def a(%s):\n    cm = KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode, '
                 'initial_medoids=im, max_iter=mi, tol=tol)\n'
                 '    SolverTrainer(rm, cm, dm, mtr, mp, tp, et).train()\n' % ar)
    J = cx.interp(keep=('try_load_previous_partition', '!try_load_previous_partition'))
    s = J.client(LOAD.replace('load_solver', 'load_partition'))
    cx.functions |= I.functions_seen | J.functions_seen

    def home(q):
        out = []
        for e in q.trace:
            if e.kind == 'mcall' and e.args[1] == 'try_load_previous_partition':
                kw = e.args[3]
                out.append(e.args[2][1] if len(e.args[2]) > 1 else
                           kw.get('pickle_home', const('pickle')))
        return only(out, 'partition lookup')
    return [cx.compare(a, b, cx.where(fn), I.functions_seen, 'directory of the partition')
            for a in home(r)[:1] for b in home(s)[:1]]


# ---------------------------------------------------------------- regions and data files
def saved(r):
    out = []
    for e in r.trace:
        if e.kind == 'call' and e.args[1] == 'np.save':
            out.append((e.args[2][0], e.args[2][1]))
    return only(out, 'region')


P.law('region saved', 'spta.region.temporal.SpatioTemporalRegion.save',
      'def a(d, rm):\n    SpatioTemporalRegion(d, region_metadata=rm).save()\n',
      'def b(d, rm):\n    if rm is None:\n        raise ValueError\n'
      '    np.save(rm.dataset_filename, d)\n',
      aspect=calls('np.save'), rule='the data goes to the file of the metadata')
P.law('region saved: needs metadata', 'spta.region.temporal.SpatioTemporalRegion.save',
      'def a(d):\n    SpatioTemporalRegion(d).save()\n', 'def b(d):\n    raise ValueError\n',
      strict='raises', rule='saving without metadata is rejected')
P.law('scaled region saved', 'spta.region.scaling.SpatioTemporalScaled.save',
      "def a(d, rm, lo: 'SpatialRegion', hi: 'SpatialRegion'):\n    SpatioTemporalScaled("
      "SpatioTemporalRegion(d), lo, hi, region_metadata=rm).save()\n",
      "def b(d, rm, lo: 'SpatialRegion', hi: 'SpatialRegion'):\n    if rm is None:\n"
      "        raise ValueError\n    np.save(rm.dataset_filename, d)\n"
      "    np.save(rm.scaled_min_filename, lo.numpy_dataset)\n"
      "    np.save(rm.scaled_max_filename, hi.numpy_dataset)\n",
      aspect=calls('np.save'), rule='data, minimum and maximum each go to their own file')
TB = 'spta.dataset.temp_brazil.'
P.law('dataset interval: saved and loaded', TB + 'save_dataset_interval',
      'def a(x, n, y0, y1, spd):\n    return save_dataset_interval(x, n, y0, y1, spd)\n',
      'def b(x, n, y0, y1, spd):\n    return try_load_dataset_interval(n, y0, y1, spd)[1]\n',
      rule='the file written is the file looked for')
P.law('dataset interval: saved as named', TB + 'save_dataset_interval',
      'def a(x, n, y0, y1, spd):\n    save_dataset_interval(x, n, y0, y1, spd)\n',
      'def b(x, n, y0, y1, spd):\n    np.save(try_load_dataset_interval(n, y0, y1, spd)[1], x)\n',
      aspect=calls('np.save'), rule='the data goes to the reported file')
identity('dataset interval', TB + 'save_dataset_interval',
         'def a(x, n, y0, y1, spd):\n    return save_dataset_interval(x, n, y0, y1, spd)\n', val,
         ('n', 'y0', 'y1', 'spd'))
P.law('dataset interval: file content', TB + 'try_load_dataset_interval',
      'def a(n, y0, y1, spd):\n    v = try_load_dataset_interval(n, y0, y1, spd)[0]\n'
      '    return v\n',
      'def b(n, y0, y1, spd):\n    f = try_load_dataset_interval(n, y0, y1, spd)[1]\n'
      '    return np.load(f)\n', aspect=lambda r, I: calls('np.load', pc=False)(r, I),
      rule='the file looked for is the file loaded')
P.law('region pickle', 'spta.region.temporal.SpatioTemporalRegion.pickle',
      'def a(d, rm, ph):\n    SpatioTemporalRegion(d, region_metadata=rm).pickle(ph)\n',
      "def b(d, rm, ph):\n    if rm is None:\n        raise ValueError\n"
      "    f = open(rm.pickle_filename(ph), 'wb')\n",
      aspect=calls('open'), rule='the pickle goes to the file of the metadata')
P.law('region from pickle', 'spta.region.base.BaseRegion.from_pickle',
      'def a(f):\n    return SpatioTemporalRegion.from_pickle(f)\n',
      "def b(f):\n    return pickle.load(open(f, 'rb'))\n", rule='the pickled object is returned')
for f in ('load_distance_matrix_md',):
    P.law('distance matrix: file', 'spta.distance.DistanceMeasure.' + f,
          'def a(rm):\n    DistanceByDTW().load_distance_matrix_md(rm)\n',
          'def b(rm):\n    np.load(rm.distances_filename)\n', aspect=calls('np.load', pc=False),
          keep=(), rule='distances are loaded from the file of the metadata')
P.obs.pop()
shared.solver_metadata(P)

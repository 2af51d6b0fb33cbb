'''C25: what is saved is what is loaded again.'''
from sa.prop import *     # noqa
from sa.terms import atom_bool  # noqa

P = Prop('C25',
         'Client programs that save and then load are evaluated on the value graph with a model of '
         'the file system (path term -> saved value); the loaded values are compared with the '
         'saved ones, whatever the files are called.',
         cfg={'name_types': {'md': 'SolverMetadata', 'part': 'PartitionRegionCrisp',
                             'rm': 'SpatioTemporalRegionMetadata', 'spt': 'SpatioTemporalRegion',
                             'dm': 'DistanceByDTW'}},
         assumptions=['writing and reading a file of the same name does not fail',
                      'pickle and numpy restore the value they were given'])


# ---------------------------------------------------------------- a model of the file system
def disk_of(I):
    if not hasattr(I, 'disk'):
        I.disk, I.dirs = [], []
    return I.disk


def opened(f):
    '''(path, mode) of an open file'''
    if f.op == 'call' and f.args[0] == 'open' and f.args[1]:
        kw = dict(f.args[2]) if len(f.args) > 2 else {}
        m = f.args[1][1] if len(f.args[1]) > 1 else kw.get('mode')
        return canon(f.args[1][0]), m.args[0] if m is not None and m.op == 'str' else 'r' \
            if m is None else None
    return None, None


def parts_of(path):
    return tuple(path.args[0]) if path.op == 'fmt' else (path,)


def inside(path, d):
    '''path names a file directly in the directory d'''
    if d.op == 'call' and d.args[0] == 'os.path.dirname':
        return d.args[1][0] is path
    a, b = parts_of(path), parts_of(d)

    def text(xs):
        return ''.join(x.args[0] if x.op == 'str' else '\0%d\0' % id(x) for x in xs)
    p, q = text(a), text(b)
    return p.startswith(q + '/') and '/' not in p[len(q) + 1:]


def put(I, path, v, pc=TRUE):
    disk = disk_of(I)
    if getattr(I, 'need_dirs', True) and not any(inside(path, x) for d in I.dirs
                                                 for _, x in cases(d)):
        v = mk('call', 'unsaved', (mk('str', 'directory not created'),), ())
    disk.append((path, v, T.b_and(pc, I.st.pc)))


def get(I, path):
    v = mk('call', 'unsaved', (path,) + tuple(p for p, _, _ in disk_of(I)), ())
    for p, w, pc in I.disk:
        if p is path:
            v = T.ite(pc, w, v)
    return v


def npy(path):
    last = parts_of(path)[-1]
    if last.op == 'str' and not last.args[0].endswith('.npy'):
        return T.concat_str(list(parts_of(path)) + [mk('str', '.npy')])
    return path


def cases(t, pc=TRUE):
    '''(condition, leaf) of a value that depends on decisions'''
    if t.op == 'ite':
        return cases(t.args[1], T.b_and(pc, atom_bool(t.args[0]))) + \
            cases(t.args[2], T.b_and(pc, T.b_not(atom_bool(t.args[0]))))
    return [(pc, t)]


def h_dump(I, recv, args, kw, e):
    f = I.reify(I.rv(args[1] if len(args) > 1 else kw['file']))
    if any(opened(x)[0] is None for _, x in cases(f)):
        return None
    for pc, x in cases(f):
        path, mode = opened(x)
        v = I.reify(I.rv(args[0]))
        if mode is None or 'b' not in mode or 'w' not in mode:
            v = mk('call', 'unsaved', (mk('str', 'opened with %s' % mode),), ())
        put(I, path, v, pc)
    return NONE


def h_load(I, recv, args, kw, e):
    f = I.reify(I.rv(args[0]))
    if any(opened(x)[0] is None for _, x in cases(f)):
        return None
    if not disk_of(I):          # nothing was saved
        I.add_exit(I.st.pc, 'raise', mk('raise', 'FileNotFoundError'), I.st.heap)
        I.st.pc = FALSE
        return NONE

    def one(x):
        path, mode = opened(x)
        if mode not in ('rb', 'r+b', 'rb+'):
            return mk('call', 'unsaved', (mk('str', 'opened with %s' % mode),), ())
        return get(I, path)
    return T.map_leaves(f, one)


def h_npsave(I, recv, args, kw, e):
    a = dict(zip(('file', 'arr'), args))
    a.update(kw)
    if set(a) - {'allow_pickle', 'fix_imports'} != {'file', 'arr'}:
        return None
    I.need_dirs = False
    for pc, x in cases(canon(I.reify(I.rv(a['file'])))):
        put(I, npy(x), I.reify(I.rv(a['arr'])), pc)
    del I.need_dirs
    return NONE


def h_npload(I, recv, args, kw, e):
    return T.map_leaves(canon(I.reify(I.rv(args[0] if args else kw['file']))), lambda x: get(I, x))


def h_exists(I, recv, args, kw, e):
    p = canon(I.reify(I.rv(args[0])))
    hit = {}
    for q, _, pc in disk_of(I):
        hit[q] = T.b_or(hit.get(q, FALSE), pc)
    if all(T.b_and(c, T.b_not(hit.get(x, FALSE))) is FALSE for c, x in cases(p)):
        return TRUE
    return None


def h_mkdir(I, recv, args, kw, e):
    disk_of(I)
    I.dirs.append(canon(I.reify(I.rv(args[0] if args else kw['name']))))
    return None


HOOKS = {'pickle.dump': h_dump, 'pickle.load': h_load, 'np.save': h_npsave, 'np.load': h_npload,
         'os.path.exists': h_exists, 'os.path.isfile': h_exists, 'os.makedirs': h_mkdir,
         'os.mkdir': h_mkdir}


def read(r, I):
    '''the returned value when no file operation fails'''
    fails = {u: False for u in T.subterms(r.value) if u.op == 'exc'}
    return canon(T.restrict_deep(r.value, list(fails.items())))


def law(name, at, actual, expected, rule, **kw):
    P.law(name, at, actual, expected, aspect=kw.pop('aspect', read), hooks=HOOKS, rule=rule, **kw)


# ---------------------------------------------------------------- solver
SV = 'spta.solver.model.'
PARAMS = 'rm, mp, tp, et, cm: "KmedoidsClusteringMetadata", dm, part, tr: "ModelRegion", wh: "ModelRegion", ge: "ErrorRegion"'
MAKE = '''
    md = SolverMetadataBuilder(rm, mp, tp, et).with_clustering(cm, dm).build()
    s = SolverWithMedoids(md, part, tr, wh, ge)
'''
AGAIN = ('SolverPickler(SolverMetadataBuilder(rm, mp, tp, et).with_clustering(cm, dm).build())'
         '.load_solver()')
for how, save, load in (('by itself', 's.save()', 'SolverPickler(md).load_solver()'),
                        ('by the pickler', 'SolverPickler(md).save_solver(s)', AGAIN)):
    for attr, want in (('model_region_training', 'tr'), ('model_region_whole', 'wh'),
                       ('generalization_errors', 'ge'), ('region_metadata', 'rm'),
                       ('clustering_metadata', 'cm'), ('distance_measure', 'dm'),
                       ('model_params', 'mp'), ('test_len', 'tp'), ('error_type', 'et'),
                       ('prepared', 'False')):
        law('solver saved %s: %s' % (how, attr),
            (SV + 'SolverPickler.save_solver', SV + 'SolverPickler.load_solver'),
            'def a(%s):%s    %s\n    return %s.%s\n' % (PARAMS, MAKE, save, load, attr),
            'def b(%s):\n    return %s\n' % (PARAMS, want),
            keep=('load_partition', '!load_partition'),
            rule='the loaded solver has what the saved one had')
law('solver saved: partition', SV + 'SolverPickler.load_solver',
    'def a(%s):%s    s.save()\n    return SolverPickler(md).load_solver().partition\n'
    % (PARAMS, MAKE),
    'def b(%s):%s    return SolverPickler(md).load_partition()\n' % (PARAMS, MAKE),
    keep=('load_partition', '!load_partition'), rule='the partition of the loaded solver is the '
    'saved one')

# ---------------------------------------------------------------- partition
CL = 'spta.clustering.'
PKEEP = tuple(x + n for n in ('partition_impl', 'try_load_distance_matrix', 'create_instance') for x in ('', '!'))
KINDS = (('kmedoids', 'KmedoidsClusteringMetadata'), ('regular', 'RegularClusteringMetadata'))
for kind, md in KINDS:
    MD = {'kmedoids': 'KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode)',
          'regular': 'RegularClusteringMetadata(k)'}[kind]
    ALG = '    cm = %s\n    alg = ClusteringFactory(dm).instance(cm)\n' % MD
    A = 'rm, k, seed, mode, dm, part, spt, ph, out, mp, tp, et'
    law('partition saved (%s)' % kind, (CL + 'ClusteringAlgorithm.save_partition',
                                        CL + 'ClusteringAlgorithm.load_previous_partition'),
        'def a(%s):\n%s    alg.save_partition(part, rm, ph)\n'
        '    return alg.load_previous_partition(rm, ph)\n' % (A, ALG),
        'def b(%s):\n    return part\n' % A, rule='the loaded partition is the saved one')
    law('partition found (%s)' % kind, CL + 'ClusteringAlgorithm.try_load_previous_partition',
        'def a(%s):\n%s    alg.save_partition(part, rm, ph)\n'
        '    return ClusteringFactory(dm).instance(cm).try_load_previous_partition(rm, ph)\n'
        % (A, ALG),
        'def b(%s):\n    return part\n' % A, rule='a saved partition is found')
    law('partition at the default place (%s)' % kind,
        CL + 'ClusteringAlgorithm.try_load_previous_partition',
        'def a(%s):\n%s    alg.save_partition(part, rm)\n'
        '    return alg.try_load_previous_partition(rm)\n' % (A, ALG),
        'def b(%s):\n    return part\n' % A, rule='a saved partition is found')
    for wm in ('True', 'False'):
        law('partition computed once (%s, medoids %s)' % (kind, wm),
            CL + 'ClusteringAlgorithm.partition',
            'def a(%s):\n%s    spt.region_metadata = rm\n'
            '    x = alg.partition(spt, with_medoids=%s, pickle_home=ph)\n'
            '    return alg.try_load_previous_partition(rm, ph)\n' % (A, ALG, wm),
            'def b(%s):\n%s    if ph is None or rm is None:\n        raise ValueError\n'
            '    return alg.partition_impl(spt, %s)\n' % (A, ALG, wm),
            keep=PKEEP, ret_types={'partition_impl': 'PartitionRegionCrisp'},
            rule='a partition that is asked for with a place to keep it is found there afterwards')
    law('saved partition is used (%s)' % kind, CL + 'ClusteringAlgorithm.partition',
        'def a(%s):\n%s    alg.save_partition(part, rm, ph)\n    spt.region_metadata = rm\n'
        '    return alg.partition(spt, with_medoids=True, pickle_home=ph)\n' % (A, ALG),
        'def b(%s):\n    if ph is None or rm is None or part is None:\n        raise ValueError\n'
        '    return part\n' % A,
        keep=PKEEP,
        rule='a partition that was saved for the same parameters is not computed again')
    law('partition of a saved solver (%s)' % kind, SV + 'SolverPickler.load_partition',
        'def a(%s):\n%s    md = SolverMetadataBuilder(rm, mp, tp, et).with_clustering(cm, dm).build()\n'
        "    alg.save_partition(part, rm, 'pickle')\n"
        '    return SolverPickler(md).load_partition()\n' % (A, ALG),
        'def b(%s):\n    if part is None:\n        raise ValueError\n    return part\n' % A,
        keep=PKEEP, rule='the solver finds the partition of its training')

    law('partition of a solver is computed again (%s)' % kind, SV + 'SolverPickler.load_partition',
        'def a(%s):\n%s    md = SolverMetadataBuilder(rm, mp, tp, et).with_clustering(cm, dm).build()\n'
        '    return SolverPickler(md).load_partition()\n' % (A, ALG),
        'def b(%s):\n%s    if rm is None or rm.create_instance().region_metadata is None:\n'
        '        raise ValueError\n'
        '    return alg.partition_impl(rm.create_instance(), True)\n' % (A, ALG),
        keep=PKEEP, rule='a partition that cannot be found is computed with its medoids')

# ---------------------------------------------------------------- regions and datasets
law('partition file', 'spta.region.partition.PartitionRegion.to_pickle',
    'def a(part, f):\n    part.to_pickle(f)\n    return PartitionRegion.try_from_pickle(f)\n',
    'def b(part, f):\n    return part\n', rule='the loaded partition is the saved one')
law('region file', 'spta.region.base.BaseRegion.from_pickle',
    'def a(spt, rm, ph):\n    spt.region_metadata = rm\n    spt.pickle(ph)\n'
    '    return SpatioTemporalRegion.from_pickle(rm.pickle_filename(ph))\n',
    'def b(spt, rm, ph):\n    if rm is None:\n        raise ValueError\n    return spt\n',
    rule='the loaded region is the saved one')
law('dataset interval', ('spta.dataset.temp_brazil.save_dataset_interval',
                         'spta.dataset.temp_brazil.try_load_dataset_interval'),
    'def a(x, n, y0, y1, spd):\n    save_dataset_interval(x, n, y0, y1, spd)\n'
    '    return try_load_dataset_interval(n, y0, y1, spd)[0]\n',
    'def b(x, n, y0, y1, spd):\n    return x\n', rule='a saved interval is found as it was saved')


def altered(r, I):
    '''what is assigned to attributes of objects while saving and loading'''
    evs = []
    for e in r.trace:
        if e.kind == 'setattr':
            evs.append(mk('tuple', '', (I.reify(e.extra[0], r.heap), mk('str', str(e.extra[1])),
                                        I.reify(e.extra[2], r.heap))))
    return canon(mk('tuple', '', tuple(evs)))


law('partition file: content', 'spta.region.partition.PartitionRegion.try_from_pickle',
    'def a(part, f):\n    part.to_pickle(f)\n    return PartitionRegion.try_from_pickle(f)\n',
    'def b(part, f):\n    part.to_pickle(f)\n    return part\n', aspect=altered,
    rule='nothing of the loaded partition is replaced')
law('region file: content', 'spta.region.base.BaseRegion.from_pickle',
    'def a(spt, rm, ph):\n    spt.pickle(ph)\n'
    '    return SpatioTemporalRegion.from_pickle(rm.pickle_filename(ph))\n',
    'def b(spt, rm, ph):\n    spt.pickle(ph)\n    return spt\n', aspect=altered,
    rule='nothing of the loaded region is replaced')
law('scaled region file', 'spta.region.scaling.SpatioTemporalScaled.save',
    'def a(d, lo: "SpatialRegion", hi: "SpatialRegion", rm):\n'
    '    SpatioTemporalScaled(SpatioTemporalRegion(d, rm), lo, hi, region_metadata=rm).save()\n'
    '    return (np.load(rm.dataset_filename), np.load(rm.scaled_min_filename), np.load(rm.scaled_max_filename))\n',
    'def b(d, lo: "SpatialRegion", hi: "SpatialRegion", rm):\n    if rm is None:\n        raise ValueError\n'
    '    return (d, lo.numpy_dataset, hi.numpy_dataset)\n',
    rule='the scaled data and its extremes are saved each in its own file')


@P.rule('saved objects can be written',
        'the attributes of the classes that are saved hold no functions, generators or open files '
        'made on the spot, and these classes are not made inside functions')
def _(cx):
    import ast
    outs = []
    bases = [cx.prog.classes[q] for q in ('spta.region.base.BaseRegion',
                                          'spta.region.metadata.SpatioTemporalRegionMetadata')
             if q in cx.prog.classes]
    if len(bases) < 2:
        raise Skip('the saved classes are not where they were')
    todo = []
    for b in bases:
        todo += [c for c in [b] + list(cx.prog.subclasses(b)) if c not in todo]
    for f in cx.prog.all_functions():
        if f.cls not in todo or f.parent is not None and f.cls.node not in f.module.tree.body:
            continue
        local = {n.name for n in ast.walk(f.node) if n is not f.node and
                 isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        for st in ast.walk(f.node):
            if not isinstance(st, (ast.Assign, ast.AnnAssign)):
                continue
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            if not any(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and
                       f.node.args.args and t.value.id == f.node.args.args[0].arg for t in ts):
                continue
            cx.sites += 1
            v = st.value
            bad = isinstance(v, (ast.Lambda, ast.GeneratorExp)) or \
                isinstance(v, ast.Name) and v.id in local or \
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id in local | {'open', 'iter', 'map', 'filter', 'zip'} and \
                v.func.id in local | {'open'}
            if bad:
                outs.append(Outcome(VIOLATION, 'an attribute of a saved object is something that '
                                    'cannot be written to a file', '%s:%d %s' % (
                                        f.module.path, st.lineno, f.qual), functions={f.qual}))
    return outs or [Outcome(OK)]

# ---------------------------------------------------------------- distances of an analysis
P.law('distances saved by the silhouette analysis',
      'spta.kmedoids.silhouette.KmedoidsWithSilhouette.calculate_distance_matrix', '''
def a(md: 'SpatioTemporalRegionMetadata', sm):
    spta.kmedoids.silhouette.KmedoidsWithSilhouette(md, sm).calculate_distance_matrix()
''', '''
def b(md: 'SpatioTemporalRegionMetadata', sm):
    d = sm.distance_measure.compute_distance_matrix(SpatioTemporalRegion(np.load(md.dataset_filename)))
    np.save(md.distances_filename, d)
''', aspect=calls('np.save'), keep=('compute_distance_matrix',),
      rule='the distances between the saved series are stored as the distances of the region')

'''C16: distances between series.'''
from sa.prop import *     # noqa
from props import shared

P = Prop('C16', 'Value-graph evaluation of distance measures, distance matrices and their '
         'extracts, element by element.',
         cfg={'ndims': {'X': 2, 'D': 2, 'first_series': 1, 'second_series': 1, 'pts': 1, 'd': 3},
              'ints': ('pts',), 'scalars': ('i', 'j', 'num')})
B = 'spta.distance.DistanceBetweenSeries.'
D = 'spta.distance.dtw.DistanceByDTW.'
S = 'spta.distance.dtw.DistanceBySpatialDTW.'
R = 'spta.distance.rmse.DistanceByRMSE.'

# ------------------------------------------------------------------ measures
for q, cls, value in (
        (D, 'DistanceByDTW', 'dtw(x, y)'),
        (R, 'DistanceByRMSE', 'np.sqrt(np.mean(np.square(np.subtract(x, y))))')):
    P.law('distance between two series: ' + cls, q + 'measure', '''
def a(self: %s, x, y):
    return self.measure(x, y)
''' % cls, '''
def b(self: %s, x, y):
    from tslearn.metrics import dtw
    if np.isnan(x).any() or np.isnan(y).any():
        return np.nan
    return %s
''' % (cls, value))
P.same(D + 'combine', '''
def combine(self, distances_for_point):
    return np.sum(distances_for_point)
''')
P.law('combined root mean squared error', R + 'combine', '''
def a(self: DistanceByRMSE, x):
    return self.combine(x)
''', '''
def b(self: DistanceByRMSE, x):
    return np.nanmean(np.array(x) ** 2) ** 0.5
''')

# ------------------------------------------------------------------ matrices
P.law('matrix of a list of series', D + 'compute_distance_matrix_series_array', '''
def a(X, i, j):
    from spta.distance.dtw import DistanceByDTW
    return DistanceByDTW().compute_distance_matrix(X)[i, j]
''', '''
def b(X, i, j):
    from spta.distance.dtw import DistanceByDTW
    return DistanceByDTW().measure(X[i], X[j])
''', keep=('!measure',))
P.law('matrix of a region', D + 'compute_distance_matrix_sptr', '''
def a(d, i, j):
    from spta.distance.dtw import DistanceByDTW
    from spta.region.temporal import SpatioTemporalRegion
    return DistanceByDTW().compute_distance_matrix(SpatioTemporalRegion(d))[i, j]
''', '''
def b(d, i, j):
    from spta.distance.dtw import DistanceByDTW
    n, x, y = d.shape
    return DistanceByDTW().measure(d[:, i // y, i % y], d[:, j // y, j % y])
''', keep=('!measure',))
P.law('matrix in shared computation: extents', D + 'compute_distance_matrix', '''
def a(d):
    from spta.distance.dtw import DistanceByDTW
    from spta.region.temporal import SpatioTemporalRegion
    return DistanceByDTW().compute_distance_matrix(SpatioTemporalRegion(d)).shape
''', '''
def b(d):
    n, x, y = d.shape
    return (x * y, x * y)
''', keep=('!measure',))
for aspect in ('value', 'attr:distance_matrix'):
    P.same(D + 'compute_distance_matrix', '''
def compute_distance_matrix(self, temporal_data):
    if temporal_data.ndim == 2:
        self.distance_matrix = self.compute_distance_matrix_series_array(temporal_data)
    elif temporal_data.ndim == 3:
        self.distance_matrix = self.compute_distance_matrix_sptr(temporal_data)
    else:
        raise ValueError()
    return self.distance_matrix
''', aspect=aspect, strict='raises', keep=(
        'compute_distance_matrix_series_array', 'compute_distance_matrix_sptr'))

# ------------------------------------------------------------------ saved matrices
for aspect in ('value', 'attr:distance_matrix'):
    P.same(B + 'load_distance_matrix_2d', '''
def load_distance_matrix_2d(self, filename, expected_region):
    try:
        m = np.load(filename)
    except IOError:
        return None
    i, j = m.shape
    n = (expected_region.x2 - expected_region.x1) * (expected_region.y2 - expected_region.y1)
    if i != n or j != n:
        raise ValueError()
    self.distance_matrix = m
    return self.distance_matrix
''', aspect=aspect, strict='raises')
P.same(B + 'load_distance_matrix_md', '''
def load_distance_matrix_md(self, sptr_metadata):
    return self.load_distance_matrix_2d(sptr_metadata.distances_filename, sptr_metadata.region)
''', keep=('load_distance_matrix_2d',))
P.same(B + 'try_load_distance_matrix', '''
def try_load_distance_matrix(self, spt_region):
    if spt_region.region_metadata is None:
        return None
    return self.load_distance_matrix_md(spt_region.region_metadata)
''', keep=('load_distance_matrix_md',))
P.law('distances to a point: without the matrix', B + 'distances_to_point', '''
def a(self: DistanceBetweenSeries, region, point, ids, pre):
    return self.distances_to_point(region, point, ids, False, pre)
''', '''
def b(self: DistanceBetweenSeries, region, point, ids, pre):
    raise NotImplementedError()
''', strict='raises')
P.law('distances to a point: matrix at hand', B + 'distances_to_point', '''
def a(self: DistanceBetweenSeries, region, point, ids, pre):
    if self.distance_matrix is None:
        return None
    return self.distances_to_point(region, point, ids, True, pre)
''', '''
def b(self: DistanceBetweenSeries, region, point, ids, pre):
    if self.distance_matrix is None:
        return None
    n, x, y = region.shape
    return self.distance_matrix[point.x * y + point.y, ids]
''')
P.law('distances to a point: no saved matrix', B + 'distances_to_point', '''
def a(region, point, ids):
    from spta.distance.dtw import DistanceByDTW
    d = DistanceByDTW()
    return d.distances_to_point(region, point, ids)
''', '''
def b(region, point, ids):
    from spta.distance.dtw import DistanceByDTW
    d = DistanceByDTW()
    try:
        m = d.load_distance_matrix_md(region.region_metadata)
    except Exception:
        raise ValueError()
    if m is None:
        raise ValueError()
    return m[point.x * region.shape[2] + point.y, ids]
''', strict='raises')
P.law('distances to a point: matrix computed when there is no saved one', B + 'distances_to_point', '''
def a(region, point, ids):
    from spta.distance.dtw import DistanceByDTW
    d = DistanceByDTW()
    return d.distances_to_point(region, point, ids, only_if_precalculated=False)
''', '''
def b(region, point, ids):
    from spta.distance.dtw import DistanceByDTW
    d = DistanceByDTW()
    try:
        if d.load_distance_matrix_md(region.region_metadata) is None:
            raise ValueError()
    except Exception:
        d.compute_distance_matrix(region)
    return d.distance_matrix[point.x * region.shape[2] + point.y, ids]
''', keep=('compute_distance_matrix_sptr', 'compute_distance_matrix_series_array'), strict=False)
P.law('matrix stays the one computed', D + 'compute_distance_matrix', '''
def a(d):
    from spta.distance.dtw import DistanceByDTW
    from spta.region.temporal import SpatioTemporalRegion
    m = DistanceByDTW()
    return m.compute_distance_matrix(SpatioTemporalRegion(d)) is m.distance_matrix
''', 'def b(d):\n    return True\n')

# ------------------------------------------------------------------ weighted by space
def at(name):
    return T.mk('attr', T.mk('sym', 'region'), name)


POINTS = T.mul(T.sub(at('x2'), at('x1')), T.sub(at('y2'), at('y1')))
P.law('weighted matrix', S + 'weight_distance_matrix', '''
def a(D, region, w, i, j):
    from spta.distance.dtw import DistanceBySpatialDTW
    m = DistanceBySpatialDTW(w)
    m.distance_matrix = D
    return m.weight_distance_matrix(region)[i, j]
''', '''
def b(D, region, w, i, j):
    n = region.y2 - region.y1
    return D[i, j] + np.sqrt((j // n - i // n) ** 2 + (j % n - i % n) ** 2) * w
''', scalars=('w', 'i', 'j'), ndims={'D': (POINTS, POINTS)})
P.law('weighted once', S + 'weight_distance_matrix', '''
def a(D, region, w):
    from spta.distance.dtw import DistanceBySpatialDTW
    m = DistanceBySpatialDTW(w)
    m.distance_matrix = D
    m.weighted = True
    return m.weight_distance_matrix(region)
''', '''
def b(D, region, w):
    return D
''')
P.law('nothing to weight', S + 'weight_distance_matrix', '''
def a(region, w):
    from spta.distance.dtw import DistanceBySpatialDTW
    return DistanceBySpatialDTW(w).weight_distance_matrix(region)
''', '''
def b(region, w):
    raise ValueError()
''', strict='raises')
P.law('computed matrix is not weighted yet', S + 'compute_distance_matrix', '''
def a(region, w, was):
    from spta.distance.dtw import DistanceBySpatialDTW
    m = DistanceBySpatialDTW(w)
    m.weighted = was
    return m.compute_distance_matrix(region), m.distance_matrix, m.weighted
''', '''
def b(region, w, was):
    from spta.distance.dtw import DistanceByDTW
    m = DistanceByDTW()
    return m.compute_distance_matrix(region), m.distance_matrix, False
''', strict='raises')
P.law('loaded matrix is weighted', S + 'load_distance_matrix_2d', '''
def a(name, region, w, was):
    from spta.distance.dtw import DistanceBySpatialDTW
    m = DistanceBySpatialDTW(w)
    m.weighted = was
    return m.load_distance_matrix_2d(name, region)
''', '''
def b(name, region, w, was):
    from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
    m = DistanceBySpatialDTW(w)
    m.distance_matrix = DistanceByDTW().load_distance_matrix_2d(name, region)
    return m.weight_distance_matrix(region)
''', strict='raises')

# ------------------------------------------------------------------ several processes
U = 'spta.util.parallel.'


@P.rule('parallel: every pair of points is computed',
        'the workers receive every pair index with the task, and see the data, the extents and '
        'the output of the operation')
def handover(cx):
    f = cx.find(U + 'InterPointsOperation.operate')
    I = cx.interp(ndims={'d': 3})
    r = I.client('def a(d, t, n):\n    from spta.util import parallel as p\n'
                 '    from spta.region.temporal import SpatioTemporalRegion\n'
                 '    o = p.InterPointsOperation(n, SpatioTemporalRegion(d))\n'
                 '    return o, o.operate(t)\n')
    cx.functions |= I.functions_seen
    pools = [e for e in r.trace if e.kind == 'call' and e.args[1].endswith('.Pool')]
    maps = [e for e in r.trace if e.kind == 'mcall' and e.args[1] == 'map']
    if len(pools) == 1 and not any(e.kind == 'mcall' and e.args[0] is not None and
                                   T.occurs(e.args[0], pools[0].term) and
                                   e.args[1] not in ('__enter__', '__exit__', 'close', 'join')
                                   for e in r.trace):
        return Outcome(VIOLATION, 'no work is given to the pool', cx.where(f),
                       functions=I.functions_seen)
    if len(pools) != 1 or len(maps) != 1 or len(maps[0].args[2]) < 2:
        raise Skip('no single pool with a single map')
    out = []
    n, x, y = [T.index(T.mk('attr', T.mk('sym', 'd'), 'shape'), T.const(i)) for i in range(3)]
    items = I.reify(maps[0].args[2][1], r.heap)
    k, el, cond = I.domain(items)
    total = T.power(T.mul(x, y), T.const(2))
    i = T.mk('sym', 'i')
    out.append(cx.compare(canon(T.tup(k, el(i))), canon(T.tup(total, T.tup(i, T.mk('sym', 't')))),
                          cx.where(f), I.functions_seen, 'work of the pool'))
    kw = {k: I.reify(v, r.heap) for k, v in pools[0].args[3].items()}
    init, ia = kw.get('initializer'), kw.get('initargs')
    if (init is None or ia is None) and not any(k.startswith('*') for k in kw) and \
            len(pools[0].args[2]) < 2:
        return Outcome(VIOLATION, 'the workers are not given the shared arrays', cx.where(f),
                       functions=I.functions_seen)
    if init is None or ia is None or init.op != 'func' or ia.op != 'tuple':
        raise Skip('initialisation of the pool')
    g = cx.find(init.args[0])
    J = cx.interp()
    ps = [a.arg for a in g.node.args.args]
    s = J.run(g, dict(zip(ps, ia.args[1])))
    cx.functions |= J.functions_seen
    got = {}
    for e in s.trace:
        if e.kind == 'store':
            got[T.show(e.extra[1])] = J.reify(e.extra[2], s.heap)
    want = {"'series_len_shared'": n, "'x_len_shared'": x, "'y_len_shared'": y}
    for name, v in sorted(want.items()):
        if name not in got or got[name].op != 'call' or len(got[name].args[1]) != 2:
            raise Skip('shared %s' % name)
        out.append(cx.compare(got[name].args[1][1], v, cx.where(f), I.functions_seen,
                              'extent given to the workers'))
    # the array the data is copied to and the array that is returned are those the workers get
    K = cx.interp(ndims={'d': 3})
    ref = K.client('''def b(d):
    import ctypes
    import multiprocessing as mp
    n, x, y = d.shape
    source = np.frombuffer(mp.RawArray('d', n * x * y)).reshape((n, x, y))
    out = mp.Array(ctypes.c_double, x * y * x * y)
    return source, np.frombuffer(out.get_obj()).reshape((x * y, x * y)), out
''').value.args[1]
    src = [e.extra[0] for e in r.trace if e.kind == 'store' and
           I.reify(e.extra[2], r.heap) is T.mk('sym', 'd')]
    res = r.value.args[1][1] if r.value.op == 'tuple' else None
    a, b = got.get("'sptr_1d_shared'"), got.get("'output_1d_shared'")
    if a is None or b is None or res is None:
        raise Skip('shared arrays')
    if not src:
        if any(T.occurs(e.term, a) for e in r.trace if e.kind in ('call', 'mcall', 'mutate') and
               not e.args[1].endswith((
                   'frombuffer', 'reshape', 'Pool', 'RawArray', 'map', '__enter__', '__exit__'))):
            raise Skip('shared input')
        out.append(Outcome(VIOLATION, 'the data is not given to the workers', cx.where(f),
                           functions=I.functions_seen))
    for t in src:
        out.append(cx.compare(canon(T.tup(t, a)), canon(T.tup(
            ref[0], ref[0].args[1][0].args[1][0])), cx.where(f), I.functions_seen,
            'the data of the workers'))
    if res.op == 'call' and res.args[0] == 'np.full_like':
        res = res.args[1][0]
    out.append(cx.compare(canon(T.tup(res, b)), canon(T.tup(ref[1], ref[2])), cx.where(f),
                          I.functions_seen, 'the output of the workers'))
    return out


P.law('parallel: the result of a pair goes to its place', U + 'inter_points_task_wrapper', '''
def a(t, k):
    from spta.util import parallel as p
    p.inter_points_task_wrapper((k, t))
''', '''
def b(t, k):
    from spta.util import parallel as p
    from spta.region.temporal import SpatioTemporalRegion
    g = p.global_var_dict
    n, x, y = [g[name].value for name in ('series_len_shared', 'x_len_shared', 'y_len_shared')]
    data = np.frombuffer(g['sptr_1d_shared']).reshape((n, x, y))
    v = t(SpatioTemporalRegion(data), k // (x * y), k % (x * y))
    out = np.frombuffer(g['output_1d_shared'].get_obj()).reshape((x * y, x * y))
    out[k // (x * y), k % (x * y)] = v
''', aspect=stores)
PD = 'spta.distance.dtw_parallel.'
for name, cond, value in (('two different points', 'j >= i', 'DistanceByDTW().measure(f, g)'),
                          ('a point to itself', 'i != j', '0')):
    P.law('parallel: distance of ' + name, PD + 'dtw_i_j', '''
def a(d, i, j):
    from spta.distance.dtw_parallel import dtw_i_j
    from spta.region.temporal import SpatioTemporalRegion
    r = SpatioTemporalRegion(d)
    return dtw_i_j(r, i, j) + dtw_i_j(r, j, i)
''', '''
def b(d, i, j):
    from spta.distance.dtw import DistanceByDTW
    if %s:
        raise ValueError()
    n, x, y = d.shape
    f, g = d[:, i // y, i %% y], d[:, j // y, j %% y]
    return %s
''' % (cond, value))
P.law('parallel: matrix of a region', PD + 'DistanceByDTWParallel.compute_distance_matrix_sptr', '''
def a(region, num):
    from spta.distance.dtw_parallel import DistanceByDTWParallel
    return DistanceByDTWParallel(num).compute_distance_matrix_sptr(region)
''', '''
def b(region, num):
    from spta.util.parallel import InterPointsOperation
    from spta.distance.dtw_parallel import dtw_i_j
    half = InterPointsOperation(num, region).operate(dtw_i_j)
    return half + np.transpose(half)
''', keep=('!operate',))

# ------------------------------------------------------------------ centroid
P.law('centroid', 'spta.region.centroid.CalculateCentroid.find_centroid_and_distances', '''
def a(d, m, use):
    from spta.region.centroid import CalculateCentroid
    from spta.region.temporal import SpatioTemporalRegion
    return CalculateCentroid(m, use).find_centroid_and_distances(SpatioTemporalRegion(d))
''', '''
def b(d, m, use):
    from spta.region.temporal import SpatioTemporalRegion
    region = SpatioTemporalRegion(d)
    ids = region.all_point_indices
    least, centroid, distances = np.inf, None, np.inf
    for i in range(d.shape[1]):
        for j in range(d.shape[2]):
            ds = m.distances_to_point(region, Point(i, j), ids, use)
            if np.sum(ds) < least:
                least, centroid, distances = np.sum(ds), Point(i, j), ds
    return centroid, distances
''')
P.law('centroid: of stored metadata', 'spta.region.centroid.CalculateCentroid.for_sptr_metadata', '''
def a(md, m):
    from spta.region.centroid import CalculateCentroid
    return CalculateCentroid.for_sptr_metadata(md, m)
''', '''
def b(md, m):
    from spta.region.centroid import CalculateCentroid
    return CalculateCentroid(m, True).find_centroid_and_distances(md.create_instance())[0]
''', keep=('!find_centroid_and_distances',), strict=False)
P.law('defaults', 'spta.region.centroid.CalculateCentroid.__init__', '''
def a(m):
    from spta.region.centroid import CalculateCentroid
    return CalculateCentroid(m).use_distance_matrix
''', 'def b(m):\n    return True\n')
P.law('default distance of centroids', 'spta.region.centroid.CalculateCentroid.for_sptr_metadata', '''
def a(md):
    from spta.region.centroid import CalculateCentroid
    return CalculateCentroid.for_sptr_metadata(md)
''', '''
def b(md):
    from spta.region.centroid import CalculateCentroid
    from spta.distance.dtw import DistanceByDTW
    return CalculateCentroid(DistanceByDTW()).find_centroid_and_distances(md.create_instance())[0]
''', keep=('!find_centroid_and_distances',), strict=False)
P.law('fresh distances have no matrix', B + '__init__', '''
def a(w, num):
    from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
    from spta.distance.rmse import DistanceByRMSE
    from spta.distance.dtw_parallel import DistanceByDTWParallel
    return [m.distance_matrix for m in (DistanceByDTW(), DistanceBySpatialDTW(w),
                                        DistanceByRMSE(), DistanceByDTWParallel(num))]
''', 'def b(w, num):\n    return [None, None, None, None]\n')
P.law('use of the saved matrix by default', B + 'distances_to_point', '''
def a(self: DistanceBetweenSeries, region, point, ids):
    return self.distances_to_point(region, point, ids)
''', '''
def b(self: DistanceBetweenSeries, region, point, ids):
    return self.distances_to_point(region, point, ids, True, True)
''', strict='raises')
P.law('weighted twice', S + 'weight_distance_matrix', '''
def a(D, region, w):
    from spta.distance.dtw import DistanceBySpatialDTW
    m = DistanceBySpatialDTW(w)
    m.distance_matrix = D
    m.weight_distance_matrix(region)
    return m.weighted, m.distance_matrix is m.weight_distance_matrix(region)
''', '''
def b(D, region, w):
    return True, True
''', strict=False, scalars=('w', 'i', 'j'), ndims={'D': (POINTS, POINTS)})

# ------------------------------------------------------------------ when matrices are obtained
P.law('a matrix at hand is neither loaded nor computed again', B + 'distances_to_point', '''
def a(self: DistanceBetweenSeries, region, point, ids, pre):
    return self.distances_to_point(region, point, ids, True, pre)
''', '''
def b(self: DistanceBetweenSeries, region, point, ids, pre):
    if self.distance_matrix is None:
        try:
            if self.load_distance_matrix_md(region.region_metadata) is None:
                raise ValueError()
        except Exception:
            if pre:
                raise ValueError()
            self.compute_distance_matrix(region)
    return self.distances_to_point_with_matrix(region, point, ids)
''', aspect=calls('load_distance_matrix_md', 'compute_distance_matrix'),
      keep=('load_distance_matrix_md', 'compute_distance_matrix', 'distances_to_point_with_matrix'),
      rule='loaded only when absent; computed only when allowed and nothing is saved', strict='raises')
P.same(B + 'distances_to_point', '''
def distances_to_point(self, region, point, ids, use=True, pre=True):
    if not use:
        raise NotImplementedError
    if self.distance_matrix is None:
        try:
            if self.load_distance_matrix_md(region.region_metadata) is None:
                raise ValueError()
        except Exception:
            if pre:
                raise ValueError()
    return self.distances_to_point_with_matrix(region, point, ids)
''', keep=('load_distance_matrix_md', 'compute_distance_matrix', 'distances_to_point_with_matrix'),
       strict='raises')
shared.solver_distances(P)

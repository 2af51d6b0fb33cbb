'''C20: selections of the best point, model or clustering.'''
from sa.prop import *     # noqa

P = Prop('C20', 'Value-graph evaluation of the selections (minimum, maximum, elbow) as a function of '
         'the values they choose from.',
         cfg={'ndims': {'X': 2}})
S = 'spta.region.spatial.SpatialRegion.'
A = 'spta.util.arrays.'
for m, sgn, op in (('find_minimum', '', '<'), ('find_maximum', '-', '>')):
    P.same(S + m, '''
def w(self):
    best = %snp.inf
    where = None
    for point, value in self:
        if value %s best:
            best = value
            where = point
    return where, best
''' % (sgn, op))
for m, w in (('find_minimum', 'np.inf'), ('find_maximum', '-np.inf')):
    P.law('%s without data' % m, S + m, '''
def a(d):
    class Missing(SpatialRegion):
        def value_at(self, point):
            return np.nan
    return Missing(d).%s()
''' % m, '''
def b(d):
    return (None, %s)
''' % w, rule='a missing value is never the smallest or largest')
for m, f in (('minimum_value_and_index', 'nanmin'), ('maximum_value_and_index', 'nanmax')):
    P.law('%s of an array' % f, A + m, '''
def a(X):
    from spta.util.arrays import %s
    v, i = %s(X)
    return v, i[0], i[1]
''' % (m, m), '''
def b(X):
    v = np.%s(X)
    at = np.where(X == v)
    return v, at[0][0], at[1][0]
''' % f)
F = 'spta.model.forecast.ForecastAnalysis.'
KEEP = ('train_models', 'forecast_at_each_point', 'forecast_whole_region_with_all_models')
for cond, c in (('with', 'o.value_at(r.get_centroid())'), ('without', 'np.nan')):
    P.law('errors %s centroid' % cond, F + 'analyze_errors', '''
def a(fa: 'ForecastAnalysis', r, kind, n):
    if %s r.has_centroid():
        raise ValueError
    x = fa.analyze_errors(r, kind, n)
    y = x[0]
    return y.each, y.minimum, y.min_local, y.centroid, y.maximum, x[1]
''' % ('not' if cond == 'with' else ''), '''
def b(fa: 'ForecastAnalysis', r, kind, n):
    if %s r.has_centroid():
        raise ValueError
    fa.train_models(r, n)
    f = fa.forecast_at_each_point(n, kind)
    o = fa.forecast_whole_region_with_all_models(n, kind)
    return (f[1].overall_error, o.find_minimum()[1], o.value_at(f[1].find_minimum()[0]), %s,
            o.find_maximum()[1], f[2])
''' % ('not' if cond == 'with' else '', c), keep=KEEP)
P.law('errors: order of the steps', F + 'analyze_errors', '''
def a(fa: 'ForecastAnalysis', r, kind, n):
    fa.analyze_errors(r, kind, n)
''', '''
def b(fa: 'ForecastAnalysis', r, kind, n):
    fa.train_models(r, n)
    fa.forecast_at_each_point(n, kind)
    fa.forecast_whole_region_with_all_models(n, kind)
''', keep=KEEP, aspect=calls(*KEEP))
U = 'spta.clustering.suite.'
P.law('suite by seed', U + 'OrganizeClusteringSuite.organize_kmedoids_suite', '''
def a(suite):
    from spta.clustering.suite import OrganizeClusteringSuite
    return OrganizeClusteringSuite().organize_kmedoids_suite(suite)
''', '''
def b(suite):
    from operator import attrgetter
    by = {}
    for m in suite:
        if m.random_seed not in by:
            by[m.random_seed] = []
        by[m.random_seed].append(m)
    return {seed: sorted(ms, key=attrgetter('k')) for seed, ms in by.items()}
''')
P.law('elbow', U + 'FindSuiteElbow.find_cost_elbow_given_order', '''
def a(fe: 'FindSuiteElbow', costs, ms):
    return fe.find_cost_elbow_given_order(costs, ms)
''', '''
def b(fe: 'FindSuiteElbow', costs, ms):
    if len(costs) != len(ms) or len(ms) < 3 or len(costs) < 3:
        raise ValueError
    best, where = -np.inf, -1
    for i in range(1, len(ms) - 1):
        a, b, c = ms[i - 1], ms[i], ms[i + 1]
        d = 2 / ((b.k - a.k) * (c.k - a.k)) * costs[a] - 2 / ((c.k - b.k) * (b.k - a.k)) * costs[b] \\
            + 2 / ((c.k - b.k) * (c.k - a.k)) * costs[c]
        if d > best:
            best, where = d, i
    return ms[where]
''')
P.law('elbow of each seed', U + 'FindSuiteElbow.find_cost_elbow_for_each_kmedoids_seed', '''
def a(fe: 'FindSuiteElbow', costs):
    return fe.find_cost_elbow_for_each_kmedoids_seed(costs)
''', '''
def b(fe: 'FindSuiteElbow', costs):
    from spta.clustering.suite import OrganizeClusteringSuite
    by = OrganizeClusteringSuite().organize_kmedoids_suite(fe.clustering_suite)
    return {s: fe.find_cost_elbow_given_order({m: costs[m] for m in ms}, ms)
            for s, ms in by.items()}
''', keep=('organize_kmedoids_suite', '!organize_kmedoids_suite', 'find_cost_elbow_given_order'))
P.law('costs of the suite', U + 'FindSuiteElbow.get_all_intra_cluster_costs', '''
def a(fe: 'FindSuiteElbow', parts):
    return fe.get_all_intra_cluster_costs(parts)
''', '''
def b(fe: 'FindSuiteElbow', parts):
    from spta.region.partition import intra_cluster_cost
    return {m: intra_cluster_cost(p, fe.spt_region, fe.distance_measure) for m, p in parts.items()}
''', keep=('intra_cluster_cost',))
P.law('partitions of the suite', U + 'FindSuiteElbow.get_all_partitions', '''
def a(s, r, dm, ph):
    from spta.clustering.suite import FindSuiteElbow
    return FindSuiteElbow(s, r, dm).get_all_partitions(ph)
''', '''
def b(s, r, dm, ph):
    from spta.clustering.factory import ClusteringFactory
    f = ClusteringFactory(dm)
    return {m: f.instance(m).partition(spt_region=r, with_medoids=True, pickle_home=ph) for m in s}
''', keep=('instance', '!instance'))
P.law('elbows', U + 'FindSuiteElbow.calculate_elbows_kmedoids', '''
def a(fe: 'FindSuiteElbow', ph):
    return fe.calculate_elbows_kmedoids(ph)
''', '''
def b(fe: 'FindSuiteElbow', ph):
    return fe.find_cost_elbow_for_each_kmedoids_seed(fe.get_all_intra_cluster_costs(fe.get_all_partitions(ph)))
''', keep=('find_cost_elbow_for_each_kmedoids_seed', 'get_all_intra_cluster_costs', 'get_all_partitions'))
P.law('cost of a partition', 'spta.region.partition.intra_cluster_cost', '''
def a(part: 'PartitionRegionCrisp', r: 'SpatioTemporalRegion', dm: 'DistanceBetweenSeries'):
    return spta.region.partition.intra_cluster_cost(part, r, dm)
''', '''
def b(part: 'PartitionRegionCrisp', r: 'SpatioTemporalRegion', dm: 'DistanceBetweenSeries'):
    from spta.util.arrays import sum_squared
    total = 0
    for i, c in enumerate(part.create_all_spt_clusters(r, medoids=part.medoids)):
        total += sum_squared(dm.distances_to_point(r, part.medoids[i], [p.x * r.y_len + p.y for p, _ in c]))
    return total
''', keep=('create_all_spt_clusters', 'distances_to_point', 'sum_squared'), strict=False,
      rule='the squared distances of the points of each cluster to its medoid, added up')
P.law('sum of squares', A + 'sum_squared', '''
def a(X):
    from spta.util.arrays import sum_squared
    return sum_squared(X)
''', '''
def b(X):
    return np.sum(np.array(X) ** 2)
''', strict=False, rule='each value once, squared')

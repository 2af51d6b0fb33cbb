'''C23: a clustering covers the region, and its medoids represent their clusters.'''
from sa.prop import *     # noqa
from props import shared

P = Prop('C23', 'Value-graph evaluation of the clustering algorithms: the rectangles and labels of '
         'a regular partition, the medoids found for a partition, what is computed, loaded, saved '
         'and reported for a clustering, merged values and fuzzy membership.',
         cfg={'attr_types': {'partition': 'PartitionRegionCrisp',
                             'distance_measure': 'DistanceBetweenSeries'},
              'name_types': {'p': 'Point', 'part': 'PartitionRegionCrisp', 'pr': 'Region',
                             'rm': 'SpatioTemporalRegionMetadata', 'dm': 'DistanceByDTW'},
              'ints': ('x_len', 'y_len', 'n', 'two_balanced_divisors_order_x_y')})
CA = 'spta.clustering.ClusteringAlgorithm.'
REG = 'spta.clustering.regular.'
PR = 'spta.region.partition.'
M = 'spta.util.maths.'
ARR = 'spta.util.arrays.'
IMP = '''
    from spta.clustering.regular import RegularClusteringMetadata, RegularClusteringAlgorithm
    from spta.clustering.dbscan import DbscanClusteringMetadata, DbscanClusteringAlgorithm
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata, KmedoidsClusteringAlgorithm
    from spta.clustering import ClusteringAlgorithm
    from spta.region.centroid import CalculateCentroid
    from spta.region.partition import PartitionRegionCrisp
'''

# ------------------------------------------------------------------ medoids of a partition
P.law('medoids found for a partition', CA + 'find_medoids_for_partition', '''
def a(k, dm, spt: 'SpatioTemporalRegion', part):%s
    return RegularClusteringAlgorithm(RegularClusteringMetadata(k), dm).find_medoids_for_partition(
        spt, part)
''' % IMP, '''
def b(k, dm, spt: 'SpatioTemporalRegion', part):%s
    return [CalculateCentroid(dm).find_centroid_and_distances(c)[0]
            for c in part.create_all_spt_clusters(spt)]
''' % IMP, keep=('find_centroid_and_distances', '!find_centroid_and_distances',
                 'create_all_spt_clusters'), strict=False,
      rule='the medoid of each cluster, in the order of the clusters, is its own centroid under the '
           'distance of the algorithm')
KEEP = ('find_medoids_for_partition', '!find_medoids_for_partition', 'with_regular_partition',
        'spta.region.partition.PartitionRegionCrisp.with_regular_partition')
for what, ret, exp in (
        ('labels', 'p', 'part'),
        ('medoids', 'p.medoids', 'al.find_medoids_for_partition(spt, part)')):
    P.law('regular partition: ' + what, REG + 'RegularClusteringAlgorithm.partition_impl', '''
def a(k, dm, spt: 'SpatioTemporalRegion'):%s
    p = RegularClusteringAlgorithm(RegularClusteringMetadata(k), dm).partition_impl(spt, True)
    return %s
''' % (IMP, ret), '''
def b(k, dm, spt: 'SpatioTemporalRegion'):%s
    al = RegularClusteringAlgorithm(RegularClusteringMetadata(k), dm)
    part = PartitionRegionCrisp.with_regular_partition(int(k), spt.x_len, spt.y_len)
    m = al.find_medoids_for_partition(spt, part)
    part.medoids = m
    return %s
''' % (IMP, exp), keep=KEEP, rule='labels of the grid for the shape of the region; medoids of that partition')
P.law('regular partition without medoids', REG + 'RegularClusteringAlgorithm.partition_impl', '''
def a(k, dm, spt: 'SpatioTemporalRegion'):%s
    return RegularClusteringAlgorithm(RegularClusteringMetadata(k), dm).partition_impl(spt, False)
''' % IMP, '''
def b(k, dm, spt: 'SpatioTemporalRegion'):%s
    return PartitionRegionCrisp.with_regular_partition(int(k), spt.x_len, spt.y_len)
''' % IMP, keep=KEEP)
for cls, mod in (('Regular', 'regular'), ('Dbscan', 'dbscan')):
    P.law('%s partition of a spatial region' % mod,
          'spta.clustering.%s.%sClusteringAlgorithm.partition_2d' % (mod, cls), '''
def a(k, dm, d):%s
    from spta.region.spatial import SpatialRegion
    return %sClusteringAlgorithm(%sClusteringMetadata(k), dm).partition_2d(SpatialRegion(d)).numpy_dataset
''' % (IMP, cls, cls), '''
def b(k, dm, d):%s
    from spta.region.spatial import SpatialRegion
    return %sClusteringAlgorithm(%sClusteringMetadata(k), dm).partition_impl(
        SpatialRegion(d), False).numpy_dataset
''' % (IMP, cls, cls), keep=('with_regular_partition',
                             'spta.region.partition.PartitionRegionCrisp.with_regular_partition'))

# ------------------------------------------------------------------ regular grids
P.law('regular labels', PR + 'PartitionRegionCrisp.with_regular_partition', '''
def a(k, x_len, y_len):%s
    p = PartitionRegionCrisp.with_regular_partition(k, x_len, y_len)
    return (p.numpy_dataset, p.k)
''' % IMP, '''
def b(k, x_len, y_len):%s
    from spta.util.arrays import regular_partitioning
    m = regular_partitioning(x_len, y_len, k)
    p = PartitionRegionCrisp(m, int(np.max(m) + 1))
    return (m.reshape(x_len, y_len), int(np.max(m) + 1))
''' % IMP, keep=('regular_partitioning',), strict=False)
GRID = '''
    from spta.util.maths import two_balanced_divisors_order_x_y
    div_x, div_y = two_balanced_divisors_order_x_y(k, x_len, y_len)
    if x_len < div_x or y_len < div_y:
        raise ValueError

    def lines(n, d):
        each, rest = n // d, n % d
        if rest > each / 2 and rest > d * (d - each - 1):
            return each + 1
        return each
    h, w = lines(x_len, div_x), lines(y_len, div_y)
'''
P.law('rectangles of a regular partition', ARR + 'regular_partitioning', '''
def a(k, x_len, y_len):
    from spta.util.arrays import regular_partitioning
    return regular_partitioning(x_len, y_len, k)
''', '''
def b(k, x_len, y_len):%s
    m = np.zeros((x_len, y_len))
    for i in range(div_x):
        for j in range(div_y):
            m[h * i: (x_len if i == div_x - 1 else h * i + h),
              w * j: (y_len if j == div_y - 1 else w * j + w)] = i * div_y + j
    return m
''' % GRID, aspect=stores, keep=('two_balanced_divisors_order_x_y',),
      rule='every row and column of the region is in exactly one band, the last band ends with '
           'the region, and labels run row by row')
wide(P, ARR + 'regular_partitioning', '''
def a(k, x_len, y_len):
    from spta.util.arrays import regular_partitioning
    return regular_partitioning(x_len, y_len, k).dtype
''', 'the labels of any number of clusters can be stored')
P.law('shape of a regular partition', ARR + 'regular_partitioning', '''
def a(k, x_len, y_len):
    from spta.util.arrays import regular_partitioning
    return regular_partitioning(x_len, y_len, k).shape
''', '''
def b(k, x_len, y_len):%s
    return (x_len, y_len)
''' % GRID, keep=('two_balanced_divisors_order_x_y',), strict='raises',
      rule='a region with fewer rows or columns than bands is rejected')
P.law('order of the divisors', M + 'two_balanced_divisors_order_x_y', '''
def a(n, x_len, y_len):
    from spta.util.maths import two_balanced_divisors_order_x_y
    return two_balanced_divisors_order_x_y(n, x_len, y_len)
''', '''
def b(n, x_len, y_len):
    from spta.util.maths import find_two_balanced_divisors
    s = find_two_balanced_divisors(n)
    if x_len < y_len:
        return (s[0], s[1])
    return (s[1], s[0])
''', keep=('find_two_balanced_divisors',), strict=False)

# ------------------------------------------------------------------ the report of a clustering
P.law('report of a clustering', CA + 'save_to_csv', '''
def a(k, dm, part, rm, home):%s
    RegularClusteringAlgorithm(RegularClusteringMetadata(k), dm).save_to_csv(part, rm, home)
''' % IMP, '''
def b(k, dm, part, rm, home):%s
    import csv, os
    md = RegularClusteringMetadata(k)
    with open(os.path.join(md.output_dir(home, rm, dm), 'clustering__{!r}.csv'.format(md)), 'w') as f:
        w = csv.writer(f, delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL)
        w.writerow(['cluster', 'points', 'coverage'])
        for i in range(int(k)):
            n = part.cluster_len(i)
            w.writerow([str(i), str(n), '{:.1f}'.format(n * 100. / (part.x_len * part.y_len))])
''' % IMP, aspect=tables, keep=('cluster_len',),
      rule='each row has the index, the number of points and the share of one cluster')

NEWC = '''
    from spta.clustering import ClusteringAlgorithm
    from spta.clustering.regular import RegularClusteringMetadata
    class Algo(ClusteringAlgorithm):
        def try_load_previous_partition(self, region_metadata, pickle_home='pickle'):
            return part
        def partition_impl(self, spt_region, with_medoids):
            return computed.of(dm.distance_matrix, spt_region, with_medoids)
    al = Algo(RegularClusteringMetadata(k), dm)
'''
CK = ('save_partition', '!save_partition', 'save_to_csv', '!save_to_csv', 'try_load_distance_matrix',
      'load_distance_matrix_md')
SIG = "k, dm, spt: 'SpatioTemporalRegion', computed, part, home, out, flag"
P.law('partition that is computed', CA + 'partition', '''
def a(%s):%s
    return al.partition(spt, flag)
''' % (SIG, NEWC), '''
def b(%s):%s
    dm.try_load_distance_matrix(spt)
    return computed.of(dm.distance_matrix, spt, flag)
''' % (SIG, NEWC), keep=CK, strict=False,
      rule='the partition of the region that was given, with medoids when asked for')
P.law('distances are looked up before computing', CA + 'partition', '''
def a(%s):%s
    al.partition(spt, flag)
''' % (SIG, NEWC), '''
def b(%s):%s
    dm.try_load_distance_matrix(spt)
''' % (SIG, NEWC), aspect=calls('try_load_distance_matrix'), keep=CK)
P.law('report of the partition', CA + 'partition', '''
def a(%s):%s
    al.partition(spt, flag, save_csv_at=out, pickle_home=home)
''' % (SIG, NEWC), '''
def b(%s):%s
    x = part
    if home is None or spt.region_metadata is None or part is None:
        dm.try_load_distance_matrix(spt)
        x = computed.of(dm.distance_matrix, spt, flag)
    if out is not None:
        al.save_to_csv(x, spt.region_metadata, out)
''' % (SIG, NEWC), aspect=calls('save_to_csv'), keep=CK,
      rule='the report is about the partition that is returned, loaded or computed, where asked for')
P.law('k of an algorithm', CA + '__init__', '''
def a(k, dm):%s
    al = RegularClusteringAlgorithm(RegularClusteringMetadata(k), dm)
    return (al.k, al.distance_measure, al.metadata.k, '{!r}'.format(al))
''' % IMP, '''
def b(k, dm):%s
    return (int(k), dm, int(k), '{!r}'.format(RegularClusteringMetadata(k)))
''' % IMP)

# ------------------------------------------------------------------ dbscan
P.law('dbscan partition', 'spta.clustering.dbscan.DbscanClusteringAlgorithm.partition_impl', '''
def a(k, dm, d):%s
    from spta.region.temporal import SpatioTemporalRegion
    p = DbscanClusteringAlgorithm(DbscanClusteringMetadata(k), dm).partition_impl(
        SpatioTemporalRegion(d))
    return (p.numpy_dataset, p.k)
''' % IMP, '''
def b(k, dm, d):%s
    from sklearn.cluster import DBSCAN
    labels = DBSCAN(eps=0.7, min_samples=5, metric='precomputed', algorithm='auto', leaf_size=30,
                    p=None, n_jobs=None).fit(dm.distance_matrix).labels_ + 1
    from spta.region.temporal import SpatioTemporalRegion
    r = SpatioTemporalRegion(d)
    p = PartitionRegionCrisp.from_membership_array(labels, r.x_len, r.y_len)
    return (p.numpy_dataset, p.k)
''' % IMP, strict=False, rule='one label per point in row-major order; noise is cluster 0')

# ------------------------------------------------------------------ medoids of a rectangle
P.same(PR + 'PartitionRegionCrisp.find_medoids_of_clusters_intersecting_with', '''
def spec(self, region_2d):
    if not hasattr(self, 'medoids'):
        raise ValueError
    return [self.medoids[i] for i in self.find_indices_of_clusters_intersecting_with(region_2d)]
''', keep=('find_indices_of_clusters_intersecting_with',))

# ------------------------------------------------------------------ fuzzy membership
FM = 'spta.region.mask.'
P.law('fuzzy membership of a point', FM + 'MaskRegionFuzzy.is_member', '''
def a(u, c, t, p):
    from spta.region.mask import MaskRegionFuzzy
    return MaskRegionFuzzy(u, c, t).is_member(p)
''', '''
def b(u, c, t, p):
    if u.ndim != 3 or t < 0 or t > 1 or c < 0 or c >= u.shape[0]:
        raise ValueError
    if p is None:
        return False
    v = u[:, p.x, p.y]
    return v[np.argmax(v)] - v[c] <= t
''', strict='raises', rule='a point belongs to its best cluster and to those within the threshold')
P.law('fuzzy membership of an array', FM + 'MaskRegionFuzzy.from_uij_and_region', '''
def a(u, x_len, y_len, c, t, p):
    from spta.region.mask import MaskRegionFuzzy
    m = MaskRegionFuzzy.from_uij_and_region(u, x_len, y_len, c, t)
    return (m.numpy_dataset, m.cluster_index, m.threshold)
''', '''
def b(u, x_len, y_len, c, t, p):
    if u.shape[0] != x_len * y_len or t < 0 or t > 1 or c < 0 or c >= u.shape[1]:
        raise ValueError
    return (np.swapaxes(u, 0, 1).reshape((u.shape[1], x_len, y_len)), c, t)
''', strict=False)
P.law('size of a fuzzy cluster', FM + 'MaskRegionFuzzy.cluster_len', '''
def a(u, c, t):
    from spta.region.mask import MaskRegionFuzzy
    return MaskRegionFuzzy(u, c, t).cluster_len
''', '''
def b(u, c, t):
    from spta.region.mask import MaskRegionFuzzy
    m = MaskRegionFuzzy(u, c, t)
    n = 0
    for p in m:
        n += 1
    return n
''', strict=False)
P.law('copy of a fuzzy cluster', FM + 'MaskRegionFuzzy.clone', '''
def a(u, c, t):
    from spta.region.mask import MaskRegionFuzzy
    m = MaskRegionFuzzy(u, c, t).clone()
    return (m.numpy_dataset, m.cluster_index, m.threshold)
''', '''
def b(u, c, t):
    if u.ndim != 3 or t < 0 or t > 1 or c < 0 or c >= u.shape[0]:
        raise ValueError
    return (np.copy(u), c, t)
''', strict=False)
P.same(FM + 'MaskRegion.__next__', '''
    def spec(self: 'MaskRegionFuzzy'):
        while True:
            q = BaseRegion.__next__(self)
            if self.is_member(q):
                return q
''', keep=('is_member',), strict=False, rule='iteration skips the points of other clusters')
P.law('copy of a partition', PR + 'PartitionRegionCrisp.clone', '''
def a(d, k):%s
    p = PartitionRegionCrisp(d, k).clone()
    return (p.numpy_dataset, p.k)
''' % IMP, '''
def b(d, k):
    if d.ndim != 2 or k != int(np.max(d)) + 1:
        raise ValueError
    return (np.copy(d), k)
''', strict=False)

# ------------------------------------------------------------------ divisors
P.same(M + 'divisors', '''
def spec(n):
    from math import sqrt
    found = {1, n}
    for i in range(2, int(sqrt(n)) + 1):
        if n % i == 0:
            found.update((i, n // i))
    return sorted(found)
''')
P.same(M + 'find_two_balanced_divisors', '''
def spec(n):
    ds = divisors(n)
    if len(ds) == 2:
        return ds
    for d in ds:
        q = n / d
        if q <= d:
            break
    return [int(q), int(d)]
''', keep=('divisors',))
shared.solver_distances(P)

'''C01: point <-> linear index conversions are the row-major bijection everywhere.'''
from sa.prop import *     # noqa

P = Prop('C01',
         'Value-graph (GVN) comparison of every index encoder/decoder with the row-major map '
         'index = x*y_len + y, over all region shapes at once (x_len, y_len symbolic).',
         cfg={'keep': ('membership_of_point_indices', 'distances_to_point', 'measure',
                       'compute_distances_to_a_series', 'create_spt_cluster', 'series_at',
                       'as_2d', 'value_at', 'is_member'),
              'attr_types': {'partition': 'PartitionRegion', 'region': 'Region'}},
         assumptions=['integer indices are below 2**53, so int(i / n) equals i // n'])

P.same('spta.region.base.BaseRegion.__next__', '''
    def spec(self: 'BaseRegion'):
        if self.point_index >= self.x_len * self.y_len:
            raise StopIteration
        return Point(self.point_index // self.y_len, self.point_index % self.y_len)
''', rule='iteration index decodes row-major')

P.same('spta.region.metadata.SpatioTemporalRegionMetadata.index_to_absolute_point', '''
    def spec(self: 'SpatioTemporalRegionMetadata', index):
        return Point(index // self.y_len + self.region.x1, index % self.y_len + self.region.y1)
''', rule='decode then offset')

P.same('spta.region.metadata.SpatioTemporalRegionMetadata.__init__', '''
    def spec(self: 'SpatioTemporalRegionMetadata', name, region: 'Region', year_start, year_end, spd):
        self.x_len = region.x2 - region.x1
        self.y_len = region.y2 - region.y1
''', aspect='attr:y_len')
P.same('spta.region.metadata.SpatioTemporalRegionMetadata.__init__', '''
    def spec(self: 'SpatioTemporalRegionMetadata', name, region: 'Region', year_start, year_end, spd):
        self.x_len = region.x2 - region.x1
        self.y_len = region.y2 - region.y1
''', aspect='attr:x_len')

for a, off in (('x_len', 2), ('y_len', 1)):
    P.same('spta.region.base.BaseRegion.__init__', '''
        def spec(self: 'BaseRegion', numpy_dataset):
            self.x_len = numpy_dataset.shape[numpy_dataset.ndim - 2]
            self.y_len = numpy_dataset.shape[numpy_dataset.ndim - 1]
    ''', aspect='attr:' + a, rule='%s is the dimension %d from the end' % (a, off))

P.same('spta.region.partition.PartitionRegion.membership_of_points', '''
    def spec(self: 'PartitionRegion', points):
        return self.membership_of_point_indices([p.x * self.y_len + p.y for p in points])
''', rule='encode row-major')

P.same('spta.region.partition.PartitionRegionCrisp.membership_of_point_indices', '''
    def spec(self: 'PartitionRegionCrisp', point_indices):
        return self.numpy_dataset.take(point_indices).tolist()
''', keep=(), rule='flat lookup in the row-major matrix')

P.same('spta.region.partition.PartitionRegionCrisp.find_indices_of_clusters_intersecting_with', '''
    def spec(self: 'PartitionRegionCrisp', region_2d: 'Region'):
        pts = []
        for x in range(region_2d.x1, region_2d.x2):
            for y in range(region_2d.y1, region_2d.y2):
                pts.append(x * self.y_len + y)
        return list(set(self.membership_of_point_indices(pts)))
''', rule='encode row-major over exactly the cells of the region')

P.same('spta.region.partition.PartitionRegionCrisp.from_membership_array', '''
    def spec(cls, membership, x_len, y_len):
        return PartitionRegionCrisp(membership.reshape(x_len, y_len), int(np.max(membership) + 1))
''', aspect=returns_obj('numpy_dataset', 'k'), rule='row-major reshape of the labels')

P.same('spta.region.partition.PartitionRegion.create_all_spt_clusters', '''
    def spec(self: 'PartitionRegion', spt_region: 'SpatioTemporalRegion', centroid_indices, medoids):
        if medoids is not None:
            raise ValueError
        if not centroid_indices:
            raise ValueError
        out = []
        for i in range(0, self.k):
            c = self.create_spt_cluster(spt_region, i)
            out.append(c)
            c.name = 'cluster{}'.format(i)
            c.centroid = Point(centroid_indices[i] // self.y_len, centroid_indices[i] % self.y_len)
        return out
''', aspect=lambda r, I: _setattrs(r, I, 'centroid'),
       rule='centroid indices decode row-major with the partition width')


def _setattrs(r, I, name):
    evs = []
    from sa.prop import _wrap, _collect
    for e in r.trace:
        if e.kind == 'setattr' and e.extra[1] == name:
            evs.append(_wrap(e, I, r, mk('tuple', '', (I.reify(e.extra[2], r.heap),))))
    return _collect(evs)


P.same('spta.region.partition.intra_cluster_cost', '''
    def spec(partition: 'PartitionRegion', spt_region: 'SpatioTemporalRegion', distance_measure):
        for i, cluster in enumerate(partition.create_all_spt_clusters(spt_region,
                                                                      medoids=partition.medoids)):
            members = [p.x * spt_region.y_len + p.y for (p, _) in cluster]
            distance_measure.distances_to_point(spt_region, partition.medoids[i], members)
''', aspect=calls('distances_to_point'), keep=('create_all_spt_clusters',),
       rule='members encode row-major')

P.same('spta.region.temporal.SpatioTemporalRegion.all_point_indices', '''
    def spec(self: 'SpatioTemporalRegion'):
        return np.arange(self.x_len * self.y_len)
''', rule='all indices of the region, in order')

P.same('spta.region.temporal.SpatioTemporalCluster.all_point_indices', '''
    def spec(self: 'SpatioTemporalCluster'):
        m = self.partition.membership_of_point_indices(np.arange(self.x_len * self.y_len))
        return np.where(np.array(m) == self.cluster_index)[0]
''', rule='indices whose label is the cluster index')

P.same('spta.distance.DistanceBetweenSeries.distances_to_point_with_matrix', '''
    def spec(self: 'DistanceBetweenSeries', spt_region: 'SpatioTemporalRegion', point: 'Point', all_point_indices):
        if self.distance_matrix is None:
            raise ValueError
        return self.distance_matrix[point.x * spt_region.y_len + point.y, all_point_indices]
''', rule='matrix row of the point is its row-major index')

P.same('spta.distance.dtw.DistanceByDTW.compute_distance_matrix_sptr', '''
    def spec(self: 'DistanceByDTW', spatio_temporal_region: 'SpatioTemporalRegion'):
        n = spatio_temporal_region.x_len * spatio_temporal_region.y_len
        m = np.empty((n, n))
        for i in range(spatio_temporal_region.x_len):
            for j in range(spatio_temporal_region.y_len):
                m[i * spatio_temporal_region.y_len + j, :] = self.compute_distances_to_a_series(
                    spatio_temporal_region.series_at(Point(i, j)), spatio_temporal_region.as_2d)
        return m
''', aspect=stores, rule='row of point (i, j) is i*y_len + j')

P.same('spta.distance.dtw.DistanceBySpatialDTW.weight_distance_matrix', '''
    def spec(self: 'DistanceBySpatialDTW', region: 'Region'):
        if self.distance_matrix is None:
            raise ValueError
        if self.weighted:
            raise ValueError
        y_len = region.y2 - region.y1
        x_len = region.x2 - region.x1
        pts = spta.util.arrays.list_of_2d_points(x_len, y_len)
        for index in range(x_len * y_len):
            d = np.linalg.norm(pts - [index // y_len, index % y_len], axis=1)
            self.distance_matrix[index] = self.distance_matrix[index] + d * self.weight
''', aspect=stores, keep=('list_of_2d_points',), rule='row index decodes row-major')

P.same('spta.util.arrays.list_of_2d_points', '''
    def spec(x_len, y_len):
        result = np.empty((x_len * y_len, 2), dtype=np.uint32)
        for i in range(x_len):
            for j in range(y_len):
                result[i * y_len + j, :] = (i, j)
        return result
''', aspect=stores, rule='row of (i, j) is i*y_len + j')

wide(P, 'spta.util.arrays.list_of_2d_points', '''
def a(x_len, y_len):
    from spta.util.arrays import list_of_2d_points
    return list_of_2d_points(x_len, y_len).dtype
''', 'the coordinates of regions of any size can be stored')
P.same('spta.util.arrays.distances_to_point_in_2d_region', '''
    def spec(i, j, x_len, y_len):
        return np.linalg.norm(spta.util.arrays.list_of_2d_points(x_len, y_len) - [i, j], axis=1)
''', keep=('list_of_2d_points',))

P.same('spta.util.arrays.spatio_temporal_to_list_of_time_series', '''
    def spec(numpy_dataset):
        out = []
        for x in range(numpy_dataset.shape[1]):
            for y in range(numpy_dataset.shape[2]):
                out.append(numpy_dataset[:, x, y])
        return out
''', rule='series listed row-major')

P.same('spta.region.spatial.SpatialRegion.as_array', '''
    def spec(self: 'SpatialRegion'):
        return self.numpy_dataset.reshape(self.numpy_dataset.shape[0] * self.numpy_dataset.shape[1])
''', rule='row-major flattening')
P.same('spta.region.spatial.SpatialRegion.create_from_1d', '''
    def spec(cls, list_1d, x, y):
        return SpatialRegion(np.array(list_1d).reshape(x, y))
''', aspect=returns_obj('numpy_dataset'), rule='row-major reshape')
P.same('spta.region.reshape_1d_to_2d', '''
    def spec(list_1d, x, y):
        return np.array(list_1d).reshape(x, y)
''', rule='row-major reshape')
P.same('spta.region.temporal.SpatioTemporalRegion.as_list', '''
    def spec(self: 'SpatioTemporalRegion'):
        return [s for (p, s) in self]
''', rule='one series per visited point, in iteration order')


# ---------------------------------------------------------------- labels and medoids of k-medoids
KM = dict(keep=('run_kmedoids', 'as_2d'), strict=False)
P.law('k-medoids: medoid indices decode row-major',
      'spta.clustering.kmedoids.KmedoidsClusteringAlgorithm.partition_impl', '''
    def a(md: 'KmedoidsClusteringMetadata', dm, spt: 'SpatioTemporalRegion'):
        return KmedoidsClusteringAlgorithm(md, dm).partition_impl(spt, True).medoids
''', '''
    def b(md: 'KmedoidsClusteringMetadata', dm, spt: 'SpatioTemporalRegion'):
        X = spt.as_2d
        r = run_kmedoids(X, md.k, dm, initial_medoids=md.initial_medoids, random_seed=md.random_seed,
                         mode=md.mode, max_iter=md.max_iter, tol=md.tol, verbose=md.verbose)
        return [Point(i // spt.y_len, i % spt.y_len) for i in r.medoids]
''', **KM)
P.law('k-medoids: labels reshape row-major',
      'spta.clustering.kmedoids.KmedoidsClusteringAlgorithm.partition_impl', '''
    def a(md: 'KmedoidsClusteringMetadata', dm, spt: 'SpatioTemporalRegion', wm):
        return KmedoidsClusteringAlgorithm(md, dm).partition_impl(spt, wm).as_numpy
''', '''
    def b(md: 'KmedoidsClusteringMetadata', dm, spt: 'SpatioTemporalRegion', wm):
        X = spt.as_2d
        r = run_kmedoids(X, md.k, dm, initial_medoids=md.initial_medoids, random_seed=md.random_seed,
                         mode=md.mode, max_iter=md.max_iter, tol=md.tol, verbose=md.verbose)
        return r.labels.reshape(spt.x_len, spt.y_len)
''', **KM)

P.same('spta.region.mask.MaskRegionFuzzy.from_uij_and_region', '''
    def spec(cls, uij, x_len, y_len, cluster_index, threshold):
        N, k = uij.shape
        if N != x_len * y_len:
            raise ValueError
        return MaskRegionFuzzy(np.swapaxes(uij, 0, 1).reshape((k, x_len, y_len)), cluster_index, threshold)
''', aspect=returns_obj('numpy_dataset'), rule='degree of the point with index x*y_len + y')

P.same('spta.util.arrays.copy_array_as_matrix_elements', '''
    def spec(array, m, n):
        return np.repeat(array, repeats=m * n).reshape(len(array), m, n)
''', rule='element i fills the whole slice i')

P.same('spta.classifier.train_input.TrainDataWithRandomPoints.get_random_points_different_to_medoids', '''
    def spec(self: 'TrainDataWithRandomPoints', count, random_seed, medoid_indices, x_len, y_len):
        np.random.seed(seed=random_seed)
        ri = spta.util.maths.random_integers_with_blacklist(count, 0, x_len * y_len - 1, blacklist=medoid_indices)
        return [Point(i // y_len, i % y_len) for i in ri]
''', keep=('random_integers_with_blacklist',), rule='random indices decode row-major')

P.same('spta.classifier.train_input.extract_all_medoid_indices_from_suite_result', '''
    def spec(suite_result, spt_region: 'SpatioTemporalRegion'):
        u = set()
        for r, medoids in suite_result.items():
            u.update(medoids)
        o = spt_region.region_metadata.region
        return [(p.x - o.x1) * spt_region.y_len + p.y - o.y1 for p in u]
''', rule='medoids encode row-major relative to the region')

P.same('spta.classifier.train_input.MedoidsChoiceMinDistance.get_medoid_penalties', '''
    def spec(self: 'MedoidsChoiceMinDistance', clustering_repr, medoids, point: 'Point'):
        ix = [(m.x - self.x_offset) * self.spt_region.y_len + m.y - self.y_offset for m in medoids]
        return self.distance_measure.distances_to_point(spt_region=self.spt_region, point=point, all_point_indices=ix)
''', attr_types={'spt_region': 'SpatioTemporalRegion', 'distance_measure': 'DistanceBetweenSeries'},
       aspect=call_args('distances_to_point', 2), keep=('distances_to_point',),
       rule='medoids encode row-major relative to the region')

P.law('silhouette labels in row-major order',
      'spta.clustering.silhouette.SilhouetteAnalysis.single_silhouette', '''
    def a(s: 'SilhouetteAnalysis', part: 'PartitionRegionCrisp', ca, oh):
        s.single_silhouette(part, ca, oh)
''', '''
    def b(s: 'SilhouetteAnalysis', part: 'PartitionRegionCrisp', ca, oh):
        labels = part.numpy_dataset.reshape(s.spt_region.x_len * s.spt_region.y_len)
        plot_util.plot_clustering_silhouette(s.distance_measure.distance_matrix, labels)
''', aspect=call_args('plot_clustering_silhouette', 1),
      attr_types={'spt_region': 'SpatioTemporalRegion'}, keep=('plot_clustering_silhouette',))

for c in ('Scalar', 'Series'):
    P.law('same function everywhere: %s' % c, 'spta.region.function.FunctionRegion%sSame.__init__' % c, '''
        def a(f, m, n):
            return FunctionRegion%sSame(f, m, n).as_numpy
    ''' % c, '''
        def b(f, m, n):
            return np.array([f for i in range(0, m * n)]).reshape((m, n))
    ''')

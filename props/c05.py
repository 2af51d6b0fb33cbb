'''C05: a cluster exposes exactly the points whose partition label is the cluster index.'''
from sa.prop import *     # noqa

P = Prop('C05',
         'Value-graph evaluation of membership tests, cluster accessors, cluster iteration and '
         'cluster construction for a symbolic label matrix, point and cluster index.',
         cfg={'attr_types': {'partition': 'PartitionRegionCrisp'},
              'name_types': {'p': 'Point', 'part': 'PartitionRegionCrisp', 'pr': 'Region',
                             'q': 'Point', 'rm': 'SpatioTemporalRegionMetadata',
                             'lo': 'SpatialRegion', 'hi': 'SpatialRegion'}})
R = 'spta.region.'
ARGS = 'd, labels, k, ci, p, rm, lo, hi'
PART = 'PartitionRegionCrisp(labels, k)'
OKP = '''
    if labels.ndim != 2 or k != int(np.max(labels)) + 1:
        raise ValueError
'''

P.law('is_member', R + 'partition.PartitionRegionCrisp.is_member',
      'def a(%s):\n    return %s.is_member(p, ci)\n' % (ARGS, PART),
      'def b(%s):%s    return False if p is None else labels[p.x, p.y] == ci\n' % (ARGS, OKP),
      rule='a point belongs to the cluster named by its label; no point belongs to none')
P.law('cluster size', R + 'partition.PartitionRegionCrisp.cluster_len',
      'def a(%s):\n    return %s.cluster_len(ci)\n' % (ARGS, PART),
      'def b(%s):%s    return np.count_nonzero(labels == ci)\n' % (ARGS, OKP),
      rule='number of points with the label')
P.law('cluster size through the cluster', R + 'spatial.SpatialCluster.cluster_len',
      'def a(%s):\n    return SpatialCluster(SpatialRegion(d), %s, ci).cluster_len\n' % (ARGS, PART),
      'def b(%s):%s    return np.count_nonzero(labels == ci)\n' % (ARGS, OKP),
      rule='number of points with the label')
P.law('number of clusters', R + 'partition.PartitionRegionCrisp.__init__',
      'def a(%s):\n    return %s.k\n' % (ARGS, PART),
      'def b(%s):\n    if labels.ndim != 2:\n        raise ValueError\n'
      '    if k != int(np.max(labels)) + 1:\n        raise ValueError\n    return k\n' % ARGS,
      strict='raises', rule='labels are 2-d and k is one more than the largest label')

CLS = {
    'spatial': ('SpatialCluster(SpatialRegion(d), part, ci)', 'value_at',
                'd[p.x, p.y]', 'np.nan', 'spatial.SpatialCluster'),
    'spatio-temporal': ('SpatioTemporalCluster(SpatioTemporalRegion(d), part, ci)', 'series_at',
                        'd[:, p.x, p.y]', 'np.repeat(np.nan, repeats=d.shape[0])',
                        'temporal.SpatioTemporalCluster'),
    'scaled spatio-temporal': (
        'SpatioTemporalCluster(SpatioTemporalScaled(SpatioTemporalRegion(d), lo, hi), part, ci)',
        'series_at', 'd[:, p.x, p.y]', 'np.repeat(np.nan, repeats=d.shape[0])',
        'temporal.SpatioTemporalCluster'),
}
CARGS = 'd, part, ci, p, lo, hi'
for kind, (new, meth, val, miss, cls) in CLS.items():
    P.law('%s access' % kind, R + cls + '.' + meth,
          'def a(%s):\n    return %s.%s(p)\n' % (CARGS, new, meth),
          'def b(%s):\n    if p is None:\n        return %s\n'
          '    if part.numpy_dataset[p.x, p.y] == ci:\n        return %s\n'
          '    raise ValueError\n' % (CARGS, miss, val),
          strict='raises', rule='members are readable, other points are rejected, None is missing')
    P.law('%s rectangle' % kind, R + cls + '.region_subset',
          'def a(%s, pr):\n    return %s.region_subset(pr)\n' % (CARGS, new),
          'def b(%s, pr):\n    raise NotImplementedError\n' % CARGS, strict='raises',
          rule='a cluster cannot be cut by a rectangle')

P.law('point indices of a cluster', R + 'temporal.SpatioTemporalCluster.all_point_indices',
      'def a(%s):\n    return SpatioTemporalCluster(SpatioTemporalRegion(d), part, ci)'
      '.all_point_indices\n' % CARGS,
      'def b(%s):\n    r = SpatioTemporalRegion(d)\n'
      '    m = part.numpy_dataset.take(np.arange(r.x_len * r.y_len)).tolist()\n'
      '    return np.where(np.array(m) == ci)[0]\n' % CARGS,
      rule='exactly the indices with the label')

for cls, inner, acc, kind in (
        ('spatial.SpatialCluster', 'SpatialCluster', 'value_at', 'SpatialRegion'),
        ('temporal.SpatioTemporalCluster', 'SpatioTemporalCluster', 'series_at',
         'SpatioTemporalRegion')):
    P.same(R + cls + '.__next__', '''
        def spec(self: '%s'):
            while True:
                q = DomainRegion.__next__(self)
                if self.partition.is_member(q, self.cluster_index):
                    return (q, self.%s(q))
    ''' % (inner, acc), keep=(acc, 'is_member'), strict=False, rule='iteration skips the points of other clusters')

for meth, cluster, kind in (('create_spatial_cluster', 'SpatialCluster', 'SpatialRegion'),
                            ('create_spt_cluster', 'SpatioTemporalCluster',
                             'SpatioTemporalRegion')):
    P.law(meth, R + 'partition.PartitionRegion.' + meth,
          'def a(part, r: "%s", ci):\n    c = part.%s(r, ci)\n'
          '    return (c.partition, c.cluster_index, c.decorated_region)\n' % (kind, meth),
          'def b(part, r: "%s", ci):\n'
          '    if part.x_len != r.x_len or part.y_len != r.y_len:\n        raise ValueError\n'
          '    return (part, ci, r)\n' % kind,
          strict='raises', rule='the region and the partition have the same shape')
P.law('metadata of a cluster', R + 'partition.PartitionRegion.create_spt_cluster',
      'def a(part, r: "SpatioTemporalRegion", ci):\n'
      '    return part.create_spt_cluster(r, ci).region_metadata\n',
      'def b(part, r: "SpatioTemporalRegion", ci):\n'
      '    if part.x_len != r.x_len or part.y_len != r.y_len:\n        raise ValueError\n'
      '    return r.region_metadata\n', rule='metadata is that of the region')

P.law('all spatial clusters', R + 'partition.PartitionRegion.create_all_spatial_clusters',
      'def a(part, r: "SpatialRegion"):\n'
      '    return [c for c in part.create_all_spatial_clusters(r)]\n',
      'def b(part, r: "SpatialRegion"):\n'
      '    return [part.create_spatial_cluster(r, i) for i in range(part.k)]\n',
      keep=('create_spatial_cluster',), rule='one cluster per label, in order')
P.law('all spatio-temporal clusters', R + 'partition.PartitionRegion.create_all_spt_clusters',
      'def a(part, r: "SpatioTemporalRegion"):\n'
      '    return len(part.create_all_spt_clusters(r))\n',
      'def b(part, r: "SpatioTemporalRegion"):\n    return len(range(part.k))\n',
      keep=('create_spt_cluster',), rule='one cluster per label')
P.law('cluster identity', R + 'partition.PartitionRegion.create_all_spt_clusters',
      'def a(part, r: "SpatioTemporalRegion", mm):\n'
      '    return part.create_all_spt_clusters(r, medoids=mm)\n',
      'def b(part, r: "SpatioTemporalRegion", mm):\n'
      '    return [part.create_spt_cluster(r, i) for i in range(part.k)]\n',
      aspect=calls('create_spt_cluster'),
      keep=('create_spt_cluster',), rule='the i-th cluster has index i')
P.law('cluster medoids', R + 'partition.PartitionRegion.create_all_spt_clusters',
      'def a(part, r: "SpatioTemporalRegion", mm):\n'
      '    return part.create_all_spt_clusters(r, medoids=mm)\n',
      'def b(part, r: "SpatioTemporalRegion", mm):\n'
      '    if not mm:\n        raise ValueError\n'
      '    for i in range(part.k):\n'
      '        part.create_spt_cluster(r, i).centroid = mm[i]\n',
      aspect=lambda r, I: setattrs(r, I, 'centroid'),
      keep=('create_spt_cluster',), rule='the i-th cluster has the i-th medoid')
P.law('cluster medoids by index', R + 'partition.PartitionRegion.create_all_spt_clusters',
      'def a(part, r: "SpatioTemporalRegion", cc):\n'
      '    return part.create_all_spt_clusters(r, centroid_indices=cc)\n',
      'def b(part, r: "SpatioTemporalRegion", cc):\n'
      '    if not cc:\n        raise ValueError\n'
      '    for i in range(part.k):\n'
      '        part.create_spt_cluster(r, i).centroid = Point(int(cc[i] / part.y_len), cc[i] % part.y_len)\n',
      aspect=lambda r, I: setattrs(r, I, 'centroid'),
      keep=('create_spt_cluster',), rule='the i-th cluster has the point of the i-th index')
P.law('clusters of a rectangle', R + 'partition.PartitionRegionCrisp.find_indices_of_clusters_intersecting_with',
      'def a(labels, k, pr):\n    return PartitionRegionCrisp(labels, k)'
      '.find_indices_of_clusters_intersecting_with(pr)\n',
      'def b(labels, k, pr):%s    part = PartitionRegionCrisp(labels, k)\n'
      '    return list(set(part.membership_of_point_indices([x * labels.shape[1] + y '
      'for x in range(pr.x1, pr.x2) for y in range(pr.y1, pr.y2)])))\n' % OKP, strict=False, ndims={'labels': 2},
      rule='the labels of the points of the rectangle')
P.law('medoids of a rectangle', R + 'partition.PartitionRegionCrisp.find_medoids_of_clusters_intersecting_with',
      'def a(part, pr, mm):\n    part.medoids = mm\n    return part.find_medoids_of_clusters_intersecting_with(pr)\n',
      'def b(part, pr, mm):\n    return [mm[i] for i in part.find_indices_of_clusters_intersecting_with(pr)]\n',
      keep=('find_indices_of_clusters_intersecting_with',), strict=False,
      rule='the medoid of each of the clusters of the rectangle')
for kind, new in (('cluster', 'SpatioTemporalCluster(r, part, ci)'),
                  ('scaled region', 'SpatioTemporalScaled(r, lo, hi)')):
    P.law('centroid of a %s' % kind, R + 'temporal.SpatioTemporalDecorator.get_centroid',
          'def a(d, part, ci, lo, hi, p, q):\n    r = SpatioTemporalRegion(d)\n    r.centroid = q\n'
          '    x = %s\n    x.centroid = p\n    return (x.get_centroid(), x.has_centroid())\n' % new,
          'def b(d, part, ci, lo, hi, p, q):\n    if p is None or q is None:\n        raise ValueError\n'
          '    return (p, True)\n', strict=False, rule='its own centroid goes before that of the region')
    P.law('centroid of the region of a %s' % kind, R + 'temporal.SpatioTemporalDecorator.get_centroid',
          'def a(d, part, ci, lo, hi, p, q):\n    r = SpatioTemporalRegion(d)\n    r.centroid = q\n'
          '    x = %s\n    return (x.get_centroid(), x.has_centroid())\n' % new,
          'def b(d, part, ci, lo, hi, p, q):\n    if q is None:\n        raise ValueError\n'
          '    return (q, True)\n', strict=False, rule='without one of its own it has that of the region')

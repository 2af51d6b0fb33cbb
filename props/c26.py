'''C26: plots show what they are named after.'''
from sa.prop import *     # noqa

P = Prop('C26',
         'Value-graph evaluation of the plotting functions: the drawing calls they make (what is '
         'drawn, where, under which title and into which file) are compared with the required '
         'ones for a symbolic partition, region, rectangle, list of distances and figure.',
         cfg={'name_types': {'part': 'PartitionRegionCrisp', 'rm': 'SpatioTemporalRegionMetadata',
                             'spt': 'SpatioTemporalRegion', 'pr': 'Region', 'rect': 'Region',
                             'dm': 'DistanceByDTW', 'c': 'SpatioTemporalCluster', 'p': 'Point',
                             'sr': 'SpatialRegion'}})
U = 'spta.util.plot.'
V = 'spta.distance.variance.'

# ---------------------------------------------------------------- partitions
P.law('partition plot: rectangle', U + 'plot_partition',
      'def a(part, sub, rect, t):\n    plot_partition(part, t, sub, rect)\n',
      '''def b(part, sub, rect, t):
    from matplotlib.patches import Rectangle
    import matplotlib.pyplot as plt
    if rect is None:
        raise ValueError
    if not sub:
        f, sub = plt.subplots(1, 1)
    sub.add_patch(Rectangle(xy=(rect.y1 - 0.5, rect.x1 - 0.5), width=rect.y2 - rect.y1,
                            height=rect.x2 - rect.x1, linewidth=1, color='red', fill=False))
''', aspect=calls('add_patch', recv=True), rule='the rectangle encloses the cells of the region')
P.law('partition plot: colours', U + 'plot_partition',
      'def a(labels, k, sub, rect, t):\n    plot_partition(PartitionRegionCrisp(labels, k), t, sub, rect)\n',
      """def b(labels, k, sub, rect, t):
    import matplotlib.cm as cm
    import matplotlib.pyplot as plt
    if labels.ndim != 2 or k != int(np.max(labels)) + 1:
        raise ValueError
    if not sub:
        fig, sub = plt.subplots(1, 1)
    cs = list(map(cm.nipy_spectral, labels * 1.0 / (np.max(labels) + 1)))
    sub.imshow(np.concatenate(cs, axis=0).reshape((labels.shape[0], labels.shape[1], 4)))
""", aspect=calls('imshow', recv=True), rule='every cell has the colour of its own label')
P.law('partition plot: medoids', U + 'plot_partition',
      'def a(part, sub, rect, t, ms):\n    plot_partition(part, t, sub, rect, ms)\n',
      """def b(part, sub, rect, t, ms):
    if not sub or ms is None:
        raise ValueError
    for m in ms:
        sub.plot(m.y, m.x, '?')
""", aspect=calls('plot', recv=True, only=(0, 1)), rule='each medoid is marked at its own cell')
P.law('partition plot: title', U + 'plot_partition',
      'def a(part, sub, rect, t, ms):\n    plot_partition(part, t, sub, rect, ms)\n',
      """def b(part, sub, rect, t, ms):
    if not sub:
        raise ValueError
    if t:
        sub.set_title(t)
""", aspect=calls('set_title', recv=True), rule='the plot has the given title')
P.law('cluster plot', U + 'plot_2d_clusters',
      'def a(labels, x_len, y_len, t, sub):\n    return plot_2d_clusters(labels, (x_len, y_len), t, sub)\n',
      """def b(labels, x_len, y_len, t, sub):
    r = SpatialRegion(labels.reshape((x_len, y_len)))
    return plot_discrete_spatial_region(r, t, True, sub)
""", keep=('plot_discrete_spatial_region',), aspect=calls('plot_discrete_spatial_region'),
      rule='the labels are laid out over the region')
P.law('heat map of a region', U + 'plot_discrete_spatial_region',
      'def a(sr, sub, t):\n    plot_discrete_spatial_region(sr, t, clusters=False, subplot=sub)\n',
      """def b(sr, sub, t):
    if not sub:
        raise ValueError
    sub.imshow(sr.as_numpy, interpolation='nearest')
""", aspect=calls('imshow', recv=True), rule='the values of the region are shown')

# ---------------------------------------------------------------- the query of a solver
SOLV = """
    md = SolverMetadataBuilder(rm, mp, tp, et).with_clustering(cm, dm).build()
    s = SolverWithMedoids(md, part, tr, wh, ge)
"""
SARGS = 'rm, mp, tp, et, k, seed, dm, part, tr, wh, ge, pr, oh'
KMD = '    cm = KmedoidsClusteringMetadata(k, random_seed=seed)\n'
P.law('query plot: what is shown', 'spta.solver.model.SolverWithMedoids.plot_regions',
      'def a(%s):\n%s%s    s.plot_regions(pr, oh)\n' % (SARGS, KMD, SOLV),
      """def b(%s):
%s
    import matplotlib.pyplot as plt
    r = Region(rm.region.x1 + pr.x1, rm.region.x1 + pr.x2, rm.region.y1 + pr.y1, rm.region.y1 + pr.y2)
    t = '{}; Region: ({}, {}) - ({}, {}) - ({}, {}) - ({}, {})'.format(
        cm, r.x1, r.y1, r.x1, r.y2, r.x2, r.y1, r.x2, r.y2)
    fig, ax = plt.subplots(1, 1, figsize=(10, 8))
    plot_partition(part, title=t, subplot=ax, rectangle_region=pr, mark_points=part.medoids)
""" % (SARGS, KMD), keep=('plot_partition',), aspect=calls('plot_partition'),
      rule='the partition of the solver with its medoids, the queried rectangle, and the '
      'clustering and the absolute corners of the rectangle as title')
P.law('query plot: file', 'spta.solver.model.SolverWithMedoids.get_plot_filename',
      'def a(%s):\n%s%s    return s.get_plot_filename(pr, oh)\n' % (SARGS, KMD, SOLV),
      """def b(%s):
%s%s
    return '{}/query-{!r}__region-{}-{}-{}-{}.pdf'.format(md.output_dir(oh), cm, pr.x1, pr.x2, pr.y1, pr.y2)
""" % (SARGS, KMD, SOLV), rule='the file names the clustering and the rectangle')
P.law('query plot: saved', 'spta.solver.model.SolverWithMedoids.plot_regions',
      'def a(%s):\n%s%s    s.plot_regions(pr, oh)\n' % (SARGS, KMD, SOLV),
      """def b(%s):
%s%s
    import matplotlib.pyplot as plt
    plt.savefig(s.get_plot_filename(pr, oh))
""" % (SARGS, KMD, SOLV), keep=('plot_partition',), aspect=calls('matplotlib.pyplot.savefig'),
      rule='the plot goes to its file')
P.law('query plot: only when asked for', 'spta.solver.model.SolverWithMedoids.predict',
      'def a(s: "SolverWithMedoids", pr, fl, oh, w):\n    s.predict(pr, fl, oh, plot=w)\n',
      'def b(s: "SolverWithMedoids", pr, fl, oh, w):\n    if w:\n        s.plot_regions(pr, oh)\n',
      keep=('plot_regions', 'prepare_for_predictions'), aspect=calls('plot_regions'),
      rule='a query is plotted when its plot is asked for, with its own rectangle')

# ---------------------------------------------------------------- silhouettes
P.law('silhouette: score', U + 'plot_clustering_silhouette',
      'def a(m, ls, sub, sg):\n    return plot_clustering_silhouette(m, ls, sub, sg)\n',
      """def b(m, ls, sub, sg):
    from sklearn.metrics import silhouette_score
    return silhouette_score(X=m, labels=ls, metric='precomputed')
""", rule='the silhouette score of the distances and labels is returned')
P.law('silhouette: bars', U + 'plot_clustering_silhouette',
      'def a(m, ls, sub, sg):\n    return plot_clustering_silhouette(m, ls, sub, sg)\n',
      '''def b(m, ls, sub, sg):
    from sklearn.metrics import silhouette_samples
    if not sub:
        raise ValueError
    v = silhouette_samples(m, ls, metric='precomputed')
    k = len(set(ls))
    low = 10
    for i in range(0, k):
        x = v[ls == i]
        x.sort()
        high = low + x.shape[0]
        sub.fill_betweenx(np.arange(low, high), 0, x, facecolor='', edgecolor='', alpha=0)
        low = high + 10
''', aspect=calls('fill_betweenx', recv=True, only=(0, 1, 2), kwargs=False),
      rule='each cluster has one bar with the sorted values of its own points, one above the other')
P.law('silhouette: labels', U + 'plot_clustering_silhouette',
      'def a(m, ls, sub, sg):\n    return plot_clustering_silhouette(m, ls, sub, sg)\n',
      '''def b(m, ls, sub, sg):
    if not sub:
        raise ValueError
    low = 10
    for i in range(0, len(set(ls))):
        n = len(ls[ls == i])
        sub.text(0, 0, str(i))
''', aspect=calls('text', recv=True, only=(2,), kwargs=False), rule='each bar is labelled with its cluster')
P.law('silhouette: mean line', U + 'plot_clustering_silhouette',
      'def a(m, ls, sub, sg):\n    return plot_clustering_silhouette(m, ls, sub, sg)\n',
      '''def b(m, ls, sub, sg):
    from sklearn.metrics import silhouette_score
    if not sub:
        raise ValueError
    s = silhouette_score(X=m, labels=ls, metric='precomputed')
    sub.axvline(x=s, color='red', linestyle='--')
    sub.set_title('Silhouette plot, score={:1.3f}'.format(s))
''', aspect=calls('axvline', 'set_title', recv=True), rule='the line and the title show the score')

# ---------------------------------------------------------------- histograms
DH = V + 'DistanceHistogram.'
H = 'DistanceHistogram(spt, dm, bins)'
PRED = '    if dm.distance_matrix is None:\n        raise ValueError\n'
P.law('histogram: distances', DH + 'distances_to_point',
      'def a(spt, dm, bins, p):\n    return %s.distances_to_point(p)\n' % H,
      'def b(spt, dm, bins, p):\n%s    return dm.distances_to_point(spt, p, spt.all_point_indices)\n'
      % PRED, keep=('distances_to_point',), rule='the distances of all the points of the region')
P.law('histogram: largest distance', DH + 'max_distance',
      'def a(spt, dm, bins, ds):\n    return %s.max_distance(ds)\n' % H,
      'def b(spt, dm, bins, ds):\n%s    return np.max([np.max(ds), -np.inf])\n' % PRED,
      rule='the largest of the distances')
P.law('histogram: largest of several', DH + 'max_distance',
      'def a(spt, dm, bins, ds, mo):\n    return %s.max_distance(ds, mo)\n' % H,
      'def b(spt, dm, bins, ds, mo):\n%s    if mo is None:\n        raise ValueError\n'
      '    return np.max([np.max(ds), mo])\n' % PRED, rule='the larger of the distances and the limit')
P.law('histogram: statistics', DH + 'statistics',
      'def a(spt, dm, bins, ds):\n    return %s.statistics(ds)\n' % H,
      '''def b(spt, dm, bins, ds):
%s    if not len(ds) > 1:
        raise ValueError
    return '{}\\nn = {}\\nmin = {:.2f}\\nmax =  {:.2f}\\nx̅ = {:.2f}\\ns = {:.2f}\\nM = {:0.2f}'.format(
        spt, len(spt.all_point_indices), np.partition(ds, 1)[1], np.max(ds), np.mean(ds), np.std(ds),
        np.median(ds))
''' % PRED, rule='number, smallest other than the point itself, largest, mean, deviation and median')
P.law('histogram: what is drawn', DH + 'plot',
      'def a(spt, dm, bins, ds, sub, mo, al):\n'
      '    %s.plot(ds, subplot=sub, max_override=mo, alpha=al)\n' % H,
      '''def b(spt, dm, bins, ds, sub, mo, al):
    if dm.distance_matrix is None or not sub:
        raise ValueError
    sub.hist(ds, label=str(spt), bins=bins, alpha=al)
    if mo:
        sub.set_xlim((0, mo))
''', aspect=calls('hist', 'set_xlim', recv=True), rule='the distances, up to the common limit')
P.law('histogram: statistics are drawn', DH + 'plot',
      'def a(spt, dm, bins, ds, sub, ws):\n'
      '    %s.plot(ds, subplot=sub, with_statistics=ws)\n' % H,
      '''def b(spt, dm, bins, ds, sub, ws):
    if dm.distance_matrix is None or not sub:
        raise ValueError
    if ws:
        sub.text(0, 0, DistanceHistogram(spt, dm, bins).statistics(ds))
''', aspect=calls('text', recv=True, only=(2,), kwargs=False), keep=('statistics', '!statistics'),
      rule='the statistics of the same distances are shown when asked for')
P.law('histogram: file', DH + 'plot',
      'def a(spt, dm, bins, ds, pn):\n    %s.plot(ds, plot_name=pn)\n' % H,
      '''def b(spt, dm, bins, ds, pn):
    import matplotlib.pyplot as plt
    if dm.distance_matrix is None:
        raise ValueError
    if pn:
        plt.savefig(pn)
''', aspect=calls('matplotlib.pyplot.savefig'), rule='the plot goes to its file')
P.law('histogram: of a region', DH + 'histogram_to_centroid',
      'def a(spt, dm, bins, pn):\n'
      '    DistanceHistogram.histogram_to_centroid(spt, dm, bins, pn)\n',
      '''def b(spt, dm, bins, pn):
    if not spt.has_centroid() or dm.distance_matrix is None:
        raise ValueError
    h = DistanceHistogram(spt, dm, bins)
    ds = dm.distances_to_point(spt, spt.get_centroid(), spt.all_point_indices)
    h.plot(ds, with_statistics=True, subplot=False, max_override=h.max_distance(ds), plot_name=pn)
''', aspect=calls('plot'), keep=('!plot', 'plot', 'distances_to_point', 'get_centroid', 'has_centroid'),
      rule='the distances to the centroid of the region')
P.law('histogram: a single point', DH + 'statistics',
      'def a(spt, dm, bins, v):\n    return len(%s.statistics(np.array([v]))) > 0\n' % H,
      'def b(spt, dm, bins, v):\n%s    return True\n' % PRED, aspect=raises,
      rule='the distances of a cluster that has one point are described')

# ---------------------------------------------------------------- random points
RC = 'DistanceHistogramWithRandomPointsOtherClusters'
RH = V + RC + '.'
MKC = '    h = DistanceHistogram(c, dm, bins)\n    r = %s(h, n)\n' % RC
CARE = '    if dm.distance_matrix is None:\n        raise ValueError\n'
RARGS = 'c: "SpatioTemporalRegion", dm, bins, n, p, ds, rs, mo, sub, ws, al'
for name, make in (('random points', MKC),
                   ('random points by themselves',
                    '    r = DistanceHistogramRandomOutsidePoints(c, dm, bins, n)\n')):
    P.law(name + ': drawn outside the cluster', RH + 'point_indices',
          'def a(%s):\n%s    return r.point_indices\n' % (RARGS, make),
          """def b(%s):
%s    own = c.all_point_indices
    _, x_len, y_len = c.shape
    rest = x_len * y_len - len(own)
    m = len(own) if n == 0 else n
    m = rest if m > rest else m
    return random_integers_with_blacklist(n=m, min_value=0, max_value=x_len * y_len - 1, blacklist=own)
""" % (RARGS, CARE), keep=('random_integers_with_blacklist', 'all_point_indices'), ints=('n',),
          rule='as many as asked for, else as there are in the cluster, and no more than there are '
          'outside')
P.same('spta.util.maths.random_integers_with_blacklist', '''
    def b(n, min_value, max_value, blacklist):
        return np.random.choice(list(set(range(min_value, max_value + 1)) - set(blacklist)), size=n, replace=False)
''', rule='different integers of the interval that are not excluded')
P.law('random integers without exclusions', 'spta.util.maths.random_integers_with_blacklist', '''
def a(n, lo, hi):
    from spta.util.maths import random_integers_with_blacklist
    return random_integers_with_blacklist(n, lo, hi)
''', '''
def b(n, lo, hi):
    from spta.util.maths import random_integers_with_blacklist
    return random_integers_with_blacklist(n, lo, hi, [])
''', rule='nothing is excluded unless asked for')
P.law('random points: distances', RH + 'distances_to_point',
      'def a(%s):\n%s    return r.distances_to_point(p)\n' % (RARGS, MKC),
      'def b(%s):\n%s%s    return (dm.distances_to_point(c, p, c.all_point_indices),\n'
      '            dm.distances_to_point(c, p, r.point_indices))\n' % (RARGS, CARE, MKC),
      keep=('distances_to_point', '!point_indices', 'all_point_indices'),
      rule='those of the members and those of the random points')
P.law('random points: largest distance', RH + 'max_distance',
      'def a(%s):\n%s    return r.max_distance((ds, rs), mo)\n' % (RARGS, MKC),
      'def b(%s):\n%s    return np.max([np.max(ds), np.max(rs), -np.inf if mo is None else mo])\n'
      % (RARGS, CARE), rule='the largest of both')
P.law('random points: statistics', RH + 'statistics',
      'def a(%s):\n%s    return r.statistics((ds, rs))\n' % (RARGS, MKC),
      """def b(%s):
%s    h = DistanceHistogram(c, dm, bins)
    return '{}\\n#rand = {}\\n∩rand = {}'.format(h.statistics(ds), len(rs), len(np.where(rs < np.max(ds))[0]))
""" % (RARGS, CARE), rule='how many there are, and how many are closer than the '
      'farthest member')
P.law('random points: what is drawn', RH + 'plot',
      'def a(%s):\n%s    r.plot((ds, rs), subplot=sub, max_override=mo, alpha=al)\n' % (RARGS, MKC),
      """def b(%s):
    if dm.distance_matrix is None or not sub:
        raise ValueError
    sub.hist(ds, label=str(c), bins=bins, alpha=al)
    sub.hist(rs, label='random', bins=bins, alpha=al)
    if mo:
        sub.set_xlim((0, mo))
""" % RARGS, aspect=calls('hist', 'set_xlim', recv=True), rule='both histograms, with their names')
P.law('random points: statistics are drawn', RH + 'plot',
      'def a(%s):\n%s    r.plot((ds, rs), subplot=sub, with_statistics=ws)\n' % (RARGS, MKC),
      """def b(%s):
    if dm.distance_matrix is None or not sub:
        raise ValueError
    if ws:
        sub.text(0, 0, %s(DistanceHistogram(c, dm, bins), n).statistics((ds, rs)))
""" % (RARGS, RC), aspect=calls('text', recv=True, only=(2,), kwargs=False), keep=('!statistics',),
      rule='the statistics are shown once when asked for')

MKR = '    r = DistanceHistogramRandomOutsidePoints(c, dm, bins, n)\n'
P.law('random points: file', RH + 'plot',
      'def a(%s, pn):\n%s    r.plot((ds, rs), plot_name=pn)\n' % (RARGS, MKC),
      """def b(%s, pn):
    import matplotlib.pyplot as plt
    if dm.distance_matrix is None:
        raise ValueError
    if pn:
        plt.savefig(pn)
""" % RARGS, aspect=calls('matplotlib.pyplot.savefig'), rule='the plot goes to its file')
P.law('random points by themselves: distances', V + 'DistanceHistogramRandomOutsidePoints.distances_to_point',
      'def a(%s):\n%s    return r.distances_to_point(p)\n' % (RARGS, MKR),
      'def b(%s):\n%s%s    return dm.distances_to_point(c, p, r.point_indices)\n' % (RARGS, CARE, MKR),
      keep=('distances_to_point', '!point_indices', 'all_point_indices'),
      rule='the distances of the random points')
P.law('random points by themselves: what is drawn', V + 'DistanceHistogramRandomOutsidePoints.plot',
      'def a(%s):\n%s    r.plot(rs, subplot=sub, max_override=mo, alpha=al)\n' % (RARGS, MKR),
      """def b(%s):
    if dm.distance_matrix is None or not sub:
        raise ValueError
    sub.hist(rs, label='random', bins=bins, alpha=al)
    if mo:
        sub.set_xlim((0, mo))
""" % RARGS, aspect=calls('hist', 'set_xlim', recv=True), rule='the random points are named')

# ---------------------------------------------------------------- one histogram per cluster
CH = V + 'DistanceHistogramClusters.'


def both(*aspects):
    return lambda r, I: mk('tuple', '', tuple(f(r, I) for f in aspects))


def result(r, I):
    return T.drop_raises(r.value)


def grid(I, recv, args, kw, e):
    '''a figure and its axes: the sizes do not matter'''
    return mk('tuple', '', (mk('sym', 'fig'), mk('call', 'axes', tuple(args), ())))


for rnd, kind in ((None, 'DistanceHistogram(c, alg.distance_measure, bins)'),
                  (0, RC + '(DistanceHistogram(c, alg.distance_measure, bins), 0)'),
                  (5, RC + '(DistanceHistogram(c, alg.distance_measure, bins), 5)')):
    CARGS = 'cs, alg, bins, ws, pd, al'
    MK = '    x = DistanceHistogramClusters(cs, alg, %s, bins)\n' % rnd
    OKC = ('    for c in cs:\n        if not c.has_centroid():\n            raise ValueError\n'
           '    if alg.distance_measure.distance_matrix is None:\n        raise ValueError\n')
    DIST = '''
    import matplotlib.pyplot as plt
    for c in cs:
        if not c.has_centroid():
            raise ValueError
    if alg.distance_measure.distance_matrix is None:
        raise ValueError
    hs = [%s for c in cs]
    top = -np.inf
    for i in range(len(cs)):
        top = hs[i].max_distance(hs[i].distances_to_point(cs[i].centroid), top)
''' % kind
    P.law('cluster histograms (random %s): common scale' % rnd, CH + 'max_distance',
          'def a(%s):\n%s    return x.max_distance()\n' % (CARGS, MK),
          'def b(%s):\n%s    return top\n' % (CARGS, DIST),
          keep=('distances_to_point', '!distances_to_point', 'max_distance'),
          rule='the largest distance of a point to the centroid of its cluster')
    GRID = '''
    a, x_len, y_len = cs[0].shape
    dx, dy = two_balanced_divisors_order_x_y(len(cs), x_len, y_len)
    f, axes = plt.subplots(dx, dy)
    for i, c in enumerate(cs):
        if dx == 1:
            sub = axes[i % dy]
        elif dy == 1:
            sub = axes[i // dy]
        else:
            sub = axes[i // dy, i % dy]
        hs[i].plot(hs[i].distances_to_point(c.centroid), subplot=sub, max_override=top,
                   with_statistics=True)
'''
    for what, names, only, ks in (('places', ('hist',), (0,), False),
                                  ('one scale', ('set_xlim',), None, True),
                                  ('statistics', ('text',), (2,), False)):
        P.law('cluster histograms (random %s): %s' % (rnd, what), CH + 'plot',
              'def a(%s):\n%s    x.plot()\n' % (CARGS, MK),
              'def b(%s):\n%s%s' % (CARGS, DIST, GRID),
              keep=('two_balanced_divisors_order_x_y', 'distances_to_point', '!distances_to_point',
                    '!statistics'), hooks={'matplotlib.pyplot.subplots': grid}, ints=('dx', 'dy'),
              aspect=calls(*names, recv=True, only=only, kwargs=ks, pc=False),
              rule='the distances of each cluster to its centroid are drawn at its place of the '
              'grid, on one scale')
    P.law('cluster histograms (random %s): file' % rnd, CH + 'plot',
          'def a(%s):\n%s    x.plot(plot_dir=pd)\n' % (CARGS, MK),
          'def b(%s):\n%s%s' % (CARGS, DIST, GRID) +
          "    if pd is not None:\n        plt.savefig('{}/variance-histograms__{!r}%s.pdf'"
          '.format(pd, alg))\n' % ('' if rnd is None else '__random%d' % rnd),
          keep=('two_balanced_divisors_order_x_y', 'distances_to_point', '!distances_to_point'),
          hooks={'matplotlib.pyplot.subplots': grid}, ints=('dx', 'dy'),
          aspect=calls('matplotlib.pyplot.savefig'),
          rule='the file names the clustering and the number of random points')

P.law('cluster histograms: options', CH + 'cluster_histograms',
      'def a(cs, alg, n, bins, ws, pd, al):\n'
      '    DistanceHistogramClusters.cluster_histograms(cs, alg, n, bins, ws, pd, al)\n',
      """def b(cs, alg, n, bins, ws, pd, al):
    DistanceHistogramClusters(cs, alg, n, bins).plot(with_statistics=ws, plot_dir=pd, alpha=al)
""", keep=('!plot',), aspect=calls('plot', recv=True), rule='the options are passed on')

# ---------------------------------------------------------------- distances against errors
P.law('distances against errors', U + 'plot_distances_vs_forecast_errors',
      'def a(ds, es, dm, et, info, pn, t):\n    plot_distances_vs_forecast_errors(ds, es, dm, et, info, pn, t)\n',
      """def b(ds, es, dm, et, info, pn, t):
    import matplotlib.pyplot as plt
    f, sub = plt.subplots(1, 1)
    sub.plot(ds, es, 'bo')
    sub.set_title(t)
    if info:
        sub.text(0, 0, info)
    sub.set_xlabel('Distances to medoid ({})'.format(dm))
    sub.set_ylabel('{} forecast errors'.format(et))
    if pn:
        plt.savefig(pn)
""", aspect=both(calls('plot', recv=True, only=(0, 1)), calls('text', only=(2,), kwargs=False),
                 calls('set_title', 'set_xlabel', 'set_ylabel', 'matplotlib.pyplot.savefig')), hooks={'matplotlib.pyplot.subplots': grid},
      rule='distances along the horizontal axis, errors along the vertical one, each named')
FA = 'spta.model.forecast.ForecastAnalysis.plot_distances_vs_errors'
FARGS = 'fa: "ForecastAnalysis", p, n, et, dm, pn, pdesc'
P.law('distances against errors of a model: what is drawn', FA,
      'def a(%s):\n    fa.plot_distances_vs_errors(p, n, et, dm, pn, pdesc)\n' % FARGS,
      """def b(%s):
    import matplotlib.pyplot as plt
    fa.check_forecast_request(n)
    ds = dm.distances_to_point(fa.spt_region, p, fa.spt_region.all_point_indices, use_distance_matrix=True)
    region = fa.forecast_whole_region_with_single_model(p, n, et)
    f, sub = plt.subplots(1, 1)
    sub.plot(ds, [e for q, e in region], 'bo')
""" % FARGS, aspect=calls('plot', recv=True, only=(0, 1)),
      hooks={'matplotlib.pyplot.subplots': grid},
      keep=('distances_to_point', 'forecast_whole_region_with_single_model', 'check_forecast_request'),
      rule='the distance of each point against the error of the model at the given point')
P.law('distances against errors of a model: names', FA,
      'def a(%s):\n    fa.plot_distances_vs_errors(p, n, et, dm, pn, pdesc)\n' % FARGS,
      """def b(%s):
    import matplotlib.pyplot as plt
    fa.check_forecast_request(n)
    f, sub = plt.subplots(1, 1)
    sub.set_ylabel('{} forecast errors'.format(et))
    if pn:
        plt.savefig(pn)
""" % FARGS, aspect=calls('set_ylabel', 'matplotlib.pyplot.savefig', pc=False),
      hooks={'matplotlib.pyplot.subplots': grid},
      keep=('distances_to_point', 'forecast_whole_region_with_single_model', 'check_forecast_request'),
      rule='the kind of error is named and the plot goes to its file')
P.law('distances against errors of a model: description', FA,
      'def a(%s):\n    fa.plot_distances_vs_errors(p, n, et, dm, pn, pdesc)\n' % FARGS,
      """def b(%s):
    import matplotlib.pyplot as plt
    f, sub = plt.subplots(1, 1)
    sub.text(0, 0, '{}\\nARIMA: {}\\n{}'.format(fa.spt_region, fa.model_region.value_at(p).model.order, pdesc))
""" % FARGS, aspect=calls('text', only=(2,), kwargs=False, pc=False),
      hooks={'matplotlib.pyplot.subplots': grid},
      keep=('distances_to_point', 'forecast_whole_region_with_single_model', 'check_forecast_request'),
      rule='the order of the model at that point is shown')

# ---------------------------------------------------------------- silhouette of a suite
SA = 'spta.clustering.silhouette.SilhouetteAnalysis.'
SARG = 's: "SilhouetteAnalysis", part, ca, oh'
P.law('silhouette of a clustering', SA + 'single_silhouette',
      'def a(%s):\n    return s.single_silhouette(part, ca, oh)\n' % SARG,
      """def b(%s):
    import matplotlib.pyplot as plt
    if s.distance_measure.distance_matrix is None:
        raise ValueError
    labels = part.numpy_dataset.reshape(s.spt_region.x_len * s.spt_region.y_len)
    f, (left, right) = plt.subplots(1, 2)
    plot_2d_clusters(labels, (s.spt_region.x_len, s.spt_region.y_len), title='Clustering', subplot=left)
    return plot_clustering_silhouette(s.distance_measure.distance_matrix, labels, subplot=right)
""" % SARG, attr_types={'spt_region': 'SpatioTemporalRegion'}, hooks={'matplotlib.pyplot.subplots': grid},
      aspect=both(result, calls('plot_2d_clusters', 'plot_clustering_silhouette')),
      keep=('plot_clustering_silhouette', 'plot_2d_clusters'),
      rule='the labels over the region and the silhouette of the same labels, side by side')
P.law('silhouette of a clustering: file', SA + 'single_silhouette',
      'def a(%s):\n    return s.single_silhouette(part, ca, oh)\n' % SARG,
      """def b(%s):
    import matplotlib.pyplot as plt
    if s.distance_measure.distance_matrix is None:
        raise ValueError
    f, (left, right) = plt.subplots(1, 2)
    f.savefig('{}/silhouette-{!r}.pdf'.format(
        ca.metadata.output_dir(oh, s.region_metadata, s.distance_measure), ca))
""" % SARG, attr_types={'spt_region': 'SpatioTemporalRegion'}, hooks={'matplotlib.pyplot.subplots': grid},
      aspect=calls('savefig', recv=True), keep=('plot_clustering_silhouette', 'plot_2d_clusters'),
      rule='the file names the clustering')
P.law('silhouette of a suite: distances', SA + 'perform_analysis',
      'def a(s: "SilhouetteAnalysis", oh, ph):\n    return s.perform_analysis(oh, ph)\n',
      """def b(s: "SilhouetteAnalysis", oh, ph):
    if s.distance_measure.distance_matrix is None:
        s.distance_measure.load_distance_matrix_2d(s.region_metadata.distances_filename,
                                                   s.region_metadata.region)
""", keep=('single_silhouette', 'partition', 'instance', 'load_distance_matrix_2d'),
      aspect=calls('load_distance_matrix_2d', recv=True),
      rule='the distances of the region are read when there are none')
P.law('silhouette of a suite', SA + 'perform_analysis',
      'def a(s: "SilhouetteAnalysis", oh, ph):\n    return s.perform_analysis(oh, ph)\n',
      """def b(s: "SilhouetteAnalysis", oh, ph):
    best = -1
    which = None
    for cm in s.clustering_suite:
        ca = s.clustering_factory.instance(cm)
        part = ca.partition(s.spt_region, with_medoids=True, save_csv_at=oh, pickle_home=ph)
        score = s.single_silhouette(part, ca, oh)
        if score > best:
            best, which = score, ca
    return best, which
""", keep=('single_silhouette', 'partition', 'instance', 'load_distance_matrix_2d'),
      rule='the best score of all the clusterings and the clustering that has it')
KS = 'spta.kmedoids.silhouette.KmedoidsWithSilhouette.'
KCFG = dict(name_types={'md': 'SpatioTemporalRegionMetadata'},
            attr_types={'distance_measure': 'DistanceByDTW'}, ndims={'saved': 3},
            hooks={'np.load': lambda I, recv, args, kw, e: mk('sym', 'saved'),
                   'matplotlib.pyplot.subplots': grid})
KMK = '    x = spta.kmedoids.silhouette.KmedoidsWithSilhouette(md, sm)\n'
P.law('distances to two points', KS + 'show_distances',
      'def a(md, sm):\n%s    x.show_distances()\n' % KMK, '''
def b(md, sm):
    d = np.load(md.dataset_filename)
    x_len, y_len = d.shape[d.ndim - 2], d.shape[d.ndim - 1]
    dm = sm.distance_measure
    m = dm.load_distance_matrix_2d(md.distances_filename, md.region)
    import matplotlib.pyplot as plt
    _, one = plt.subplots(1, 1)
    one.imshow(m[0].reshape((x_len, y_len)), interpolation='nearest')
    one.set_title('Distances to point at (0,0)')
    c = int(x_len * y_len / 2)
    if x_len % 2 == 0:
        c = c + int(y_len / 2)
    _, other = plt.subplots(1, 1)
    other.imshow(m[c].reshape((x_len, y_len)), interpolation='nearest')
    other.set_title('Distances to center point')
''', aspect=calls('imshow', 'set_title'), keep=('load_distance_matrix_2d',), **KCFG,
      rule='the distances to the first and to the middle point, arranged as the region')
P.law('files of the distances to two points', KS + 'show_distances',
      'def a(md, sm):\n%s    x.show_distances()\n' % KMK, '''
def b(md, sm):
    import matplotlib.pyplot as plt
    plt.savefig('plots/distances_0_0_{}.eps'.format(md.name))
    plt.savefig('plots/distances_center_{}.eps'.format(md.name))
''', aspect=calls('matplotlib.pyplot.savefig'), keep=('plot_discrete_spatial_region',
      'load_distance_matrix_2d'), **KCFG, rule='each plot goes to its own file')
P.law('best silhouette', KS + 'silhouette_analysis',
      'def a(md, sm):\n%s    x.silhouette_analysis()\n' % KMK, '''
def b(md, sm):
    import matplotlib.pyplot as plt
    spt = SpatioTemporalRegion(np.load(md.dataset_filename))
    dm = sm.distance_measure
    dm.load_distance_matrix_2d(md.distances_filename, md.region)
    k, seed, meds, labels = spta.kmedoids.silhouette.do_silhouette_analysis(spt, sm)
    f, (left, right) = plt.subplots(1, 2)
    plot_2d_clusters(labels, spt.shape_2d, title='Clustering', subplot=left)
    plot_clustering_silhouette(dm.distance_matrix, labels, subplot=right)
''', aspect=calls('plot_2d_clusters', 'plot_clustering_silhouette', 'load_distance_matrix_2d'),
      keep=('plot_2d_clusters', 'plot_clustering_silhouette', 'load_distance_matrix_2d',
            'do_silhouette_analysis'), **KCFG,
      rule='the best labels over the region and their silhouette')
P.law('figure of one clustering', 'spta.kmedoids.silhouette.single_silhouette', '''
def a(r, s, shape):
    from spta.kmedoids.silhouette import single_silhouette
    single_silhouette(r, s, shape)
''', '''
def b(r, s, shape):
    import matplotlib.pyplot as plt
    if s.distance_measure.distance_matrix is None:
        raise ValueError
    f, (left, right) = plt.subplots(1, 2)
    if s.save_graphs is not None:
        f.savefig('{}_k{}_seed{}.eps'.format(s.save_graphs, r.k, r.random_seed))
''', aspect=calls('savefig', recv=True), keep=('plot_2d_clusters', 'plot_clustering_silhouette'),
      hooks={'matplotlib.pyplot.subplots': grid}, rule='the file names the clusters and the seed')
P.same(U + 'plot_pandas_heatmap', '''
    def b(df, x_col, y_col, value_col, scale, ax):
        import seaborn as sns
        t = df.pivot(index=x_col, columns=y_col, values=value_col)
        if ax is None:
            return sns.heatmap(t, annot=True, vmin=scale[0], vmax=scale[1])
        sns.heatmap(t, annot=True, vmin=scale[0], vmax=scale[1], ax=ax)
        return ax
''', aspect=both(result, calls('seaborn.heatmap')), rule='the first coordinate runs down, the second across')

P.same(U + 'plot_series_group', '''
    def b(series_group, series_len):
        import matplotlib.pyplot as plt
        for s in series_group:
            plt.plot(range(series_len), s)
''', aspect=calls('matplotlib.pyplot.plot'), rule='every series of the group')
P.same(U + 'plot_series_group_by_color', '''
    def b(series_group, series_len, colors):
        import matplotlib.pyplot as plt
        from spta.util.plot import PALETTE
        if len(set(colors)) > len(PALETTE):
            raise ValueError
        for i, s in enumerate(series_group):
            plt.plot(range(series_len), s, c=PALETTE[colors[i]])
''', aspect=calls('matplotlib.pyplot.plot'), rule='every series of the group in its own colour')


# ---------------------------------------------------------------- the order of saving and showing
def new_figure(I, recv, args, kw, e):
    I.event('call', const('new figure'), e, args=(None, 'new figure', (), {}))
    return mk('tuple', '', (const('figure'), const('axes')))


def saved_before_shown(q):
    def rule(cx):
        from sa.obl import Outcome, OK, VIOLATION, UNDECIDED
        f, I, r = cx.summarise(q, hooks={'matplotlib.pyplot.subplots': new_figure})
        shown, saved = [], 0
        for e in r.trace:
            if e.kind != 'call':
                continue
            n = str(e.args[1])
            if n in ('matplotlib.pyplot.figure', 'new figure'):
                shown = [pc for pc in shown if T.b_and(pc, T.b_not(e.pc)) is not T.FALSE
                         and not e.loops]
            elif n == 'matplotlib.pyplot.show':
                shown.append(e.pc)
            elif n == 'matplotlib.pyplot.savefig':
                saved += 1
                if any(T.b_and(pc, e.pc) is not T.FALSE for pc in shown):
                    return Outcome(VIOLATION, 'the figure is saved after it has been shown (and '
                                   'with that, closed)', cx.where(f))
        cx.sites += saved
        return Outcome(OK) if saved else Outcome(UNDECIDED, 'no figure is saved', cx.where(f))
    return rule


V = 'spta.distance.variance.DistanceHistogram'
for q in ('spta.util.plot.plot_distances_vs_forecast_errors',
          'spta.solver.model.SolverWithMedoids.plot_regions',
          V + '.plot', V + 'WithRandomPointsOtherClusters.plot', V + 'Clusters.plot',
          'spta.model.forecast.ForecastAnalysis.plot_distances_vs_errors',
          KS + 'show_distances', 'experiments.region.distance.show_distances'):
    P.rule('saved before it is shown: ' + q, 'a figure is written to its file before it is shown, '
           'since showing it closes it')(saved_before_shown(q))

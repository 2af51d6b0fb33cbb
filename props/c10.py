'''C10: what the system writes as text it reads back as the same values.'''
from sa.prop import *     # noqa

P = Prop('C10',
         'Value-graph evaluation of every writer composed with its reader (representation then '
         'parser, CSV rows then CSV reader): formatted text is kept as a sequence of constant '
         'pieces and values, so splitting and parsing it is decided for symbolic values; the '
         'result must be the value that was written.',
         cfg={'atomic': ('k', 'seed', 'mode', 'i', 'x', 'y', 'c1', 'c2'),
              'attr_types': {'region_metadata': 'SpatioTemporalRegionMetadata',
                             'region': 'Region'},
              'name_types': {'rm': 'SpatioTemporalRegionMetadata', 'dm': 'DistanceByDTW',
                             'spt': 'SpatioTemporalRegion'}},
         assumptions=['the number of clusters, the seed and coordinates are integers and the mode '
                      'is a word without the separator used in the representation'])
K = 'spta.clustering.'

for nm, cls in (('regular', 'RegularClusteringMetadata'), ('dbscan', 'DbscanClusteringMetadata')):
    P.law('%s metadata from its representation' % nm, K + nm + '.%s.from_repr' % cls,
          'def a(k):\n    return %s.from_repr(repr(%s(k)))\n' % (cls, cls),
          'def b(k):\n    return %s(k)\n' % cls,
          rule='parsing the representation gives back the same number of clusters')

OPTS = ['', 'initial_medoids=[c1, c2]', 'max_iter=10', 'max_iter=5000', 'tol=0.5', 'tol=0.0001',
        'max_iter=10, tol=0.5', 'initial_medoids=[c1, c2], max_iter=10',
        'initial_medoids=[c1, c2], tol=0.5', 'initial_medoids=[c1], max_iter=7, tol=0.25']
for o in OPTS:
    a = ', ' + o if o else ''
    for via in ('KmedoidsClusteringMetadata', 'ClusteringMetadataFactory()'):
        P.law('kmedoids metadata from its representation (%s) by %s'
              % (o or 'defaults', via.rstrip('()')),
              K + ('kmedoids.KmedoidsClusteringMetadata.from_repr' if via[0] == 'K' else
                   'factory.ClusteringMetadataFactory.from_repr'),
              'def a(k, seed, mode, c1, c2):\n    m = KmedoidsClusteringMetadata(k, random_seed='
              'seed, mode=mode%s)\n    return %s.from_repr(repr(m))\n' % (a, via),
              'def b(k, seed, mode, c1, c2):\n    return KmedoidsClusteringMetadata(k, '
              'random_seed=seed, mode=str(mode)%s)\n' % a,
              rule='parsing the representation gives back k, seed, mode, initial medoids, '
                   'iterations and tolerance')
P.law('regular metadata by the factory', K + 'factory.ClusteringMetadataFactory.from_repr',
      'def a(k):\n    return ClusteringMetadataFactory().from_repr(repr(RegularClusteringMetadata(k)))\n',
      'def b(k):\n    return RegularClusteringMetadata(k)\n',
      rule='the factory chooses the parser of the kind named by the representation')
P.law('classifier label', K + 'kmedoids.KmedoidsClusteringMetadata.from_classifier_label',
      "def a(k, seed, i):\n    return KmedoidsClusteringMetadata.from_classifier_label("
      "'{}-{}-{}'.format(k, seed, i))\n",
      'def b(k, seed, i):\n    return KmedoidsClusteringMetadata(k, random_seed=seed)\n',
      rule='a label k-seed-index denotes the k-medoids clustering with that k and seed')
P.law('classifier label of a mode', K + 'kmedoids.KmedoidsClusteringMetadata.from_classifier_label',
      "def a(k, seed, i, mode):\n    return KmedoidsClusteringMetadata.from_classifier_label("
      "'{}-{}-{}'.format(k, seed, i), mode)\n",
      'def b(k, seed, i, mode):\n    return KmedoidsClusteringMetadata(k, random_seed=seed, mode=str(mode))\n',
      rule='a label k-seed-index denotes the k-medoids clustering with that k, seed and mode')

# ---------------------------------------------------------------- medoids in the suite CSV
P.law('coordinates of medoids as text', 'spta.kmedoids.medoids_to_absolute_coordinates',
      'def a(rm, d, m1, m2):\n    return medoids_to_absolute_coordinates('
      'SpatioTemporalRegion(d, region_metadata=rm), [m1, m2])\n',
      "def b(rm, d, m1, m2):\n    if rm is None:\n        raise ValueError\n    p = rm.index_to_absolute_point(m1)\n    q = rm.index_to_absolute_"
      "point(m2)\n    return '({},{}) ({},{}) '.format(p.x, p.y, q.x, q.y)\n",
      rule='(x,y) followed by a space for every medoid, in order')


# ---------------------------------------------------------------- the suite CSV, written and read
WRITE = '''
def a(rm, dm, seed, x1, y1, x2, y2, logger):
    class Cluster:
        def __init__(self, p):
            self.centroid = p
            self.all_point_indices = [p.x]
    class Part:
        def __init__(self):
            self.medoids = [Point(x1, y1), Point(x2, y2)]
        def create_all_spt_clusters(self, spt_region, medoids=None, centroids=None):
            return [Cluster(m) for m in self.medoids]
    class Alg(KmedoidsClusteringAlgorithm):
        def partition(self, spt_region, with_medoids=True, save_csv_at=None, pickle_home=None):
            return Part()
    class Args:
        def __init__(self):
            self.variance = None
            self.random = None
    alg = Alg(KmedoidsClusteringMetadata(2, random_seed=seed), dm)
    return analyze_partition(rm, alg, 'outputs', logger, Args())
'''
READ = '''
def a(suite: 'ClusteringSuite', rm, dm, seed, x1, y1, x2, y2):
    return suite.retrieve_suite_result_csv('outputs', rm, dm)
'''
WANT = '''
def b(rm, seed, x1, y1, x2, y2):
    r = rm.create_instance().region_metadata.region
    d = {}
    d['kmedoids_k2_seed{}_lite'.format(seed)] = [
        Point(x1 + r.x1, y1 + r.y1), Point(x2 + r.x1, y2 + r.y1)]
    return d
'''


def reader_of(rows):
    '''a CSV reader that yields the given rows'''
    def reader(I, recv, args, kw, e):
        return I.alloc(mk('list', tuple(rows)))

    def nxt(I, recv, args, kw, e):
        c = I.content(args[0])
        if c.op != 'list' or not c.args[0]:
            return None
        I.set_content(args[0], mk('list', c.args[0][1:]))
        return c.args[0][0]
    return {'csv.reader': reader, 'next': nxt}


@P.rule('suite CSV: medoids', 'the medoids read from the CSV are the medoids written to it')
def suite_csv(cx):
    f = cx.find('spta.clustering.suite.ClusteringSuite.retrieve_suite_result_csv')
    cx.find('experiments.clustering.partition_analysis.analyze_partition')
    I = cx.interp(keep=('combine', 'distances_to_point', 'create_instance', 'create_point'),
                  atomic=('x1', 'x2', 'y1', 'y2', 'rm'))
    r = I.client(WRITE)
    rows = []

    def row(u):
        if u.op == 'list':
            rows.append(u)
        return u
    T.map_leaves(r.ok, row)
    if len(rows) != 1:
        raise Skip('the written row is not a list')
    head = mk('list', (const('clustering'), const('total_cost'), const('medoids')))
    J = cx.interp(hooks=reader_of([head] + rows), atomic=('x1', 'x2', 'y1', 'y2', 'rm'))
    s = J.client(READ)
    cx.functions |= I.functions_seen | J.functions_seen
    _, w = cx.spec(WANT, keep=('create_instance',))
    return cx.compare(canon(s.ok), canon(w.ok), cx.where(f), J.functions_seen, 'medoids')



def dialect_of(cx, q, call):
    '''the delimiter and quote character of every CSV reader or writer opened by a function'''
    f = cx.find(q)
    I = cx.interp(keep=('analyze_partition', 'metadata_from_args', 'ClusteringFactory',
                        'SilhouetteAnalysis', 'load_distance_matrix_2d', 'DistanceByDTW', 'mkdir',
                        'analysis_csv_filepath', 'setup_log_argparse'))
    r = I.run(f)
    cx.functions |= I.functions_seen
    out = set()
    for e in r.trace:
        if e.kind in ('call', 'mcall') and e.args and e.args[1] == call:
            kw = e.args[3]
            out.add(tuple(T.show(kw[k]) if k in kw else '-' for k in ('delimiter', 'quotechar')))
    if not out:
        raise Skip('no %s in %s' % (call, q))
    return f, out


@P.rule('suite CSV: dialect', 'the CSV is read with the separators it is written with')
def dialect(cx):
    w, a = dialect_of(cx, 'experiments.clustering.partition_analysis.analyze_suite', 'csv.writer')
    f, b = dialect_of(cx, 'spta.clustering.suite.ClusteringSuite.retrieve_suite_result_csv',
                      'csv.reader')
    if a == b and len(a) == 1:
        return Outcome(OK, 'dialect %s' % (a,))
    return Outcome(VIOLATION, 'written with %s and read with %s' % (sorted(a), sorted(b)),
                   cx.where(f))

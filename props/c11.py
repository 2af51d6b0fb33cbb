'''C11: a name selects exactly what it names.'''
from sa.prop import *     # noqa

P = Prop('C11',
         'Value-graph evaluation of every registry, factory and suite: constant tables are '
         'unrolled completely and each entry is compared with what its name says; factories are '
         'compared, for a symbolic name, with the selection the names stand for.',
         cfg={'name_types': {'rm': 'SpatioTemporalRegionMetadata', 'dm': 'DistanceByDTW'}})
E = 'experiments.metadata.'
K = 'spta.clustering.'


def entries(cx, src, **kw):
    I = cx.interp(**kw)
    r = I.client(src)
    cx.functions |= I.functions_seen
    v = r.ok
    v = v if v.op == 'dict' else canon(v)
    if v.op != 'dict':
        raise Skip('the table is not a constant dictionary')
    return v.args[0], I, r


@P.rule('predefined regions', 'every entry of the table is the region metadata its name describes')
def regions(cx):
    f = cx.find(E + 'region.predefined_regions')
    es, I, r = entries(cx, 'def a():\n    return {k: repr(v) for k, v in predefined_regions()'
                       '.items()}\n')
    out = []
    for k, v in es:
        if k is v:
            out.append(Outcome(OK))
        elif k.op == 'str' and v.op == 'str':
            out.append(Outcome(VIOLATION, 'entry %s describes %s' % (k.args[0], v.args[0]),
                               cx.where(f)))
        else:
            out.append(Outcome(UNDECIDED, 'entry %s is not constant' % T.show(k)))
    return out


def table(name, at, src, want, rule):
    P.law(name, at, src, want, rule=rule)


for nm in ('MASE', 'sMAPE', 'MSE'):
    P.law('error function %s' % nm, 'spta.model.error.get_error_func',
          "def a(f, o, t):\n    return get_error_func('%s')(f, o, t)\n" % nm,
          "def b(f, o, t):\n    return %s(f, o, t)\n" % nm.lower(),
          rule='the error type selects the measure of that name')
    P.law('overall error function %s' % nm, 'spta.model.error.get_overall_error_func',
          "def a(p, f, o: 'SpatioTemporalRegion', t: 'SpatioTemporalRegion'):\n"
          "    return get_overall_error_func('%s')(p, f, o, t, with_print=False)\n" % nm,
          "def b(p, f, o: 'SpatioTemporalRegion', t: 'SpatioTemporalRegion'):\n"
          "    return overall_error_generic(get_error_func('%s'), p, f, o, t, False)\n" % nm,
          keep=('overall_error_generic',),
          rule='the error type selects the overall error of the measure of that name')
for g in ('get_error_func', 'get_overall_error_func'):
    P.law('%s of an unknown name' % g, 'spta.model.error.' + g,
          "def a():\n    return %s('RMSLE')\n" % g, 'def b():\n    raise ValueError\n',
          strict='raises', rule='an unknown error type is rejected')

P.law('clustering metadata by name', K + 'factory.ClusteringMetadataFactory.instance',
      'def a(name, k, seed, mode, im, mi, tol):\n    return ClusteringMetadataFactory().instance('
      'name, k, random_seed=seed, mode=mode, initial_medoids=im, max_iter=mi, tol=tol)\n',
      """def b(name, k, seed, mode, im, mi, tol):
    if name == 'regular':
        return RegularClusteringMetadata(k)
    if name == 'kmedoids':
        return KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode, initial_medoids=im, max_iter=mi, tol=tol)
    raise ValueError
""", strict='raises', rule='the name selects the kind of clustering and all parameters are kept')
P.law('clustering algorithm by name', K + 'factory.ClusteringFactory.instance',
      "def a(md: 'ClusteringMetadata', dm):\n    return ClusteringFactory(dm).instance(md)\n",
      """def b(md: 'ClusteringMetadata', dm):
    if md.name == 'regular':
        return RegularClusteringAlgorithm(md, dm)
    if md.name == 'kmedoids':
        return KmedoidsClusteringAlgorithm(md, dm)
    raise ValueError
""", strict='raises', rule='the kind of the metadata selects the algorithm, which uses that '
                           'metadata and distance measure')

# ---------------------------------------------------------------- suites
P.law('k-medoids suite', K + 'suite.ClusteringSuite.__init__',
      'def a(ident, k1, k2, s1, s2, mode, im, mi, tol):\n    return list(ClusteringSuite(ident, '
      "'kmedoids', k=[k1, k2], random_seed=[s1, s2], mode=mode, initial_medoids=im, max_iter=mi, "
      'tol=tol))\n',
      """def b(ident, k1, k2, s1, s2, mode, im, mi, tol):
    out = []
    for k in (k1, k2):
        for s in (s1, s2):
            out.append(KmedoidsClusteringMetadata(k, random_seed=s, mode=mode, initial_medoids=im, max_iter=mi, tol=tol))
    return out
""", rule='one metadata for every combination of k and seed, with the other parameters as given')
for nm, sd in (('', 'int(s)'), (' zero', '0'), (' one', '1')):
    P.law('k-medoids suite, single seed' + nm, K + 'suite.ClusteringSuite.__init__',
          "def a(ident, k1, k2, s, mode):\n    return list(ClusteringSuite(ident, 'kmedoids', "
          "k=[k1, k2], random_seed=%s, mode=mode))\n" % sd,
          "def b(ident, k1, k2, s, mode):\n    return [KmedoidsClusteringMetadata(k1, "
          "random_seed=%s, mode=mode), KmedoidsClusteringMetadata(k2, random_seed=%s, mode=mode)]\n"
          % (sd, sd),
          rule='one metadata for every k when a single seed is given')
P.law('regular suite', K + 'suite.ClusteringSuite.__init__',
      "def a(ident, k1, k2):\n    return list(ClusteringSuite(ident, 'regular', k=[k1, k2]))\n",
      "def b(ident, k1, k2):\n    return [RegularClusteringMetadata(k1), RegularClusteringMetadata(k2)]\n",
      rule='one metadata for every k')
P.law('generator of k-medoids suites', K + 'kmedoids.kmedoids_metadata_generator',
      'def a(k1, s1, s2, mode, im, mi, tol):\n    return list(kmedoids_metadata_generator([k1], '
      '[s1, s2], mode=mode, initial_medoids=im, max_iter=mi, tol=tol))\n',
      """def b(k1, s1, s2, mode, im, mi, tol):
    out = []
    for s in (s1, s2):
        out.append(KmedoidsClusteringMetadata(k1, random_seed=s, mode=mode, initial_medoids=im, max_iter=mi, tol=tol))
    return out
""", rule='the parameters of the suite reach every metadata')
P.law('generator of regular suites', K + 'regular.regular_metadata_generator',
      'def a(k1, k2):\n    return list(regular_metadata_generator([k1, k2]))\n',
      'def b(k1, k2):\n    return [RegularClusteringMetadata(k1), RegularClusteringMetadata(k2)]\n',
      rule='the parameters of the suite reach every metadata')
P.law('suite by kind and name', E + 'clustering.get_suite',
      'def a(t, n):\n    return get_suite(t, n)\n',
      """def b(t, n):
    if t == 'kmedoids':
        return kmedoids_suites()[n]
    if t == 'regular':
        return regular_suites()[n]
    raise ValueError
""", keep=('kmedoids_suites', 'regular_suites'),
      rule='a suite is looked up among the suites of the requested kind')
GEN = ('kmedoids_metadata_generator', 'regular_metadata_generator')
P.law('suite options', E + 'clustering.suite_options',
      'def a():\n    return sorted(suite_options())\n',
      'def b():\n    return sorted(set(kmedoids_suites().keys()).union('
      'set(regular_suites().keys())))\n', keep=GEN,
      rule='the offered identifiers are those of the existing suites')
for kind in ('kmedoids', 'regular'):
    @P.rule('table of %s suites' % kind, 'a table of suites of one kind holds suites of that kind')
    def suites(cx, kind=kind):
        f = cx.find(E + 'clustering.%s_suites' % kind)
        es, I, r = entries(cx, 'def a():\n    return %s_suites()\n' % kind, keep=GEN)
        out = []
        for k, v in es:
            if v.op != 'call' or not v.args[0].endswith('_metadata_generator'):
                out.append(Outcome(UNDECIDED, 'entry %s' % T.show(k)))
            elif v.args[0].endswith(kind + '_metadata_generator'):
                out.append(Outcome(OK))
            else:
                out.append(Outcome(VIOLATION, 'suite %s is of another kind' % T.show(k),
                                   cx.where(f), None, v))
        return out


# ---------------------------------------------------------------- ARIMA suites
P.law('ARIMA parameters of a suite', 'spta.arima.ArimaSuiteParams.arima_params_gen',
      'def a(p1, p2, d1, d2, q1, q2):\n    return list(ArimaSuiteParams([p1, p2], [d1, d2], [q1, q2])'
      '.arima_params_gen())\n',
      """def b(p1, p2, d1, d2, q1, q2):
    out = []
    for p in (p1, p2):
        for d in (d1, d2):
            for q in (q1, q2):
                out.append(ArimaPDQ(p, d, q))
    return out
""", rule='every combination of p, d and q once')
P.law('ARIMA suite by name', E + 'arima.arima_suite_by_name',
      "def a(n):\n    s = arima_suite_by_name(n)\n    return [s.p_values, s.d_values, s.q_values]\n",
      "def b(n):\n    v = predefined_arima_suites()[n]\n    return [v[0], v[1], v[2]]\n",
      keep=('predefined_arima_suites',),
      rule='the values of p, d and q are taken from the entry with that name')
for n in ('1_1_1', '1_2_1', '2_2_2'):
    p, d, q = n.split('_')
    P.law('ARIMA suite %s' % n, E + 'arima.predefined_arima_suites',
          "def a():\n    return list(arima_suite_by_name('arima_%s').arima_params_gen())\n" % n,
          'def b():\n    return [ArimaPDQ(%s, %s, %s)]\n' % (p, d, q),
          rule='a suite named after p, d and q has those values')


def references(name, at, lookups, rule):
    @P.rule(name, rule)
    def f(cx):
        fn = cx.find(at)
        es, I, r = entries(cx, 'def a():\n    return %s()\n' % at.rsplit('.', 1)[-1], keep=GEN)
        out = []
        for k, v in es:
            if v.op != 'tuple':
                out.append(Outcome(UNDECIDED, 'experiment %s' % T.show(k)))
                continue
            J = cx.interp(keep=GEN)
            u = canon(J.client('def a(e: %r):\n    return [%s]\n' % (v.args[0], lookups),
                               {'e': v}).value)
            cx.functions |= J.functions_seen
            miss = [w for w in T.subterms(u) if w.op == 'index' and w.args[0].op == 'dict']
            if u.op == 'raise' or miss:
                out.append(Outcome(VIOLATION, 'experiment %s: %s refers to nothing' % (
                    T.show(k), T.show(miss[0].args[1]) if miss else 'a name'), cx.where(fn),
                    None, u))
            else:
                out.append(Outcome(OK))
        return out


LOOK = 'get_suite(e.clustering_type, e.clustering_suite_id)'
references('clustered ARIMA experiments', E + 'arima_clustering.experiments_for_arima_with_clusters',
           'arima_suite_by_name(e.arima_suite_id), ' + LOOK,
           'every experiment refers to existing suites')
references('clustered auto ARIMA experiments',
           E + 'arima_clustering.auto_arima_clustering_experiments',
           'predefined_auto_arima()[e.auto_arima_id], ' + LOOK,
           'every experiment refers to existing suites')

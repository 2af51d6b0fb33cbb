'''C15: k-medoids.'''
import ast

from sa.prop import *     # noqa

N = T.index(mk('attr', mk('sym', 'X'), 'shape'), ZERO)
P = Prop('C15', 'Value-graph evaluation of the k-medoids cost, of its candidates and of its '
         'initial medoids, and inductive invariants over its loop nest.',
         cfg={'ndims': {'X': 2, '.distance_matrix': (N, N), 'idx': 1}, 'ints': ('idx',),
              'scalars': ('i', 'j', 'm', 'tol')})
MED = 'spta.kmedoids.'
K = 'spta.kmedoids.kmedoids.'
F = 'spta.kmedoids.kmedoids_fuzzy.'

CALL = ('def a(X, idx, dm, i, j):\n    from spta.kmedoids.kmedoids import _get_cost\n'
        '    r = _get_cost(X, [Medoid(m, X[m]) for m in idx], dm)\n')
HYP = {'matrix': 'not hasattr(dm, "distance_matrix") or dm.distance_matrix is None',
       'computed': 'hasattr(dm, "distance_matrix") and dm.distance_matrix is not None'}


def dist(kind, i, j):
    if kind == 'matrix':
        return 'dm.distance_matrix[idx[%s], %s]' % (j, i)
    return '(0.0 if idx[%s] == %s else dm.measure(X[%s], X[idx[%s]]))' % (j, i, i, j)

for kind in HYP:
    MAT = 'np.array([[%s for c in range(len(idx))] for l in range(X.shape[0])])' % dist(kind, 'l', 'c')
    def cost(q, kind=kind):
        return ('sum([%s if np.argmin([%s for c in range(len(idx))]) == %s else 0 '
                'for l in range(X.shape[0])])' % (dist(kind, 'l', q), dist(kind, 'l', 'c'), q))
    HEAD = 'def b(X, idx, dm, i, j):\n    if %s:\n        raise ValueError\n' % HYP[kind]
    for part, act, exp in (
            ('distances', 'r[3][i, j]', dist(kind, 'i', 'j')),
            ('labels', 'r[0][i]', 'np.argmin([%s for c in range(len(idx))])' % dist(kind, 'i', 'c')),
            ('costs', 'r[1][j]', cost('j')),
            ('total cost', 'r[2]', 'sum([%s for q in range(len(idx))])' % cost('q'))):
        P.law('cost: %s, %s' % (part, kind), K + '_get_cost', CALL + '    return %s\n' % act, HEAD + '    return %s\n' % exp)


# ------------------------------------------------------------------ the search
RUN = K + 'run_kmedoids'
FIELDS = ('k', 'random_seed', 'mode', 'medoids', 'labels', 'costs', 'total_cost',
          'medoid_distances')
KEEP = ('_get_cost', 'show_report', 'choose_initial_medoids')
sym = lambda n: mk('sym', n)


def chosen(step, pred):
    """the condition under which a decision ends in a leaf"""
    return T.map_leaves(step, lambda x: TRUE if pred(x) else FALSE)


def atoms(t):
    return list(dict.fromkeys(n.args[0] for n in T.dd_nodes(t)))


def carried(fold, lv):
    return [c for c in fold.args[2] if c[0] is lv][0]


def nest(M):
    """the loops around a carried value: search > clusters > candidates"""
    if M.op != 'fold' or M.args[0].op != 'while':
        raise Skip('not the result of a search loop')
    out = [(M, carried(M, M.args[3]))]
    while True:
        f, c = out[-1]
        ins = [x for x in T.leaves(c[2]) if x is not c[0]]
        if not any(x.op == 'fold' for x in ins):
            return out
        if len(ins) != 1 or ins[0].args[3].op != 'lv' or len(out) == 3:
            raise Skip('loops of another form')
        out.append((ins[0], carried(ins[0], ins[0].args[3])))


class Broken(Exception):
    def __init__(self, msg, where, expected=None, actual=None):
        Exception.__init__(self, msg)
        self.outcome = Outcome(VIOLATION, msg, where, expected, actual)


def definite(fn):
    def g(cx):
        try:
            return fn(cx)
        except Broken as b:
            return b.outcome
    return g


class Search(object):
    """the value graph of a search, with its medoids singled out"""

    def __init__(self, cx, q, src, keep, names, cost):
        self.f = cx.find(q)
        self.I = cx.interp(keep=keep)
        self.r = self.I.client(src)
        cx.functions |= self.I.functions_seen
        self.where = cx.where(self.f)
        self.cost = cost
        v = self.r.ok
        if not T.children(v):
            raise Broken('the search does not return its result', self.where, None, v)
        if v.op != 'tuple' or len(v.args[1]) != len(names):
            raise Skip('no result record')
        self.fields = dict(zip(names, v.args[1]))
        m = self.fields['medoids']
        if m.op != 'comp' or m.args[2].op != 'attr' or m.args[2].args[1] != 'index' or \
                m.args[2].args[0].op != 'index':
            raise Skip('the medoids of the result are not read from a list of medoids')
        self.M = m.args[2].args[0].args[0]
        if not any(u.op in ('fold', 'lv') for u in T.subterms(self.M)):
            raise Broken('the search never replaces a medoid', self.where, None, self.M)
        self.loops = nest(self.M)
        if len(self.loops) != 3:
            raise Skip('not a search over clusters and candidates')

    def G(self, t, i):
        return canon(T.index(mk('call', self.cost[0], self.cost[1](t), ()), const(i)))

    def indices(self, t):
        b = mk('bv', 'i')
        return canon(mk('comp', T.length(t), b, mk('attr', T.index(t, b), 'index'), TRUE))

    def level(self, fold, init):
        """the carried value of a loop that starts from the given one"""
        c = [x for x in fold.args[2] if x[1] is init]
        return c[0] if len(c) == 1 else None

    def field(self, cx, name, i):
        """the field is the i-th part of the cost of the medoids, by induction over the loops"""
        v, F = self.fields[name], lambda t: self.G(t, i)
        if canon(v) is F(self.M):
            return Outcome(OK, functions=self.I.functions_seen)
        if v.op == 'fold':
            m0 = self.loops[0][1][1]
            for f, c in nest(v):
                m = self.level(f, m0)
                if m is None:
                    raise Skip('the medoids are not followed along with ' + name)
                sub = {c[0]: F(m[0])}
                if m0 is self.loops[0][1][1] and canon(c[1]) is not F(m0):
                    return self.bad('initially, %s is not that of the medoids' % name, F(m0), c[1])
                if not any(x.op == 'fold' for x in T.leaves(c[2]) + T.leaves(m[2])):
                    a = canon(T.subst(c[2], sub))
                    b = canon(T.map_leaves(T.subst(m[2], sub), F))
                    if a is not b:
                        return self.bad('%s does not follow the medoids' % name, b, a)
                m0 = m[0]
            raise Skip('no induction for ' + name)
        return cx.compare(canon(v), F(self.M), self.where, self.I.functions_seen, name)

    def bad(self, msg, e=None, a=None):
        return Outcome(VIOLATION, msg, self.where, e, a, self.I.functions_seen)

    def swap(self, cx, element, cluster):
        """a candidate replaces the medoid of its cluster exactly when it improves the total"""
        f, (lv, init, step) = self.loops[-1]
        e = canon(element)
        X = sym('X')
        new = canon(T.store(lv, cluster, mk('tuple', 'spta.kmedoids.Medoid', (
            e, T.index(X, e)))))
        step = canon(step)
        taken = [x for x in T.leaves(step) if x is not lv]
        if len(taken) != 1:
            raise Skip('several ways of replacing a medoid')
        if taken[0] is not new:
            return cx.compare(taken[0], new, self.where, self.I.functions_seen, 'new medoids')
        better = T.cmp_lt(sym('tol'), T.sub(self.G(lv, 2), self.G(new, 2)))
        used = mk('in', e, self.indices(lv))
        want = T.ite(T.atom_bool(used), FALSE, better)
        return cx.compare(canon(chosen(step, lambda x: x is new)), canon(want), self.where,
                          self.I.functions_seen, 'the condition for replacing a medoid')

    def stopping(self, cx):
        """the search ends after a pass without replacement, or at the limit"""
        f, c = self.loops[0]
        if f.args[0].args[0] is not TRUE:
            raise Skip('the loop has a condition')
        stop = f.args[4]
        out = []
        flags = [a for a in atoms(stop) if any(u.op == 'fold' for u in T.subterms(a))]
        if not flags:
            return [self.bad('a pass without replacement does not end the search', None, stop)], None
        if len(flags) != 1:
            raise Skip('the search does not end on a single flag')
        flag = flags[0]
        for g in T.subterms(flag):
            if g.op == 'fold':
                flagfold = g
                break
        limit = [x for x in atoms(stop) if x is not flag]
        cc = [x for x in f.args[2] if any(T.occurs(a, x[0]) for a in limit)]
        if not cc:
            return [self.bad('the number of passes has no limit', None, stop)], None
        if len(limit) != 1 or len(cc) != 1:
            raise Skip('no limit on a single counter')
        want = T.b_or(T.cmp_lt(sym('max_iter'), cc[0][0]), T.b_not(T.atom_bool(flag)))
        out.append(cx.compare(canon(stop), canon(want), self.where, self.I.functions_seen,
                              'end of the search'))
        if cc[0][1] is not ZERO:
            out.append(self.bad('the passes are not counted from zero', ZERO, cc[0][1]))
        for x in T.leaves(cc[0][2]):
            if x is not cc[0][0] and T.sub(x, cc[0][0]) is not ONE:
                out.append(self.bad('the passes are not counted one by one', None, x))
        return out, flagfold


def search(cx, mode='lite'):
    return Search(cx, RUN, """
def a(X, k, distance_measure, initial_medoids, random_seed, max_iter, tol, verbose):
    from spta.kmedoids.kmedoids import run_kmedoids
    return run_kmedoids(X, k, distance_measure, initial_medoids, random_seed, %r, max_iter, tol, verbose)
""" % mode, KEEP, FIELDS, (K + '_get_cost', lambda t: (sym('X'), t, sym('distance_measure'))))


def fuzzy_search(cx, mode=None):
    return Search(cx, 'spta.kmedoids.kmedoids_fuzzy.run_kmedoids_fuzzy', """
def a(X, k, m, distance_measure, initial_medoids, random_seed, max_iter, tol, verbose):
    from spta.kmedoids.kmedoids_fuzzy import run_kmedoids_fuzzy
    return run_kmedoids_fuzzy(X, k, m, distance_measure, initial_medoids, random_seed, max_iter, tol, verbose)
""", ('compute_membership_fcm', 'show_report', 'choose_initial_medoids'),
        ('k', 'm', 'random_seed', 'medoids', 'uij', 'costs', 'total_cost'),
        ('spta.kmedoids.kmedoids_fuzzy.compute_membership_fcm',
         lambda t: (sym('X'), sym('m'), t, sym('distance_measure'), sym('tol'))))


for mode in ('lite', 'robust', 'fuzzy'):
    def checks(mode=mode):
        make = fuzzy_search if mode == 'fuzzy' else search
        parts = ('uij', 'costs', 'total_cost') if mode == 'fuzzy' else \
            ('labels', 'costs', 'total_cost', 'medoid_distances')

        @P.rule('result describes one set of medoids: ' + mode, 'an inductive relation: in every '
                'state of the search, memberships, costs, total and distances are those of the '
                'medoids')
        @definite
        def fields(cx):
            s = make(cx, mode)
            want = {'k': sym('k'), 'random_seed': sym('random_seed'),
                    'medoids': s.indices(s.M)}
            if mode == 'fuzzy':
                want['m'] = sym('m')
            else:
                want['mode'] = const(mode)
            out = [cx.compare(canon(s.fields[n]), w, s.where, s.I.functions_seen, 'field ' + n)
                   for n, w in want.items()]
            for i, n in enumerate(parts):
                out.append(s.field(cx, n, i))
            return out

        @P.rule('initial medoids of the search: ' + mode, 'the search starts from the chosen '
                'medoids')
        @definite
        def initial(cx):
            s = make(cx, mode)
            want = mk('call', (F if mode == 'fuzzy' else K) + 'choose_initial_medoids', tuple(
                sym(x) for x in ('X', 'k', 'random_seed', 'initial_medoids')), ())
            out = [cx.compare(s.loops[0][1][1], want, s.where, s.I.functions_seen, 'start')]
            for (_, outer), (_, inner) in zip(s.loops, s.loops[1:]):
                out.append(Outcome(OK, functions=s.I.functions_seen) if inner[1] is outer[0] else
                           s.bad('a pass does not continue from the current medoids', outer[0],
                                 inner[1]))
            return out

        @P.rule('candidates and replacement: ' + mode, 'for every cluster and every candidate of '
                'the mode that is not a medoid, the medoid of the cluster is replaced exactly '
                'when the total cost improves by more than the tolerance')
        @definite
        def swap(cx):
            s = make(cx, mode)
            (_, _), (fm, cm), (fi, ci) = s.loops
            n, b, j = fi.args[0], fi.args[1], fm.args[1]
            nk = fm.args[0]
            rows = T.index(mk('attr', sym('X'), 'shape'), ZERO)
            if mode == 'lite':
                labels = s.G(cm[0], 0)
                w = mk('call', 'np.where', (mk('mask', T.cmp_eq(labels, j)),), ())
                wn, el = T.length(T.index(w, ZERO)), T.index(T.index(w, ZERO), b)
            else:
                if nk is not sym('k'):        # candidates first, then clusters
                    n, b, nk, j = fm.args[0], fm.args[1], fi.args[0], fi.args[1]
                wn, el = rows, b
            out = [cx.compare(nk, sym('k'), s.where, s.I.functions_seen, 'clusters')]
            out.append(cx.compare(canon(n), canon(wn), s.where, s.I.functions_seen, 'candidates'))
            out.append(s.swap(cx, el, j))
            return out

        @P.rule('end of the search: ' + mode, 'the search ends after a pass without replacement '
                'or beyond the limit of passes')
        @definite
        def end(cx):
            s = make(cx, mode)
            out, flag = s.stopping(cx)
            if flag is None:
                return out
            # the flag is raised exactly by a replacement
            levels = [(flag, carried(flag, flag.args[3]))]
            f, c = levels[0]
            if c[1] is not FALSE:
                out.append(s.bad('a pass does not start without replacements', FALSE, c[1]))
            ins = [x for x in T.leaves(c[2]) if x is not c[0]]
            if len(ins) != 1 or ins[0].op != 'fold':
                raise Skip('flag of another form')
            g = ins[0]
            d = carried(g, g.args[3])
            meds = [x for x in g.args[2] if x is not d]
            if len(meds) != 1:
                raise Skip('flag of another form')
            lv, _, step = meds[0]
            raised = chosen(d[2], lambda x: x is TRUE)
            moved = chosen(step, lambda x: x is not lv)
            out.append(cx.compare(canon(raised), canon(moved), s.where, s.I.functions_seen,
                                  'the sign of a replacement'))
            return out
    checks()

# ------------------------------------------------------------------ starting points
for mod in ('kmedoids', 'kmedoids_fuzzy'):
    Q = MED + mod + '.choose_initial_medoids'
    for given in (True, False):
        P.law('initial medoids%s: %s' % (' as given' if given else '', mod), Q, '''
def a(X, k, random_seed, idx):
    from spta.kmedoids.%s import choose_initial_medoids
    return choose_initial_medoids(X, k, random_seed%s)
''' % (mod, ', idx' if given else ''), '''
def b(X, k, random_seed, idx):
    %s
    return [Medoid(c, X[c]) for c in idx]
''' % ('if not idx:\n        raise KeyError' if given else
       'np.random.seed(random_seed)\n    idx = np.random.choice(len(X), size=k, replace=False)'))
    P.same(Q, '''
def choose_initial_medoids(X, k, random_seed, initial_indices=None):
    np.random.seed(random_seed)
    if not initial_indices:
        np.random.choice(len(X), size=k, replace=False)
''', name='reproducible choice: ' + mod, aspect=calls('seed', 'choice'))

P.law('unknown mode is rejected', RUN, '''
def a(X, k, dm, mode, medoids):
    from spta.kmedoids.kmedoids import run_kmedoids
    if mode == 'lite' or mode == 'robust':
        raise KeyError
    run_kmedoids(X, k, dm, initial_medoids=medoids, mode=mode)
''', '''
def b(X, k, dm, mode, medoids):
    if mode == 'lite' or mode == 'robust':
        raise KeyError
    raise ValueError
''', strict='raises', keep=KEEP)

# ------------------------------------------------------------------ parameters
for mod, q, names in (('kmedoids', 'run_kmedoids', 'mode, max_iter, tol'),
                      ('kmedoids', 'kmedoids_suite_metadata', 'mode, initial_medoids, max_iter, tol'),
                      ('kmedoids_fuzzy', 'run_kmedoids_fuzzy', 'max_iter, tol')):
    def defaults(mod=mod, q=q, names=names.split(', ')):
        want = {'mode': const('lite'), 'max_iter': const(1000), 'tol': const(0.001),
                'initial_medoids': NONE}

        @P.rule('default values: ' + q, 'the default values of the parameters of a search are the '
                'same wherever it is started')
        def check(cx):
            f = cx.find(MED + mod + '.' + q)
            I = cx.interp()
            cx.functions.add(f.qual)
            a = f.node.args
            pos = a.args[len(a.args) - len(a.defaults):]
            got = dict(zip([x.arg for x in pos], a.defaults))
            got.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            out = []
            for n in names:
                if n not in got or not isinstance(got[n], ast.Constant):
                    raise Skip('no default value for ' + n)
                v = NONE if got[n].value is None else const(got[n].value)
                out.append(cx.compare(v, want[n], cx.where(f), (f.qual,), 'default of ' + n))
            return out
    defaults()
P.same(RUN + '_from_metadata', '''
def run_kmedoids_from_metadata(X, kmediods_metadata):
    m = kmediods_metadata
    return run_kmedoids(X, m.k, m.distance_measure, initial_medoids=m.initial_medoids,
                        random_seed=m.random_seed, mode=m.mode, max_iter=m.max_iter, tol=m.tol,
                        verbose=m.verbose)
''', keep=('run_kmedoids',))
P.same(K + 'kmedoids_default_metadata', '''
def kmedoids_default_metadata(k, distance_measure=DistanceByDTW(), initial_medoids=None,
                              random_seed=1, mode='lite', max_iter=1000, tol=0.001, verbose=True):
    return KmedoidsMetadata(k, distance_measure, initial_medoids, random_seed, mode, max_iter, tol,
                            verbose)
''')
P.law('default parameters', K + 'kmedoids_default_metadata', '''
def a(k, dm):
    from spta.kmedoids.kmedoids import kmedoids_default_metadata
    m = kmedoids_default_metadata(k, dm)
    return (m.k, m.distance_measure, m.initial_medoids, m.random_seed, m.mode, m.max_iter, m.tol)
''', '''
def b(k, dm):
    return (k, dm, None, 1, 'lite', 1000, 0.001)
''')
P.law('suite of parameters', K + 'kmedoids_suite_metadata', '''
def a(ks, seeds, dm, mode, im, mi, tol, v):
    from spta.kmedoids.kmedoids import kmedoids_suite_metadata
    return list(kmedoids_suite_metadata(ks, seeds, dm, mode, im, mi, tol, v))
''', '''
def b(ks, seeds, dm, mode, im, mi, tol, v):
    from spta.kmedoids.kmedoids import KmedoidsMetadata
    return [KmedoidsMetadata(k=k, distance_measure=dm, initial_medoids=im, random_seed=s, mode=mode,
                             max_iter=mi, tol=tol, verbose=v) for k in ks for s in seeds]
''')

# ------------------------------------------------------------------ the clustering of a region
IMPL = 'spta.clustering.kmedoids.KmedoidsClusteringAlgorithm.partition_impl'
ALG = '''
def a(m, dm, region, with_medoids):
    from spta.clustering.kmedoids import KmedoidsClusteringAlgorithm
    p = KmedoidsClusteringAlgorithm(m, dm).partition_impl(region, with_medoids)
    return %s
'''
RESULT = '''
def b(m, dm, region, with_medoids):
    from spta.kmedoids.kmedoids import run_kmedoids
    d, x, y = region.shape
    if not with_medoids:
        raise KeyError
    r = run_kmedoids(region.as_2d, m.k, dm, m.initial_medoids, m.random_seed,
                     m.mode, m.max_iter, m.tol, m.verbose)
    return %s
'''
P.law('partition of a region: medoids', IMPL, ALG % 'p.medoids',
      RESULT % '[Point(int(c / y), c % y) for c in r.medoids]', keep=('run_kmedoids',), strict=False)
P.law('partition of a region: clusters', IMPL, ALG % '(p.numpy_dataset, p.x_len, p.y_len, p.k)',
      RESULT.replace('r = run', """from spta.region.partition import PartitionRegionCrisp
    r = run""") % """(PartitionRegionCrisp.from_membership_array(r.labels, x, y).numpy_dataset, x, y,
                      PartitionRegionCrisp.from_membership_array(r.labels, x, y).k)""",
      keep=('run_kmedoids',))

# ------------------------------------------------------------------ fuzzy k-medoids
FCALL = ('def a(X, idx, dm, i, j, m, tol):\n'
         '    from spta.kmedoids.kmedoids_fuzzy import compute_membership_fcm\n'
         '    r = compute_membership_fcm(X, m, [Medoid(q, X[q]) for q in idx], dm, tol)\n')
for kind in HYP:
    HEAD = 'def b(X, idx, dm, i, j, m, tol):\n    if %s:\n        raise ValueError\n' % HYP[kind]
    def w(i, j, kind=kind):
        return 'np.power(1 / %s, 1 / (m - 1))' % dist(kind, i, j)
    P.law('fuzzy distances, ' + kind, F + 'compute_membership_fcm', FCALL + '    return r[3][i, j]\n',
          HEAD + '    return %s\n' % dist(kind, 'i', 'j'))
    P.law('fuzzy membership, ' + kind, F + 'compute_membership_fcm', FCALL + '    return r[0][i, j]\n',
          HEAD + '    if idx[j] == i:\n        return 1\n    return %s / sum([%s for c in range(len(idx))])\n' % (
              w('i', 'j'), w('i', 'c')))
    U = '(1 if idx[%%s] == l else %s / sum([%s for c in range(len(idx))]))' % (w('l', '%s'), w('l', 'c'))
    def fcost(q, kind=kind, U=U):
        return 'sum([%s * %s for l in range(X.shape[0])])' % (U % (q, q) if kind == 'matrix' else U % (q, q, q), dist(kind, 'l', q))
    P.law('fuzzy costs, ' + kind, F + 'compute_membership_fcm', FCALL + '    return r[1][j]\n',
          HEAD + '    return %s\n' % fcost('j'))
    P.law('fuzzy total cost, ' + kind, F + 'compute_membership_fcm', FCALL + '    return r[2]\n',
          HEAD + '    return sum([%s for q in range(len(idx))])\n' % fcost('q'))
P.same(F + 'run_kmedoids_fuzzy_from_params', '''
def run_kmedoids_fuzzy_from_params(X, kfuzzy_params):
    p = kfuzzy_params
    return run_kmedoids_fuzzy(X, k=p.k, m=p.m, distance_measure=p.distance_measure,
                              initial_medoids=p.initial_medoids, random_seed=p.random_seed,
                              max_iter=p.max_iter, tol=p.tol, verbose=p.verbose)
''', keep=('run_kmedoids_fuzzy',))
P.law('default parameters, fuzzy', F + 'kmedoids_fuzzy_default_params', '''
def a(k, dm, w, im, s, mi, t, v):
    from spta.kmedoids.kmedoids_fuzzy import kmedoids_fuzzy_default_params
    m = kmedoids_fuzzy_default_params(k, distance_measure=dm)
    n = kmedoids_fuzzy_default_params(k, w, dm, im, s, mi, t, v)
    return (m.k, m.m, m.distance_measure, m.initial_medoids, m.random_seed, m.max_iter, m.tol,
            n.k, n.m, n.distance_measure, n.initial_medoids, n.random_seed, n.max_iter, n.tol, n.verbose)
''', '''
def b(k, dm, w, im, s, mi, t, v):
    return (k, 2, dm, None, 1, 1000, 0.001, k, w, dm, im, s, mi, t, v)
''')

# ------------------------------------------------------------------ silhouette
S = 'spta.kmedoids.silhouette.'
P.same(S + 'kmedoids_metadata_from_silhouette_metadata', '''
def f(k, random_seed, silhouette_metadata):
    s = silhouette_metadata
    im = None if s.initial_medoids is None else s.initial_medoids[0:k]
    return KmedoidsMetadata(k, s.distance_measure, im, random_seed, s.kmedoids_mode,
                                     s.max_iter, s.tol, s.verbose)
''')
P.law('one run of a silhouette analysis', S + 'single_kmedoids_for_silhouette', '''
def a(X, k, seed, s):
    from spta.kmedoids.silhouette import single_kmedoids_for_silhouette
    return single_kmedoids_for_silhouette(X, k, seed, s)
''', '''
def b(X, k, seed, s):
    from spta.kmedoids.kmedoids import run_kmedoids
    im = None if s.initial_medoids is None else s.initial_medoids[0:k]
    return run_kmedoids(X, k, s.distance_measure, im, seed, s.kmedoids_mode, s.max_iter, s.tol,
                        s.verbose)
''', keep=('run_kmedoids',))
P.same(S + 'do_silhouette_analysis', '''
def do_silhouette_analysis(spt_region, silhouette_metadata):
    s = silhouette_metadata
    _, x_len, y_len = spt_region.shape
    best = -1
    best_k = 0
    best_seed = None
    best_medoids = None
    best_labels = None
    if s.distance_measure.distance_matrix is None:
        s.distance_measure.compute_distance_matrix(spt_region)
    for seed in s.seed_values:
        for k in s.k_values:
            r = single_kmedoids_for_silhouette(spt_region.as_2d, k, seed, s)
            avg = single_silhouette(r, s, (x_len, y_len))
            if avg > best:
                best = avg
                best_k = k
                best_seed = seed
                best_medoids = r.medoids
                best_labels = r.labels
    return best_k, best_seed, best_medoids, best_labels
''', keep=('single_kmedoids_for_silhouette', 'single_silhouette'))
P.same(S + 'do_silhouette_analysis', '''
def do_silhouette_analysis(spt_region, silhouette_metadata):
    d = silhouette_metadata.distance_measure
    if d.distance_matrix is None:
        d.compute_distance_matrix(spt_region)
''', keep=('single_kmedoids_for_silhouette', 'single_silhouette'), aspect=calls('compute_distance_matrix'),
       name='distance matrix of a silhouette analysis')
P.law('score of a clustering', (S + 'single_silhouette', 'spta.util.plot.plot_clustering_silhouette'), '''
def a(r, s, shape):
    from spta.kmedoids.silhouette import single_silhouette
    return single_silhouette(r, s, shape)
''', '''
def b(r, s, shape):
    from sklearn.metrics import silhouette_score
    if s.distance_measure.distance_matrix is None:
        raise ValueError
    return silhouette_score(X=s.distance_measure.distance_matrix, labels=r.labels, metric="precomputed")
''', keep=('plot_2d_clusters',))
P.law('parameters of a silhouette analysis', S + 'silhouette_default_metadata', '''
def a(ks, seeds, mode, dm, im, mi, t, v, show, save, name):
    from spta.kmedoids.silhouette import silhouette_default_metadata
    m = silhouette_default_metadata(ks, seeds, mode, dm, im, mi, t, v, show, save, name)
    return (m.k_values, m.seed_values, m.kmedoids_mode, m.distance_measure, m.initial_medoids,
            m.max_iter, m.tol, m.verbose, m.show_graphs)
''', '''
def b(ks, seeds, mode, dm, im, mi, t, v, show, save, name):
    return (ks, seeds, mode, dm, im, mi, t, v, show)
''')

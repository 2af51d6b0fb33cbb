'''C24: computations leave what they are given as it was.'''
from sa.prop import *     # noqa
from sa.state import State, OKAY, BAD, OPEN

P = Prop('C24', 'Interprocedural alias and effect analysis: which access paths of its arguments, of '
         'the object and of module-level names every function may alter, compared with the effects '
         'it is declared to have; values that are kept for later calls are accepted when the place '
         'they are kept under determines them.')
P.state = False
CACHE = {}
AREAS = (('spta.region', 'regions, clusters and partitions'),
         ('spta.clustering', 'clustering algorithms and suites'),
         ('spta.kmedoids', 'k-medoids'),
         ('spta.distance', 'distances'),
         ('spta.model', 'models and errors'),
         ('spta.arima', 'ARIMA'),
         ('spta.solver', 'solvers'),
         ('spta.classifier', 'classifiers'),
         ('spta.util', 'helpers'),
         ('spta', 'the rest of the library'),
         ('experiments', 'experiments'))


def state(cx):
    if id(cx.prog) not in CACHE:
        CACHE[id(cx.prog)] = State(cx.prog)
    return CACHE[id(cx.prog)]


def area(q):
    for a, _ in AREAS:
        if q == a or q.startswith(a + '.'):
            return a


for a_, what in AREAS:
    def rule(cx, a=a_):
        s = state(cx)
        out = []
        n = 0
        for q in sorted(s.table):
            if area(q) != a or q not in s.E.funcs:
                continue
            n += 1
            cx.functions.add(q)
            f = s.E.funcs[q]
            for v, detail, node in s.judge(q):
                out.append(Outcome(VIOLATION if v == BAD else UNDECIDED, detail, '%s:%d %s' % (
                    f.module.path, getattr(node, 'lineno', f.node.lineno), q)))
        cx.sites += n
        return out or [Outcome(OK, '%d functions, %d calls resolved' % (n, s.E.calls))]
    P.rule(what, 'a function alters only what it is declared to alter')(rule)

'''C21: everything the code refers to exists.'''
from sa.prop import *     # noqa
from sa.names import Names

P = Prop('C21', 'Resolution of every name, import, attribute, call signature, text template and '
         'command-line option of the repository: method calls on self are resolved for every class '
         'that is instantiated and can run the method; attributes of variables of unknown class are '
         'compared with those that the classes of the repository define together.')
RULES = (('imports', 'an imported module or name of the repository exists'),
         ('names', 'a name is bound where it is read, a local variable before it is read'),
         ('attributes', 'an attribute read from a module, class, self or typed variable exists'),
         ('calls', 'the arguments of a call match the signature of every target'),
         ('templates', 'a text template has as many values as places'),
         ('statements', 'the result of an operation without effects is not thrown away'),
         ('tests', 'a condition is not a function, class or tuple, which are always true'),
         ('definitions', 'a definition, method or dictionary key is not given twice'),
         ('options', 'a command-line option that is read is declared'))
P.state = False
CACHE = {}


def names(cx):
    if id(cx.prog) not in CACHE:
        CACHE[id(cx.prog)] = Names(cx.prog).run()
    return CACHE[id(cx.prog)]


for r, text in RULES:
    def rule(cx, r=r):
        n = names(cx)
        cx.functions |= n.functions
        cx.sites += n.counts.get(r, 0)
        out, seen = [], set()
        for f in n.findings:
            if f.rule == r and (f.where, f.detail) not in seen:
                seen.add((f.where, f.detail))
                out.append(Outcome(VIOLATION, f.detail, f.where))
        return out or [Outcome(OK, '%d inspected' % n.counts.get(r, 0))]
    P.rule(r, text)(rule)


@P.rule('options used', 'a declared command-line option is read')
def used(cx):
    out = []
    for m, dests, read in names(cx).option_reads:
        cx.sites += len(dests)
        for d in sorted(dests - read):
            out.append(Outcome(VIOLATION, 'option %s is declared and never read' % d,
                               '%s %s' % (m.path, m.name)))
    return out or [Outcome(OK)]


@P.rule('syntax', 'every module of the repository can be compiled')
def syntax(cx):
    return [Outcome(VIOLATION, 'cannot be compiled: ' + e, p) for p, e in cx.prog.parse_errors] or \
        [Outcome(OK)]

'''Identity of stored results: is a parameter part of the path, through injective operators?'''
from . import terms as T
from .terms import *     # noqa

YES, NO, UNKNOWN = 'yes', 'no', 'unknown'
INJECTIVE_CALLS = {'str', 'repr', 'int', 'float', 'list', 'tuple', 'os.path.abspath', 'sorted'}


LOSSY_CALLS = {'type', 'len', 'bool', 'callable'}


def occurs(t, x):
    return any(u is x for u in T.subterms(t))


def identifies(t, x):
    '''does the value of t tell apart different values of x (everything else equal)?'''
    parts = {u for u in T.subterms(t) if u.op == 'index' and u.args[0] is x}
    if len(parts) == 1 and T.is_num(list(parts)[0].args[1]) and \
            not occurs(T.subst(t, {list(parts)[0]: T.const('part')}), x):
        return NO       # one element of x is all that is left of it
    return _ident(t, x)


def _ident(t, x):
    '''does the value of t tell apart different values of x (everything else equal)?'''
    if t is x:
        return YES
    if not occurs(t, x):
        return NO
    op = t.op
    if op == 'fmt':
        return _any(_ident(p, x) for p in t.args[0])
    if op == 'conv':
        kind, spec, v = t.args
        r = _ident(v, x)
        if r is YES and spec not in ('', 'd', 's', 'r'):
            return NO if spec and spec[0] in '.0123456789' and spec[-1] in 'feg%' else UNKNOWN
        return r
    if op == 'ite':
        a, b = _ident(t.args[1], x), _ident(t.args[2], x)
        if a is YES and b is YES:
            return YES
        own = occurs(t.args[0], x)
        if own:
            # the condition separates the values on either side; leaves must tell the rest apart
            if YES in (a, b):
                # the other side must stand for a single value
                if NO in (a, b) and not pinned(t.args[0], x, b is YES) and \
                        ranged(t.args[0], x):
                    return NO
                return YES
            if t.args[1] is not t.args[2] and boolean_only(t.args[0], x):
                return YES
            return UNKNOWN
        if UNKNOWN in (a, b):
            return UNKNOWN
        return NO
    if op in ('tuple', 'list'):
        items = t.args[-1]
        return _any(_ident(p, x) for p in items)
    if op == 'call':
        name, args = t.args[0], t.args[1]
        if name in INJECTIVE_CALLS and args:
            return _ident(args[0], x)
        if name in ('open', 'os.path.join', 'os.path.dirname'):
            return _any(_ident(p, x) for p in args)
        if name in LOSSY_CALLS and len(args) == 1 and args[0] is x:
            return NO
        return UNKNOWN
    if op == 'mcall':
        recv, name, args = t.args[0], t.args[1], t.args[2]
        if name in ('join', 'format', 'strip'):
            return _any([_ident(p, x) for p in args] + [_ident(recv, x)])
        return UNKNOWN
    if op in ('attr', 'index') and t.args[0] is not x:
        # a projection keeps at most what it projects
        return NO if all(_ident(c, x) is NO for c in T.children(t)) else UNKNOWN
    if op == 'comp':
        return YES if _element_of(t.args[2], x, t.args[1]) else UNKNOWN
    if op == 'poly':
        atoms = [u for u in T.children(t)]
        if sum(1 for u in atoms if occurs(u, x)) == 1 and len(atoms) == 1:
            return _ident([u for u in atoms if occurs(u, x)][0], x)
        return UNKNOWN
    if op == 'obj':
        return _any(_ident(v, x) for _, v in t.args[1])
    return UNKNOWN


def _element_of(body, x, bv):
    for u in T.subterms(body):
        if u.op == 'index' and u.args[0] is x and u.args[1] is bv:
            return True
    return False


def pinned(c, x, side):
    '''one value of x at most makes the condition be `side`'''
    if c.op == 'not':
        return pinned(c.args[0], x, not side)
    if c.op == ('and' if side else 'or'):
        return any(pinned(u, x, side) for u in T.children(c))
    if c.op in ('pos', 'lt'):
        # a count that is at most zero is zero
        return (not side and (c.op == 'pos' and c.args[0] is x or
                              c.op == 'lt' and c.args == (T.const(0), x))) or \
            (side and c.op == 'lt' and c.args == (x, T.const(1)))
    return True


def ranged(c, x):
    '''the condition compares x itself with a number'''
    while c.op == 'not':
        c = c.args[0]
    return c.op in ('pos', 'lt') and all(u is x or u.op in ('num', 'poly', 'pos', 'lt')
                                         for u in T.subterms(c))


def boolean_only(c, x):
    '''the condition is the truth of x itself'''
    return all(u is x or u.op in ('truth', 'not', 'true', 'false') for u in T.subterms(c)) or \
        (c.op == 'truth' and c.args[0] is x)


def _any(rs):
    rs = list(rs)
    if YES in rs:
        return YES
    return UNKNOWN if UNKNOWN in rs else NO


def dumped_path(r, x):
    '''the path a value is pickled to: pickle.dump(x, open(path, mode))'''
    out = []
    for e in r.trace:
        if e.kind == 'call' and e.args[1] == 'pickle.dump' and len(e.args[2]) > 1 and \
                e.args[2][0] is x:
            out.append(opened(e.args[2][1]))
    return out


def opened(t):
    '''(path, mode) of an open file'''
    def f(u):
        if u.op == 'call' and u.args[0] == 'open':
            return mk('tuple', '', tuple(u.args[1]))
        raise Unsupported('not an open file')
    return T.map_leaves(t, f)


def loaded_from(t):
    '''(path, mode) of pickle.load(open(path, mode))'''
    def f(u):
        if u.op == 'call' and u.args[0] == 'pickle.load':
            return opened(u.args[1][0])
        raise Unsupported('not a loaded object')
    return T.map_leaves(t, f)


def with_mode(t, mode):
    def f(u):
        return mk('tuple', '', (u.args[1][0], const(mode)))
    return T.map_leaves(t, f)

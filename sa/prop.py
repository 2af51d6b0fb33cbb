'''A property: its obligations, self tests and evidence text.'''
from .obl import *      # noqa
import functools

from . import terms as T


class Prop(object):
    def __init__(self, pid, explanation, cfg=None, assumptions=()):
        self.pid, self.explanation = pid, explanation
        self.cfg = cfg or {}
        self.obs = []
        self.assumptions = list(assumptions)

    def same(self, q, src, name=None, rule=None, tier='quick', **kw):
        nm = name or (q + (':' + kw['aspect'] if isinstance(kw.get('aspect'), str) else ''))
        self.obs.append(Obligation(nm, rule or 'value-graph equality with the reference semantics',
                                   lambda cx: cx.same(q, src, **kw), tier))

    def law(self, name, at, actual, expected, rule=None, tier='quick', **kw):
        at = (at,) if isinstance(at, str) else at
        self.obs.append(Obligation(name, rule or 'client law over repository code',
                                   lambda cx: cx.law(at, actual, expected, **kw), tier))

    def rule(self, name, rule, tier='quick'):
        def deco(fn):
            self.obs.append(Obligation(name, rule, fn, tier))
            return fn
        return deco


NARROW = {'np.int8', 'np.uint8', 'np.float16', 'np.bool_', 'bool', 'np.byte', 'np.ubyte', 'np.half'}


def wide(P, q, src, rule):
    '''the values of an array are not cut down to a few bits'''
    @P.rule('%s: range of the values' % q.split('.')[-1], rule)
    def f(cx):
        fn = cx.find(q)
        I = cx.interp()
        r = I.client(src)
        cx.functions |= I.functions_seen
        v = r.ok
        if not any(u.op == 'ext' for u in T.subterms(v)):
            raise Skip('the type of the array is not known')
        cx.sites += 1
        for u in T.subterms(v):
            if u.op == 'ext' and u.args[0] in NARROW:
                return Outcome(VIOLATION, 'the values are stored as %s' % u.args[0], cx.where(fn),
                               functions=I.functions_seen)
        return Outcome(OK, functions=I.functions_seen)


# ---------------------------------------------------------------- aspects over events
def _blind(t):
    '''name loop-carried values by order of appearance'''
    names = {}

    def walk(u, seen):
        if u in seen:
            return
        seen.add(u)
        if u.op == 'lv' and str(u.args[0]).startswith('v') and u not in names:
            names[u] = mk('lv', 'carried%d' % len(names))
        for c in T.children(u):
            walk(c, seen)
    walk(t, set())
    return T.subst(t, names) if names else t


def _wrap(e, I, r, payload):
    body = payload
    cond = e.pc
    care = getattr(I, 'care', None)
    if care is not None:
        cond = T.b_and(cond, care)
    if any(u.op == 'lv' for u in T.subterms(body)):
        body = _blind(body)
    if not e.loops:
        return ('plain', body, cond)
    n, b, node = e.loops[-1]
    return ('loop', _nest(e.loops, body, cond), (tuple(e.loops), body, cond))


def _nest(loops, body, cond):
    for i, (n, b, node) in enumerate(reversed(loops)):
        body = mk('comp', n if n is not None else mk('while', TRUE), b, body, TRUE if i else cond)
    return body


def _collect(evs):
    plain = {}
    loops = set()
    same = {}
    for kind, body, cond in evs:
        if kind == 'loop' and cond is not None:
            # one operation under several conditions is one operation
            ls, body, cond = cond
            k = (tuple(l[:2] for l in ls), body)
            same[k] = (ls, T.b_or(same[k][1], cond) if k in same else cond)
    loops |= {canon(_nest(ls, k[1], cond)) for k, (ls, cond) in same.items()}
    for kind, body, cond in evs:
        if kind == 'loop' and cond is not None:
            continue
        if kind == 'plain':
            body = canon(body)
            plain[body] = T.b_or(plain.get(body, FALSE), cond)
        else:
            loops.add(canon(body))
    for body, cond in list(plain.items()):
        # what is decided by the condition of the operation is decided inside it
        b = canon(T.restrict_deep(body, T.literals(canon(cond))))
        if b is not body:
            del plain[body]
            plain[b] = T.b_or(plain.get(b, FALSE), cond)
    out = [mk('tuple', '', (canon(c), b)) for b, c in plain.items()] + list(loops)
    return mk('set', tuple(sorted(out)))


def _matches(e, names):
    if e.kind == 'mcall' or e.kind == 'call':
        n = e.args[1] if e.args else None
        return n in names or (n and any(n.endswith('.' + x) for x in names))
    return False


def calls(*names, recv=False, only=None, pc=True, kwargs=True, never=False):
    '''the calls of the named operations: condition, loop domain and arguments'''
    def f(r, I):
        evs = []
        for e in r.trace:
            if e.kind in ('mcall', 'call') and _matches(e, names):
                rc, n, a, kw = e.args
                items = list(a) if only is None else [a[i] for i in only if i < len(a)]
                items = [I.reify(x, r.heap) if False else x for x in items]
                if kwargs:
                    for k in sorted(kw):
                        items.append(mk('tuple', '', (const(k), I.reify(kw[k], r.heap))))
                if recv and rc is not None:
                    items.insert(0, rc)
                body = mk('tuple', '', tuple([const(n.rsplit('.', 1)[-1])] + items))
                if not pc:
                    body = T.restrict_deep(body, T.literals(e.pc))
                w = _wrap(e, I, r, body)
                if not pc:
                    if w[0] == 'plain':
                        w = ('plain', w[1], TRUE)
                evs.append(w)
        seen = [e for e in r.trace if e.kind in ('mcall', 'call')]
        I.unseen = [n for n in names if not never and
                    not any(_matches(e, (n,)) for e in seen)]
        if not evs:
            return mk('set', ())
        return _collect(evs)
    return f


def _row(x):
    '''a row of known cells is their sequence, whatever the type of the sequence'''
    def f(u):
        if u.op == 'tuple':
            return mk('tuple', '', u.args[1])
        if u.op == 'list':
            return mk('tuple', '', u.args[0])
        return u
    return T.map_leaves(x, f)


def tables(r, I):
    '''the tables written: for each file, its rows in the order in which they are written; a file
    that is opened to be written anew starts again, one that is appended to does not'''
    files = {}
    paths = {}
    inside = {}

    def put(f, cond, body):
        for g in T.leaves(f):
            c = T.b_and(cond, T.map_leaves(f, lambda u: TRUE if u is g else FALSE))
            if c is not FALSE:
                files.setdefault(g, []).append((c, body))

    def name(f):
        f = f[0] if isinstance(f, tuple) and f else f
        if isinstance(f, T.Term) and f.op == 'call' and f.args[0] == 'open':
            return I.reify(f.args[1][0], r.heap)
        return f

    for e in r.trace:
        if e.kind == 'call' and e.args[1] == 'open':
            w, n, a, kw = e.args
            mode = a[1] if len(a) > 1 else kw.get('mode', const('r'))
            if not a or mode.op != 'str' or not set(mode.args[0]) & set('wx'):
                continue
            f, body = I.reify(a[0], r.heap), const('<a new file>')
        elif e.kind == 'mcall' and e.args[1] in ('writerow', 'writerows'):
            w, n, a, kw = e.args
            if w.op != 'call' or w.args[0] != 'csv.writer' or not a:
                raise Skip('rows that are not written with csv.writer')
            f = name(w.args[1] if len(w.args) > 1 else w)
            body = I.reify(a[0], r.heap)
            if n == 'writerow':
                body = _row(body)
            for g in T.leaves(f):
                paths.setdefault(g, set()).add(mk('tuple', '', tuple(
                    mk('tuple', '', (const(str(k)), v if isinstance(v, T.Term) else const(str(v))))
                    for k, v in (w.args[2] if len(w.args) > 2 else ()))))
        else:
            continue
        loops = list(e.loops)
        for g in T.leaves(f):
            inside.setdefault(g, loops)
        cond = e.pc
        if getattr(I, 'care', None) is not None:
            cond = T.b_and(cond, I.care)
        if n == 'writerows':
            if body.op == 'concat' and not loops:
                for part in body.args[0]:
                    if part.op == 'list':
                        for x in part.args[0]:
                            put(f, cond, _row(x))
                    elif part.op == 'comp':
                        put(f, cond, mk('comp', *(part.args[:2] + (_row(part.args[2]),
                                                                   part.args[3]))))
                    else:
                        raise Skip('writerows of a value of unknown rows')
                continue
            if body.op == 'list':
                for x in body.args[0] if isinstance(body.args[0], tuple) else body.args:
                    put(f, cond, _nest(loops, _row(x), TRUE) if loops else _row(x))
                continue
            if loops or body.op != 'comp':
                raise Skip('writerows of a value of unknown rows')
            put(f, cond, mk('comp', *(body.args[:2] + (_row(body.args[2]), body.args[3]))))
            continue
        if loops:
            if free_bvs(cond):
                outer = TRUE
            else:
                outer, cond = cond, TRUE
            body = _nest(loops, _blind(body) if any(u.op == 'lv' for u in T.subterms(body))
                         else body, cond)
            cond = outer
        put(f, cond, body)
    out = []
    for f, rows in files.items():
        if f not in paths:
            continue
        style = mk('set', tuple(sorted(paths[f])))
        if free_bvs(f):
            f = canon(_nest(inside[f], f, TRUE))
        if len({c for c, _ in rows}) == 1:
            out.append(mk('tuple', '', (canon(rows[0][0]), mk('tuple', '', (f, style)))
                          + tuple(canon(b) for _, b in rows)))
        else:
            out.append(mk('tuple', '', (mk('tuple', '', (f, style)),) +
                          tuple(mk('tuple', '', (canon(c), canon(b))) for c, b in rows)))
    return mk('set', tuple(sorted(out)))


def rows(r, I):
    '''the rows of the tables written, in order, whatever the name of the files'''
    t = tables(r, I)
    out = {}
    for u in t.args[0]:
        if u.args[1][0].op == 'tuple':
            return mk('set', tuple(sorted(mk('tuple', '', x.args[1][1:]) for x in t.args[0])))
        k = u.args[1][2:]
        out.setdefault(k, set()).add(u.args[1][0])
    return mk('set', tuple(sorted(mk('tuple', '', (canon(functools.reduce(T.b_or, sorted(c))),) + k)
                                  for k, c in out.items())))


def call_args(name, i, default=None):
    '''the i-th argument (or keyword i) over all calls of the operation, merged by condition'''
    def f(r, I):
        v = T.DONTCARE
        for e in reversed(r.trace):
            if e.kind in ('mcall', 'call') and _matches(e, (name,)):
                rc, n, a, kw = e.args
                x = None
                if i == 'recv':
                    x = rc
                elif isinstance(i, str):
                    x = I.reify(kw[i], r.heap) if i in kw else None
                elif i < len(a):
                    x = a[i]
                if x is None:
                    x = default if default is not None else mk('none')
                if e.loops:
                    w = _wrap(e, I, r, x)[1]
                    v = T.ite(e.pc if not free_bvs(e.pc) else TRUE, w, v)
                else:
                    v = T.ite(e.pc, x, v)
        if v is T.DONTCARE:
            raise Skip('no call of %s' % name)
        return v
    return f


def stores(r, I):
    '''element stores: target, index, value and condition'''
    evs = []
    for e in r.trace:
        if e.kind == 'store':
            o, i, v = e.extra[:3]
            body = mk('tuple', '', (I.reify(o, r.heap) if o.op not in ('ref',) else
                                    mk('ext', 'local'), I.reify(i, r.heap), I.reify(v, r.heap)))
            evs.append(_wrap(e, I, r, body))
    return _collect(evs)


stores.arranged = True


def returns_obj(*attrs):
    '''attributes of the returned object'''
    def f(r, I):
        def g(v):
            if v.op == 'obj':
                d = dict(v.args[1])
                return mk('obj', v.args[0], tuple((a, d.get(a, UNDEF)) for a in sorted(attrs)))
            return v
        return T.map_leaves(r.ok, g)
    return f


def raises(r, I):
    '''when the function raises'''
    return T.map_leaves(r.value, lambda u: TRUE if u.op == 'raise' else FALSE)


def setattrs(r, I, name):
    '''the values assigned to an attribute of other objects'''
    evs = []
    for e in r.trace:
        if e.kind == 'setattr' and e.extra[1] == name:
            evs.append(_wrap(e, I, r, mk('tuple', '', (I.reify(e.extra[2], r.heap),))))
    return _collect(evs)

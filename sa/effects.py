'''
Which objects does a function alter?  An interprocedural may-alias and effect analysis.

Every function is evaluated abstractly (flow-sensitive environments, allocation-site objects,
access paths of bounded length for what came in through parameters and module-level names) into a
summary: the parameters' access paths it may alter, what it may return, what it stores where, and
which access paths it reads.  Summaries are iterated to a fixpoint over the call graph; calls are
resolved by the receiver's allocation class where it is known, by the class of `self` and its
subclasses for calls on self, and otherwise by method name and number of arguments.
'''
import ast
import builtins

from .program import Func, _dotted

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update',
            'setdefault', 'popitem', 'add', 'discard', 'fill', 'resize', 'put', 'itemset',
            'setflags', 'appendleft', 'popleft', '__setitem__', 'setfield', 'partition',
            'byteswap', 'difference_update', 'intersection_update', '__delitem__',
            'symmetric_difference_update', 'move_to_end', 'rotate', 'extendleft'}
STORES = {'append': 0, 'add': 0, 'insert': 1, 'setdefault': 1, 'appendleft': 0, 'extend': 0,
          'update': 0, '__setitem__': 1}
VIEW_METHODS = {'reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'view', 'diagonal',
                'setdefault', '__getitem__', 'get', 'pop', 'popitem', 'next', '__next__'}
ELEM_METHODS = {'get', 'pop', 'popitem', '__getitem__', 'setdefault', 'next', '__next__'}
ITER_METHODS = {'items', 'values', 'keys', '__iter__'}
VIEW_FUNCS = {'np.asarray', 'np.transpose', 'np.reshape', 'np.ravel', 'np.squeeze', 'np.swapaxes',
              'np.atleast_1d', 'np.atleast_2d', 'np.atleast_3d', 'np.moveaxis', 'np.expand_dims',
              'np.flip', 'np.flipud', 'np.fliplr', 'np.rot90', 'np.broadcast_to', 'np.rollaxis',
              'np.diagonal', 'np.asanyarray', 'np.ascontiguousarray', 'np.require', 'np.nan_to_num'}
SPLITS = {'np.split', 'np.array_split', 'np.hsplit', 'np.vsplit', 'np.broadcast_arrays',
          'np.nditer'}
ALTERS = {'np.random.shuffle': (0,), 'random.shuffle': (0,), 'np.put': (0,), 'np.place': (0,),
          'np.copyto': (0,), 'np.fill_diagonal': (0,), 'np.putmask': (0,), 'np.add.at': (0,),
          'np.subtract.at': (0,), 'np.multiply.at': (0,), 'np.maximum.at': (0,),
          'np.minimum.at': (0,), 'heapq.heappush': (0,), 'heapq.heappop': (0,),
          'heapq.heapify': (0,), 'heapq.heappushpop': (0,), 'heapq.heapreplace': (0,),
          'np.put_along_axis': (0,), 'bisect.insort': (0,), 'setattr': (0,), 'delattr': (0,),
          'shuffle': (0,), 'insort': (0,)}
CONTAINERS = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter', 'filter', 'dict',
              'collections.OrderedDict', 'OrderedDict', 'deque', 'collections.deque',
              'itertools.chain', 'itertools.islice', 'itertools.cycle', 'copy.copy'}
PAIRS = {'zip', 'enumerate', 'itertools.product', 'itertools.combinations',
         'itertools.permutations', 'itertools.zip_longest'}
STATE = {'np.random.seed': 'np.random', 'random.seed': 'random', 'np.seterr': 'np.seterr',
         'np.set_printoptions': 'np.printoptions', 'np.random.set_state': 'np.random',
         'random.setstate': 'random', 'os.chdir': 'working directory', 'os.putenv': 'environment',
         'locale.setlocale': 'locale'}
PICKS = {'max', 'min', 'next', 'getattr', 'functools.reduce', 'reduce'}
SCALAR = (int, float, str, bool, complex, bytes)
DEPTH = 3


def ext(loc, step):
    kind, base, path = loc
    if kind == 'o':
        return loc
    if step.startswith('[') and path and path[-1] == '[]':
        return loc
    if step.startswith('['):
        step = '[]'
    if len(path) >= DEPTH:
        return (kind, base, path[:DEPTH - 1] + ('*',))
    if path and path[-1] == '*':
        return loc
    return (kind, base, path + (step,))


def merge(a, b):
    """union of two descriptions of returned values: one object per class"""
    if a == b:
        return a
    out, objs = set(), {}
    for r in list(a) + list(b):
        if r[0] == 'new':
            t = objs.setdefault(r[1], {})
            for n, x in r[2]:
                t[n] = merge(t[n], x) if n in t else x
        else:
            out.add(r)
    for c, t in objs.items():
        out.add(('new', c, tuple(sorted(t.items(), key=lambda p: p[0]))))
    return frozenset(out)


def merge_stores(a, b):
    t = {}
    for loc, step, r in list(a) + list(b):
        t[(loc, step)] = merge(t[(loc, step)], r) if (loc, step) in t else r
    return frozenset((k[0], k[1], r) for k, r in t.items())


class Obj(object):
    __slots__ = ('cls', 'attrs', 'site')

    def __init__(self, site, cls=None):
        self.site, self.cls, self.attrs = site, cls, {}


class Summary(object):
    def __init__(self):
        self.muts = {}          # (kind, base, path) -> node
        self.own = frozenset()  # those that do not come from a function of the declared ones
        self.ret = frozenset()  # loc | ('new', cls, ((attr, ret), ...))
        self.stores = frozenset()   # (loc, attr, ret)
        self.reads = frozenset()

    def key(self):
        return (frozenset(self.muts), self.own, self.ret, self.stores, self.reads)


class Effects(object):
    def __init__(self, prog, declared=()):
        self.prog = prog
        self.declared = frozenset(declared)
        self.sum = {}
        self.funcs = {}
        for m in prog.modules.values():
            for f in m.funcs.values():
                self.funcs[f.qual] = f
            for c in m.classes.values():
                for f in c.methods.values():
                    self.funcs[f.qual] = f
        self.methods = {}
        self.props = {}
        for f in self.funcs.values():
            if f.cls is not None:
                (self.props if f.is_property else self.methods).setdefault(f.name, []).append(f)
        self.subs = {}
        for c in prog.classes.values():
            for k in prog.mro(c):
                self.subs.setdefault(k.qual, []).append(c)
        for q in self.funcs:
            self.sum[q] = Summary()
        self.rounds = 0
        self.calls = self.unresolved = 0

    def run(self, limit=40):
        callers = {}
        todo = set(self.funcs)
        sites = {}
        for self.rounds in range(1, limit + 1):
            dirty = set()
            for q in sorted(todo):
                ev = Eval(self, self.funcs[q])
                s = ev.summary()
                sites[q] = (ev.ncalls, ev.nunresolved)
                for g in ev.callees:
                    callers.setdefault(g, set()).add(q)
                old = self.sum[q]
                # monotone
                for k, n in old.muts.items():
                    s.muts.setdefault(k, n)
                s.ret = merge(s.ret, old.ret)
                s.stores = merge_stores(s.stores, old.stores)
                s.reads |= old.reads
                s.own |= old.own
                if s.key() != old.key():
                    dirty.add(q)
                self.sum[q] = s
            todo = set().union(*[callers.get(q, set()) for q in dirty]) if dirty else set()
            if not todo:
                break
        self.calls = sum(a for a, _ in sites.values())
        self.unresolved = sum(b for _, b in sites.values())
        self.callers = callers
        return self

    def effects(self, q):
        '''{(root, path): node} altered by the function; constructors may alter self'''
        f = self.funcs[q]
        names = argnames(f)
        out = {}
        for (kind, base, path), node in self.sum[q].muts.items():
            if kind == 'p':
                if base == 0 and f.name in ('__init__', '__new__') and f.cls is not None and \
                        (not path or (len(path) == 1 and path[0][0] == '=')):
                    continue
                root = names[base] if base < len(names) else '?'
                if base == 0 and f.cls is not None and not f.is_static:
                    root = 'cls' if f.is_classmethod else 'self'
            else:
                root = base
            out[(root, ''.join(path))] = node
        return out


def argnames(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + \
        [x.arg for x in (a.vararg, a.kwarg) if x is not None]


class Eval(object):
    def __init__(self, eff, f):
        self.E, self.f, self.prog = eff, f, eff.prog
        self.m = f.module
        self.heap = {}
        self.muts, self.pst, self.reads = {}, {}, set()
        self.own, self.direct = set(), True
        self.rets = set()
        self.callees = set()
        self.ncalls = self.nunresolved = 0
        self.yields = set()
        self.gen = False
        self.names = argnames(f)
        self.depth = 0
        self.globals = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Global):
                self.globals |= set(n.names)
        a = f.node.args
        self.scalars = set()
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(
                zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(d, ast.Constant) and isinstance(d.value, SCALAR):
                self.scalars.add(x.arg)
        # used as a bound of range() or as an index: a number
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'range':
                for x in n.args:
                    if isinstance(x, ast.Name):
                        self.scalars.add(x.id)

    # ------------------------------------------------------------ objects
    def new(self, site, cls=None):
        k = ('o', site, ())
        if k not in self.heap:
            self.heap[k] = Obj(site, cls)
        elif cls is not None:
            self.heap[k].cls = cls
        return k

    def put(self, v, step, val):
        for l in v:
            if l[0] == 'o':
                o = self.heap[l]
                o.attrs[step] = o.attrs.get(step, frozenset()) | val
            else:
                k = (l, '[]' if step.startswith('[') else step)
                self.pst[k] = self.pst.get(k, frozenset()) | val

    def get(self, v, step):
        out = set()
        for l in v:
            if l[0] == 'o':
                o = self.heap[l]
                for a, x in o.attrs.items():
                    if a == step or a == '*' or (step == '[]' and a.startswith('[')) or \
                            (a == '[]' and step.startswith('[')):
                        out |= x
            else:
                k = (l, '[]' if step.startswith('[') else step)
                e = ext(l, step)
                out.add(e)
                self.reads.add(e)
                out |= self.pst.get(k, frozenset())
        return frozenset(out)

    def mutate(self, v, node, step=None):
        for l in v:
            if l[0] == 'o':
                continue
            k = l
            while k[2] and k[2][-1] == '[]':
                k = (k[0], k[1], k[2][:-1])
            if step:
                k = (k[0], k[1], l[2] + ('=' + step,))
            self.alter(k, node)

    def alter(self, k, node):
        self.muts.setdefault(k, node)
        if self.direct:
            self.own.add(k)

    # ------------------------------------------------------------ function
    def summary(self):
        env = {}
        for i, n in enumerate(self.names):
            env[n] = frozenset([('p', i, ())])
        a = self.f.node.args
        for x in (a.vararg, a.kwarg):
            if x is not None:
                # a new tuple / dict of the caller's objects
                i = self.names.index(x.arg)
                o = self.new(('args', i))
                self.heap[o].attrs['[]'] = frozenset([('p', i, ('[]',))])
                env[x.arg] = frozenset([o])
        self.block(self.f.node.body, env)
        s = Summary()
        s.muts = dict(self.muts)
        s.own = frozenset(self.own)
        ret = frozenset(self.rets)
        if self.gen:
            o = self.new(('gen',))
            self.heap[o].attrs['[]'] = frozenset(self.yields)
            ret = frozenset([o])
        s.ret = self.close(ret)
        s.stores = frozenset((l, st, r) for (l, st), v in self.pst.items()
                             for r in [self.close(v)] if r)
        s.reads = frozenset((r[0], r[1], r[2][:1]) for r in self.reads if r[0] != 'o')
        return s

    def close(self, v, depth=0):
        out = set()
        merged = {}
        for l in v:
            if l[0] != 'o':
                out.add(l)
                continue
            o = self.heap[l]
            t = merged.setdefault(o.cls.qual if o.cls is not None else None, {})
            if depth < 1:
                for a, x in o.attrs.items():
                    t[a] = t.get(a, frozenset()) | x
            else:
                t['*'] = t.get('*', frozenset()) | frozenset(
                    r for r in self.walk(frozenset([l]), '*') if r[0] != 'o')
        for c, t in merged.items():
            attrs = tuple(sorted(((a, self.close(x, depth + 1) if depth < 1 else x)
                                  for a, x in t.items()), key=lambda p: p[0]))
            out.add(('new', c, tuple((a, x) for a, x in attrs if x)))
        # one unclassified fresh object is like another
        return frozenset(x for x in out if not (x[0] == 'new' and x[1] is None and not x[2]))

    def open(self, ret, site, subst, k=0):
        out = set()
        for i, r in enumerate(sorted(ret, key=repr)):
            if r[0] == 'new':
                c = self.prog.classes.get(r[1]) if r[1] else None
                o = self.new((site, k, i, r[1]), c)
                for a, x in r[2]:
                    v = self.open(x, site, subst, k + 1 + i)
                    if v:
                        ob = self.heap[o]
                        ob.attrs[a] = ob.attrs.get(a, frozenset()) | v
                out.add(o)
            else:
                out |= subst(r)
        return frozenset(out)

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for st in body:
            env2 = self.stmt(st, env)
            if env2 is None:
                return None
            if env2 is not env:
                env.clear()
                env.update(env2)
        return env

    @staticmethod
    def join(*envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return None
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = out.get(k, frozenset()) | v
        return out

    def stmt(self, st, env):
        if isinstance(st, ast.Expr):
            self.ev(st.value, env)
        elif isinstance(st, ast.Assign):
            if len(st.targets) == 1 and isinstance(st.targets[0], (ast.Tuple, ast.List)) and \
                    isinstance(st.value, (ast.Tuple, ast.List)) and \
                    len(st.value.elts) == len(st.targets[0].elts):
                vs = [self.ev(e, env) for e in st.value.elts]
                for t, v in zip(st.targets[0].elts, vs):
                    self.assign(t, v, env)
                return env
            v = self.ev(st.value, env)
            for t in st.targets:
                self.assign(t, v, env)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value, env), env)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(st.value, env)
            t = st.target
            if isinstance(t, ast.Name):
                cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
                if t.id in self.globals:
                    self.alter(('g', self.m.name + '.' + t.id, ()), st)
                elif not self.number(t, cur, st):
                    self.mutate(cur, st)
                    self.put(cur, '[]', self.get(v, '[]'))
            else:
                base = self.ev(t.value, env)
                if isinstance(t, ast.Attribute):
                    self.get(base, '.' + t.attr)
                    self.mutate(base, st, '.' + t.attr)
                else:
                    self.ev(t.slice, env)
                    self.mutate(base, st)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.rets |= self.ev(st.value, env)
            return None
        elif isinstance(st, ast.If):
            self.ev(st.test, env)
            a = self.block(st.body, dict(env))
            b = self.block(st.orelse, dict(env))
            return self.join(a, b)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter, env)
            el = self.elements(it)
            cur = dict(env)
            for _ in range(3):
                e = dict(cur)
                self.assign(st.target, el, e)
                cur = self.join(cur, self.block(st.body, e))
            if st.orelse:
                cur = self.join(cur, self.block(st.orelse, dict(cur)))
            return cur
        elif isinstance(st, ast.While):
            cur = dict(env)
            for _ in range(3):
                self.ev(st.test, cur)
                cur = self.join(cur, self.block(st.body, dict(cur)))
            if st.orelse:
                cur = self.join(cur, self.block(st.orelse, dict(cur)))
            return cur
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env)
            return self.block(st.body, env)
        elif isinstance(st, ast.Try):
            a = self.block(st.body, dict(env))
            outs = [self.block(st.orelse, dict(a)) if a is not None and st.orelse else a]
            mid = self.join(env, a)
            for h in st.handlers:
                outs.append(self.block(h.body, dict(mid)))
            out = self.join(*outs)
            if st.finalbody:
                f = self.block(st.finalbody, dict(out if out is not None else mid))
                return f if out is not None else None
            return out
        elif isinstance(st, (ast.Raise,)):
            if st.exc is not None:
                self.ev(st.exc, env)
            return None
        elif isinstance(st, ast.Assert):
            self.ev(st.test, env)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value, env), st)
                elif isinstance(t, ast.Attribute):
                    self.mutate(self.ev(t.value, env), st, '.' + t.attr)
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            o = self.new(('def', st.lineno, st.name))
            self.heap[o].attrs = {}
            env[st.name] = frozenset([o])
            self.local = getattr(self, 'local', {})
            self.local[o] = st
            self.closure(st, env, None)
        elif isinstance(st, (ast.Break, ast.Continue)):
            # the values at this point reach the end of the loop: keep them by staying in the flow
            return env
        return env

    def closure(self, fn, env, args):
        '''the body of a nested function or lambda with its parameters bound to args'''
        if self.depth > 4:
            return frozenset()
        self.depth += 1
        e = dict(env)
        names = [x.arg for x in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
        for i, n in enumerate(names):
            e[n] = args[i] if args is not None and i < len(args) else frozenset()
        for x in (fn.args.vararg, fn.args.kwarg):
            if x is not None:
                e[x.arg] = frozenset()
        if isinstance(fn, ast.Lambda):
            v = self.ev(fn.body, e)
        else:
            old, self.rets = self.rets, set()
            self.block(fn.body, e)
            v, self.rets = frozenset(self.rets), old
        self.depth -= 1
        return v

    def number(self, target, cur, st):
        if target.id in self.scalars:
            return True
        if isinstance(st.value, ast.Constant) and isinstance(st.value.value, str):
            return True
        if isinstance(st.value, ast.JoinedStr):
            return True
        return all(l[0] == 'o' or (l[2] and l[2][-1].lstrip('.') in NUMBERS) for l in cur)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.alter(('g', self.m.name + '.' + t.id, ()), t)
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            self.mutate(b, t, '.' + t.attr)
            self.put(b, '.' + t.attr, v)
            c = self.static(t.value, env)
            if c and c[0] in ('class', 'mod'):
                q = c[1].qual if c[0] == 'class' else c[1]
                self.alter(('g', q + '.' + t.attr, ()), t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.mutate(b, t)
            self.put(b, '[]', v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    o = self.new(('star', t.lineno, t.col_offset))
                    self.put(frozenset([o]), '[]', self.get(v, '[]'))
                    self.assign(x.value, frozenset([o]), env)
                else:
                    self.assign(x, self.get(v, '[%d]' % i), env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)

    def elements(self, v):
        return self.get(v, '[]')

    # ------------------------------------------------------------ expressions
    def static(self, e, env):
        '''module-level meaning of a dotted expression, None for local values'''
        d = _dotted(e)
        if d is None:
            return None
        head = d.split('.')[0]
        if head in env:
            return None
        imp = self.localimports().get(head)
        if imp is not None:
            r = self.prog.resolve_import(imp)
        elif head in self.assigned():
            return None
        else:
            r = self.prog.resolve_name(head, self.m)
        if r is None:
            return ('builtin', d) if hasattr(builtins, head) and '.' not in d else None
        for a in d.split('.')[1:]:
            if r[0] == 'global' or (r[0] == 'class' and self.prog.lookup(r[1], a) is None):
                return ('value', r, a)
            r = self.prog.resolve_attr(r, a, self.m)
            if r is None:
                return None
        return r

    def localimports(self):
        if not hasattr(self, '_imports'):
            self._imports = {}
            for n in ast.walk(self.f.node):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self.prog._import(self.m, n, self._imports)
        return self._imports

    def assigned(self):
        if not hasattr(self, '_assigned'):
            self._assigned = {n.id for n in ast.walk(self.f.node) if isinstance(n, ast.Name) and
                              isinstance(n.ctx, ast.Store)} - self.globals
        return self._assigned

    def ev(self, e, env):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr)):
            if isinstance(e, ast.JoinedStr):
                for v in e.values:
                    if isinstance(v, ast.FormattedValue):
                        self.ev(v.value, env)
            return frozenset()
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            r = self.static(e, env)
            if r and r[0] == 'global':
                g = ('g', r[1].name + '.' + r[2], ())
                self.reads.add(g)
                return frozenset([g]) | self.pst.get((g, ''), frozenset())
            if r and r[0] == 'class':
                return frozenset([('g', r[1].qual, ())])
            return frozenset()
        if isinstance(e, ast.Attribute):
            r = self.static(e, env)
            if r is not None:
                if r[0] == 'global':
                    g = ('g', r[1].name + '.' + r[2], ())
                    self.reads.add(g)
                    return frozenset([g])
                if r[0] == 'value':
                    base = self.ev(e.value, env)
                    return self.get(base, '.' + e.attr)
                if r[0] in ('ext', 'mod', 'func', 'class', 'nt', 'builtin', 'missing'):
                    if r[0] == 'class':
                        return frozenset([('g', r[1].qual, ())])
                    return frozenset()
            v = self.ev(e.value, env)
            if e.attr in ('T', 'real', 'flat'):
                return v
            if e.attr in ('shape', 'ndim', 'size', 'dtype'):
                return self.get(v, '.' + e.attr) if e.attr == 'shape' and any(
                    l[0] == 'o' and self.heap[l].cls is not None for l in v) else frozenset()
            out = self.get(v, '.' + e.attr)
            if e.attr in self.E.props:
                for f in self.targets(v, e.attr, None, props=True):
                    out |= self.apply(f, [v], {}, e)
            return out
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, env)
            self.ev(e.slice, env)
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and \
                    e.slice.value >= 0:
                return self.get(v, '[%d]' % e.slice.value)
            if isinstance(e.slice, ast.Slice):
                out = set(self.get(v, '[]'))
                for l in v:
                    if l[0] == 'o':
                        o = self.new(('slice', e.lineno, e.col_offset))
                        self.put(frozenset([o]), '[]', self.get(frozenset([l]), '[]'))
                        out.add(o)
                return frozenset(out)
            return self.get(v, '[]')
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            o = self.new((type(e).__name__, e.lineno, e.col_offset))
            s = frozenset([o])
            for i, x in enumerate(e.elts):
                if isinstance(x, ast.Starred):
                    self.put(s, '[]', self.get(self.ev(x.value, env), '[]'))
                else:
                    self.put(s, '[%d]' % i if not isinstance(e, ast.Set) else '[]',
                             self.ev(x, env))
            return s
        if isinstance(e, ast.Dict):
            o = self.new(('dict', e.lineno, e.col_offset))
            s = frozenset([o])
            for k, x in zip(e.keys, e.values):
                if k is None:
                    self.put(s, '[]', self.get(self.ev(x, env), '[]'))
                else:
                    self.ev(k, env)
                    self.put(s, '[]', self.ev(x, env))
            return s
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            en = dict(env)
            for g in e.generators:
                it = self.ev(g.iter, en)
                self.assign(g.target, self.elements(it), en)
                for c in g.ifs:
                    self.ev(c, en)
            if isinstance(e, ast.DictComp):
                self.ev(e.key, en)
                v = self.ev(e.value, en)
            else:
                v = self.ev(e.elt, en)
            o = self.new(('comp', e.lineno, e.col_offset))
            self.put(frozenset([o]), '[]', v)
            return frozenset([o])
        if isinstance(e, ast.BoolOp):
            out = frozenset()
            for x in e.values:
                out |= self.ev(x, env)
            return out
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return self.ev(e.body, env) | self.ev(e.orelse, env)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(e.op, (ast.Add, ast.Mult)):
                els = set()
                for l in a | b:
                    if l[0] == 'o':
                        els |= self.get(frozenset([l]), '[]')
                if els:
                    o = self.new(('bin', e.lineno, e.col_offset))
                    self.put(frozenset([o]), '[]', frozenset(els))
                    return frozenset([o])
            return frozenset()
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.assign(e.target, v, env)
            return v
        if isinstance(e, ast.Lambda):
            o = self.new(('lambda', e.lineno, e.col_offset))
            self.local = getattr(self, 'local', {})
            self.local[o] = e
            self.closure(e, env, None)
            return frozenset([o])
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            self.gen = True
            v = self.ev(e.value, env) if e.value is not None else frozenset()
            self.yields |= v if isinstance(e, ast.Yield) else self.get(v, '[]')
            return frozenset()
        if isinstance(e, ast.Starred):
            return self.ev(e.value, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return frozenset()

    # ------------------------------------------------------------ calls
    def call(self, e, env):
        self.ncalls += 1
        fn = e.func
        star = any(isinstance(a, ast.Starred) for a in e.args) or any(
            k.arg is None for k in e.keywords)
        args = [self.ev(a, env) for a in e.args]
        args = [self.get(v, '[]') if isinstance(a, ast.Starred) else v
                for a, v in zip(e.args, args)]
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                kw['**'] = self.get(v, '[]')
            else:
                kw[k.arg] = v
        if 'out' in kw:
            self.mutate(kw['out'], e)
        # super().m(...)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and \
                isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and \
                self.f.cls is not None and self.names:
            me = env.get(self.names[0], frozenset())
            out = frozenset()
            for c in self.E.subs.get(self.f.cls.qual, [self.f.cls]):
                g = self.prog.lookup(c, fn.attr, after=self.f.cls)
                if g is not None:
                    out |= self.apply(g, [me] + args, kw, e)
            return out
        # local functions
        if isinstance(fn, ast.Name) and fn.id in env:
            out = frozenset()
            for l in env[fn.id]:
                d = getattr(self, 'local', {}).get(l)
                if d is not None:
                    out |= self.closure(d, env, args)
                elif l[0] == 'g' and l[1] in self.prog.classes:
                    out |= self.construct(self.prog.classes[l[1]], args, kw, e)
            return out
        r = self.static(fn, env)
        if r is not None and r[0] == 'func':
            g = r[1]
            if g.cls is not None and not g.is_static and not g.is_classmethod and \
                    isinstance(fn, ast.Attribute):
                return self.apply(g, args, kw, e)       # Class.method(self, ...)
            if g.is_classmethod:
                args = [frozenset()] + args
            return self.apply(g, args, kw, e)
        if r is not None and r[0] == 'class':
            return self.construct(r[1], args, kw, e)
        if r is not None and r[0] == 'nt':
            o = self.new(('nt', e.lineno, e.col_offset))
            fields = r[1][1]
            for n, v in list(zip(fields, args)) + [x for x in kw.items() if x[0] != '**']:
                self.put(frozenset([o]), '.' + n, v)
            for i, v in enumerate(args):
                self.put(frozenset([o]), '[%d]' % i, v)
            return frozenset([o])
        if r is not None and r[0] in ('ext', 'builtin'):
            return self.library(r[1], e, args, kw, env)
        if isinstance(fn, ast.Attribute):
            v = self.ev(fn.value, env)
            return self.method(v, fn.attr, e, args, kw, env)
        v = self.ev(fn, env)
        out = frozenset()
        for l in v:
            if l[0] == 'g' and l[1] in self.prog.classes:
                out |= self.construct(self.prog.classes[l[1]], args, kw, e)
            elif l in getattr(self, 'local', {}):
                out |= self.closure(self.local[l], env, args)
        if not out:
            self.nunresolved += 1
        return out

    def construct(self, c, args, kw, e):
        o = self.new(('new', e.lineno, e.col_offset, c.qual), c)
        s = frozenset([o])
        init = self.prog.lookup(c, '__init__')
        if init is not None:
            self.apply(init, [s] + args, kw, e)
        if c.name in c.module.namedtuples:
            fields = c.module.namedtuples[c.name][1]
            for n, v in list(zip(fields, args)) + [x for x in kw.items() if x[0] != '**']:
                self.put(s, '.' + n, v)
        return s

    def library(self, name, e, args, kw, env):
        allv = frozenset().union(*args) if args else frozenset()
        if name in STATE:
            self.alter(('g', STATE[name], ()), e)
            return frozenset()
        if name == 'setattr' and len(args) >= 2:
            n = e.args[1]
            self.mutate(args[0], e, '.' + n.value if isinstance(n, ast.Constant) else '.*')
            if len(args) > 2:
                self.put(args[0], '.' + n.value if isinstance(n, ast.Constant) else '*', args[2])
            return frozenset()
        if name in ALTERS:
            for i in ALTERS[name]:
                if i < len(args):
                    self.mutate(args[i], e)
            return frozenset()
        last = name.split('.')[-1]
        if name.startswith('np.') and last == 'at' and args:
            self.mutate(args[0], e)
            return frozenset()
        if name == 'np.nan_to_num':
            for k in e.keywords:
                if k.arg == 'copy' and isinstance(k.value, ast.Constant) and \
                        k.value.value is False:
                    self.mutate(allv, e)
                    return args[0] if args else frozenset()
            return frozenset()
        if name in VIEW_FUNCS:
            return args[0] if args else frozenset()
        if name == 'np.array':
            for k in e.keywords:
                if k.arg == 'copy' and isinstance(k.value, ast.Constant) and not k.value.value:
                    return args[0] if args else frozenset()
            return frozenset()
        if name in SPLITS:
            o = self.new(('split', e.lineno, e.col_offset))
            self.put(frozenset([o]), '[]', args[0] if args else frozenset())
            return frozenset([o])
        if name in CONTAINERS or last in ('OrderedDict', 'deque'):
            o = self.new(('container', e.lineno, e.col_offset))
            for v in args:
                self.put(frozenset([o]), '[]', self.get(v, '[]'))
            for k, v in kw.items():
                self.put(frozenset([o]), '[]', v)
            return frozenset([o])
        if name in PAIRS:
            t = self.new(('pair', e.lineno, e.col_offset))
            o = self.new(('pairs', e.lineno, e.col_offset))
            for i, v in enumerate(args):
                self.put(frozenset([t]), '[%d]' % (i + (name == 'enumerate')),
                         self.get(v, '[]'))
            self.put(frozenset([o]), '[]', frozenset([t]))
            return frozenset([o])
        if name in ('map', 'itertools.starmap', 'np.vectorize', 'np.apply_along_axis',
                    'functools.partial'):
            o = self.new(('map', e.lineno, e.col_offset))
            if e.args:
                out = self.called(e.args[0], [self.get(v, '[]') for v in args[1:]], e, env)
                self.put(frozenset([o]), '[]', out)
            return frozenset([o])
        if name in PICKS:
            if name == 'getattr':
                n = e.args[1] if len(e.args) > 1 else None
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    return self.get(args[0], '.' + n.value) | (
                        args[2] if len(args) > 2 else frozenset())
                return frozenset()
            if len(args) == 1 or name == 'next':
                return self.get(args[0], '[]')
            return allv
        return frozenset()

    def called(self, fe, args, e, env):
        '''a function given as a value'''
        r = self.static(fe, env)
        if r is not None and r[0] == 'func':
            return self.apply(r[1], args, {}, e)
        if r is not None and r[0] == 'class':
            return self.construct(r[1], args, {}, e)
        if isinstance(fe, ast.Lambda):
            return self.closure(fe, env, args)
        if isinstance(fe, ast.Name) and fe.id in env:
            out = frozenset()
            for l in env[fe.id]:
                d = getattr(self, 'local', {}).get(l)
                if d is not None:
                    out |= self.closure(d, env, args)
            return out
        if isinstance(fe, ast.Attribute):
            v = self.ev(fe.value, env)
            out = frozenset()
            for f in self.targets(v, fe.attr, len(args)):
                out |= self.apply(f, [v] + args, {}, e)
            return out
        return frozenset()

    def targets(self, v, name, nargs, props=False, kws=()):
        '''the methods that v.name may be'''
        table = self.E.props if props else self.E.methods
        if name not in table:
            return []
        classes, unknown = set(), not v
        for l in v:
            if l[0] == 'o':
                c = self.heap[l].cls
                if c is not None:
                    classes.add(c)
                else:
                    continue        # a container, an array, a library's object
            elif l == ('p', 0, ()) and self.f.cls is not None and not self.f.is_static:
                classes |= set(self.E.subs.get(self.f.cls.qual, [self.f.cls]))
            elif l[0] == 'g' and l[1] in self.prog.classes and not l[2]:
                classes.add(self.prog.classes[l[1]])
            else:
                unknown = True
        out = []
        for c in sorted(classes, key=lambda c: c.qual):
            f = self.prog.lookup(c, name)
            if f is not None and f not in out:
                out.append(f)
        if unknown:
            for f in table[name]:
                if f not in out and (props or self.accepts(f, nargs, kws)):
                    out.append(f)
        return out

    @staticmethod
    def accepts(f, nargs, kws):
        a = f.node.args
        if a.vararg is not None or a.kwarg is not None or nargs is None:
            return True
        pos = a.posonlyargs + a.args
        skip = 0 if f.is_static else 1
        names = {x.arg for x in pos[skip:] + a.kwonlyargs}
        if set(kws) - {'**'} - names:
            return False
        if nargs > len(pos) - skip:
            return False
        need = len(pos) - skip - len(a.defaults)
        return '**' in kws or nargs + len(set(kws)) >= need

    def method(self, v, name, e, args, kw, env):
        fs = self.targets(v, name, None if any(isinstance(a, ast.Starred) for a in e.args)
                          else len(args), kws=tuple(kw))
        out = frozenset()
        # attributes that hold functions / local functions
        for f in fs:
            if f.is_static:
                out |= self.apply(f, args, kw, e)
            else:
                out |= self.apply(f, [v] + args, kw, e)
        if fs:
            return out
        plain = [l for l in v if not (l[0] == 'o' and self.heap[l].cls is not None)]
        held = frozenset(plain)
        if name in MUTATORS and not (name == 'partition' and name in self.E.methods) and not (
                name in ('update', 'add', 'pop', 'remove', 'insert', 'sort', 'clear')
                and not held and not v):
            self.mutate(held, e)
            i = STORES.get(name)
            if i is not None and i < len(args):
                x = self.get(args[i], '[]') if name in ('extend', 'update') else args[i]
                self.put(held, '[]', x)
        if name in ELEM_METHODS:
            return self.get(v, '[]') | (args[1] if name in ('get', 'setdefault') and
                                        len(args) > 1 else frozenset())
        if name == 'items':
            t = self.new(('item', e.lineno, e.col_offset))
            o = self.new(('items', e.lineno, e.col_offset))
            self.put(frozenset([t]), '[1]', self.get(v, '[]'))
            self.put(frozenset([o]), '[]', frozenset([t]))
            return frozenset([o])
        if name == 'keys':
            return frozenset()
        if name == 'values':
            o = self.new(('values', e.lineno, e.col_offset))
            self.put(frozenset([o]), '[]', self.get(v, '[]'))
            return frozenset([o])
        if name in VIEW_METHODS:
            return held
        if name == 'astype' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and
                                    not k.value.value for k in e.keywords):
            return held
        if name in ('map', 'imap', 'starmap') and e.args:
            o = self.new(('map', e.lineno, e.col_offset))
            self.put(frozenset([o]), '[]', self.called(
                e.args[0], [self.get(x, '[]') for x in args[1:]], e, env))
            return frozenset([o])
        if not v:
            self.nunresolved += 1
        return frozenset()

    def apply(self, f, args, kw, e):
        self.callees.add(f.qual)
        s = self.E.sum[f.qual]
        names = argnames(f)
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        extra = frozenset()
        for i, v in enumerate(args):
            if i < len(pos):
                bound[i] = bound.get(i, frozenset()) | v
            else:
                extra |= v
        for k, v in kw.items():
            if k in names and not (a.kwarg is not None and k == a.kwarg.arg):
                i = names.index(k)
                bound[i] = bound.get(i, frozenset()) | v
            elif k == '**':
                for i in range(len(names)):
                    if i not in bound or i >= len(args):
                        bound[i] = bound.get(i, frozenset()) | v
            else:
                extra |= v
        rest = [i for i, n in enumerate(names) if (a.vararg is not None and n == a.vararg.arg) or
                (a.kwarg is not None and n == a.kwarg.arg)]
        site = (e.lineno, e.col_offset, f.qual)

        def subst(loc):
            kind, base, path = loc
            if kind == 'g':
                return frozenset([loc])
            if base in rest:
                cur = extra
                path = path[1:] if path[:1] == ('[]',) else path
            else:
                cur = bound.get(base, frozenset())
            for st in path:
                cur = self.walk(cur, st)
            return cur

        before = self.direct
        for (kind, base, path), node in s.muts.items():
            # an argument altered by the callee is altered here; state that a declared function
            # keeps is its own business
            self.direct = before and (
                f.qual not in self.E.declared and (kind, base, path) in s.own or
                kind == 'p' and not (base == 0 and f.cls is not None and not f.is_static) and
                not path)
            if kind == 'g':
                self.alter((kind, base, path), e)
                continue
            if path and path[-1].startswith('='):
                self.mutate(subst((kind, base, path[:-1])), e, path[-1][1:])
            else:
                self.mutate(subst((kind, base, path)), e)
        self.direct = before
        for r in s.reads:
            if r[0] == 'g':
                self.reads.add(r)
            else:
                subst(r)
        for loc, step, ret in s.stores:
            tgt = subst(loc)
            self.put(tgt, step, self.open(ret, site, subst))
        return self.open(s.ret, site, subst)

    def walk(self, v, step):
        if step == '*':
            out, todo = set(), list(v)
            while todo:
                l = todo.pop()
                if l in out:
                    continue
                out.add(l)
                if l[0] == 'o':
                    for x in self.heap[l].attrs.values():
                        todo.extend(x)
            return frozenset(out)
        return self.get(v, step)


NUMBERS = {'x', 'y', 'x1', 'x2', 'y1', 'y2', 'x_len', 'y_len', 'k', 'i', 'j', 'n', 'index',
           'count', 'seed', 'random_seed', 'tp', 'tf', 'test_len', 'name', 'identifier', 'shape',
           'last', 'days', 'ratio', 'scale_min', 'scale_max', 'year_start', 'year_end',
           'series_len', 'centroid', 'cluster_index', 'position', 'total', 'cost'}

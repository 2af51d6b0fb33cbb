'''
Flow-sensitive interprocedural value-numbering over the syntax tree.

One pass per function body: branches are merged at joins into decision nodes, loops are
summarised once (carried variables become binder variables; the update expressions become a
comprehension / sum / search / fold), resolvable repository calls are summarised in place.
Nothing is executed, no path is enumerated, no solver is consulted.
'''
import ast
import re
import string

from .program import Program, Cls, Func, Module, _dotted
from .terms import *          # noqa
from . import terms as T

_ids = [0]


def _fresh():
    _ids[0] += 1
    return _ids[0]


MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'sort', 'pop', 'remove', 'clear',
            'fill', 'setdefault', 'reverse', 'discard', 'popleft', 'appendleft'}

NP_METHODS = {'any', 'all', 'mean', 'sum', 'min', 'max', 'std', 'var', 'argmin', 'argmax', 'copy',
              'reshape', 'transpose', 'flatten', 'ravel', 'take', 'tolist', 'astype', 'dot',
              'cumsum', 'prod', 'round', 'swapaxes', 'squeeze', 'item', 'nonzero', 'argsort',
              'clip', 'repeat'}

NP_SIGS = {
    'np.repeat': ('a', 'repeats', 'axis'), 'np.mean': ('a', 'axis'), 'np.sum': ('a', 'axis'),
    'np.max': ('a', 'axis'), 'np.min': ('a', 'axis'), 'np.std': ('a', 'axis'),
    'np.zeros': ('shape', 'dtype'), 'np.empty': ('shape', 'dtype'), 'np.ones': ('shape', 'dtype'),
    'np.full': ('shape', 'fill_value', 'dtype'), 'np.argmin': ('a', 'axis'),
    'np.argmax': ('a', 'axis'), 'np.nanmin': ('a', 'axis'), 'np.nanmax': ('a', 'axis'),
    'np.random.choice': ('a', 'size', 'replace', 'p'),
    'np.random.randint': ('low', 'high', 'size'),
    'np.array': ('object', 'dtype'), 'np.linalg.norm': ('x', 'ord', 'axis'),
    'np.argpartition': ('a', 'kth', 'axis'), 'np.concatenate': ('arrays', 'axis'),
    'np.swapaxes': ('a', 'axis1', 'axis2'), 'np.transpose': ('a', 'axes'),
    'np.any': ('a', 'axis'), 'np.all': ('a', 'axis'), 'np.take': ('a', 'indices', 'axis'),
    'np.save': ('file', 'arr'), 'np.load': ('file',), 'open': ('file', 'mode'),
    'pickle.dump': ('obj', 'file'), 'pickle.load': ('file',), 'np.copy': ('a',),
    'csv.writer': ('csvfile', 'dialect', 'delimiter'),
    'itertools.repeat': ('object', 'times'),
    'np.reshape': ('a', 'newshape'),
}

NP_CANON = {'np.Inf': 'np.inf', 'np.infty': 'np.inf', 'np.NaN': 'np.nan', 'np.NAN': 'np.nan',
            'math.inf': 'np.inf', 'math.nan': 'np.nan', 'np.amin': 'np.min', 'np.amax': 'np.max',
            'np.absolute': 'np.abs', 'math.sqrt': 'np.sqrt', 'math.fabs': 'np.abs',
            'math.isnan': 'np.isnan', 'np.asarray': 'np.array', 'math.floor': 'floor',
            'np.floor': 'floor', 'collections.OrderedDict': 'dict', 'np.logical_not': 'invert',
            'np.invert': 'invert',
            'np.float64': 'np.float64', 'math.ceil': 'np.ceil'}

UNROLL = 40       # longest constant sequence that is unrolled
STATEFUL = ('np.random.', 'random.', 'time.', 'uuid.', 'os.getpid', 'next')

SHOW = {'str', 'repr', 'len', 'format', 'type', 'int', 'float', 'round', 'list', 'tuple'}
SILENT = {'print', 'np.set_printoptions', 'sys.stdout.flush', 'warnings.warn'}

ATOM_RAISE = 'raise'


class State(object):
    __slots__ = ('env', 'heap', 'pc')

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc)


class Frame(object):
    def __init__(self, func, module, cls, self_term):
        self.func, self.module, self.cls, self.self_term = func, module, cls, self_term
        self.exits = []      # (pc, kind, value, heap)
        self.loops = []
        self.try_n = 0


class Event(object):
    '''an opaque call or a store, with its condition and context'''
    __slots__ = ('kind', 'pc', 'term', 'node', 'func', 'loops', 'ctx', 'extra', 'args')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


class Result(object):
    def __init__(self, interp, value, heap, trace, exits):
        self.interp, self.raw, self.heap, self.trace, self.exits = \
            interp, value, heap, trace, exits

    @property
    def value(self):
        return canon(self.interp.reify(self.raw, self.heap))

    @property
    def ok(self):
        '''the value on normal completion'''
        return drop_raises(self.value)

    def attr(self, obj, name):
        v = self.interp.heap_attr(self.heap, obj, name)
        return None if v is None else canon(self.interp.reify(v, self.heap))

    def content(self, t):
        return canon(self.interp.reify(t, self.heap))

    def reify(self, t):
        return canon(self.interp.reify(t, self.heap))


# functions applied to every element of an array
POINTWISE = {'pow', 'np.power', 'np.sqrt', 'np.abs', 'np.exp', 'np.log', 'np.square', 'np.round',
             'np.isnan', 'np.nan_to_num', 'np.maximum', 'np.minimum', 'div', 'np.add',
             'np.subtract', 'np.multiply', 'np.divide', 'np.logical_and', 'np.logical_or',
             'invert', 'np.isclose', 'floordiv', 'mod'}


SET_OPS = {ast.Sub: 'difference', ast.BitOr: 'union', ast.BitAnd: 'intersection',
           ast.BitXor: 'symmetric_difference'}


def _is_set(t):
    return t.op == 'set' or t.op == 'call' and t.args[0] in ('set', 'frozenset') or \
        t.op == 'mcall' and t.args[1] in SET_OPS.values() and _is_set(t.args[0])


def set_with(t, more):
    '''a set and the members of a list'''
    if t.op == 'set':
        xs = mk('list', t.args[0])
    elif t.op == 'call' and t.args[0] == 'set':
        xs = t.args[1][0]
    else:
        xs = mk('call', 'list', (t,), ())
    return mk('call', 'set', (concat_list(xs, more),), ())


ELEMENTWISE = {'np.where', 'np.nonzero', 'np.flatnonzero', 'np.argwhere', 'np.count_nonzero'}


class Interp(object):
    MAX_DEPTH = 28
    MAX_STEPS = 60000

    def __init__(self, prog, keep=(), inline_only=None, attr_types=None, name_types=None,
                 ret_types=None, hooks=None, atomic=(), ints=(), ndims=None,
                 scalars=()):
        self.prog = prog
        self.atomic = set(atomic)
        self.ints = set(ints)
        # arrays given as inputs, with their number of dimensions or their extents
        self.ndims = {k: tuple(const(x) if isinstance(x, int) else x if isinstance(x, T.Term) else
                               index(mk('attr', mk('sym', k), 'shape'), const(i))
                               for i, x in enumerate(v)) if isinstance(v, tuple) else v
                      for k, v in (ndims or {}).items()}
        T.NDIMS = {k: v for k, v in self.ndims.items() if k[0] != '.'}
        self.scalars = set(scalars)
        self.keep = set(keep)
        self.attr_types = dict(attr_types or {})
        self.name_types = dict(name_types or {})
        self.ret_types = dict(ret_types or {})
        self.hooks = hooks or {}
        self.types = {}
        self.objcls = {}
        self.closures = {}
        self.trace = []
        self.frames = []
        self.base_pcs = []
        self.loops = []
        self.ctx = []
        self.steps = 0
        self.rng = 0
        self.st = State({}, {}, TRUE)
        self.callstack = []
        self.functions_seen = set()
        self.excs, self.kept = {}, []
        self.marked = {}
        self.unresolved = set()
        self.iter_mode = None
        self._glob = {}

    # ================================================================ types
    def cls_named(self, q):
        if isinstance(q, Cls):
            return q
        if q in self.prog.classes:
            return self.prog.classes[q]
        for kind, c in self.prog.by_name.get(q, []):
            if kind == 'class':
                return c
        return None

    def nt_named(self, q):
        if q in self.prog.nt_fields:
            return (q, self.prog.nt_fields[q])
        for kind, c in self.prog.by_name.get(q, []):
            if kind == 'nt':
                return c
        return None

    def sym(self, name, cls=None):
        t = mk('sym', name)
        if cls is not None:
            self.set_type(t, cls)
        return t

    def set_type(self, t, cls):
        c = self.cls_named(cls) if not isinstance(cls, Cls) else cls
        if c is not None:
            self.types[t] = c
        else:
            nt = self.nt_named(cls)
            if nt is not None:
                self.types[t] = nt
            else:
                raise KeyError('unknown type %s' % cls)

    def type_of(self, t):
        if t.op == 'old':
            return self.type_of(t.args[0])
        if t in self.types:
            return self.types[t]
        if t.op == 'ref':
            return self.objcls.get(t.args[0])
        if t.op == 'obj':
            return self.prog.classes.get(t.args[0])
        if t.op == 'tuple' and t.args[0] in self.prog.classes:
            return self.prog.classes[t.args[0]]
        name = None
        if t.op == 'attr':
            name = self.attr_types.get(t.args[1])
        elif t.op == 'mcall':
            name = self.ret_types.get(t.args[1])
        elif t.op == 'call':
            name = self.ret_types.get(t.args[0])
        elif t.op == 'store':
            return self.type_of(t.args[0])
        if name is None:
            return None
        c = self.cls_named(name)
        if c is None:
            c = self.nt_named(name)
        return c

    # ================================================================ heap
    def alloc(self, content=None, cls=None):
        i = _fresh()
        r = mk('ref', i)
        if cls is not None:
            self.objcls[i] = cls
        else:
            self.st.heap[('L', i)] = content
        return r

    def content(self, t):
        '''the value of a container (resolving allocated containers)'''
        def f(x):
            if x.op == 'ref':
                if x.args[0] in self.objcls:
                    return x
                return self.st.heap.get(('L', x.args[0]), x)
            return self.changed(x)
        return lift(f, [t])

    def changed(self, x):
        c = self.st.heap.get(('C', x), x)
        if c is x:
            return x
        # what the container was before it was changed is not changed again
        k = (c, x)
        if k not in self.marked:
            self.marked[k] = subst(c, {x: mk('old', x)})
        return self.marked[k]

    def set_content(self, t, new, node=None):
        if t.op == 'ite':
            # update each possible target under its condition
            for leaf in leaves(t):
                cond = map_leaves(t, lambda u: TRUE if u is leaf else FALSE)
                self.set_content(leaf, ite(cond, new, self.content(leaf)), node)
            return
        if t.op == 'ref':
            self.st.heap[('L', t.args[0])] = new
        elif t.op in ('attr', 'sym', 'call', 'mcall', 'index', 'ext', 'bv', 'lv', 'apply', 'store',
                      'fold', 'comp'):
            self.st.heap[('C', t)] = new

    def heap_attr(self, heap, o, name):
        if o.op == 'ref':
            return heap.get(('O', o.args[0], name))
        return heap.get(('A', o, name))

    def default(self, key):
        if key[0] == 'A':
            return mk('attr', key[1], key[2])
        if key[0] == 'C':
            return key[1]
        return UNDEF

    def merge(self, c, a, b):
        '''join of two states; c selects a'''
        if a.pc is FALSE:
            return b
        if b.pc is FALSE:
            return a
        env = {}
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            env[k] = x if x is y else ite(c, x, y)
        heap = {}
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None:
                x = y if k[0] == 'L' else self.default(k)
            if y is None:
                y = x if k[0] == 'L' else self.default(k)
            heap[k] = x if x is y else ite(c, x, y)
        return State(env, heap, b_or(a.pc, b.pc))

    def reify(self, t, heap=None, _stack=()):
        '''replace references by the values they denote'''
        heap = self.st.heap if heap is None else heap
        memo = {}

        def go(u, stack):
            key = u
            if key in memo:
                return memo[key]
            if u.op == 'ref':
                i = u.args[0]
                if i in stack:
                    return mk('cyclic', self.objcls[i].qual if i in self.objcls else 'seq')
                if i in self.objcls:
                    items = []
                    for k, v in heap.items():
                        if k[0] == 'O' and k[1] == i and k[2] not in ('logger',):
                            items.append((k[2], go(v, stack + (i,))))
                    items.sort(key=lambda kv: kv[0])
                    return mk('obj', self.objcls[i].qual, tuple(items))
                c = heap.get(('L', i))
                if c is None:
                    return u
                return go(c, stack + (i,))
            if u.op == 'closure':
                r = self.reify_closure(u, heap, stack)
                memo[key] = r
                return r
            if not u.args or u.op in ('num', 'str', 'sym', 'ext', 'func', 'class', 'bv', 'lv'):
                return u
            if u.op == 'old':
                return u
            hk = ('C', u)
            if hk in heap and heap[hk] is not u:
                if u in stack:
                    # what the container was before it was changed
                    return mk('old', u)
                r = go(heap[hk], stack + (u,))
                memo[key] = r
                return r
            if not contains(u, lambda v: v.op in ('ref', 'closure') or ('C', v) in heap):
                memo[key] = u
                return u
            r = rebuild(u, lambda v: go(v, stack))
            memo[key] = r
            return r
        return go(t, tuple(_stack))

    def reify_closure(self, t, heap, stack=()):
        cid = t.args[0]
        if ('clo', cid) in stack or len(stack) > 24:
            return mk('func', 'recursive')
        func, env, ownerframe = self.closures[cid]
        node = func.node
        a = node.args
        names = [x.arg for x in a.args]
        bvs = [mk('bv', 'p%d' % _fresh()) for _ in names]
        save = (self.st, self.trace, self.loops, self.ctx)
        try:
            self.st = State({}, dict(heap), TRUE)
            self.trace = list(self.trace)
            v = self.call_closure(t, bvs, {})
            v = self.reify(v, self.st.heap, stack + (('clo', cid),))
        finally:
            self.st, self.trace, self.loops, self.ctx = save
        return mk('lambda', tuple(bvs), v)

    # ================================================================ entry points
    def run(self, func, args=None, self_term=None, cls=None, heap=None):
        '''summarise func; args: dict name -> Term (missing parameters become symbols)'''
        self.st = State({}, dict(heap or {}), TRUE)
        if self_term is None and func.cls is not None and not func.is_static:
            if func.is_classmethod:
                self_term = mk('class', (cls or func.cls).qual)
            else:
                self_term = self.sym('self', cls or func.cls)
        params = func.node.args
        names = [a.arg for a in params.args]
        bound = {}
        if self_term is not None and names:
            bound[names[0]] = self_term
        for a in params.args[len(bound):] + params.kwonlyargs:
            if args and a.arg in args:
                v = args[a.arg]
                bound[a.arg] = v
            else:
                bound[a.arg] = self.param(a.arg)
        if params.vararg:
            bound[params.vararg.arg] = mk('sym', '*' + params.vararg.arg)
        if params.kwarg:
            bound[params.kwarg.arg] = mk('sym', '**' + params.kwarg.arg)
        v, exits = self.exec_function(func, bound, self_term, top=True)
        return Result(self, v, self.st.heap, self.trace, exits)

    def param(self, name):
        t = mk('sym', name)
        if t not in self.types and name in self.name_types:
            self.set_type(t, self.name_types[name])
        return t

    def client(self, src, env=None, types=None):
        '''summarise a client snippet (a function body over repository names)'''
        tree = ast.parse(src)
        fn = tree.body[0]
        m = ClientModule(self.prog)
        f = Func(fn, m)
        args = {}
        for a in fn.args.args:
            t = mk('sym', a.arg)
            if a.annotation is not None:
                ann = a.annotation
                self.set_type(t, ann.value if isinstance(ann, ast.Constant) else _dotted(ann))
            elif a.arg in self.name_types:
                self.set_type(t, self.name_types[a.arg])
            args[a.arg] = (env or {}).get(a.arg, t)
        return self.run(f, args)

    # ================================================================ functions
    def exec_function(self, func, bound, self_term, top=False, closure_env=None):
        self.functions_seen.add(func.qual)
        fr = Frame(func, func.module, func.cls, self_term)
        caller_env, caller_pc = self.st.env, self.st.pc
        env = dict(closure_env or {})
        env.update(bound)
        self.base_pcs.append(caller_pc)
        self.frames.append(fr)
        saved_loops = self.loops
        self.st = State(env, self.st.heap, TRUE)
        try:
            if isinstance(func.node, ast.Lambda):
                v = self.eval(func.node.body)
                fr.exits.append((self.st.pc, 'return', v, self.st.heap))
                self.st.pc = FALSE
            else:
                if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(func.node)):
                    self.exec_block(generator_body(func))
                else:
                    self.exec_block(func.node.body)
            if self.st.pc is not FALSE:
                fr.exits.append((self.st.pc, 'return', NONE, self.st.heap))
        finally:
            self.frames.pop()
            self.base_pcs.pop()
            self.loops = saved_loops
        # combine the exits
        rets = [e for e in fr.exits if e[1] == 'return']
        raises = [e for e in fr.exits if e[1] == 'raise']
        value = None
        heap = None
        for pc, _, v, h in reversed(rets):
            if value is None:
                value, heap = v, h
            else:
                m = self.merge(pc, State({'v': v}, h, TRUE), State({'v': value}, heap, TRUE))
                value, heap = m.env['v'], m.heap
        rc = FALSE
        for pc, _, v, h in raises:
            rc = b_or(rc, pc)
        if value is None:
            value = UNDEF
            heap = raises[-1][3] if raises else self.st.heap
        if top:
            full = value
            for pc, _, v, h in raises:
                full = ite(pc, v, full)
            if not rets:
                full = raises[-1][2] if raises else UNDEF
                for pc, _, v, h in reversed(raises[:-1]):
                    full = ite(pc, v, full)
            self.st = State({}, heap, TRUE)
            return full, fr.exits
        # propagate raises to the caller
        self.st = State(caller_env, heap, caller_pc)
        for pc, _, v, h in raises:
            self.add_exit(b_and(caller_pc, pc), 'raise', v, h)
        if rc is not FALSE:
            self.st.pc = b_and(caller_pc, b_not(rc))
        return value, fr.exits

    def add_exit(self, pc, kind, value, heap):
        if pc is FALSE:
            return
        self.frames[-1].exits.append((pc, kind, value, heap))

    def bind(self, func, args, kwargs, self_term, star=None):
        a = func.node.args
        names = [x.arg for x in a.args]
        bound = {}
        pos = list(args)
        if self_term is not None:
            pos = [self_term] + pos
        for n, v in zip(names, pos):
            bound[n] = v
        if len(pos) > len(names):
            if a.vararg:
                bound[a.vararg.arg] = tup(*pos[len(names):])
            else:
                raise Unsupported('too many arguments for %s' % func.qual)
        elif a.vararg:
            bound[a.vararg.arg] = tup()
        extra = []
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                bound[k] = v
            elif a.kwarg:
                extra.append((const(k), v))
            else:
                raise Unsupported('unexpected keyword %s for %s' % (k, func.qual))
        if a.kwarg:
            bound[a.kwarg.arg] = self.alloc(mk('dict', tuple(extra)))
        # defaults
        defs = a.defaults
        for x, d in zip(a.args[len(a.args) - len(defs):], defs):
            if x.arg not in bound:
                bound[x.arg] = self.eval_in_module(d, func.module)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in bound and d is not None:
                bound[x.arg] = self.eval_in_module(d, func.module)
        for n in names:
            if n not in bound:
                raise Unsupported('missing argument %s for %s' % (n, func.qual))
        for n, v in bound.items():
            if n in self.name_types and v.op in ('sym', 'attr', 'index', 'call', 'mcall', 'apply') \
                    and self.type_of(v) is None:
                try:
                    self.set_type(v, self.name_types[n])
                except KeyError:
                    pass
        return bound

    def eval_in_module(self, expr, module):
        fr = Frame(None, module, None, None)
        self.frames.append(fr)
        env, self.st.env = self.st.env, {}
        try:
            return self.eval(expr)
        finally:
            self.frames.pop()
            self.st.env = env

    def call_func(self, func, args, kwargs, self_term=None, closure_env=None):
        key = func.qual
        if len(self.callstack) > self.MAX_DEPTH or self.callstack.count(key) >= 2:
            return self.opaque_call(key, args, kwargs, None)
        bound = self.bind(func, args, kwargs, self_term)
        self.callstack.append(key)
        try:
            v, _ = self.exec_function(func, bound, self_term, closure_env=closure_env)
        finally:
            self.callstack.pop()
        return v

    def call_closure(self, t, args, kwargs):
        func, env, owner = self.closures[t.args[0]]
        env = dict(env)
        # late binding: names the owner has rebound since are visible while it is still active
        if self.frames and self.frames[-1] is owner:
            for k, v in self.st.env.items():
                env[k] = v
        if func.name in owner_locals(owner) and func.name not in env:
            env[func.name] = t
        fr = self.frames[-1] if self.frames else None
        if self.callstack.count(func.qual) >= 2:
            return mk('apply', mk('func', func.qual), tuple(args), ())
        bound = self.bind(func, args, kwargs, None)
        self.callstack.append(func.qual)
        if fr is None:
            self.frames.append(Frame(None, func.module, None, None))
        try:
            # a nested function sees the defining class for super()
            v, _ = self.exec_function(func, bound, owner.self_term, closure_env=env)
        finally:
            self.callstack.pop()
            if fr is None:
                self.frames.pop()
        return v

    # ================================================================ statements
    def exec_block(self, body):
        for st in body:
            if self.st.pc is FALSE:
                return
            self.steps += 1
            if self.steps > self.MAX_STEPS:
                raise Unsupported('analysis budget')
            self.exec_stmt(st)

    def exec_stmt(self, st):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        m(st)

    def x_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value)

    def x_Pass(self, st):
        pass

    def x_Global(self, st):
        pass

    x_Nonlocal = x_Global

    def x_Import(self, st):
        tab = {}
        self.prog._import(self.frames[-1].module, st, tab)
        for k, imp in tab.items():
            self.st.env[k] = self.from_resolved(self.prog.resolve_import(imp), k)

    x_ImportFrom = x_Import

    def x_FunctionDef(self, st):
        f = Func(st, self.frames[-1].module, None, self.frames[-1].func)
        f.defining_cls = self.frames[-1].cls
        self.st.env[st.name] = self.make_closure(f)

    def make_closure(self, f):
        cid = _fresh()
        env = {}
        owner = self.frames[-1].func
        if owner is not None and owner.cls is not None and owner.cls.scope is not None:
            env.update(owner.cls.scope[0])
        env.update(self.st.env)
        self.closures[cid] = (f, env, self.frames[-1])
        return mk('closure', cid)

    def x_ClassDef(self, st):
        # a class defined inside a function: methods close over the frame
        m = self.frames[-1].module
        fq = self.frames[-1].func.qual if self.frames[-1].func else m.name
        qual = fq + '.<locals>.' + st.name
        c = self.prog.classes.get(qual)
        if c is None or c.node is not st:
            c = self.prog._class(m, st, qual, register=False)
            self.prog._mro.pop(qual, None)
            self.prog._link_class(c, m)
            self.prog.classes[qual] = c
        self.st.env[st.name] = mk('class', qual)
        c.scope = (dict(self.st.env), self.frames[-1])

    def x_Return(self, st):
        v = self.eval(st.value) if st.value is not None else NONE
        self.add_exit(self.st.pc, 'return', v, self.st.heap)
        self.st = State(self.st.env, dict(self.st.heap), FALSE)

    def x_Raise(self, st):
        name = 'reraise'
        if st.exc is not None:
            e = st.exc
            if isinstance(e, ast.Call):
                name = _dotted(e.func) or '?'
            else:
                name = _dotted(e) or '?'
                v = self.st.env.get(name)
                if v is not None and v.op == 'exc':
                    name = v.args[0]
        else:
            hs = getattr(self, 'handler_stack', [])
            if hs:
                name = hs[-1]
        name = name.split('.')[-1]
        self.add_exit(self.st.pc, 'raise', mk('raise', name), self.st.heap)
        self.st = State(self.st.env, dict(self.st.heap), FALSE)

    def x_Assert(self, st):
        c = truth(self.rv(self.eval(st.test)))
        bad = b_and(self.st.pc, b_not(c))
        if bad is not FALSE:
            self.add_exit(bad, 'raise', mk('raise', 'AssertionError'), self.st.heap)
            self.st.pc = b_and(self.st.pc, c)

    def x_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def x_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def x_AugAssign(self, st):
        cur = self.eval(_load(st.target))
        val = self.eval(st.value)
        cc = self.content(cur)
        if isinstance(st.op, ast.Add) and cur.op == 'ref' and (T._is_seq(cc) or cc.op == 'list'):
            self.set_content(cur, concat_list(cc, self.rv(val)))
            return
        new = self.binop(st.op, cur, val)
        if cur.op == 'ref' and cur.args[0] not in self.objcls:
            self.event('augstore', mk('store', cc, mk('ext', 'aug'), new), st, extra=cur)
            self.set_content(cur, new)
            return
        if cur.op in ('attr', 'sym', 'index') and not isinstance(st.target, ast.Subscript):
            # in-place on whatever object the name denotes (numpy) - recorded for the effect rules
            self.event('augname', tup(cur, new), st)
        self.assign(st.target, new)

    def assign(self, target, v):
        if isinstance(target, ast.Name):
            self.st.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            src = self.rv(v)
            for i, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    raise Unsupported('starred target')
                self.assign(t, self.unpack(src, i, len(target.elts)))
        elif isinstance(target, ast.Attribute):
            o = self.eval(target.value)
            self.set_attr(o, target.attr, v, target)
        elif isinstance(target, ast.Subscript):
            o = self.eval(target.value)
            i = self.eval_index(target.slice)
            self.store_index(o, i, v, target)
        else:
            raise Unsupported('assignment target')

    def unpack(self, src, i, n):
        def f(s):
            if s.op == 'tuple' or s.op == 'list':
                items = s.args[1] if s.op == 'tuple' else s.args[0]
                if len(items) == n:
                    return items[i]
            ty = self.type_of(s)
            if isinstance(ty, tuple) and len(ty[1]) == n:
                return self.get_attr(s, ty[1][i])
            return self.get_index(s, const(i))
        return lift(f, [src])

    def set_attr(self, o, name, v, node):
        if o.op == 'ite':
            for leaf in leaves(o):
                cond = map_leaves(o, lambda u: TRUE if u is leaf else FALSE)
                old = self.heap_attr(self.st.heap, leaf, name)
                if old is None:
                    old = mk('attr', leaf, name)
                self.set_attr(leaf, name, ite(cond, v, old), node)
            return
        if o.op == 'ref' and o.args[0] in self.objcls:
            self.st.heap[('O', o.args[0], name)] = v
        else:
            ty = self.type_of(o)
            self.st.heap[('A', o, name)] = v
        self.event('setattr', mk('setattr', o, name, v), node, extra=(o, name, v))

    def store_index(self, o, i, v, node):
        # a[i][j] = v is a[i, j] = v on the array a
        base = o
        self.event('store', mk('storeev', self.reify(o), self.reify(i), self.reify(self.rv(v))),
                   node, extra=(o, i, v))
        if o.op == 'index' and not T._has_slice(o.args[1]):
            root, pre = o.args
            owner = self.find_owner(root)
            new = store(self.content(owner), mk('tuple', '', T._idx_items(pre) + T._idx_items(i)),
                        self.rv(v) if v.op != 'ref' or v.args[0] not in self.objcls else v)
            self.set_content(owner, new, node)
            return
        if o.op == 'ite':
            for leaf in leaves(o):
                cond = map_leaves(o, lambda u: TRUE if u is leaf else FALSE)
                c = self.content(leaf)
                self.set_content(leaf, ite(cond, store(c, i, v), c), node)
            return
        c = self.content(o)
        if i.op == 'slice' and all(x.op in ('list', 'concat') for x in leaves(c)):
            v = self.as_list(v)
        self.set_content(o, lift(lambda cc: store(cc, i, v), [c]), node)

    def find_owner(self, root):
        for k, v in self.st.heap.items():
            if k[0] == 'L' and v is root:
                return mk('ref', k[1])
        return root

    def x_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)

    def x_If(self, st):
        c = truth(self.rv(self.eval(st.test)))
        self.branch(c, lambda: self.exec_block(st.body), lambda: self.exec_block(st.orelse))

    def branch(self, c, f, g):
        if c is TRUE:
            f()
            return
        if c is FALSE:
            g()
            return
        base = self.st
        a = base.copy()
        b = base.copy()
        a.pc = b_and(base.pc, c)
        b.pc = b_and(base.pc, b_not(c))
        if a.pc is not FALSE:
            self.st = a
            f()
            a = self.st
        if b.pc is not FALSE:
            self.st = b
            g()
            b = self.st
        self.st = self.merge(c, a, b)

    def x_With(self, st):
        n = 0
        for item in st.items:
            v = self.eval(item.context_expr)
            self.ctx = self.ctx + [self.reify(v)]
            n += 1
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)
        self.exec_block(st.body)
        self.ctx = self.ctx[:len(self.ctx) - n]

    def x_Try(self, st):
        fr = self.frames[-1]
        handlers = st.handlers
        # a handler that only re-raises is no handler
        live = [h for h in handlers if not _only_reraises(h)]
        if not live:
            self.exec_block(st.body)
            self.exec_block(st.orelse)
            self.exec_block(st.finalbody)
            return
        fr.try_n += 1
        entry = self.st.copy()
        mark = len(fr.exits)
        tmark = len(self.trace)
        self.exec_block(st.body)
        self.exec_block(st.orelse)
        body_end = self.st
        # exits raised in the body that a handler catches
        new = fr.exits[mark:]
        del fr.exits[mark:]
        caught = FALSE
        for e in new:
            if e[1] == 'raise' and any(_catches(h, e[2].args[0]) for h in live):
                caught = b_or(caught, e[0])
            else:
                fr.exits.append(e)
        types = tuple(sorted(_handler_name(h) for h in live))
        ops = []
        for e in self.trace[tmark:]:
            if e.kind in ('call', 'mcall') and e.args and isinstance(e.args[1], str):
                nm = e.args[1].rsplit('.', 1)[-1]
                if nm not in ops:
                    ops.append(nm)
        what = ','.join(sorted(ops)) or (fr.func.qual if fr.func else '')
        n = self.excs.setdefault((types, what), {}).setdefault(id(st), len(
            self.excs[types, what]) + 1)
        self.kept.append(st)
        ext = atom_bool(mk('exc', types, n, what))
        # the body may fail inside opaque calls too
        cond = b_or(caught, ext) if caught is not FALSE else ext
        if all(_handler_name(h) == 'StopIteration' for h in live) and not any(
                e.args and e.args[1] in ('next', '__next__') for e in self.trace[tmark:]):
            cond = caught
        if caught is not FALSE and not any(isinstance(n, ast.Call) for b in st.body
                                           for n in ast.walk(b)):
            cond = caught
        # the body's own exits happen only when it did not fail
        fr.exits[mark:] = [(b_and(e[0], b_not(cond)), e[1], e[2], e[3]) for e in fr.exits[mark:]]
        hstate = entry.copy()
        # containers touched by the body may be partially updated; values at entry are used
        hstate.pc = b_and(entry.pc, cond)
        self.st = hstate
        h = live[0]
        if not hasattr(self, 'handler_stack'):
            self.handler_stack = []
        self.handler_stack.append(_handler_name(h))
        if h.name:
            self.st.env[h.name] = mk('exc', _handler_name(h))
        if len(live) == 1:
            self.exec_block(h.body)
        else:
            which = [atom_bool(mk('exctype', _handler_name(x), n, what)) for x in live[:-1]]

            def go(i):
                if i == len(live) - 1:
                    self.exec_block(live[i].body)
                else:
                    self.branch(which[i], lambda: self.exec_block(live[i].body),
                                lambda: go(i + 1))
            go(0)
        self.handler_stack.pop()
        after_h = self.st
        body_end.pc = b_and(body_end.pc, b_not(cond))
        self.st = self.merge(cond, after_h, body_end)
        self.exec_block(st.finalbody)

    # ================================================================ loops
    def x_Break(self, st):
        lp = self.frames[-1].loops[-1]
        lp['breaks'].append(self.st)
        self.st = State(dict(self.st.env), dict(self.st.heap), FALSE)

    def x_Continue(self, st):
        lp = self.frames[-1].loops[-1]
        lp['conts'].append(self.st)
        self.st = State(dict(self.st.env), dict(self.st.heap), FALSE)

    def domain(self, it):
        '''iterable term -> (n, element function, filter condition function) '''
        d = self.iteration_protocol(it)
        if d is not None:
            return d
        it = self.content(it)
        if it.op == 'range':
            return sub(it.args[1], it.args[0]), (lambda k: add(it.args[0], k)), None
        if it.op == 'call':
            fn, a = it.args[0], it.args[1]
            if fn == 'enumerate':
                n, e, c = self.domain(a[0])
                start = a[1] if len(a) > 1 else dict(it.args[2]).get('start', ZERO)
                if c is None:
                    return n, (lambda k: tup(add(start, k), e(k))), None
            if fn == 'zip':
                ds = [self.domain(x) for x in a]
                if all(d[2] is None for d in ds):
                    real = [d for d, x in zip(ds, a) if not (x.op == 'call' and x.args[0] in
                                                             ('itertools.repeat',
                                                              'itertools.count') and
                                                             d[0].op == 'ext')]
                    n = real[0][0] if real else ds[0][0]
                    for d in real[1:]:
                        if d[0] is not n:
                            n = mk('call', 'min', tuple(sorted((n, d[0]))), ())
                    return n, (lambda k: tup(*[d[1](k) for d in ds])), None
            if fn == 'np.arange' and len(a) == 2 and not it.args[2]:
                return T.sub(a[1], a[0]), (lambda k: add(a[0], k)), None
            if fn == 'range' and len(a) == 3 and a[2] is const(-1):
                return T.sub(a[0], a[1]), (lambda k: T.sub(a[0], k)), None
            if fn == 'itertools.repeat':
                if len(a) > 1 or it.args[2]:
                    return (a[1] if len(a) > 1 else it.args[2][0][1]), (lambda k: a[0]), None
                return mk('ext', 'inf'), (lambda k: a[0]), None
            if fn in ('list', 'tuple', 'iter', 'np.array') and len(a) == 1 and not it.args[2]:
                return self.domain(a[0])
            if fn == 'np.arange' and len(a) == 1:
                return a[0], (lambda k: k), None
            if fn == 'dict.items':
                d = a[0]
                return length(d), (lambda k: tup(mk('key', d, k), index(d, mk('key', d, k)))), None
            if fn == 'dict.values':
                d = a[0]
                return length(d), (lambda k: index(d, mk('key', d, k))), None
            if fn == 'dict.keys':
                d = a[0]
                return length(d), (lambda k: mk('key', d, k)), None
        if it.op == 'dict' or it.op == 'call' and it.args[0] == 'dict':
            return length(it), (lambda k: mk('key', it, k)), None
        if it.op == 'comp':
            n, b, body, cond = it.args
            return n, (lambda k: subst(body, {b: k})), \
                (None if cond is TRUE else (lambda k: subst(cond, {b: k})))
        ity = self.type_of(it)
        return length(it), (lambda k: self.get_index(it, k)), None

    def iteration_protocol(self, it):
        '''
        An object whose __next__ counts one of its attributes up to a bound and then raises
        StopIteration hands out a function of the counter: its elements are derived by running
        __next__ once with a symbolic counter.
        '''
        if it.op != 'ref' or not isinstance(self.objcls.get(it.args[0]), Cls):
            return None
        f = self.prog.lookup(self.objcls[it.args[0]], '__next__')
        if f is None or '__next__' in self.keep or not self.frames:
            return None
        saved, fr = self.st, self.frames[-1]
        xm, tm = len(fr.exits), len(self.trace)
        c = mk('bv', 'k%d' % _fresh())
        old_mode, old_loops = self.iter_mode, self.loops
        counters = []

        def once(state):
            self.st = state
            self.st.pc = TRUE
            self.iter_mode = [FALSE]
            v = self.call_func(f, [], {}, it)
            ex = fr.exits[xm:]
            del fr.exits[xm:]
            del self.trace[tm:]
            return v, ex, self.st
        try:
            v, ex, st = once(saved.copy())
            counters = [k for k in saved.heap if k[0] == 'O' and k in st.heap and
                        st.heap[k] is not saved.heap[k] and saved.heap[k] is ZERO]
            if len(counters) != 1:
                return None
            start = saved.copy()
            start.heap[counters[0]] = c
            v, ex, st = once(start)
            stop = FALSE
            for pc, kind, val, h in ex:
                if kind == 'raise' and val.op == 'raise' and val.args[0] == 'StopIteration':
                    stop = b_or(stop, pc)
            skip = self.iter_mode[0]
            v = self.reify(v, st.heap)
            post = st.heap.get(counters[0])
        except Unsupported:
            return None
        finally:
            self.st, self.iter_mode, self.loops = saved, old_mode, old_loops
            del fr.exits[xm:]
            del self.trace[tm:]
        cont = b_not(stop)
        if post is None or cont.op != 'ite' or cont.args[0].op != 'pos' or \
                {cont.args[1], cont.args[2]} != {TRUE, FALSE}:
            return None
        d = cont.args[0].args[0]
        n = add(d, c) if cont.args[1] is TRUE else add(sub(c, d), ONE)
        if occurs(n, c) or assume(post, cont) is not add(c, ONE):
            return None
        v = assume(v, cont)
        for pc, kind, val, h in ex:
            if not (kind == 'raise' and val.op == 'raise' and val.args[0] == 'StopIteration'):
                v = assume(v, b_not(pc)) if b_not(pc) is not FALSE else v
        skip = assume(skip, cont)
        if skip is not FALSE:
            v = assume(v, b_not(skip))
        return n, (lambda k: subst(v, {c: k})), \
            (None if skip is FALSE else (lambda k: subst(b_not(skip), {c: k})))

    def iterable(self, it, e):
        '''an object of a class that hands out an iterator over something else is that iterator'''
        ty = self.type_of(it)
        if it.op != 'ite' and isinstance(ty, Cls):
            f = self.prog.lookup(ty, '__iter__')
            if f is not None and self.prog.lookup(ty, '__next__') is None and \
                    not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
                return self.method_call1(it, '__iter__', [], {}, e)
        return it

    def concrete_items(self, it):
        it = self.content(it)
        if it.op == 'list':
            return it.args[0]
        if it.op == 'tuple':
            return it.args[1]
        if it.op == 'dict' and all(k.op in ('str', 'num') for k, _ in it.args[0]):
            return [k for k, _ in it.args[0]]
        if it.op == 'call' and it.args[0] == 'set' and len(it.args[1]) == 1 and \
                it.args[1][0].op == 'list' and len(it.args[1][0].args[0]) <= 1:
            return it.args[1][0].args[0]
        if it.op == 'set' and len(it.args[0]) <= 1:
            return it.args[0]
        if it.op == 'call' and it.args[0] in ('dict.items', 'dict.keys', 'dict.values') and \
                it.args[1][0].op == 'dict':
            kv = it.args[1][0].args[0]
            return [tup(k, v) if it.args[0] == 'dict.items' else
                    (k if it.args[0] == 'dict.keys' else v) for k, v in kv]
        if it.op == 'range' and is_num(it.args[0]) and is_num(it.args[1]):
            a, b = it.args[0].args[0], it.args[1].args[0]
            return [const(i) for i in range(a, b)]
        if it.op == 'call' and it.args[0] in ('enumerate',) and len(it.args[1]) == 1:
            x = self.concrete_items(it.args[1][0])
            return None if x is None else [tup(const(i), e) for i, e in enumerate(x)]
        if it.op == 'call' and it.args[0] == 'zip':
            xs = [self.concrete_items(x) for x in it.args[1]]
            if all(x is not None for x in xs):
                return [tup(*e) for e in zip(*xs)]
        return None

    def x_For(self, st):
        it = self.iterable(self.eval(st.iter), st)
        lo = [x for x in leaves(it)] if it.op == 'ite' else [it]
        if len(lo) > 1:
            it = self.content(it)
        conc = self.concrete_items(it) if len(lo) == 1 else None
        if conc is not None and len(conc) <= UNROLL and not st.orelse and \
                not any(isinstance(n, (ast.Break, ast.Continue)) for n in walk_own(st)):
            for e in conc:
                if self.st.pc is FALSE:
                    return
                self.assign(st.target, e)
                self.exec_block(st.body)
            return
        self.event('iterate', self.reify(it), st)
        n, elem, cond = self.domain(it)

        def pre(k):
            self.assign(st.target, elem(k))
            if cond is not None:
                c = truth(cond(k))
                skip = b_and(self.st.pc, b_not(c))
                if skip is not FALSE:
                    s = self.st.copy()
                    s.pc = skip
                    self.frames[-1].loops[-1]['conts'].append(s)
                    self.st.pc = b_and(self.st.pc, c)
            return TRUE
        self.run_loop(n, pre, st.body, st.orelse, st)

    def x_While(self, st):
        if self.iter_mode is not None and isinstance(st.test, ast.Constant) and st.test.value:
            # in one step of an iteration: rounds that do not leave the loop skip the element
            fr = self.frames[-1]
            lp = {'breaks': [], 'conts': []}
            fr.loops.append(lp)
            try:
                self.exec_block(st.body)
            finally:
                fr.loops.pop()
            for s in lp['conts'] + [self.st]:
                self.iter_mode[0] = b_or(self.iter_mode[0], s.pc)
            out = None
            for s in lp['breaks']:
                out = s if out is None else self.merge(s.pc, s, out)
            if out is None:
                self.st.pc = FALSE
            else:
                self.st = out
            return
        self.run_loop(None, lambda k: truth(self.rv(self.eval(st.test))), st.body, st.orelse, st)

    def run_loop(self, n, pre, body, orelse, node):
        fr = self.frames[-1]
        entry = self.st
        entry_pc = entry.pc
        bvar = mk('bv', 'k%d' % _fresh())
        carried = {}
        alloc_mark = _ids[0]
        tmark = len(self.trace)
        xmark = len(fr.exits)
        saved_loops = self.loops
        counters = {}
        wcond = TRUE
        closed = {}
        derived, banned = {}, set()

        def image(t, k):
            tmpl, hole = derived[k][1:]
            return T.map_leaves(t, lambda x: x if x.op in ('raise', 'undef', 'dontcare') else
                                subst(tmpl, {hole: x}))
        for rnd in range(24):
            del self.trace[tmark:]
            del fr.exits[xmark:]
            start = entry.copy()
            for k, lv in carried.items():
                if k in derived:
                    self.skey(start, k, image(carried[derived[k][0]], k))
                else:
                    self.skey(start, k, closed.get(k, lv))
            start.pc = TRUE
            self.st = start
            lp = {'breaks': [], 'conts': []}
            fr.loops.append(lp)
            self.base_pcs.append(entry_pc)
            self.loops = saved_loops + [(n, bvar, node)]
            try:
                c = pre(bvar)
                wcond = c
                if n is None and c is not TRUE:
                    self.st.pc = b_and(self.st.pc, c)
                self.exec_block(body)
            finally:
                fr.loops.pop()
                self.base_pcs.pop()
                self.loops = saved_loops
            end = self.st
            for s in reversed(lp['conts']):
                end = self.merge(s.pc, s, end)
            # which locations change over an iteration
            changed = set()
            states = [end] if end.pc is not FALSE else []
            states += lp['breaks']
            for s in states:
                for k in self.keys(s):
                    if k in carried:
                        continue
                    if not self.exists(entry, k):
                        continue
                    if self.varying(k, bvar, alloc_mark):
                        continue
                    if self.gkey(s, k) is not self.gkey(entry, k):
                        changed.add(k)
            if changed:
                for k in sorted(changed, key=str):
                    carried[k] = mk('lv', 'v%d' % _fresh())
                self.guess_derived(carried, entry, derived, banned)
                continue
            # a guessed relation must be kept by every iteration
            wrong = [k for k in derived if any(
                not self.keeps(s, k, derived[k][0], image) for s in states)]
            if wrong:
                for k in wrong:
                    banned.add((k, derived.pop(k)[0]))
                self.guess_derived(carried, entry, derived, banned)
                continue
            # closed forms for counters, then re-evaluate with them
            newclosed = False
            if end.pc is not FALSE:
                for k, lv in carried.items():
                    if k in closed or k in derived or \
                            any(k == q[0] for q in derived.values()):
                        continue
                    u = self.gkey(end, k)
                    if u is None:
                        continue
                    d = sub(u, lv) if u.op in ('poly', 'lv') or is_num(u) else None
                    if d is not None and is_num(d) and d is not ZERO and u.op != 'num' and \
                            n is not None:
                        closed[k] = add(self.gkey(entry, k), mul(d, bvar))
                        counters[k] = d
                        newclosed = True
                if n is None and not lp['breaks'] and not closed:
                    r = self.while_count(carried, end, wcond, entry)
                    if r is not None:
                        k, step, cnt = r
                        n = cnt
                        closed[k] = add(self.gkey(entry, k), mul(step, bvar))
                        counters[k] = step
                        oldpre = pre
                        pre = (lambda kk: TRUE)
                        newclosed = True
            if newclosed:
                continue
            break
        else:
            raise Unsupported('loop summary did not stabilise')
        # ---------------------------------------------------- summarise
        exits_in = fr.exits[xmark:]
        del fr.exits[xmark:]
        breaks = lp['breaks']
        bstop = FALSE
        for s in breaks:
            bstop = b_or(bstop, s.pc)
        stop = bstop
        for e in exits_in:
            stop = b_or(stop, e[0])
        live = [k for k in carried if k not in closed and k not in derived]
        # a loop that is left early only by raising: what follows sees the complete loop
        if not breaks and exits_in and all(e[1] == 'raise' for e in exits_in) and n is not None:
            stop = FALSE

        def snap(t, st_):
            # values built from containers allocated inside the iteration are taken as values
            def f(u):
                if u.op == 'ref' and u.args[0] > alloc_mark:
                    return self.reify(u, st_.heap)
                return u
            if contains(t, lambda u: u.op == 'ref' and u.args[0] > alloc_mark):
                return self.reify_only(t, st_.heap, alloc_mark)
            return t
        upd = {}
        for k in live:
            u = snap(self.gkey(end, k), end) if end.pc is not FALSE else carried[k]
            for s in reversed(breaks):
                u = ite(s.pc, snap(self.gkey(s, k), s), u)
            if end.pc is FALSE and breaks:
                u = snap(self.gkey(breaks[-1], k), breaks[-1])
                for s in reversed(breaks[:-1]):
                    u = ite(s.pc, snap(self.gkey(s, k), s), u)
            upd[k] = u
        if n is None:
            nterm = mk('while', wcond)
        else:
            nterm = n
        lvs = {carried[k]: k for k in live}

        def closure_of(t):
            need, work = [], [t, stop] if stop is not FALSE else [t]
            if n is None:
                work.append(wcond)
            seen = set()
            while work:
                x = work.pop(0)
                for u in sorted((v for v in subterms(x) if v.op == 'lv' and v in lvs)):
                    if u not in seen:
                        seen.add(u)
                        need.append(u)
                        work.append(upd[lvs[u]])
            return need

        def carr(need):
            return tuple((u, self.reify(self.gkey(entry, lvs[u]), entry.heap), upd[lvs[u]])
                         for u in need)

        def fold(sel):
            need = closure_of(sel)
            if sel.op == 'lv' and sel not in need:
                need.insert(0, sel)
            return mk('fold', nterm, bvar, carr(need), sel, stop)

        stop_lv = stop is not FALSE and (contains(stop, lambda u: u.op == 'lv' and u in lvs) or
                                         n is None)
        ex = FALSE
        if stop is not FALSE:
            if not stop_lv:
                ex = TRUE if stop is TRUE and False else atom_bool(
                    mk('exists', nterm, bvar, stop))
            else:
                ex = atom_bool(fold(mk('stopped')))

        def first(v):
            if v is TRUE or v is FALSE:
                return v
            if not stop_lv and not contains(v, lambda u: u.op == 'lv' and u in lvs):
                v2 = assume(v, stop)
                if not contains(v2, lambda u: u is bvar):
                    return v2
                # the value at the stopping iteration is a function of its position
                return subst(v2, {bvar: mk('first', nterm, bvar, stop, bvar)})
            sub = {u: fold(mk('atstop', u)) for u in subterms(v)
                   if (u.op == 'lv' and u in lvs) or u is bvar}
            return subst(v, sub)
        after = State(dict(entry.env), dict(entry.heap), entry_pc)
        # exits taken inside the loop
        alive = TRUE
        if exits_in and stop is FALSE:
            for pc, kind, v, h in exits_in:
                if contains(pc, lambda u: u.op == 'lv' and u in lvs):
                    cond = atom_bool(mk('fold', nterm, bvar, carr(closure_of(pc)),
                                        mk('stopped'), pc))
                else:
                    cond = atom_bool(mk('exists', nterm, bvar, pc)) if pc is not TRUE else \
                        cmp_lt(ZERO, nterm)
                self.frames[-1].exits.append((b_and(entry_pc, cond), kind, v, dict(entry.heap)))
                alive = b_and(alive, b_not(cond))
        elif exits_in:
            for pc, kind, v, h in exits_in:
                cond = ex
                if b_and(stop, b_not(pc)) is not FALSE:
                    fc = first(assume(pc, stop))
                    cond = b_and(ex, truth(fc))
                vv = v if v.op == 'raise' else first(self.reify_only(v, h, alloc_mark))
                self.frames[-1].exits.append((b_and(entry_pc, cond), kind, vv,
                                              dict(entry.heap)))
                alive = b_and(alive, b_not(cond))
        # counters
        for k, step in counters.items():
            init = self.gkey(entry, k)
            if stop is FALSE:
                self.skey(after, k, add(init, mul(step, nterm)))
            else:
                self.skey(after, k, fold(mk('atstop', closed[k])))
        for k in live:
            lv, u = carried[k], upd[k]
            init = self.gkey(entry, k)
            self.skey(after, k, self.summarise(lv, u, init, nterm, bvar, stop, ex, first, fold,
                                               lvs, n, entry, bstop))
        for k in derived:
            self.skey(after, k, image(self.gkey(after, derived[k][0]), k))
        # locals first bound inside the loop
        if end.pc is not FALSE or breaks:
            states = ([end] if end.pc is not FALSE else []) + breaks[::-1]
            names = []
            for s in states:
                names += [nm for nm in s.env if nm not in names and nm not in entry.env]
            for name in names:
                src = [s for s in states if name in s.env][0]
                v = snap(src.env[name], src)
                for s in reversed(breaks):
                    if name in s.env and s is not src:
                        v = ite(s.pc, snap(s.env[name], s), v)
                if v.op == 'closure' or v.op in ('func', 'class', 'ext'):
                    after.env[name] = v
                    continue
                if not contains(v, lambda u: u is bvar or (u.op == 'lv' and u in lvs)):
                    after.env[name] = v
                elif stop is not FALSE and (src is not end or (
                        n is None and wcond is TRUE and name in (breaks[0].env if breaks else ()))):
                    after.env[name] = first(v)
                elif contains(v, lambda u: u.op == 'lv' and u in lvs):
                    after.env[name] = fold(v)
                elif bstop is not FALSE and n is not None:
                    # the value where the loop was left, otherwise that of the last iteration
                    if all(name in s.env for s in breaks):
                        after.env[name] = ite(ex, first(v), mk('last', nterm, bvar, v))
                    else:
                        after.env[name] = mk('last', nterm, bvar, tup(v, stop))
                else:
                    after.env[name] = mk('last', nterm, bvar, v)
        # containers allocated in the iteration stay known (for values that escaped as refs)
        for s in ([end] if end.pc is not FALSE else []) + breaks:
            for k, v in s.heap.items():
                if k[0] in ('L', 'O') and k[1] > alloc_mark and k not in after.heap:
                    after.heap[k] = v
        after.pc = b_and(entry_pc, alive)
        if n is None and wcond is TRUE and stop is not FALSE:
            # while True ends only by its exits
            if bstop is FALSE:
                after.pc = FALSE
        self.st = after
        if orelse:
            if bstop is FALSE:
                self.exec_block(orelse)
            else:
                self.branch(b_not(ex), lambda: self.exec_block(orelse), lambda: None)

    def guess_derived(self, carried, entry, derived, banned):
        '''variables that start as a function of another one may stay that function of it'''
        inits = {}
        for k in carried:
            v = self.gkey(entry, k)
            inits[k] = self.reify(v, entry.heap) if v is not None else None
        for k, t in inits.items():
            if k in derived or t is None or k[0] != 'v':
                continue
            for b, x in inits.items():
                if b == k or b in derived or x is None or (k, b) in banned or x is t or \
                        b[0] != 'v' or any(q[0] == k for q in derived.values()) or \
                        x.op not in ('call', 'mcall', 'index', 'lv', 'attr', 'sym', 'store'):
                    continue
                if occurs(t, x):
                    hole = mk('sym', 'hole%d' % _fresh())
                    derived[k] = (b, subst(t, {x: hole}), hole)
                    break

    def keeps(self, s, k, b, image):
        u, v = self.gkey(s, k), self.gkey(s, b)
        if u is None or v is None:
            return False
        return canon(self.reify(u, s.heap)) is canon(image(self.reify(v, s.heap), k))

    def reify_only(self, t, heap, mark):
        '''reify only references allocated after mark'''
        keep = {}

        def go(u):
            if u.op == 'ref' and u.args[0] > mark:
                return self.reify(u, heap)
            if u.op == 'closure':
                return u
            if not contains(u, lambda v: v.op == 'ref' and v.args[0] > mark):
                return u
            return rebuild(u, go)
        return go(t)

    def while_count(self, carried, end, wcond, entry):
        '''while i < N: ... i += 1  ==  for i in range(i0, N)'''
        if wcond.op != 'ite':
            return None
        hi, lo = wcond.args[1], wcond.args[2]
        atom = wcond.args[0]
        if atom.op != 'pos' or {hi, lo} != {TRUE, FALSE}:
            return None
        d = atom.args[0]
        strict = hi is TRUE
        for k, lv in carried.items():
            u = self.gkey(end, k)
            if u is None or u.op not in ('poly', 'lv'):
                continue
            step = sub(u, lv)
            if not is_num(step) or step.args[0] not in (1, -1):
                continue
            s = step.args[0]
            # condition: pos(N - i) (strict, step 1), not pos(i - N) (i <= N, step 1), ...
            for other in carried.values():
                if other is not lv and occurs(d, other):
                    return None
            N = add(d, lv) if s == 1 and strict else sub(d, lv) if s == -1 and strict else None
            if strict:
                if s == 1:
                    N = add(d, lv)                # d = N - i
                    cnt = sub(N, self.gkey(entry, k))
                else:
                    N = neg(sub(d, lv))           # d = i - N
                    cnt = sub(self.gkey(entry, k), N)
            else:
                if s == 1:
                    N = neg(sub(d, lv))           # not (i - N > 0)
                    cnt = add(sub(N, self.gkey(entry, k)), ONE)
                else:
                    N = add(d, lv)                # not (N - i > 0)
                    cnt = add(sub(self.gkey(entry, k), N), ONE)
            if occurs(N, lv):
                continue
            return k, step, cnt
        return None

    def best(self, lv, t):
        '''a loop that keeps the smallest or largest value, or what goes with it'''
        n, b, cs, _, _ = t.args
        lvs = {x[0] for x in cs}
        step = {x[0]: x[2] for x in cs}
        init = {x[0]: x[1] for x in cs}
        inner = self.best_nested(lv, n, b, lvs, step, init)
        if inner is not None:
            return inner
        hole = mk('sym', 'hole')
        u = step[lv]
        if u.op == 'ite' and not T.is_bool(u) and len(lvs) == 1:
            g = T.map_leaves(u, lambda x: hole if x is lv else x)
            if not T.occurs(g, lv) and any(x is lv for x in leaves(u)):
                guard = T.map_leaves(g, lambda x: FALSE if x is hole else TRUE)
                return mk('call', 'last.where', (
                    mk('comp', n, b, T.assume(g, guard), guard), init[lv]), ())
        if len(lvs) > 2 or any(T.is_bool(v) or v.op != 'ite' for v in step.values()):
            return None
        for v in sorted(lvs, key=lambda x: x is not lv):
            f = _without(step[v], v, lvs, hole)
            if f is None:
                continue
            guard = T.map_leaves(f, lambda u: FALSE if u is hole else TRUE)
            if guard is not TRUE:
                f = T.assume(f, guard)
            for kind in ('<', '<=', '>', '>='):
                c = {'<': lambda: cmp_lt(f, v), '<=': lambda: b_not(cmp_lt(v, f)),
                     '>': lambda: cmp_lt(v, f), '>=': lambda: b_not(cmp_lt(f, v))}[kind]()
                c = b_and(guard, c)
                if ite(c, f, v) is not step[v]:
                    continue
                vals = mk('comp', n, b, f, guard)
                if lv is v:
                    if len(lvs) > 1:
                        return None
                    return mk('call', 'best.min' if kind[0] == '<' else 'best.max',
                              (init[v], vals), ())
                g = _without(step[lv], lv, lvs, hole)
                if g is None:
                    return None
                g = T.map_leaves(g, lambda u: T.DONTCARE if u is hole else u)
                if ite(c, g, lv) is not step[lv]:
                    return None
                r = mk('call', 'best.at', (const(kind), init[v], vals,
                                           mk('comp', n, b, g, guard), init[lv]), ())
                i = self.content(init[lv])
                if i.op == 'tuple' and g.op == 'tuple' and i.args[0] == g.args[0] and \
                        len(i.args[1]) == len(g.args[1]):
                    return mk('tuple', i.args[0], tuple(
                        mk('call', 'best.at', r.args[1][:3] + (
                            mk('comp', n, b, x, guard), y), ())
                        for x, y in zip(g.args[1], i.args[1])))
                return r
        return None

    def best_nested(self, lv, n, b, lvs, step, init):
        u = step[lv]
        if u.op != 'call' or not u.args[0].startswith('best.'):
            return None
        a = list(u.args[1])
        at = u.args[0] == 'best.at'
        k = 1 if at else 0
        v = a[k]
        if v not in lvs or at and a[4] is not lv or not at and v is not lv:
            return None
        if at and (step[v].op != 'call' or step[v].args[0] not in ('best.min', 'best.max') or
                   step[v].args[1][0] is not v or step[v].args[1][1] is not a[2]):
            return None
        m = a[k + 1].args[0]
        if any(T.occurs(x, y) for x in a[k + 1:k + 3 if at else k + 2] for y in lvs) or \
                T.occurs(m, b):
            return None
        c = mk('bv', 'k%d' % _fresh())
        for i in range(k + 1, 4 if at else 2):
            _, b2, body, cond = a[i].args
            sub = {b: T.floordiv(c, m), b2: mod(c, m)}
            a[i] = mk('comp', T.mul(n, m), c, subst(body, sub), subst(cond, sub))
        a[k] = init[v]
        if at:
            a[4] = init[lv]
        return mk('call', u.args[0], tuple(a), ())

    def summarise(self, lv, u, init, n, bvar, stop, ex, first, fold, lvs, nn, entry, bstop):
        dep = lambda t: contains(t, lambda x: x.op == 'lv' and x in lvs)
        if u is lv:
            return init
        if stop is FALSE and nn is not None:
            # append
            x = suffix(u, lv)
            if x is not None and not dep(x):
                return concat_list(self_reify(self, init, entry), comp_of(n, bvar, x))
            if T._is_str(init) or init.op == 'ite' and all(T._is_str(x) for x in leaves(init)):
                x = text_suffix(u, lv)
                if x is not None and not dep(x):
                    return concat_str([init, joined(mk('comp', n, bvar, x, TRUE))])
            # sum
            s = increment(u, lv)
            if s is not None and not dep(s):
                return add(init, sum_of(n, bvar, s))
            d = self.content(init)
            # members added one by one
            if u.op == 'call' and u.args[0] == 'update' and _is_set(d) and \
                    u.args[1][0] is lv and len(u.args[1]) == 2:
                x = self.as_list(u.args[1][1])
                if not dep(x):
                    return set_with(d, comp_of(n, bvar, x))
            if u.op == 'call' and u.args[0] == 'set':
                x = suffix(u.args[1][0], mk('call', 'list', (lv,), ()))
                if x is not None and not dep(x):
                    return set_with(d, comp_of(n, bvar, x))
            if d.op == 'dict' and not d.args[0] and contains(u, lambda x: x is lv):
                # entries added one by one
                hole = mk('sym', 'hole')
                g = T.map_leaves(u, lambda x: hole if x is lv else (
                    tup(x.args[1], x.args[2]) if x.op == 'store' and x.args[0] is lv and
                    occurs(x.args[1], bvar) else x)) if not T.is_bool(u) else u
                if not dep(g) and all(x is hole or x.op == 'tuple' for x in leaves(g)):
                    guard = T.map_leaves(g, lambda x: FALSE if x is hole else TRUE)
                    return mk('call', 'dict', (mk('comp', n, bvar, T.assume(g, guard)
                                                  if guard is not TRUE else g, guard),), ())
            g = self.grid(lv, u, init, n, bvar, dep)
            if g is not None:
                return g
            g = self.best(lv, fold(lv)) if dep(u) else None
            if g is not None:
                return g
            if not dep(u):
                if not occurs(u, bvar):
                    return ite(cmp_lt(ZERO, n), u, init) if not is_num(n) else u
                return mk('lastor', n, bvar, u, init)
        elif nn is not None:
            rest = assume(u, b_not(stop))
            if (rest is lv or rest is DONTCARE) and not dep(stop):
                v = assume(u, stop)
                if not dep(v):
                    return ite(ex, first(v), init)
                if v is lv:
                    return init
        return fold(lv)

    def grid(self, lv, u, init, n, bvar, dep):
        '''an array whose cells are all computed by (nested) loops, as a function of the cell'''
        if init.op == 'ref':
            init = self.content(init)
        shapes = {self.array_shape(x) for x in leaves(init)}
        if len(shapes) != 1 or None in shapes or \
                any(x.op != 'call' or x.args[0] not in FILLED for x in leaves(init)):
            return None
        shape = shapes.pop()
        loops, hole = [(n, bvar)], lv
        while u.op == 'fold' and len(u.args[2]) == 1 and u.args[4] is FALSE and \
                u.args[3] is u.args[2][0][0] and u.args[2][0][1] is hole:
            loops.append((u.args[0], u.args[1]))
            hole, u = u.args[2][0][0], u.args[2][0][2]
        idx = []

        def leaf(x):
            if x is hole:
                return DONTCARE
            if x.op == 'store' and x.args[0] is hole:
                idx.append(x.args[1])
                return x.args[2]
            idx.append(None)
            return UNDEF
        v = map_leaves(u, leaf)
        if not idx or any(i is not idx[0] for i in idx) or dep(v) or \
                contains(v, lambda x: x is hole):
            return None
        if DONTCARE in leaves(u) or any(x is hole for x in leaves(u)):
            was = map_leaves(init, filled_with)
            v = map_leaves(u, lambda x: was if x is hole else x.args[2])
        items, dims = list(T._idx_items(idx[0])), list(shape.args[1])
        full = mk('slice', NONE, NONE, NONE)
        while len(items) < len(dims):
            items.append(full)
        if len(items) != len(dims):
            return None
        pat = ''.join(':' if i is full else 'i' for i in items)
        cells = [(i, d) for i, d in zip(items, dims) if i is not full]
        bs = [mk('bv', 'k%d' % _fresh()) for _ in cells]
        if len(loops) == len(cells):
            sub_ = {}
            for (i, d), b in zip(cells, bs):
                m = [x for x in loops if x[1] is i]
                if len(m) != 1 or m[0][0] is not d or i in sub_:
                    return None
                sub_[i] = b
            v = subst(v, sub_)
        elif len(loops) == 1 and len(cells) == 2:
            (i, X), (j, Y) = cells
            N, k = loops[0]
            if i is T.floordiv(k, Y) and j is T.mod(k, Y) and N is mul(X, Y):
                v = subst(subst(v, {i: bs[0], j: bs[1]}), {k: add(mul(bs[0], Y), bs[1])})
            elif i is T.mod(k, X) and j is T.floordiv(k, X) and N is mul(X, Y):
                v = subst(subst(v, {i: bs[0], j: bs[1]}), {k: add(mul(bs[1], X), bs[0])})
            else:
                return self.partial_grid(i, j, X, Y, N, k, v, idx[0], shape)
        else:
            return None
        for (i, d), b in reversed(list(zip(cells, bs))):
            v = mk('comp', d, b, v, TRUE)

        def dtype(x):
            a = x.args[1]
            dt = dict(x.args[2]).get('dtype', a[-1] if len(a) > (
                2 if x.args[0] == 'np.full' else 1) else NONE)
            if dt.op in ('ext', 'sym') and dt.args[0] in ('np.float64', 'float', 'np.double'):
                dt = NONE
            return dt
        dt = map_leaves(init, dtype)
        return mk('call', 'grid', (const(pat), shape, dt, v), ())

    def partial_grid(self, i, j, X, Y, N, k, v, at, shape):
        '''cells that a loop over all the cells writes, but not each to its own place'''
        def split(t):
            if t.op not in ('floordiv', 'mod'):
                return None
            off = T.sub(t.args[0], k)
            return (t.op, t.args[1], off) if is_num(off) else None
        a, b = split(i), split(j)

        def extent(x):
            return x.op == 'sym' or x.op == 'attr' or x.op == 'index' and (
                x.args[0].op == 'attr' and x.args[0].args[1] == 'shape')
        if a is None or b is None or a[2] is not b[2] or not extent(X) or not extent(Y) or X is Y:
            return None
        gap = T.sub(mul(X, Y), N)
        if not is_num(gap):
            return None
        if {a[0], b[0]} == {'floordiv', 'mod'} and a[1] in (X, Y) and b[1] in (X, Y):
            right = a[0] == 'floordiv' and a[1] is b[1] is Y or \
                a[0] == 'mod' and a[1] is b[1] is X
            if not right or a[2] is not ZERO or gap is not ZERO:
                return mk('call', 'misplaced', (at, shape, N, v), ())
        return None

    # state keys: ('v', name) for locals, heap keys otherwise
    def keys(self, s):
        for k in s.env:
            yield ('v', k)
        for k in s.heap:
            yield ('h', k)

    def gkey(self, s, k):
        if k[0] == 'v':
            return s.env.get(k[1])
        v = s.heap.get(k[1])
        if v is None:
            v = self.default(k[1])
        return v

    def skey(self, s, k, v):
        if k[0] == 'v':
            s.env[k[1]] = v
        else:
            s.heap[k[1]] = v

    def exists(self, s, k):
        if k[0] == 'v':
            return k[1] in s.env
        if k[1][0] in ('A', 'C'):
            return True
        return k[1] in s.heap

    def varying(self, k, bvar, mark):
        if k[0] == 'v':
            return False
        h = k[1]
        if h[0] in ('L', 'O'):
            return h[1] > mark
        return contains(h[1], lambda u: u is bvar or u.op == 'lv' or
                        (u.op == 'ref' and u.args[0] > mark))

    # ================================================================ expressions
    def rv(self, t):
        '''value of a term in arithmetic/conditions: containers by content'''
        def f(x):
            if x.op == 'ref':
                if x.args[0] in self.objcls:
                    return x
                return self.st.heap.get(('L', x.args[0]), x)
            return self.changed(x)
        return lift(f, [t])

    def eval(self, e):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Unsupported('analysis budget')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        n = e.id
        if n in self.st.env:
            return self.st.env[n]
        fr = self.frames[-1]
        # class scope of a local class
        f = fr.func
        if f is not None and f.cls is not None and f.cls.scope is not None:
            env, owner = f.cls.scope
            if n in env:
                return env[n]
        r = self.prog.resolve_name(n, fr.module) if not isinstance(fr.module, ClientModule) \
            else fr.module.resolve(n)
        if r is not None:
            return self.from_resolved(r, n)
        if n in BUILTINS:
            return mk('ext', n)
        return mk('sym', n)

    def from_resolved(self, r, n):
        if r is None:
            return mk('sym', n)
        k = r[0]
        if k == 'class':
            return mk('class', r[1].qual)
        if k == 'func':
            return mk('func', r[1].qual)
        if k == 'nt':
            return mk('ntclass', r[1][0])
        if k == 'mod':
            return mk('module', r[1])
        if k == 'ext':
            return self.ext(r[1])
        if k == 'missing':
            self.unresolved.add((r[1], r[2]))
            return mk('sym', '%s.%s' % (r[1], r[2]))
        if k == 'global':
            m, name = r[1], r[2]
            key = (m.name, name)
            if key in self._glob:
                g = self._glob[key]
                if g is None:
                    return mk('sym', '%s.%s' % key)
                return g
            self._glob[key] = None
            ex = m.globals[name]
            t = mk('sym', '%s.%s' % key)
            if isinstance(ex, ast.Dict) and not ex.keys:
                pass                              # mutable module state: stays symbolic
            elif simple_const(ex):
                try:
                    st, self.st = self.st, State({}, self.st.heap, TRUE)
                    try:
                        t = self.eval_in_module(ex, m)
                    finally:
                        self.st = st
                except Unsupported:
                    pass
            self._glob[key] = t
            return t
        return mk('sym', n)

    def ext(self, name):
        name = NP_CANON.get(name, name)
        if name == 'np.nan':
            return NAN
        if name == 'np.inf':
            return INF
        return mk('ext', name)

    def e_Attribute(self, e):
        return self.get_attr(self.eval(e.value), e.attr, e)

    def get_attr(self, o, name, node=None):
        if o.op == 'ite' and leaf_count(o) <= T.LIFT_LIMIT:
            # evaluate per alternative (properties may be inlined)
            ls = leaves(o)
            vals = {u: (self.get_attr1(u, name, node) if u not in (UNDEF, DONTCARE) else u)
                    for u in ls}
            return map_leaves(o, lambda u: vals[u])
        return self.get_attr1(o, name, node)

    def get_attr1(self, o, name, node=None):
        if o.op == 'ext':
            return self.ext(o.args[0] + '.' + name)
        if o.op == 'module':
            r = self.prog.resolve_attr(('mod', o.args[0]), name, None)
            return self.from_resolved(r, name)
        if o.op == 'ntclass' and name == '_fields':
            return tup(*[const(x) for x in self.prog.nt_fields[o.args[0]]])
        if o.op == 'class':
            c = self.prog.classes[o.args[0]]
            f = self.prog.lookup(c, name)
            if f is not None:
                if f.is_classmethod:
                    return mk('bound', o, f.qual)
                return mk('func', f.qual)
            a = self.prog.lookup_attr(c, name)
            if a is not None:
                return self.eval_in_module(a[1], a[0].module)
            if name == '__name__':
                return const(c.name)
            return mk('attr', o, name)
        if name == 'logger':
            return mk('ext', 'logger')
        if o.op == 'tuple' and o.args[0]:
            fields = self.prog.nt_fields.get(o.args[0])
            if fields and name in fields:
                return o.args[1][fields.index(name)]
            if name == '_fields' and fields:
                return tup(*[const(x) for x in fields])
        if o.op == 'obj':
            for k, v in o.args[1]:
                if k == name:
                    return v
        hv = self.heap_attr(self.st.heap, o, name)
        if hv is not None:
            return hv
        ty = self.type_of(o)
        if name == '__class__':
            return mk('class', ty.qual) if isinstance(ty, Cls) else mk('attr', o, name)
        if name == '__dict__' or name == '__name__':
            return mk('attr', self.reify(o), name)
        if isinstance(ty, Cls):
            f = self.prog.lookup(ty, name)
            if f is not None:
                if f.is_property:
                    if name in self.keep:
                        return mk('attr', self.reify(o), name)
                    return self.call_func(f, [], {}, o)
                if f.is_static:
                    return mk('func', f.qual)
                if f.is_classmethod:
                    return mk('bound', mk('class', ty.qual), f.qual)
                return mk('bound', o, f.qual)
            a = self.prog.lookup_attr(ty, name)
            if a is not None:
                return self.eval_in_module(a[1], a[0].module)
            if o.op != 'ref':
                fact = self.shape_fact(o, ty, name)
                if fact is not None:
                    return fact
        if name in ('shape', 'ndim'):
            s = self.array_shape(self.rv(o))
            if s is not None:
                return s if name == 'shape' else const(len(s.args[1]))
        if name == 'dtype':
            v = canon(self.reify(o))
            if v.op == 'call' and v.args[0] == 'grid' and v.args[1][2] is not NONE:
                return v.args[1][2]
        if o.op == 'ref' and o.args[0] not in self.objcls:
            return mk('attr', self.content(o), name)
        if o.op == 'ref':
            if name in self.keep or True:
                return mk('attr', o, name)
        return mk('attr', o, name)

    def array_shape(self, t):
        if t.op == 'old':
            return self.array_shape(t.args[0])
        if t.op == 'sym' and t.args[0] in self.ndims:
            a, k = mk('attr', t, 'shape'), self.ndims[t.args[0]]
            if isinstance(k, tuple):
                return tup(*k)
            return tup(*[index(a, const(i)) for i in range(k)])
        if t.op == 'call' and t.args[0] == 'grid':
            return t.args[1][1]
        if t.op == 'store':
            return self.array_shape(t.args[0])
        if t.op == 'fold':
            c = [x for x in t.args[2] if x[0] is t.args[3]]
            return self.array_shape(c[0][1]) if len(c) == 1 else None
        if t.op == 'call' and t.args[0] in ('np.zeros', 'np.empty', 'np.ones', 'np.full'):
            s = t.args[1][0]
            if s.op == 'tuple':
                return s
            if s.op in ('sym', 'num', 'attr', 'poly', 'len', 'index'):
                return tup(s)
        if t.op == 'call' and t.args[0] == 'np.reshape' and t.args[1][1].op == 'tuple':
            if not any(is_num(x) and x.args[0] < 0 for x in t.args[1][1].args[1]):
                return t.args[1][1]
        if t.op == 'call' and t.args[0] == 'np.array' and len(t.args[1]) == 1 and \
                t.args[1][0].op == 'comp':
            d = self.dims(t.args[1][0])
            return None if d is None or len(d) < 2 else tup(*d)
        return None

    def shape_fact(self, o, ty, name):
        '''facts about an abstract region established by the base constructor (checked by C01)'''
        if name not in ('shape', 'ndim'):
            return None
        chain = [c.name for c in self.prog.mro(ty)]
        x, y = mk('attr', o, 'x_len'), mk('attr', o, 'y_len')
        if 'SpatioTemporalRegion' in chain:
            s = tup(mk('attr', o, 'series_len'), x, y)
        elif 'MaskRegionFuzzy' in chain:
            return None
        elif 'SpatialRegion' in chain or 'PartitionRegion' in chain:
            s = tup(x, y)
        else:
            return None
        return s if name == 'shape' else const(len(s.args[1]))

    def e_Subscript(self, e):
        o = self.eval(e.value)
        i = self.eval_index(e.slice)
        return self.get_index(o, i)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return mk('slice', *[self.rv(self.eval(x)) if x is not None else NONE
                                 for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tup(*[self.eval_index(x) for x in s.elts])
        i = self.reify(self.rv(self.eval(s)))
        if T.is_bool(i) and i not in (TRUE, FALSE):
            i = mk('mask', i)
        return i

    # ---------------------------------------------------------------- cells of arrays
    def nd(self, t):
        '''number of dimensions, where known'''
        if t.op == 'old':
            return self.nd(t.args[0])
        if t.op == 'sym':
            k = self.ndims.get(t.args[0])
            return len(k) if isinstance(k, tuple) else k
        if t.op == 'attr':
            k = self.ndims.get('.' + t.args[1])
            return len(k) if isinstance(k, tuple) else k
        s = self.array_shape(t)
        if s is not None:
            return len(s.args[1])
        if t.op == 'comp' and t.args[3] is TRUE:
            k = self.nd(t.args[2])
            return 1 + (k or 0)
        if t.op == 'call':
            n, a = t.args[0], t.args[1]
            if n == 'np.transpose' and len(a) == 1:
                return self.nd(a[0])
            if n == 'np.array' and len(a) == 1:
                return self.nd(a[0])
            if axis_of(t) is not None:
                k = self.nd(a[0])
                return None if k is None else k - 1
        if t.op == 'index':
            k = self.nd(t.args[0])
            if k is None:
                return None
            for x in T._idx_items(t.args[1]):
                if x.op == 'slice' or x.op == 'comp' or x.op == 'list':
                    continue
                if T.arraylike(x) or x.op not in ('num', 'bv', 'lv', 'index', 'poly', 'sym'):
                    return None
                k -= 1
            return k if k >= 0 else None
        return None

    def dims(self, t):
        '''the extents of an array, where known'''
        if t.op == 'old':
            return self.dims(t.args[0])
        if t.op in ('sym',) and t.args[0] in self.ndims:
            return self.array_shape(t).args[1]
        if t.op == 'attr' and '.' + t.args[1] in self.ndims:
            a, k = mk('attr', t, 'shape'), self.ndims['.' + t.args[1]]
            if isinstance(k, tuple):
                return k
            return tuple(index(a, const(i)) for i in range(k))
        s = self.array_shape(t)
        if s is not None:
            return s.args[1]
        if t.op == 'call' and t.args[0] == 'np.transpose' and len(t.args[1]) == 1:
            d = self.dims(t.args[1][0])
            return None if d is None else tuple(reversed(d))
        if t.op == 'call' and t.args[0] == 'np.array' and len(t.args[1]) == 1:
            x = t.args[1][0]
            if x.op in ('list', 'tuple') and all(self.scalar(u) for u in seq_items(x)):
                return (const(len(seq_items(x))),)
            return self.dims(x)
        if axis_of(t) is not None:
            d = self.dims(t.args[1][0])
            k = axis_of(t)
            if d is None or not -len(d) <= k < len(d):
                return None
            k %= len(d)
            return d[:k] + d[k + 1:]
        if t.op == 'comp' and t.args[3] is TRUE:
            d = self.dims(t.args[2])
            if d is None or any(T.occurs(x, t.args[1]) for x in d):
                return (t.args[0],) if self.scalar(t.args[2]) else None
            return (t.args[0],) + d
        if t.op == 'index':
            d = self.dims(t.args[0])
            if d is None:
                return None
            its = list(T._idx_items(t.args[1]))
            if len(its) > len(d) or sum(T.arraylike(x) for x in its) > 1:
                return None
            out = []
            for x, n in zip(its, d):
                if x.op == 'slice':
                    if x is mk('slice', NONE, NONE, NONE):
                        out.append(n)
                    elif window(x):
                        out.append(sub(x.args[1], x.args[0]))
                    else:
                        return None
                elif x.op in ('comp', 'list'):
                    out.append(length(x))
                elif not self.scalar(x):
                    return None
            return tuple(out) + d[len(its):]
        if self.pointwise(t) is not None:
            return self.common_dims(self.pointwise(t))
        if t.op == 'ite' and not T.is_bool(t):
            return self.common_dims(leaves(t))
        if t.op == 'store':
            return self.dims(t.args[0])
        if t.op == 'fold':
            c = [x for x in t.args[2] if x[0] is t.args[3]]
            return self.dims(c[0][1]) if len(c) == 1 else None
        return self.summed(t)

    def pointwise(self, t):
        '''the operands of an expression evaluated element by element'''
        if t.op in ('poly', 'floordiv', 'mod'):
            return children(t)
        if t.op == 'call' and t.args[0] in POINTWISE and not t.args[2]:
            return [x for x in t.args[1]]
        return None

    def common_dims(self, ts):
        ds = set()
        for x in ts:
            if not self.scalar(x):
                ds.add(self.dims(x))
        if len(ds) > 1 and None not in ds:
            # broadcasting: the others are trailing extents of the longest
            long = max(ds, key=len)
            if all(long[len(long) - len(d):] == d for d in ds):
                return long
        return ds.pop() if len(ds) == 1 else None

    def mismatch(self, t):
        '''arrays of different extents are combined element by element'''
        if self.pointwise(t) is None:
            return False
        ds = [self.dims(x) for x in self.pointwise(t) if not self.scalar(x)]
        if None in ds or len(ds) < 2:
            return False
        for d in ds:
            for e in ds:
                for x, y in zip(reversed(d), reversed(e)):
                    if x is not y and ONE not in (x, y) and all(
                            u.op in ('num', 'poly', 'index', 'attr', 'sym') for z in (x, y)
                            for u in T.subterms(z)):
                        return True
        return False

    def as_operand(self, x, other):
        '''a sequence combined with an array is an array'''
        if (x.op in ('list', 'comp') or x.op == 'tuple' and not x.args[0]) and \
                not (T._is_seq(other) or other.op == 'tuple') and not self.scalar(other) and \
                self.dims(other):
            return mk('call', 'np.array', (x,), ())
        return x

    def columnwise(self, t):
        '''a loop that computes an array slice by slice: the dimension it runs along'''
        n, b, cs, res, stop = t.args
        c = [x for x in cs if x[0] is res]
        if stop is not FALSE or len(c) != 1 or n.op == 'while':
            return None
        lv, init, step = c[0]
        if any(T.occurs(step, x[0]) for x in cs if x[0] is not lv):
            return None
        d = self.dims(init)
        if d is None:
            return None
        ats, terms, lvs = [], [], {lv}

        def writes(u):
            if u in lvs:
                return True
            if u.op == 'store':
                ats.append(T._idx_items(u.args[1]))
                terms.extend(u.args[1:])
                return writes(u.args[0])
            if u.op == 'ite' and not T.is_bool(u):
                terms.append(atom_bool(u.args[0]))
                return all(writes(x) for x in u.args[1:])
            if u.op == 'fold' and u.args[4] is FALSE and u.args[0].op != 'while':
                c = [x for x in u.args[2] if x[0] is u.args[3]]
                if len(c) != 1 or any(T.occurs(c[0][2], x[0]) for x in u.args[2]
                                      if x[0] is not c[0][0]):
                    return False
                terms.append(u.args[0])
                lvs.add(c[0][0])
                return writes(c[0][1]) and writes(c[0][2])
            return False

        if not writes(step) or not ats or any(len(at) > len(d) for at in ats):
            return None
        ats = [tuple(at) + (mk('slice', NONE, NONE, NONE),) * (len(d) - len(at)) for at in ats]
        nested = None
        if step.op == 'fold' and T.children(step):
            c2 = [x for x in step.args[2] if x[0] is step.args[3]]
            if len(c2) == 1 and c2[0][1] is lv and not T.occurs(step.args[0], b):
                nested = c2[0]
        for k in range(len(d)):
            off = T.sub(ats[0][k], b)
            rows = self.row_major(ats[0][k], n, b, step.args[0], step.args[1]) \
                if nested is not None else None
            if rows is not None and any(T.occurs(x, y) for x in rows[1:] for y in lvs):
                rows = None
            if (rows or not T.occurs(off, b) and (off is ZERO or is_num(off))) and \
                    all(at[k] is ats[0][k] for at in ats):
                hole = mk('sym', 'hole')
                p = ats[0][k]

                def blind(v):
                    if v.op == 'index' and v.args[0] in lvs:
                        its = T._idx_items(v.args[1])
                        if len(its) > k and its[k] is p:
                            return hole
                    if v in lvs or not any(T.occurs(v, x) for x in lvs):
                        return v
                    return T.rebuild(v, blind)
                if not any(T.occurs(blind(v), x) for v in terms for x in lvs):
                    if rows:
                        flip, m, off = rows
                        slow, fast = (step.args[1], b) if flip else (b, step.args[1])
                        n1, n2 = (step.args[0], n) if flip else (n, step.args[0])

                        def row(q):
                            r = T.sub(q, off)
                            hi, lo = T.floordiv(r, m), T.mod(r, m)
                            v = subst(nested[2], {nested[0]: init, lv: init, slow: hi, fast: lo})
                            v = subst(v, {T.add(T.add(T.mul(m, hi), lo), off): q})
                            return v if m is n2 else ite(T.cmp_lt(lo, n2), v, init)
                        return k, T.mul(n1, m), off, init, row
                    return k, n, off, init, lambda p: subst(step, {lv: init, b: T.sub(p, off)})
        return None

    def row_major(self, at, n, b, n2, b2):
        '''at = m * slow + fast + off for two nested loops: (inner is the slow one, m, off)'''
        for flip, slow, fast, count in ((False, b, b2, n2), (True, b2, b, n)):
            zero = subst(at, {b: ZERO, b2: ZERO})
            m = T.sub(subst(at, {slow: ONE, fast: ZERO}), zero)
            if T.occurs(m, b) or T.occurs(m, b2) or T.occurs(zero, b) or T.occurs(zero, b2):
                continue
            if T.add(T.add(T.mul(m, slow), fast), zero) is not at:
                continue
            gap = T.sub(m, count)
            if gap is ZERO or is_num(gap) and gap.args[0] > 0:
                return flip, m, zero
        return None

    def misplaced(self, t):
        '''two nested loops over the extents of an array that write to a row computed with
        another extent of it: rows are written twice and others never'''
        n, b, cs, res, stop = t.args
        c = [x for x in cs if x[0] is res]
        if stop is not FALSE or len(c) != 1 or c[0][2].op != 'fold':
            return False
        n2, b2, cs2, res2, stop2 = c[0][2].args
        c2 = [x for x in cs2 if x[0] is res2]
        if stop2 is not FALSE or len(c2) != 1 or c2[0][1] is not res or \
                c2[0][2].op != 'store' or c2[0][2].args[0] is not res2:
            return False
        ats = T._idx_items(c2[0][2].args[1])
        at, v = ats[0], c2[0][2].args[2]
        if not any(T.occurs(u, x) for u in (v,) + tuple(ats) for x in (res, res2)):
            for x in (b, b2):
                if T.occurs(v, x) and not any(T.occurs(u, x) for u in ats):
                    return True
        f = T.sub(at, b2)
        one = subst(f, {b: ONE})
        if T.occurs(one, b2) or f is not T.mul(one, b):
            # the faster variable in the place of the slower one
            f = T.sub(at, b)
            one = subst(f, {b2: ONE})
            if T.occurs(one, b) or f is not T.mul(one, b2):
                return False
            n2 = n

        def extent(x):
            return x.op == 'index' and x.args[0].op == 'attr' and x.args[0].args[1] == 'shape'
        return one is not n2 and extent(one) and extent(n2) and one.args[0] is n2.args[0]

    def scalar(self, t):
        '''a value known not to be an array'''
        if t.op == 'old':
            return self.scalar(t.args[0])
        if t.op in ('num', 'bv', 'str', 'len', 'true', 'false'):
            return True
        if t.op == 'ext':
            return t.args[0] in ('nan', 'inf')
        if t.op == 'sym':
            return t.args[0] in self.scalars
        if t.op == 'attr':
            return t.args[1] in SCALAR_ATTRS
        if self.pointwise(t) is not None:
            return all(self.scalar(x) for x in self.pointwise(t))
        if t.op == 'index':
            d = self.dims(t.args[0])
            if d is not None and len(d) == len(T._idx_items(t.args[1])):
                return all(self.scalar(x) for x in T._idx_items(t.args[1]))
            return t.args[0].op == 'sym' and t.args[0].args[0] in self.ints and \
                self.scalar(t.args[1])
        if t.op == 'call' and t.args[0] in ('np.argmin', 'np.argmax', 'np.sum', 'np.min', 'np.max',
                                            'np.mean') and len(t.args[1]) == 1 and not t.args[2]:
            return self.summed(t) is None
        if t.op == 'mcall' and t.args[1] == 'measure':
            return True
        if t.op == 'ite':
            return all(self.scalar(x) for x in leaves(t))
        return False

    def summed(self, t):
        '''the extents of a sum of arrays'''
        if t.op == 'call' and t.args[0] == 'np.sum' and len(t.args[1]) == 1 and not t.args[2] and \
                t.args[1][0].op == 'comp':
            x = t.args[1][0].args[2]
            d = None if self.scalar(x) else self.dims(x)
            if d and not any(T.occurs(u, t.args[1][0].args[1]) for u in d):
                return d
        return None

    def cell(self, t, ix):
        '''the element of an array at (scalar) indices, None where not known'''
        d = self.dims(t)
        if d is None:
            if self.scalar(t):
                return t
            return mk('call', 'misplaced', tuple(ix), ()) if self.mismatch(t) else None
        if t.op == 'old':
            v = self.cell(t.args[0], ix)
            return None if v is None else subst(v, {t.args[0]: t})
        if len(d) != len(ix):
            return None
        if t.op == 'call' and t.args[0] == 'np.transpose':
            return self.cell(t.args[1][0], tuple(reversed(ix)))
        if t.op == 'call' and t.args[0] == 'np.array':
            x = t.args[1][0]
            if x.op in ('list', 'tuple'):
                return index(x, ix[0]) if len(ix) == 1 else None
            return self.cell(x, ix)
        if axis_of(t) is not None:
            a = t.args[1][0]
            k = axis_of(t) % (len(d) + 1)
            b = mk('bv', 'k%d' % _fresh())
            v = self.cell(a, ix[:k] + (b,) + ix[k:])
            if v is None:
                return None
            n, name = self.dims(a)[k], t.args[0]
            if name in ('np.sum', 'np.linalg.norm'):
                if name != 'np.sum':
                    v = mul(v, v)
                if is_num(n) and n.args[0] <= UNROLL:
                    total = ZERO
                    for i in range(n.args[0]):
                        total = add(total, subst(v, {b: const(i)}))
                else:
                    total = sum_of(n, b, v)
                return total if name == 'np.sum' else T.power(total, const(0.5)) \
                    if total.op not in ('num', 'poly') else mk('call', 'np.sqrt', (total,), ())
            if is_num(n) and 0 < n.args[0] <= UNROLL:
                return mk('call', name, (mk('list', tuple(
                    subst(v, {b: const(i)}) for i in range(n.args[0]))),), ())
            return mk('call', name, (mk('comp', n, b, v, TRUE),), ())
        if t.op == 'call' and t.args[0] == 'np.reshape' and len(t.args[1]) == 2:
            u = t.args[1][0]
            du = self.dims(u)
            if du is not None and len(du) == 1:
                flat = ZERO
                for x, n in zip(ix, d):
                    flat = add(mul(flat, n), x)
                return self.cell(u, (flat,)) or index(u, flat)
            return None
        if t.op == 'comp':
            if len(ix) > 1 and not any(T.occurs(x, t.args[1]) for x in ix):
                v = self.cell(t.args[2], ix[1:])
                if v is not None:
                    return subst(v, {t.args[1]: ix[0]})
            v = subst(t.args[2], {t.args[1]: ix[0]})
            return self.cell(v, ix[1:]) if len(ix) > 1 else v
        if t.op == 'index':
            its = list(T._idx_items(t.args[1]))
            base = self.dims(t.args[0])
            out, rest = [], list(ix)
            for x in its:
                if x.op == 'slice':
                    i = rest.pop(0)
                    out.append(add(x.args[0], i) if window(x) else i)
                elif x.op in ('comp', 'list'):
                    out.append(index(x, rest.pop(0)))
                else:
                    out.append(x)
            out += rest
            if len(out) != len(base):
                return None
            r = self.cell(t.args[0], tuple(out))
            return r if r is not None else index(t.args[0], tup(*out) if len(out) > 1 else out[0])
        if t.op == 'call' and t.args[0] == 'grid':
            pat, body, rest = t.args[1][0].args[0], t.args[1][3], []
            for p, x in zip(pat, ix):
                if p == ':':
                    rest.append(x)
                else:
                    body = subst(body.args[2], {body.args[1]: x})
            if rest and not self.scalar(body):
                return self.cell(body, tuple(rest))
            return body
        if t.op in ('sym', 'attr'):
            return index(t, tup(*ix) if len(ix) > 1 else ix[0])
        if self.pointwise(t) is not None:
            parts = {}
            for u in self.pointwise(t):
                if self.scalar(u):
                    v = u
                else:
                    m = self.dims(u)
                    v = self.cell(u, ix[len(ix) - len(m):]) if m is not None else None
                if v is None:
                    return None
                parts[u] = v
            if t.op == 'call' and t.args[0] == 'pow':
                return T.power(parts[t.args[1][0]], parts[t.args[1][1]])
            return T.rebuild(t, lambda u: parts.get(u, u))
        if t.op == 'ite':
            parts = {u: u if self.scalar(u) else self.cell(u, ix) for u in leaves(t)}
            if None in parts.values():
                return None
            return T.map_leaves(t, lambda u: parts[u])
        if self.summed(t) is not None:
            n, b, body, cond = t.args[1][0].args
            v = self.cell(body, ix)
            return None if v is None else sum_of(n, b, ite(cond, v, ZERO))
        if t.op == 'fold':
            k = self.columnwise(t)
            if k is None:
                return mk('call', 'misplaced', tuple(ix), ()) if self.misplaced(t) else None
            k, n, off, init, at = k
            d = self.dims(init)[k]
            v = self.cell(at(ix[k]), ix)
            if v is None and self.misplaced(t):
                return mk('call', 'misplaced', tuple(ix), ())
            inside = TRUE
            if T.add(n, off) is not d:
                inside = T.cmp_lt(T.sub(ix[k], off), n)
            if off is not ZERO:
                inside = T.b_and(inside, T.b_not(T.cmp_lt(ix[k], off)))
            if inside is TRUE or v is None:
                return v
            o = self.cell(init, ix)
            return None if o is None else ite(inside, v, o)
        if t.op == 'store' and all(is_num(x) for x in ix):
            at = T._idx_items(t.args[1])
            if len(at) == len(ix) and all(is_num(x) for x in at):
                return t.args[2] if tuple(at) == tuple(ix) else self.cell(t.args[0], ix)
            if len(at) == len(ix) and all(is_num(x) or x.op == 'slice' for x in at):
                full = mk('slice', NONE, NONE, NONE)
                if all(x is full or is_num(x) for x in at):
                    if any(is_num(x) and x is not y for x, y in zip(at, ix)):
                        return self.cell(t.args[0], ix)
                    return self.cell(t.args[2], tuple(y for x, y in zip(at, ix) if x is full))
            return None
        if t.op == 'store':
            at = T._idx_items(t.args[1])
            full = mk('slice', NONE, NONE, NONE)
            if len(at) > len(ix) or not all(x is full or self.scalar(x) for x in at):
                return None
            at = tuple(at) + (full,) * (len(ix) - len(at))
            hit = TRUE
            for x, y in zip(at, ix):
                if x is not full:
                    hit = T.b_and(hit, T.cmp_eq(x, y))
            rest = tuple(y for x, y in zip(at, ix) if x is full)
            v = t.args[2] if not rest or self.scalar(t.args[2]) else self.cell(t.args[2], rest)
            if v is None and len(rest) == 1 and t.args[2].op == 'comp' and \
                    t.args[2].args[3] is TRUE:
                v = index(t.args[2], rest[0])
            if v is None and len(rest) == 1 and t.args[2].op in ('tuple', 'list'):
                v = index(t.args[2], rest[0])
            old = self.cell(t.args[0], ix)
            return None if v is None or old is None else ite(hit, v, old)
        if t.op == 'call' and t.args[0] in FILLED:
            v = filled_with(t)
            return None if v is UNDEF else v
        return None

    def mask_cell(self, c, ix):
        '''the value of an elementwise condition at one element'''
        if not T.is_bool(c):
            return None
        if c in (TRUE, FALSE):
            return c
        if c.op == 'ite':
            xs = [self.mask_cell(x, ix) for x in c.args[1:]]
            if None in xs:
                return None
            at = c.args[0]
            if at.op not in ('eq', 'pos', 'iszero') or \
                    any(u.op == 'str' for u in children(at)):
                return ite(atom_bool(at), xs[0], xs[1])
            parts = {}
            for u in children(at):
                v = self.cell_expr(u, ix)
                if v is None:
                    return None
                parts[u] = v
            at = T.rebuild_atom(at, lambda u: parts.get(u, u))
            return ite(at, xs[0], xs[1])
        return None

    def cell_expr(self, t, ix):
        v = self.cell(t, ix)
        if v is None and t.op == 'poly':
            parts = {u: self.cell_expr(u, ix) for u in children(t)}
            if None in parts.values():
                return None
            return T.rebuild(t, lambda u: parts.get(u, u))
        return v

    def mask_len(self, c):
        '''the length of the one-dimensional arrays an elementwise condition is about'''
        ns = set()

        def walk(u):
            d = self.dims(u)
            if d is not None:
                ns.add(d)
            elif not self.scalar(u):
                for x in children(u):
                    walk(x)
        walk(c)
        ns.discard(())
        if len(ns) == 1:
            d = ns.pop()
            return d[0] if len(d) == 1 else None

    def masked(self, t):
        '''array[..., mask, ...]: (length, variable, element, condition)'''
        if t.op != 'index':
            return None
        d = self.dims(t.args[0])
        its = list(T._idx_items(t.args[1]))
        sel = [x for x in its if not self.scalar(x)]
        if d is None or len(d) != len(its) or len(sel) != 1:
            return None
        m = sel[0]
        if m.op == 'index' and m.args[1] is ZERO:
            m = m.args[0]
        if m.op == 'call' and m.args[0] in ('np.where', 'np.nonzero', 'np.flatnonzero') and \
                len(m.args[1]) == 1:
            m = m.args[1][0]
        if m.op != 'mask':
            return None
        b = mk('bv', 'k%d' % _fresh())
        c = self.mask_cell(m.args[0], (b,))
        if c is None:
            return None
        k = its.index(sel[0])
        v = self.cell(t.args[0], tuple(b if x is sel[0] else x for x in its))
        return None if v is None else (d[k], b, v, c)

    def get_index(self, o, i):
        def f(x, j):
            if (x.op == 'index' and any(y.op in ('comp', 'list', 'slice')
                                        for y in T._idx_items(x.args[1]))) or \
                    (x.op == 'call' and x.args[0] in ('np.transpose', 'np.argmin', 'np.argmax')) \
                    or (x.op == 'call' and x.args[0] in ('np.array', 'np.reshape') and x.args[1]
                        and (x.args[1][0].op in ('comp', 'call'))) \
                    or axis_of(x) is not None \
                    or (x.op == 'call' and x.args[0] == 'grid' and ':' in x.args[1][0].args[0]) \
                    or (x.op in ('fold', 'store', 'poly') and self.ndims and self.dims(x)):
                ix = T._idx_items(j)
                if not any(y.op == 'slice' or T.arraylike(y) for y in ix):
                    v = self.cell(x, tuple(ix))
                    if v is not None:
                        return v
            if x.op == 'tuple' and x.args[0] and is_num(j):
                return x.args[1][j.args[0]]
            ty = self.type_of(x)
            if isinstance(ty, tuple) and is_num(j) and isinstance(j.args[0], int):
                if -len(ty[1]) <= j.args[0] < len(ty[1]):
                    return self.get_attr(x, ty[1][j.args[0]])
            if x.op == 'slice0':
                pass
            if j.op == 'slice' and j.args[0] is ZERO:
                j = mk('slice', NONE, j.args[1], j.args[2])
            if j.op == 'slice' and j.args[2] is ONE:
                j = mk('slice', j.args[0], j.args[1], NONE)
            if j.op == 'tuple':
                its = []
                for q in j.args[1]:
                    if q.op == 'slice' and q.args[0] is ZERO:
                        q = mk('slice', NONE, q.args[1], q.args[2])
                    if q.op == 'slice' and q.args[2] is ONE:
                        q = mk('slice', q.args[0], q.args[1], NONE)
                    its.append(q)
                # a namedtuple index selects a cell
                j = mk('tuple', '', tuple(its))
            if x.op == 'list' and 1 < len(x.args[0]) <= 6 and not is_num(j) and \
                    j.op not in ('slice', 'tuple') and any(v.op == 'ref' for v in x.args[0]):
                # one of a few known objects: the position decides which
                out = x.args[0][-1]
                for k in range(len(x.args[0]) - 2, -1, -1):
                    out = ite(cmp_eq(j, const(k)), x.args[0][k], out)
                return out
            return index(x, j)
        return lift(f, [self.rv(o), i])

    def e_Tuple(self, e):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                c = self.concrete_items(self.eval(x.value))
                if c is None:
                    raise Unsupported('starred element')
                items.extend(c)
            else:
                items.append(self.eval(x))
        return tup(*items)

    def e_List(self, e):
        parts = mk('list', ())
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts = concat_list(parts, self.as_list(self.eval(x.value)))
            else:
                parts = concat_list(parts, mk('list', (self.eval(x),)))
        return self.alloc(parts)

    def e_Set(self, e):
        return self.alloc(mk('set', tuple(sorted(self.rv(self.eval(x)) for x in e.elts))))

    def e_Dict(self, e):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('dict unpacking')
            items.append((self.rv(self.eval(k)), self.eval(v)))
        return self.alloc(T.dict_of(items))

    def as_list(self, t):
        d = self.iteration_protocol(t) if t.op in ('ref', 'sym', 'attr') else None
        if d is not None:
            b = mk('bv', 'k%d' % _fresh())
            return mk('comp', d[0], b, d[1](b), d[2](b) if d[2] is not None else TRUE)
        c = self.content(self.iterable(t, None))

        def f(x):
            if x.op == 'tuple':
                return mk('list', x.args[1])
            if x.op in ('list', 'comp', 'flat', 'concat', 'range'):
                return x
            if x.op == 'call' and x.args[0] in ('list',):
                return x
            if x.op in ('dict',) or (x.op == 'call' and x.args[0].startswith('dict.')) or \
                    (x.op == 'call' and x.args[0] in ('zip', 'enumerate', 'map')):
                it = self.concrete_items(x)
                if it is not None:
                    return mk('list', tuple(it))
                if x.op == 'call' and x.args[0] in ('zip', 'enumerate'):
                    n, el, cond = self.domain(x)
                    if cond is None:
                        b = mk('bv', 'k%d' % _fresh())
                        return mk('comp', n, b, el(b), TRUE)
            return mk('call', 'list', (x,), ())
        return lift(f, [c])

    def e_UnaryOp(self, e):
        v = self.rv(self.eval(e.operand))
        if isinstance(e.op, ast.Not):
            return b_not(truth(v))
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return lift(lambda x: mk('call', 'invert', (x,), ()), [v])

    def e_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right))

    def binop(self, op, a, b):
        a, b = self.reify(self.rv(a)), self.reify(self.rv(b))
        if self.ndims and isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow)):
            a, b = self.as_operand(a, b), self.as_operand(b, a)
        if isinstance(op, ast.Add):
            return add(a, b)
        if type(op) in SET_OPS and _is_set(a):
            return mk('mcall', a, SET_OPS[type(op)], (b,), ())
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.FloorDiv):
            return floordiv(a, b)
        if isinstance(op, ast.Mod):
            if T._is_str(a):
                return self.percent_format(a, b)
            return mod(a, b)
        if isinstance(op, ast.Pow):
            return power(a, b)
        if isinstance(op, ast.BitOr):
            if is_bool(a) and is_bool(b) and a.op == 'ite':
                return b_or(a, b)
        return lift(lambda x, y: mk('call', type(op).__name__, (x, y), ()), [a, b])

    def percent_format(self, f, args):
        if f.op != 'str':
            return mk('call', 'percent', (f, args), ())
        s = f.args[0]
        vals = list(args.args[1]) if args.op == 'tuple' and not args.args[0] else [args]
        parts, i, buf = [], 0, ''
        while i < len(s):
            if s[i] == '%' and i + 1 < len(s):
                if s[i + 1] == '%':
                    buf += '%'
                    i += 2
                    continue
                j = i + 1
                while j < len(s) and s[j] not in 'sdrfgeixX':
                    j += 1
                spec, ty = s[i + 1:j], s[j]
                parts.append(const(buf))
                buf = ''
                if not vals:
                    return mk('call', 'percent', (f, args), ())
                v = vals.pop(0)
                if ty in 's' and not spec:
                    parts.append(self.str_of(v))
                elif ty == 'd' and not spec:
                    parts.append(self.str_of(v))
                elif ty == 'r':
                    parts.append(self.str_of(v, 'r'))
                else:
                    parts.append(to_part(v, 's', spec + ty))
                i = j + 1
            else:
                buf += s[i]
                i += 1
        parts.append(const(buf))
        return concat_str(parts)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0])
        for nxt in e.values[1:]:
            c = truth(self.rv(v))
            box = {}
            base = v
            if c is TRUE or c is FALSE:
                if (c is TRUE) == isand:
                    v = self.eval(nxt)
                continue

            def f():
                box['v'] = self.eval(nxt)
            if isand:
                self.branch(c, f, lambda: None)
                w = box.get('v', UNDEF)
                v = ite(c, self.boolish(w), self.boolish(base)) if is_bool(base) or \
                    base.op == 'ite' else ite(c, w, base)
            else:
                self.branch(c, lambda: None, f)
                w = box.get('v', UNDEF)
                v = ite(c, base, w)
        return v

    def boolish(self, t):
        return t

    def e_IfExp(self, e):
        c = truth(self.rv(self.eval(e.test)))
        if c is TRUE:
            return self.eval(e.body)
        if c is FALSE:
            return self.eval(e.orelse)
        box = {}

        def f():
            box['a'] = self.eval(e.body)

        def g():
            box['b'] = self.eval(e.orelse)
        self.branch(c, f, g)
        return ite(c, box.get('a', UNDEF), box.get('b', UNDEF))

    def e_Compare(self, e):
        left = self.reify(self.rv(self.eval(e.left)))
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.reify(self.rv(self.eval(r)))
            res = b_and(res, self.compare(op, left, right))
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Lt):
            return cmp_lt(a, b)
        if isinstance(op, ast.Gt):
            return cmp_lt(b, a)
        if isinstance(op, ast.LtE):
            return cmp_le(a, b)
        if isinstance(op, ast.GtE):
            return cmp_le(b, a)
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.eq(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return b_not(self.eq(a, b))
        neg_ = isinstance(op, ast.NotIn)

        def f(x, y):
            if y.op == 'call' and y.args[0] == 'dict.keys':
                y = y.args[1][0]
            if y.op in ('list', 'set', 'tuple') and x.op in ('str', 'num'):
                items = y.args[1] if y.op == 'tuple' else y.args[0]
                r = FALSE
                for it in items:
                    r = b_or(r, cmp_eq(x, it))
                return r
            if y.op in ('list', 'tuple', 'set') and len(
                    y.args[1] if y.op == 'tuple' else y.args[0]) <= 8:
                r = FALSE
                for it in (y.args[1] if y.op == 'tuple' else y.args[0]):
                    r = b_or(r, cmp_eq(x, it))
                return r
            if y.op == 'dict' and all(k.op in ('str', 'num') for k, _ in y.args[0]):
                r = FALSE
                for k, _ in y.args[0]:
                    r = b_or(r, cmp_eq(x, k))
                return r
            if y.op == 'dict' and any(k is x for k, _ in y.args[0]):
                return TRUE
            m = self.member(x, y)
            if m is not None:
                return m
            if y.op == 'dict' and len(y.args[0]) == 1:
                return cmp_eq(x, y.args[0][0][0])
            return atom_bool(mk('in', x, y))
        r = lift(f, [a, b])
        return b_not(r) if neg_ else r

    def fields(self, t):
        '''attributes of records that became known'''
        def go(u):
            u = T.rebuild(u, go)
            if u.op == 'attr' and u.args[0].op in ('tuple', 'obj'):
                return self.get_attr(u.args[0], u.args[1])
            return u
        return go(t)

    def member(self, x, y):
        '''membership in a collection that is built from others, None where not known'''
        rec = lambda u: self.compare(ast.In(), x, u)
        if y.op == 'call' and y.args[0] in ('set', 'list', 'sorted', 'tuple', 'frozenset') and \
                len(y.args[1]) == 1:
            return rec(y.args[1][0])
        if y.op == 'mcall' and y.args[1] in ('difference', 'union', 'intersection') and \
                len(y.args[2]) == 1 and not y.args[3]:
            a, b = rec(y.args[0]), rec(y.args[2][0])
            return b_or(a, b) if y.args[1] == 'union' else b_and(
                a, b if y.args[1] == 'intersection' else b_not(b))
        if y.op == 'range' and len(y.args) == 2:
            return b_and(cmp_le(y.args[0], x), cmp_lt(x, y.args[1]))
        if y.op == 'call' and y.args[0] == 'np.arange' and not y.args[2] and \
                len(y.args[1]) in (1, 2):
            lo = ZERO if len(y.args[1]) == 1 else y.args[1][0]
            return b_and(cmp_le(lo, x), cmp_lt(x, y.args[1][-1]))
        if y.op == 'comp' and y.args[2].op in ('bv', 'poly'):
            n, b, body, cond = y.args
            for u in subterms(n):
                # over the members of a set that is written out
                if u.op == 'call' and u.args[0] == 'set' and n is length(u) and \
                        u.args[1][0].op == 'list' and len(u.args[1][0].args[0]) <= 8:
                    r = FALSE
                    for i in u.args[1][0].args[0]:
                        sub = {index(u, b): i}
                        v, c = self.fields(subst(body, sub)), self.fields(subst(cond, sub))
                        if occurs(v, b) or occurs(c, b):
                            return None
                        r = b_or(r, b_and(c, cmp_eq(x, v)))
                    return r
            off = T.sub(body, b)
            if not occurs(off, b):
                at = T.sub(x, off)
                return b_and(b_and(cmp_le(ZERO, at), cmp_lt(at, n)), subst(cond, {b: at}))
        return None

    def eq(self, a, b):
        ta = self.type_of(a) if a.op != 'obj' else self.prog.classes.get(a.args[0])
        if isinstance(ta, Cls) and self.prog.lookup(ta, '__eq__') is not None and \
                b is not NONE and '__eq__' not in self.keep:
            return truth(self.call_func(self.prog.lookup(ta, '__eq__'), [b], {}, a))
        if b is NONE and a.op == 'sym' and a.args[0] in self.ndims or \
                a is NONE and b.op == 'sym' and b.args[0] in self.ndims:
            return FALSE
        return cmp_eq(a, b)

    def e_Lambda(self, e):
        f = Func(e, self.frames[-1].module, None, self.frames[-1].func)
        return self.make_closure(f)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                val = self.eval(v.value)
                spec = ''
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec)
                    if sp.op != 'str':
                        raise Unsupported('dynamic format spec')
                    spec = sp.args[0]
                conv = {114: 'r', 115: 's', -1: 's', 97: 'r'}[v.conversion]
                parts.append(self.str_of(val, conv, spec))
        return concat_str(parts)

    def e_FormattedValue(self, e):
        return self.str_of(self.eval(e.value))

    def e_Starred(self, e):
        raise Unsupported('starred')

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    # comprehensions
    def e_ListComp(self, e):
        return self.alloc(self.comp(e.generators, lambda: self.eval(e.elt)))

    def e_GeneratorExp(self, e):
        return self.comp(e.generators, lambda: self.eval(e.elt))

    def e_SetComp(self, e):
        return mk('call', 'set', (self.comp(e.generators, lambda: self.eval(e.elt)),), ())

    def e_DictComp(self, e):
        c = self.comp(e.generators, lambda: tup(self.rv(self.eval(e.key)), self.eval(e.value)))
        if c.op == 'list' and all(x.op == 'tuple' and x.args[1][0].op in ('str', 'num')
                                  for x in c.args[0]):
            return self.alloc(mk('dict', tuple({x.args[1][0]: x.args[1][1]
                                                for x in c.args[0]}.items())))
        return self.alloc(mk('call', 'dict', (c,), ()))

    def comp(self, gens, elt):
        g = gens[0]
        it = self.iterable(self.eval(g.iter), g.iter)
        conc = self.concrete_items(it) if it.op != 'ite' else None
        env0 = dict(self.st.env)
        if conc is not None and len(conc) <= UNROLL:
            out = mk('list', ())
            for x in conc:
                self.assign(g.target, x)
                c = TRUE
                for i in g.ifs:
                    c = b_and(c, truth(self.rv(self.eval(i))))
                x_ = self.comp(gens[1:], elt) if gens[1:] else mk('list', (elt(),))
                out = concat_list(out, ite(c, x_, mk('list', ())))
            self.st.env = env0
            return out
        self.event('iterate', self.reify(it), g.iter)
        n, el, cond = self.domain(it)
        b = mk('bv', 'k%d' % _fresh())
        mark = _ids[0]
        saved = self.loops
        self.loops = saved + [(n, b, g.iter)]
        self.assign(g.target, el(b))
        c = TRUE if cond is None else truth(cond(b))
        xmark = len(self.frames[-1].exits)
        for i in g.ifs:
            c = b_and(c, truth(self.rv(self.eval(i))))
        if gens[1:]:
            x = self.comp(gens[1:], elt)
        else:
            x = mk('list', (elt(),))
        x = self.reify_only(x, self.st.heap, mark)
        self.loops = saved
        # element evaluation may raise: becomes an exit of the enclosing function
        fr = self.frames[-1]
        new = fr.exits[xmark:]
        del fr.exits[xmark:]
        for pc, kind, v, h in new:
            fr.exits.append((atom_bool(mk('exists', n, b, pc)), kind, v, h))
        self.st.env = env0
        return comp_of(n, b, ite(c, x, mk('list', ())))

    # ================================================================ strings
    def str_of(self, v, conv='s', spec=''):
        v0 = v

        def f(x):
            ty = self.type_of(x)
            if isinstance(ty, Cls) and not spec:
                meth = None
                if conv == 's':
                    meth = self.prog.lookup(ty, '__str__')
                if meth is None:
                    meth = self.prog.lookup(ty, '__repr__')
                if meth is not None and meth.name not in self.keep:
                    return ('call', meth, x)
            return None
        ls = leaves(v)
        vals = {}
        for x in ls:
            r = f(x)
            if r is not None:
                vals[x] = to_part(self.call_func(r[1], [], {}, x))
            elif x in (UNDEF, DONTCARE):
                vals[x] = x
            else:
                vals[x] = to_part(self.reify(self.rv(x)), conv, spec)
        return map_leaves(v, lambda u: vals[u])

    def str_format(self, fs, args, kwargs):
        if fs.op != 'str':
            return lift(lambda x: mk('mcall', x, 'format', tuple(self.reify(a) for a in args),
                                     tuple(sorted((k, self.reify(v))
                                                  for k, v in kwargs.items()))), [fs]) \
                if fs.op != 'ite' else map_leaves(
                    fs, lambda u: self.str_format(u, args, kwargs))
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(fs.args[0]):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            head = field.split('.')[0].split('[')[0]
            if head == '':
                if auto >= len(args):
                    raise Unsupported('format arity')
                v = args[auto]
                auto += 1
            elif head.isdigit():
                v = args[int(head)]
            else:
                v = kwargs.get(head)
                if v is None:
                    raise Unsupported('format field')
            rest = field[len(head):]
            if rest:
                for p in rest.strip('.').split('.'):
                    v = self.get_attr(v, p)
            parts.append(self.str_of(v, 'r' if conv == 'r' else 's', spec or ''))
        return concat_str(parts)

    # ================================================================ calls
    def e_Call(self, e):
        fn = e.func
        # logging never matters
        if isinstance(fn, ast.Attribute):
            d = _dotted(fn.value)
            if d and (d.split('.')[-1] in ('logger', 'log', 'logging')):
                if d in ('log_util', ):
                    pass
                else:
                    self.shown(e)
                    return NONE
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and \
                    fn.value.func.id == 'super':
                return self.super_call(e, fn)
            # Class.method(self, ...)
            recv = self.eval(fn.value)
            return self.method_call(recv, fn.attr, e)
        if isinstance(fn, ast.Name) and fn.id == 'print':
            self.shown(e)
            return NONE
        if isinstance(fn, ast.Name) and fn.id == 'super' and fn.id not in self.st.env:
            return mk('super', *self.super_of(e))
        f = self.eval(fn)
        args, kwargs = self.args(e)
        return self.apply(f, args, kwargs, e)

    def shown(self, e):
        '''what is printed or logged has no value, but calls in it may have effects'''
        for a in e.args + [k.value for k in e.keywords]:
            if any(isinstance(u, ast.Call) and not (
                    isinstance(u.func, ast.Name) and u.func.id in SHOW or
                    isinstance(u.func, ast.Attribute) and u.func.attr in SHOW)
                    for u in ast.walk(a)):
                self.eval(a)

    def args(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                c = self.concrete_items(v)
                if c is None:
                    cv = self.content(v)
                    args.append(mk('star', self.reify(cv)))
                else:
                    args.extend(c)
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                c = _flat_dict(self.content(v))
                if c.op == 'dict' and all(x.op == 'str' for x, _ in c.args[0]):
                    for x, y in c.args[0]:
                        kwargs[x.args[0]] = y
                else:
                    kwargs['**'] = self.reify(c)
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def super_call(self, e, fn):
        args, kwargs = self.args(e)
        return self.super_method(self.super_of(fn.value), fn.attr, args, kwargs, e)

    def super_of(self, sup):
        '''the class after which a method is looked up, and the object'''
        fr = self.frames[-1]
        if sup.args:
            ct = self.eval(sup.args[0])
            obj = self.eval(sup.args[1]) if len(sup.args) > 1 else fr.self_term
            cur = self.prog.classes.get(ct.args[0]) if ct.op == 'class' else None
        else:
            cur = fr.cls
            obj = fr.self_term
        if cur is None or obj is None:
            raise Unsupported("super in %s" % (fr.func.qual if fr.func else None))
        return mk('class', cur.qual), obj

    def super_method(self, sup, name, args, kwargs, e):
        cur, obj = self.prog.classes[sup[0].args[0]], sup[1]
        if obj.op == 'class':
            ty = self.prog.classes[obj.args[0]]
        else:
            ty = self.type_of(obj)
        if not isinstance(ty, Cls):
            ty = cur
        f = self.prog.lookup(ty, name, after=cur)
        if f is None:
            return NONE
        return self.invoke(f, obj, args, kwargs, e)

    def invoke(self, f, obj, args, kwargs, e):
        if f.qual in self.keep or (f.name in self.keep and obj is not None and False):
            return self.opaque_method(obj, f.name, args, kwargs, e, f)
        if is_abstract(f) and not (obj is not None and obj.op == 'ref' and
                                   obj.args[0] in self.objcls):
            return self.opaque_method(obj, f.name, args, kwargs, e, f)
        if f.is_static:
            return self.call_func(f, args, kwargs)
        return self.call_func(f, args, kwargs, obj)

    def method_call(self, recv, name, e):
        if recv.op == 'ext' and recv.args[0] == 'logger':
            return NONE
        args, kwargs = self.args(e)
        if recv.op == 'ite':
            ls = [u for u in leaves(recv) if u not in (UNDEF, DONTCARE)]
            if len(ls) > 1 and len(ls) <= 12:
                # evaluate the call under each alternative receiver
                def go(t):
                    if t.op != 'ite':
                        if t in (UNDEF, DONTCARE):
                            return t
                        return self.method_call1(t, name, args, kwargs, e)
                    box = {}
                    self.branch(atom_bool(t.args[0]), lambda: box.__setitem__('a', go(t.args[1])),
                                lambda: box.__setitem__('b', go(t.args[2])))
                    return ite(atom_bool(t.args[0]), box.get('a', UNDEF), box.get('b', UNDEF))
                return go(recv)
            if len(ls) == 1:
                recv = ls[0]
        return self.method_call1(recv, name, args, kwargs, e)

    def method_call1(self, recv, name, args, kwargs, e):
        h = self.hooks.get('.' + name)
        if h is not None:
            r = h(self, recv, args, kwargs, e)
            if r is not None:
                return r
        if recv.op == 'super':
            return self.super_method(recv.args, name, args, kwargs, e)
        # modules, classes
        if recv.op in ('ext', 'module', 'class', 'ntclass'):
            if recv.op == 'class':
                c = self.prog.classes[recv.args[0]]
                f = self.prog.lookup(c, name)
                if f is not None:
                    if f.is_classmethod:
                        return self.invoke(f, recv, args, kwargs, e)
                    if f.is_static:
                        return self.invoke(f, None, args, kwargs, e)
                    # Class.method(obj, ...)
                    return self.invoke(f, args[0], args[1:], kwargs, e) if args else \
                        self.opaque_call(f.qual, args, kwargs, e)
                return self.opaque_method(recv, name, args, kwargs, e, None)
            f = self.get_attr(recv, name)
            return self.apply(f, args, kwargs, e)
        # strings
        c = self.rv(recv)
        if name == 'format' and (T._is_str(c) or c.op == 'ite' or
                                 self.type_of(recv) is None):
            if T._is_str(c) or (c.op == 'ite' and all(T._is_str(u) for u in leaves(c))):
                return self.str_format(c, args, kwargs)
        if name == 'join' and c.op == 'str' and len(args) == 1:
            items = self.concrete_items(args[0])
            if items is not None:
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts.append(c)
                    parts.append(to_part(self.rv(x)))
                return concat_str(parts)
            x = self.as_list(args[0])
            if c.args[0] == '' and x.op == 'comp':
                return joined(x)
        ty = self.type_of(recv)
        # attribute holding a callable
        hv = self.heap_attr(self.st.heap, recv, name)
        if hv is not None:
            return self.apply(hv, args, kwargs, e)
        if isinstance(ty, Cls):
            f = self.prog.lookup(ty, name)
            if f is not None:
                if name in self.keep and recv.op != 'ref' and name != '__init__' or \
                        ('!' + name) in self.keep:
                    return self.opaque_method(recv, name, args, kwargs, e, f)
                if f.qual in self.keep:
                    return self.opaque_method(recv, name, args, kwargs, e, f)
                if f.is_property:
                    return self.apply(self.get_attr(recv, name), args, kwargs, e)
                if f.is_classmethod:
                    return self.invoke(f, mk('class', ty.qual), args, kwargs, e)
                return self.invoke(f, recv, args, kwargs, e)
        if isinstance(ty, tuple) and name == '_asdict':
            return mk('call', 'dict', (recv,), ())
        if name in MUTATORS and not isinstance(ty, Cls):
            r = self.mutate(recv, name, args, kwargs, e)
            if r is not None:
                return r
        # containers
        if name in ('keys', 'values', 'items') and not args:
            d = self.reify(c) if name == 'keys' else c
            return lift(lambda x: mk('call', 'dict.' + name, (x,), ()), [c])
        if name == 'get' and args and c.op == 'dict' and args[0].op in ('str', 'num'):
            for k, v in c.args[0]:
                if k is args[0]:
                    return v
            if all(k.op in ('str', 'num') for k, _ in c.args[0]):
                return args[1] if len(args) > 1 else NONE
        if name == 'get' and len(args) == 2 and not kwargs and not isinstance(ty, Cls) and \
                c.op in ('sym', 'attr', 'store', 'dict'):
            k = self.reify(self.rv(args[0]))
            return lift(lambda k, x, d: d if x.op == 'dict' and not x.args[0] else
                        ite(atom_bool(mk('in', k, x)), T.index(x, k), d),
                        [k, c, self.rv(args[1])])
        if name == 'copy' and not args and c.op in ('list', 'dict', 'concat', 'comp'):
            return self.alloc(c)
        if name == 'count' and len(args) == 1 and c.op == 'comp':
            return self.b_sum([mk('comp', c.args[0], c.args[1], ite(
                cmp_eq(c.args[2], self.reify(args[0])), ONE, ZERO), c.args[3])], {}, e)
        if name in NP_METHODS and name not in self.prog.method_names:
            return self.np_call('np.' + name, [recv] + args, kwargs, e)
        if name in NP_METHODS and ty is None and recv.op in ('call', 'ref', 'index', 'poly',
                                                             'comp', 'store', 'attr') and \
                not (recv.op == 'attr' and self.type_of(recv)):
            if recv.op != 'ref' or recv.args[0] not in self.objcls:
                return self.np_call('np.' + name, [recv] + args, kwargs, e)
        if name in ('split', 'rsplit', 'partition', 'rpartition') and c.op in ('str', 'fmt') and \
                args and args[0].op == 'str' and args[0].args[0]:
            r = self.split_text(c, args[0].args[0])
            n = numval(args[1]) if len(args) > 1 else numval(kwargs['maxsplit']) \
                if 'maxsplit' in kwargs else -1
            if r is not None and isinstance(n, int):
                sep = args[0]
                if name in ('partition', 'rpartition'):
                    n = 1
                if 0 <= n < len(r) - 1:
                    def join(xs):
                        return T.concat_str([y for i, x in enumerate(xs)
                                             for y in ((sep, x) if i else (x,))])
                    r = r[:n] + [join(r[n:])] if name[0] != 'r' else \
                        [join(r[:len(r) - n])] + r[len(r) - n:]
                if name == 'partition':
                    return mk('tuple', '', tuple((r[0], sep, r[1]) if len(r) == 2 else
                                                 (r[0], const(''), const(''))))
                if name == 'rpartition':
                    return mk('tuple', '', tuple((r[0], sep, r[1]) if len(r) == 2 else
                                                 (const(''), const(''), r[0])))
                return self.alloc(mk('list', tuple(r)))
        if name in ('removeprefix', 'removesuffix') and len(args) == 1 and \
                args[0].op == 'str' and c.op in ('str', 'fmt'):
            y = text_affix(c, args[0].args[0], name == 'removeprefix')
            n = len(args[0].args[0])
            if y is FALSE or not n:
                return c
            if y is TRUE:
                return T.index(c, mk('slice', const(n), NONE, NONE) if name == 'removeprefix'
                               else mk('slice', NONE, const(-n), NONE))
        if name in ('startswith', 'endswith') and len(args) == 1 and args[0].op == 'str' and \
                c.op in ('str', 'fmt'):
            r = text_affix(c, args[0].args[0], name == 'startswith')
            if r is not None:
                return r
        return self.opaque_method(recv, name, args, kwargs, e, None)

    def split_text(self, t, sep):
        '''the pieces of a formatted text, when the formatted values cannot hold the separator'''
        out, cur = [], []
        for p in (t.args[0] if t.op == 'fmt' else (t,)):
            if p.op == 'str':
                first, *rest = p.args[0].split(sep)
                cur.append(const(first))
                for x in rest:
                    out.append(T.concat_str(cur))
                    cur = [const(x)]
            elif self.is_atomic(p):
                cur.append(mk('fmt', (p,)))
            else:
                return None
        out.append(T.concat_str(cur))
        return out

    def is_atomic(self, p):
        '''a formatted value without separators (declared by the obligation)'''
        v = p.args[2]
        roots = [u.args[0] for u in T.subterms(v) if u.op == 'sym']
        return bool(roots) and all(r in self.atomic for r in roots)

    def mutate(self, recv, name, args, kwargs, e):
        c = self.content(recv)
        if recv.op in ('ext', 'module'):
            return None
        a = [self.rv(x) if (x.op != 'ref' or x.args[0] not in self.objcls) else x for x in args]
        self.event('mutate', mk('mutate', self.reify(recv), name, tuple(self.reify(x) for x in a)),
                   e, extra=(recv, name, args))
        new = None
        if name == 'append' and len(a) == 1:
            # keep references so later mutation of the element is seen
            item = args[0] if args[0].op == 'ref' else a[0]
            new = concat_list(c, mk('list', (item,)))
        elif name == 'extend' and len(a) == 1:
            new = concat_list(c, self.as_list(a[0]))
        elif name == 'insert' and len(a) == 2:
            def f(x, i, v):
                if x.op == 'list' and is_num(i):
                    items = list(x.args[0])
                    items.insert(i.args[0], v)
                    return mk('list', tuple(items))
                if i is ZERO:
                    return concat_list(mk('list', (v,)), x)
                return mk('call', 'list.insert', (x, i, v), ())
            new = lift(f, [c, a[0], a[1]])
        elif name == 'add' and any(x.op == 'call' and '.' in x.args[0] and x.args[0][:4] not in (
                'set.', 'list', 'dict') for x in leaves(c)):
            new = mk('call', 'add', (c,) + tuple(self.reify(x) for x in a), ())
        elif name == 'add' and len(a) == 1:
            new = lift(lambda x: set_with(x, mk('list', (self.reify(a[0]),))), [c])
        elif name == 'update' and len(a) == 1 and not kwargs and all(_is_set(x) for x in leaves(c)):
            new = lift(lambda x: set_with(x, self.reify(self.as_list(a[0]))), [c])
        elif name == 'update':
            new = mk('call', 'update', (c,) + tuple(self.reify(x) for x in a), ())
        elif name == 'sort' and c.op == 'list':
            new = self.content(self.b_sorted([recv], kwargs, e))
        elif name == 'sort':
            new = mk('call', 'sorted', (self.reify(c),), self.kw(kwargs))
        elif name == 'reverse':
            new = mk('call', 'reversed', (c,), ())
        elif name == 'fill' and len(a) == 1:
            new = mk('call', 'np.full_like', (c, a[0]), ())
        elif name == 'clear':
            new = mk('call', 'clear', (c,), ())
        elif name == 'pop':
            if recv.op == 'ref' and c.op == 'list' and c.args[0]:
                i = a[0] if a else const(-1)
                if is_num(i):
                    items = list(c.args[0])
                    v = items.pop(i.args[0])
                    self.set_content(recv, mk('list', tuple(items)))
                    return v
            d = _flat_dict(c)
            if recv.op == 'ref' and d.op == 'dict' and a and a[0].op == 'str' and \
                    all(k.op == 'str' for k, _ in d.args[0]):
                rest = tuple((k, v) for k, v in d.args[0] if k is not a[0])
                got = [v for k, v in d.args[0] if k is a[0]]
                if got or len(a) > 1:
                    self.set_content(recv, mk('dict', rest))
                    return got[0] if got else a[1]
            v = mk('mcall', c, 'pop', tuple(a), ())
            self.set_content(recv, mk('call', 'popped', (c,) + tuple(a), ()))
            return v
        elif name in ('remove', 'discard', 'setdefault'):
            new = mk('call', name, (c,) + tuple(self.reify(x) for x in a), ())
        else:
            return None
        self.set_content(recv, new, e)
        return NONE

    def kw(self, kwargs):
        return tuple(sorted((k, self.reify(self.rv(v))) for k, v in kwargs.items()))

    def align_args(self, ps, defaults, a, kw):
        '''positional form of a call of a known signature, without trailing default values'''
        off = len(ps) - len(defaults)
        last = max([i for i, p in enumerate(ps) if p in kw] or [-1])
        for i in range(len(a), last + 1):
            p = ps[i]
            if p in kw:
                a.append(self.reify(self.rv(kw.pop(p))))
            elif i >= off and isinstance(defaults[i - off], ast.Constant):
                a.append(const(defaults[i - off].value))
            else:
                break
        while off <= len(a) - 1 < len(ps) and not kw:
            d = defaults[len(a) - 1 - off]
            if isinstance(d, ast.Constant) and a[-1] is const(d.value):
                a.pop()
            else:
                break

    def opaque_method(self, recv, name, args, kwargs, e, f):
        ps, defs = None, []
        if f is None:
            # all definitions of this method name agree on their parameters
            ms = [c.methods[name].node.args for c in self.prog.method_names.get(name, [])]
            if len({(tuple(x.arg for x in m.args[1:]), tuple(ast.dump(d) for d in m.defaults))
                    for m in ms}) == 1 and not ms[0].vararg:
                ps, defs = [x.arg for x in ms[0].args[1:]], ms[0].defaults
            elif len({tuple(x.arg for x in m.args[1:]) for m in ms}) == 1:
                ps = [x.arg for x in ms[0].args[1:]]
        elif not f.node.args.vararg:
            ps = [x.arg for x in f.node.args.args[(0 if f.is_static else 1):]]
            defs = f.node.args.defaults
        a = [self.reify(self.rv(x)) for x in args]
        kw = dict(kwargs)
        if ps is not None and not any(x.op == 'star' for x in a):
            self.align_args(ps, defs, a, kw)
        r = self.reify(self.rv(recv))
        t = lift(lambda x, *ys: mk('mcall', x, name, tuple(ys), self.kw(kw)), [r] + a)
        self.event('mcall', t, e, args=(r, name, tuple(a), dict(kw)))
        return t

    def opaque_call(self, name, args, kwargs, e):
        if name in ('copy.deepcopy', 'copy.copy') and len(args) == 1 and not kwargs:
            c = self.content(self.rv(args[0]))
            if self.type_of(args[0]) is None and self.type_of(c) is None and \
                    c.op in ('list', 'comp', 'concat', 'dict', 'lv', 'fold', 'sym', 'call', 'ite'):
                return self.alloc(c)
        a = [self.reify(self.rv(x)) for x in args]
        if name in ELEMENTWISE:
            # a comparison of arrays is an array, not a decision
            a = [mk('mask', x) if T.is_bool(x) else x for x in a]
        kw = dict(kwargs)
        sig = NP_SIGS.get(name)
        if sig is None and name in self.prog.funcs:
            fa = self.prog.funcs[name].node.args
            if not fa.vararg and not any(x.op == 'star' for x in a):
                self.align_args([x.arg for x in fa.args], fa.defaults, a, kw)
        if sig is None and name.startswith('new:') and name[4:] in self.prog.classes:
            init = self.prog.lookup(self.prog.classes[name[4:]], '__init__')
            if init is not None and not init.node.args.vararg and \
                    not any(x.op == 'star' for x in a):
                self.align_args([x.arg for x in init.node.args.args[1:]],
                                init.node.args.defaults, a, kw)
        if sig:
            for p in sig[len(a):]:
                if p in kw:
                    a.append(self.reify(self.rv(kw.pop(p))))
                else:
                    break
        extra = ()
        if any(name == s or (s.endswith('.') and name.startswith(s)) for s in STATEFUL):
            self.rng += 1
            extra = (('#', const(self.rng)),)
        kws = tuple(sorted(self.kw(kw) + extra))
        t = lift(lambda *ys: mk('call', name, tuple(ys), kws), a) if a else \
            mk('call', name, (), kws)
        self.event('call', t, e, args=(None, name, tuple(a), dict(kw)))
        return t

    def event(self, kind, term, node, extra=None, args=None):
        pc = self.st.pc
        for p in self.base_pcs:
            pc = b_and(p, pc) if pc is not FALSE else pc
        self.trace.append(Event(kind=kind, pc=pc, term=term, node=node,
                                func=self.frames[-1].func if self.frames else None,
                                loops=list(self.loops), ctx=list(self.ctx), extra=extra,
                                args=args))

    def apply(self, f, args, kwargs, e):
        if f.op == 'ite':
            ls = [u for u in leaves(f) if u not in (UNDEF, DONTCARE)]
            if len(ls) == 1:
                return self.apply(ls[0], args, kwargs, e)
            if len(ls) <= 12:
                def go(t):
                    if t.op != 'ite':
                        if t in (UNDEF, DONTCARE):
                            return t
                        return self.apply(t, args, kwargs, e)
                    box = {}
                    self.branch(atom_bool(t.args[0]), lambda: box.__setitem__('a', go(t.args[1])),
                                lambda: box.__setitem__('b', go(t.args[2])))
                    return ite(atom_bool(t.args[0]), box.get('a', UNDEF), box.get('b', UNDEF))
                return go(f)
        if f.op == 'closure':
            return self.call_closure(f, args, kwargs)
        if f.op == 'lambda' and not kwargs and len(args) == len(f.args[0]):
            return subst(f.args[1], dict(zip(f.args[0], [self.reify(self.rv(a)) for a in args])))
        if f.op == 'func':
            fn = self.prog.find(f.args[0])
            if fn is None or isinstance(fn, Cls):
                return self.opaque_call(f.args[0], args, kwargs, e)
            if fn.name in self.keep or fn.qual in self.keep:
                return self.opaque_call(fn.qual, args, kwargs, e)
            return self.call_func(fn, args, kwargs)
        if f.op == 'bound':
            fn = self.prog.find(f.args[1])
            if fn is None:
                for c in self.prog.classes.values():
                    for m in c.methods.values():
                        if m.qual == f.args[1]:
                            fn = m
            return self.invoke(fn, f.args[0], args, kwargs, e)
        if f.op == 'partial':
            kw = dict(f.args[2])
            kw.update(kwargs)
            return self.apply(f.args[0], list(f.args[1]) + list(args), kw, e)
        if f.op == 'class':
            return self.construct(self.prog.classes[f.args[0]], args, kwargs, e)
        if f.op == 'ntclass':
            fields = self.prog.nt_fields[f.args[0]]
            vals = [self.rv(a) for a in args]
            for n in fields[len(vals):]:
                vals.append(self.rv(kwargs[n]) if n in kwargs else UNDEF)
            if any(v.op == 'star' for v in vals):
                raise Unsupported('star call')
            return mk('tuple', f.args[0], tuple(vals))
        if f.op == 'ext':
            return self.ext_call(f.args[0], args, kwargs, e)
        if f.op == 'sym' and f.args[0] in BUILTINS:
            return self.ext_call(f.args[0], args, kwargs, e)
        ty = self.type_of(f)
        a = [self.reify(self.rv(x)) for x in args]
        t = lift(lambda x, *ys: mk('apply', x, tuple(ys), self.kw(kwargs)),
                 [self.reify(f)] + a)
        self.event('apply', t, e, args=(f, None, tuple(a), dict(kwargs)))
        return t

    def construct(self, c, args, kwargs, e):
        if any(k.name in ('Exception', 'ValueError') for k in self.prog.mro(c)):
            return mk('exc', c.name)
        r = self.alloc(cls=c)
        if c.qual in self.keep or c.name in self.keep:
            t = self.opaque_call('new:' + c.qual, args, kwargs, e)
            self.types[t] = c
            return t
        init = self.prog.lookup(c, '__init__')
        if init is None and c.qual in self.prog.nt_fields:
            return self.apply(mk('ntclass', c.qual), args, kwargs, e)
        if init is not None:
            self.call_func(init, args, kwargs, r)
        elif args or kwargs:
            raise Unsupported('constructor of %s' % c.qual)
        return r

    # ---------------------------------------------------------------- external functions
    def ext_call(self, name, args, kwargs, e):
        name = NP_CANON.get(name, name)
        if name in SILENT:
            return NONE
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, None, args, kwargs, e)
            if r is not None:
                return r
        m = getattr(self, 'b_' + name.replace('.', '_'), None)
        if m is not None:
            r = m(args, kwargs, e)
            if r is not None:
                return r
        if name == 'np.sort' and len(args) == 1 and not kwargs:
            return self.alloc(mk('call', 'sorted', (self.reify(self.rv(args[0])),), ()))
        if name.startswith('np.'):
            return self.np_call(name, args, kwargs, e)
        return self.opaque_call(name, args, kwargs, e)

    def np_call(self, name, args, kwargs, e):
        name = NP_CANON.get(name, name)
        kwargs = dict(kwargs)
        if name in ('np.zeros', 'np.empty', 'np.ones', 'np.full'):
            if 'dtype' in kwargs and kwargs['dtype'].op == 'attr':
                pass
            a = [self.rv(x) for x in args]
            shape = a[0] if a else self.rv(kwargs.pop('shape'))
            rest = a[1:]
            sh = self.rv(shape)
            if sh.op == 'list':
                sh = tup(*sh.args[0])
            if name == 'np.full' and sh.op != 'tuple' and rest:
                # a constant series
                return self.alloc(mk('call', 'np.repeat', (self.reify(rest[0]), sh), ()))
            kw = dict(kwargs)
            t = self.opaque_call(name, [sh] + rest, kw, e)
            return self.alloc(t)
        if name in ('np.repeat', 'np.tile'):
            return self.alloc(self.opaque_call(name, args, kwargs, e))
        if name == 'np.reshape':
            a = [self.rv(x) for x in args]
            sh = a[1] if len(a) == 2 else tup(*a[1:])
            if sh.op == 'list':
                sh = tup(*sh.args[0])
            if sh.op != 'tuple' and len(a) == 2 and sh.op in ('sym', 'num', 'poly'):
                sh = tup(sh)
            if sh.op == 'tuple' and sh.args[0]:
                sh = tup(*sh.args[1])
            x = a[0]
            while x.op == 'call' and x.args[0] in ('np.array', 'np.asarray') and len(x.args[1]) == 1 \
                    and not x.args[2]:
                x = self.rv(x.args[1][0])
            return self.opaque_call('np.reshape', [x, sh], kwargs, e)
        if name in ('np.subtract', 'np.add', 'np.multiply', 'np.divide', 'np.true_divide') and \
                len(args) == 2 and not kwargs:
            op = {'subtract': ast.Sub, 'add': ast.Add, 'multiply': ast.Mult}.get(
                name[3:], ast.Div)()
            return self.binop(op, args[0], args[1])
        if name == 'np.square' and len(args) == 1:
            return self.binop(ast.Mult(), args[0], args[0])
        if name == 'np.power' and len(args) == 2:
            return self.binop(ast.Pow(), args[0], args[1])
        if name == 'np.sqrt' and len(args) == 1:
            return lift(lambda x: power(x, const(0.5)) if x.op not in ('num', 'poly') else
                        mk('call', 'np.sqrt', (x,), ()), [self.reify(self.rv(args[0]))])
        if name == 'np.isnan' and len(args) == 1:
            def isnan(x):
                if x is NAN:
                    return TRUE
                if x.op == 'num':
                    return FALSE
                return mk('call', 'np.isnan', (x,), ())
            return lift(isnan, [self.reify(self.rv(args[0]))])
        if name == 'np.arange':
            a = [self.rv(x) for x in args]
            if len(a) == 2 and a[0] is ZERO:
                a = a[1:]
            return self.opaque_call(name, a, kwargs, e)
        if name == 'np.sum' and len(args) == 1 and not kwargs:
            c = self.reify(self.rv(args[0]))
            if c.op in ('comp', 'list', 'index', 'ite', 'poly', 'fold', 'store') or (
                    c.op == 'call' and c.args[0] == 'grid'):
                return self.b_sum([c], {}, e)
        if name in ('np.mean', 'np.min', 'np.max', 'np.std', 'np.median', 'np.prod') and \
                len(args) == 1 and not kwargs and self.ndims:
            def reduce(x):
                m = self.masked(x)
                d = self.dims(x) if m is None and x.op not in ('sym', 'attr') else None
                if d is not None and len(d) == 1:
                    b = mk('bv', 'k%d' % _fresh())
                    v = self.cell(x, (b,))
                    if v is not None:
                        m = (d[0], b, v, TRUE)
                return mk('call', name, (x if m is None else mk('comp', *m),), ())
            return lift(reduce, [self.reify(self.rv(args[0]))])
        if name == 'np.array' and len(args) == 1 and not kwargs:
            c = self.reify(self.rv(args[0]))
            if c.op == 'call' and c.args[0] == 'np.array':
                return c
        if name == 'np.copyto' and len(args) == 2:
            self.store_index(args[0], mk('slice', NONE, NONE, NONE), args[1], e)
            return NONE
        if name == 'np.unravel_index' and len(args) == 2:
            sh = self.rv(args[1])
            if sh.op == 'tuple' and len(sh.args[1]) == 2:
                i = self.rv(args[0])
                return tup(floordiv(i, sh.args[1][1]), mod(i, sh.args[1][1]))
        if name == 'np.ravel_multi_index' and len(args) == 2:
            sh, p = self.rv(args[1]), self.rv(args[0])
            if sh.op == 'tuple' and len(sh.args[1]) == 2:
                return add(mul(self.get_index(p, ZERO), sh.args[1][1]), self.get_index(p, ONE))
        if name == 'np.count_nonzero' and len(args) == 1:
            c = self.reify(self.rv(args[0]))
            if c.op == 'comp':
                return self.b_sum([mk('comp', c.args[0], c.args[1], ite(
                    truth(c.args[2]), ONE, ZERO), c.args[3])], {}, e)
        if name == 'np.tolist' or name == 'np.item':
            return self.opaque_call(name, args, kwargs, e)
        if name == 'np.transpose' and len(args) == 1 and not kwargs:
            return self.opaque_call('np.transpose', args, kwargs, e)
        return self.opaque_call(name, args, kwargs, e)

    # ---------------------------------------------------------------- builtins
    def b_len(self, args, kwargs, e):
        def f(x):
            d = self.dims(x) if x.op in ('call', 'index', 'attr') else None
            return d[0] if d else length(x)
        return lift(f, [self.reify(self.rv(args[0]))])

    def b_range(self, args, kwargs, e):
        a = [self.rv(x) for x in args]
        if len(a) == 1:
            return mk('range', ZERO, a[0])
        if len(a) == 2:
            return mk('range', a[0], a[1])
        if a[2] is ONE:
            return mk('range', a[0], a[1])
        return mk('call', 'range', tuple(a), ())

    def b_int(self, args, kwargs, e):
        if len(args) == 1:
            v = self.rv(args[0])
            if v.op == 'fmt' and len(v.args[0]) == 1 and self.is_atomic(v.args[0][0]) and \
                    not v.args[0][0].args[1]:
                return v.args[0][0].args[2]
            if v.op == 'str' and re.match(r'[+-]?\d+$', v.args[0]):
                return const(int(v.args[0]))
            return lift(lambda x: x if self.whole(x) else trunc(x), [v])

    def whole(self, x):
        '''known to be an integer'''
        if x.op == 'poly':
            return all(isinstance(c, int) and all(
                isinstance(k, int) and k > 0 and self.whole(t) for t, k in m)
                for m, c in x.args[0])
        if x.op in ('len', 'bv'):
            return True
        if x.op in ('floordiv', 'mod'):
            return x.op == 'floordiv' or self.whole(x.args[0]) and self.whole(x.args[1])
        while x.op == 'index':
            x = x.args[0]
        return x.op == 'sym' and x.args[0] in self.ints or \
            x.op == 'call' and x.args[0].rsplit('.', 1)[-1] in self.ints

    def b_floor(self, args, kwargs, e):
        return lift(lambda x: x if trunc(x).op == 'call' and False else (
            trunc(x) if trunc(x).op == 'floordiv' else mk('call', 'floor', (x,), ())),
            [self.rv(args[0])])

    def b_divmod(self, args, kwargs, e):
        a, b = self.rv(args[0]), self.rv(args[1])
        return tup(floordiv(a, b), mod(a, b))

    def b_float(self, args, kwargs, e):
        v = self.rv(args[0]) if args else ZERO
        if v.op == 'num':
            return v
        if v.op == 'fmt' and len(v.args[0]) == 1 and self.is_atomic(v.args[0][0]) and \
                not v.args[0][0].args[1]:
            return v.args[0][0].args[2]
        if v.op == 'str' and re.match(r'[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?$', v.args[0]):
            return const(float(v.args[0]))
        if v.op == 'str' and v.args[0].lower().strip('+') in ('inf', 'infinity'):
            return INF
        if v.op == 'str' and v.args[0].lower() in ('-inf',):
            return neg(INF)
        if v.op == 'str' and v.args[0].lower() == 'nan':
            return NAN

    def b_str(self, args, kwargs, e):
        if len(args) == 1:
            return self.str_of(args[0])

    def b_repr(self, args, kwargs, e):
        if len(args) == 1:
            return self.str_of(args[0], 'r')

    def b_list(self, args, kwargs, e):
        if not args:
            return self.alloc(mk('list', ()))
        return self.alloc(self.as_list(args[0]))

    def b_tuple(self, args, kwargs, e):
        if not args:
            return tup()

        def f(x):
            if x.op == 'tuple':
                return tup(*x.args[1])
            if x.op == 'list':
                return tup(*x.args[0])
            if x.op == 'comp' and is_num(x.args[0]) and x.args[3] is TRUE and \
                    0 <= x.args[0].args[0] <= 4 and x.args[0].args[0] == int(x.args[0].args[0]):
                return tup(*(subst(x.args[2], {x.args[1]: const(i)})
                             for i in range(int(x.args[0].args[0]))))
            return mk('call', 'tuple', (self.reify(self.as_list(x)),), ())
        return lift(f, [self.content(args[0])])

    def b_dict(self, args, kwargs, e):
        if not args:
            return self.alloc(mk('dict', tuple((const(k), v) for k, v in kwargs.items())))
        c = self.content(args[0])
        if c.op == 'dict' and not kwargs:
            return self.alloc(c)
        if c.op == 'call' and c.args[0] in ('zip', 'enumerate', 'dict.items'):
            c = self.as_list(args[0])
        if c.op == 'list' and all(x.op == 'tuple' and len(x.args[1]) == 2 for x in c.args[0]):
            return self.alloc(mk('dict', tuple(x.args[1] for x in c.args[0])))
        return self.alloc(mk('call', 'dict', (self.reify(c),), self.kw(kwargs)))

    def b_set(self, args, kwargs, e):
        if not args:
            return self.alloc(mk('set', ()))
        return self.alloc(mk('call', 'set', (self.reify(self.as_list(args[0])),), ()))

    def b_abs(self, args, kwargs, e):
        return lift(lambda x: const(abs(x.args[0])) if x.op == 'num' else
                    mk('call', 'np.abs', (x,), ()), [self.reify(self.rv(args[0]))])

    def b_sum(self, args, kwargs, e):
        c = self.reify(self.rv(args[0]))
        if len(args) == 1 and not kwargs:
            if c.op == 'ite' and not T.is_bool(c):
                return T.map_leaves(c, lambda x: self.b_sum([x], {}, e))
            if c.op == 'comp':
                n, b, body, cond = c.args
                return sum_of(n, b, ite(cond, body, ZERO))
            if c.op == 'list':
                r = ZERO
                for x in c.args[0]:
                    r = add(r, x)
                return r
            d = self.dims(c) if self.ndims and c.op not in ('sym', 'attr') else None
            if d is not None and len(d) == 1:
                b = mk('bv', 'k%d' % _fresh())
                v = self.cell(c, (b,))
                if v is not None:
                    return sum_of(d[0], b, v)
            m = self.masked(c)
            if m is not None:
                return sum_of(m[0], m[1], ite(m[3], m[2], ZERO))
            if c.op == 'call' and c.args[0] == 'grid' and c.args[1][0].args[0] == 'i' and \
                    c.args[1][3].op == 'comp':
                return self.b_sum([c.args[1][3]], {}, e)
            return mk('call', 'np.sum', (c,), ())

    def b_any(self, args, kwargs, e):
        c = self.reify(self.rv(args[0]))
        if c.op == 'comp':
            n, b, body, cond = c.args
            return atom_bool(mk('exists', n, b, b_and(cond, truth(body))))
        if c.op == 'list':
            r = FALSE
            for x in c.args[0]:
                r = b_or(r, truth(x))
            return r
        return mk('call', 'np.any', (c,), ())

    def b_all(self, args, kwargs, e):
        c = self.reify(self.rv(args[0]))
        if c.op == 'comp':
            n, b, body, cond = c.args
            return b_not(atom_bool(mk('exists', n, b, b_and(cond, b_not(truth(body))))))
        if c.op == 'list':
            r = TRUE
            for x in c.args[0]:
                r = b_and(r, truth(x))
            return r
        return mk('call', 'np.all', (c,), ())

    def b_np_any(self, args, kwargs, e):
        if len(args) == 1 and not kwargs:
            c = self.reify(self.rv(args[0]))
            if c.op == 'comp' and T.is_bool(c.args[2]):
                return self.b_any(args, kwargs, e)
            if c.op == 'list' and all(T.is_bool(x) for x in c.args[0]):
                return self.b_any(args, kwargs, e)
        return None

    def b_np_all(self, args, kwargs, e):
        if len(args) == 1 and not kwargs:
            c = self.reify(self.rv(args[0]))
            if c.op == 'comp' and T.is_bool(c.args[2]):
                return self.b_all(args, kwargs, e)
            if c.op == 'list' and all(T.is_bool(x) for x in c.args[0]):
                return self.b_all(args, kwargs, e)
        return None

    def b_min(self, args, kwargs, e):
        return self._minmax('min', args, kwargs)

    def b_max(self, args, kwargs, e):
        return self._minmax('max', args, kwargs)

    def _minmax(self, name, args, kwargs):
        a = [self.reify(self.rv(x)) for x in args]
        if len(a) == 1 and a[0].op == 'list' and not kwargs:
            a = list(a[0].args[0])
        if len(a) > 1 and not kwargs:
            return lift(lambda *xs: mk('call', name, tuple(sorted(set(xs))), ()), a)
        return mk('call', name, tuple(a), self.kw(kwargs))

    def b_sorted(self, args, kwargs, e):
        if not kwargs or set(kwargs) == {'key'}:
            l = self.reify(self.as_list(args[0]))
            if l.op == 'comp' and l.args[3] is TRUE:
                x = l.args[2]
                tm = len(self.trace)
                k = self.rv(self.apply(kwargs['key'], [x], {}, e)) if kwargs else x
                del self.trace[tm:]
                if is_num(sub(k, l.args[1])) and k.op in ('bv', 'poly'):
                    return self.alloc(l)       # already in order of the key
            elif l.op == 'range' and not kwargs:
                return self.alloc(l)
            c = self.as_list(args[0])
            if c.op == 'list' and len(c.args[0]) <= 12:
                tm, ks = len(self.trace), []
                for x in c.args[0]:
                    ks.append(self.rv(self.apply(kwargs['key'], [x], {}, e)) if kwargs else x)
                    if not is_num(ks[-1]):
                        break
                del self.trace[tm:]
                if all(is_num(k) for k in ks):
                    o = sorted(range(len(ks)), key=lambda i: ks[i].args[0])
                    return self.alloc(mk('list', tuple(c.args[0][i] for i in o)))
                if not kwargs and all(x.op == 'str' for x in c.args[0]):
                    return self.alloc(mk('list', tuple(sorted(c.args[0],
                                                              key=lambda x: x.args[0]))))
                if not kwargs and len(set(c.args[0])) > 2:
                    # the elements in an order that their values decide
                    l = self.reify(c)
                    return self.alloc(mk('list', tuple(mk('call', 'nth', (l, const(i)), ())
                                                       for i in range(len(c.args[0])))))
        x = self.reify(self.as_list(args[0]))
        while x.op == 'call' and x.args[0] == 'list' and len(x.args[1]) == 1 and not x.args[2]:
            x = x.args[1][0]
        t = mk('call', 'sorted', (x,), self.kw(kwargs))
        self.event('call', t, e, args=(None, 'sorted', tuple(args), kwargs))
        return self.alloc(t)

    def b_reversed(self, args, kwargs, e):
        c = self.reify(self.rv(args[0]))
        return mk('call', 'reversed', (c,), ())

    def b_enumerate(self, args, kwargs, e):
        return mk('call', 'enumerate', tuple(self.reify(self.rv(x)) for x in args),
                  self.kw(kwargs))

    def b_zip(self, args, kwargs, e):
        return mk('call', 'zip', tuple(self.reify(self.rv(x)) for x in args), ())

    def b_map(self, args, kwargs, e):
        if len(args) == 2:
            it = args[1]
            n, el, cond = self.domain(it)
            b = mk('bv', 'k%d' % _fresh())
            v = self.apply(args[0], [el(b)], {}, e)
            return mk('comp', n, b, self.reify(self.rv(v)), TRUE if cond is None else cond(b))

    def b_filter(self, args, kwargs, e):
        n, el, cond = self.domain(args[1])
        b = mk('bv', 'k%d' % _fresh())
        c = truth(self.rv(self.apply(args[0], [el(b)], {}, e)))
        if cond is not None:
            c = b_and(cond(b), c)
        return mk('comp', n, b, el(b), c)

    def b_isinstance(self, args, kwargs, e):
        c = self.rv(args[1])
        t = args[0]

        def f(x):
            ty = self.type_of(x)
            if isinstance(ty, Cls) and c.op == 'class':
                cc = self.prog.classes[c.args[0]]
                if cc in self.prog.mro(ty):
                    return TRUE
                if x.op in ('ref', 'obj'):
                    return FALSE
            if x is NONE:
                return FALSE
            if c.op == 'ext' and c.args[0] in ('int', 'str', 'list', 'dict', 'tuple'):
                y = self.content(x)
                k = {'list': 'list', 'concat': 'list', 'comp': 'list', 'str': 'str', 'fmt': 'str',
                     'dict': 'dict', 'tuple': 'tuple', 'range': 'range'}.get(y.op)
                if y.op == 'num' and isinstance(y.args[0], int):
                    k = 'int'
                elif y.op == 'len' or y.op == 'call' and y.args[0] in ('int', 'len'):
                    k = 'int'
                elif y.op == 'call' and y.args[0] == 'str':
                    k = 'str'
                if k is not None and not (y.op == 'tuple' and y.args[0]):
                    return TRUE if k == c.args[0] else FALSE
            return atom_bool(mk('isinstance', self.reify(x), c))
        return lift(f, [t])

    def b_hasattr(self, args, kwargs, e):
        o, n = args[0], self.rv(args[1])

        def f(x):
            if n.op == 'str':
                if (x.op in ('num', 'str', 'none') or x is T.NAN) and \
                        n.args[0].startswith('_f'):
                    return FALSE
                if x.op == 'tuple' and n.args[0] == '_fields':
                    return TRUE if x.args[0] else FALSE
                if self.heap_attr(self.st.heap, x, n.args[0]) is not None:
                    return TRUE
                ty = self.type_of(x)
                if isinstance(ty, Cls) and self.prog.lookup(ty, n.args[0]):
                    return TRUE
                if x.op == 'ref' and x.args[0] in self.objcls:
                    return FALSE
            return atom_bool(mk('hasattr', self.reify(x), n))
        return lift(f, [o])

    def b_getattr(self, args, kwargs, e):
        n = self.rv(args[1])
        if n.op == 'str' and len(args) == 2:
            return self.get_attr(args[0], n.args[0], e)

    def b_callable(self, args, kwargs, e):
        def f(x):
            if x.op in ('closure', 'func', 'bound', 'partial', 'class', 'lambda') or (
                    x.op == 'ext' and
                    re.match(r'np\.(nan)?(max|min|mean|sum|median|std)$', str(x.args[0]))):
                return TRUE
            if x.op in ('num', 'str', 'none') or x is NAN:
                return FALSE
            return atom_bool(mk('callable', x))
        return lift(f, [args[0] if args[0].op in ('closure', 'bound', 'partial')
                        else self.reify(args[0])])

    def b_type(self, args, kwargs, e):
        if len(args) == 1:
            ty = self.type_of(args[0])
            if isinstance(ty, Cls):
                return mk('class', ty.qual)

    def b_bool(self, args, kwargs, e):
        return truth(self.rv(args[0])) if args else FALSE

    def b_functools_partial(self, args, kwargs, e):
        f = args[0]
        return mk('partial', f, tuple(args[1:]), tuple(sorted(kwargs.items())))

    def b_os_path_join(self, args, kwargs, e):
        parts = []
        for i, a in enumerate(args):
            if i:
                parts.append(const('/'))
            v = self.rv(a)
            parts.append(to_part(self.reify(v)))
        return concat_str(parts)

    def b_iter(self, args, kwargs, e):
        return args[0]

    def b_np_vectorize(self, args, kwargs, e):
        return None


# ==================================================================== helpers
BUILTINS = {'len', 'range', 'int', 'float', 'str', 'repr', 'list', 'tuple', 'dict', 'set',
            'sorted', 'enumerate', 'zip', 'map', 'filter', 'sum', 'min', 'max', 'abs', 'any',
            'all', 'isinstance', 'hasattr', 'getattr', 'setattr', 'round', 'reversed', 'type',
            'callable', 'print', 'divmod', 'super', 'object', 'open', 'iter', 'next', 'vars',
            'bool', 'id', 'hash', 'Exception', 'ValueError', 'pow', 'slice', 'frozenset',
            'NotImplementedError', 'StopIteration', 'IOError', 'OSError', 'KeyError', 'property',
            'AttributeError', 'FileNotFoundError', 'TypeError', 'input', 'issubclass', 'bytes',
            'NotImplemented'}


class ClientModule(object):
    '''module scope of a client snippet: every repository name is visible'''

    def __init__(self, prog):
        self.prog = prog
        self.name = 'client'
        self.path = '<client>'
        self.is_pkg = False

    def resolve(self, n):
        c = self.prog.by_name.get(n)
        if c:
            return c[0]
        if n in ('np', 'os', 'math', 'functools', 'itertools', 'random', 'pickle', 'csv', 'mp'):
            return ('ext', n)
        if n in self.prog.modules:
            return ('mod', n)
        return None


def simple_const(e):
    return isinstance(e, (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.UnaryOp, ast.BinOp)) \
        and all(isinstance(n, (ast.Constant, ast.Tuple, ast.List, ast.Dict, ast.Load, ast.UnaryOp,
                               ast.USub, ast.Name, ast.BinOp, ast.Add, ast.Mult, ast.Sub,
                               ast.Attribute, ast.Div))
                for n in ast.walk(e)) or \
        (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and
         e.func.id[:1].isupper() and all(isinstance(a, ast.Constant) for a in e.args))


def walk_own(node):
    '''walk without descending into nested function/class bodies'''
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(n))


class _Collecting(ast.NodeTransformer):
    '''a generator as the function that collects what it yields, in order'''

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            meth = 'append' if isinstance(v, ast.Yield) else 'extend'
            arg = v.value if v.value is not None else ast.Constant(None)
            call = ast.Call(ast.Attribute(ast.Name('%yielded', ast.Load()), meth, ast.Load()),
                            [arg], [])
            return ast.fix_missing_locations(ast.copy_location(ast.Expr(call), n))
        return n

    def visit_Return(self, n):
        return ast.copy_location(ast.fix_missing_locations(
            ast.Return(ast.Name('%yielded', ast.Load()))), n)


_generators = {}


def generator_body(func):
    if id(func.node) not in _generators:
        import copy
        node = copy.deepcopy(func.node)
        body = [_Collecting().visit(st) for st in node.body]
        tmp = ast.Module(body, [])
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(tmp)):
            raise Unsupported('generator function %s' % func.qual)
        first = ast.Assign([ast.Name('%yielded', ast.Store())], ast.List([], ast.Load()))
        last = ast.Return(ast.Name('%yielded', ast.Load()))
        for n in (first, last):
            ast.copy_location(n, func.node)
            ast.fix_missing_locations(n)
        _generators[id(func.node)] = (func.node, [first] + body + [last])
    return _generators[id(func.node)][1]


def _load(t):
    t2 = ast.copy_location(ast.parse(ast.unparse(t), mode='eval').body, t)
    return t2


def text_affix(t, affix, start):
    '''does a text start (end) with a constant? None when its formatted parts decide'''
    parts = t.args[0] if t.op == 'fmt' else (t,)
    p = parts[0] if start else parts[-1]
    if p.op != 'str':
        return None
    x = p.args[0]
    if len(parts) == 1 or len(x) >= len(affix):
        return TRUE if (x.startswith(affix) if start else x.endswith(affix)) else FALSE
    return None if (affix.startswith(x) if start else affix.endswith(x)) else FALSE


def _flat_dict(c):
    '''a dict literal followed by stores at constant keys is a dict literal'''
    st = []
    u = c
    while u.op == 'store' and u.args[1].op == 'str':
        st.append((u.args[1], u.args[2]))
        u = u.args[0]
    if u.op != 'dict' or not st:
        return c
    d = dict(u.args[0])
    for k, v in reversed(st):
        d[k] = v
    return mk('dict', tuple(d.items()))


def _only_reraises(h):
    *before, last = h.body
    if not (isinstance(last, ast.Raise) and last.exc is None):
        return False
    for st in before:
        if isinstance(st, ast.Pass) or (isinstance(st, ast.Expr) and
                                        isinstance(st.value, ast.Constant)):
            continue
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Constant) and \
                all(isinstance(t, ast.Name) for t in st.targets):
            continue
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                'log' in ast.dump(st.value.func).lower():
            continue
        return False
    return True


def _handler_name(h):
    if h.type is None:
        return 'Exception'
    if isinstance(h.type, ast.Tuple):
        return '|'.join(sorted({_exc_name(x) for x in h.type.elts}))
    return _exc_name(h.type)


def _exc_name(x):
    n = _dotted(x) or '?'
    return 'OSError' if n in ('IOError', 'EnvironmentError') else n


_EXC_PARENTS = {
    'FileNotFoundError': ('OSError', 'IOError', 'Exception'),
    'IOError': ('OSError', 'Exception'), 'OSError': ('IOError', 'Exception'),
    'KeyError': ('LookupError', 'Exception'), 'IndexError': ('LookupError', 'Exception'),
}


def _catches(h, exc):
    n = _handler_name(h)
    if n in ('Exception', 'BaseException'):
        return True
    names = n.split('|')
    return exc in names or any(p in names for p in _EXC_PARENTS.get(exc, ('Exception',)))


def owner_locals(fr):
    return ()


def is_abstract(f):
    '''a declared interface method: body only raises NotImplementedError'''
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and
                                           isinstance(s.value, ast.Constant))] \
        if isinstance(f.node, ast.FunctionDef) else []
    return len(body) == 1 and isinstance(body[0], ast.Raise) and body[0].exc is not None and \
        'NotImplementedError' in ast.dump(body[0].exc) and f.name not in ('descale',)


FILLED = ('np.zeros', 'np.empty', 'np.ones', 'np.full')


def filled_with(init):
    '''the value of every cell of a new array'''
    if init.args[0] == 'np.full':
        return init.args[1][1] if len(init.args[1]) > 1 else \
            dict(init.args[2]).get('fill_value', UNDEF)
    return {'np.zeros': ZERO, 'np.ones': ONE}.get(init.args[0], mk('ext', 'uninitialised'))


def suffix(u, lv):
    '''u = concat(lv, X): return X as a decision over lists'''
    def f(x):
        if x is lv:
            return mk('list', ())
        if x.op == 'concat' and x.args[0][0] is lv:
            r = mk('list', ())
            for p in x.args[0][1:]:
                r = concat_list(r, p)
            return r
        return UNDEF
    r = map_leaves(u, f)
    return None if UNDEF in leaves(r) else r


def text_suffix(u, lv):
    '''u = the text lv followed by X: return X as a decision over texts'''
    def f(x):
        if x is lv:
            return const('')
        if x.op == 'fmt':
            p = x.args[0][0]
            if p is lv or (p.op == 'conv' and p.args == ('s', '', lv)):
                return concat_str(list(x.args[0][1:]))
        return UNDEF
    r = map_leaves(u, f)
    return None if UNDEF in leaves(r) else r


def joined(c):
    '''the concatenation of the texts of a comprehension'''
    n, b, el, cond = c.args
    el = map_leaves(el, to_part)
    if cond is not TRUE:
        el = ite(cond, el, const(''))
    return mk('mcall', const(''), 'join', (mk('comp', n, b, el, TRUE),), ())


def increment(u, lv):
    bad = []

    def f(x):
        if x is lv:
            return ZERO
        if x.op == 'poly':
            d = sub(x, lv)
            if not occurs(d, lv):
                return d
        bad.append(x)
        return UNDEF
    r = map_leaves(u, f)
    return None if bad else r


def self_reify(interp, t, entry):
    return interp.reify(t, entry.heap) if t.op == 'ref' else t


def comp_of(n, b, x):
    '''the concatenation over b < n of the list-valued decision x'''
    ls = leaves(x)
    if all(u.op == 'list' and len(u.args[0]) <= 1 for u in ls):
        cond = map_leaves(x, lambda u: TRUE if u.args[0] else FALSE)
        elem = map_leaves(x, lambda u: u.args[0][0] if u.args[0] else DONTCARE)
        if elem is DONTCARE:
            return mk('list', ())
        return mk_comp(n, b, elem, cond)
    if len(ls) == 1 and ls[0].op == 'comp' and False:
        pass
    return mk('flat', n, b, x)


def mk_comp(n, b, elem, cond):
    if elem is b and cond is TRUE:
        return mk('range', ZERO, n)
    # identity: [xs[k] for k < len(xs)] is list(xs)
    if cond is TRUE and n.op == 'len' and elem.op == 'index' and elem.args[0] is n.args[0] and \
            elem.args[1] is b and n.args[0].op in ('comp', 'list', 'concat'):
        return n.args[0]
    return mk('comp', n, b, elem, cond)


def _without(u, v, lvs, hole):
    '''what a variable becomes when it is replaced, whatever the carried values are'''
    def go(t):
        if t is v:
            return hole
        if t.op == 'ite' and not T.is_bool(t):
            c, x, y = t.args
            if any(T.occurs(c, w) for w in lvs):
                if x is v or y is v:
                    return go(y if x is v else x)
                return None
            x, y = go(x), go(y)
            return None if x is None or y is None else ite(atom_bool(c), x, y)
        return None if any(T.occurs(t, w) for w in lvs) else t
    r = go(u)
    return None if r is hole else r


def seq_items(x):
    return x.args[1] if x.op == 'tuple' else x.args[0]


SCALAR_ATTRS = {'x1', 'x2', 'y1', 'y2', 'x_len', 'y_len', 'series_len'}
REDUCTIONS = {'np.argmin', 'np.argmax', 'np.sum', 'np.mean', 'np.min', 'np.max',
              'np.linalg.norm'}


def window(s):
    '''a slice that begins at a position counted by a loop: [i:i + n], [i * s:i * s + n]'''
    lo, hi, step = s.args
    return step is NONE and lo.op in ('bv', 'poly') and hi is not NONE and \
        any(u.op == 'bv' for u in T.subterms(lo)) and \
        not any(u.op == 'bv' for u in T.subterms(sub(hi, lo)))


def axis_of(t):
    '''the axis a reduction runs along'''
    if t.op != 'call' or t.args[0] not in REDUCTIONS or not t.args[1]:
        return None
    a, kw = t.args[1], t.args[2]
    if len(a) == 2 and not kw and t.args[0] != 'np.linalg.norm':
        k = a[1]
    elif len(a) == 1 and len(kw) == 1 and kw[0][0] == 'axis':
        k = kw[0][1]
    else:
        return None
    return k.args[0] if is_num(k) and isinstance(k.args[0], int) else None


def sum_of(n, b, t):
    if t is ZERO:
        return ZERO
    if not occurs(t, b):
        return mul(n, t)
    t = T.map_leaves(t, lambda u: ONE if u is TRUE else ZERO if u is FALSE else u)
    return mk('call', 'np.sum', (mk('comp', n, b, t, TRUE),), ())

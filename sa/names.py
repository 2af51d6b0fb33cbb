'''
Resolution of every reference of the repository: names, imports, attributes, call signatures,
text templates, command-line options.  A finding is a construct that fails (or silently does
nothing) whenever it is reached.
'''
import ast
import builtins
import json
import os
import string

from .program import Cls, _dotted

HERE = os.path.dirname(os.path.abspath(__file__))
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__',
                                 '__spec__', '__loader__', '__builtins__', '__debug__'}
OBJECT = set(dir(object)) | {'__dict__', '__name__', '__module__', '__weakref__', '__slots__',
                             '__qualname__'}
TYPES = (str, bytes, int, float, complex, list, tuple, dict, set, frozenset, bool, slice, range,
         type, BaseException, OSError)
STD = set()
for t_ in TYPES:
    STD |= set(dir(t_))
NAMEDTUPLE = {'_asdict', '_fields', '_make', '_replace', 'count', 'index', '_field_defaults'}
PURE = {'sorted', 'reversed', 'sum', 'abs', 'round',
        'np.transpose', 'np.reshape', 'np.array', 'np.copy', 'np.sqrt', 'np.abs',
        'np.mean', 'np.sum', 'np.where', 'np.zeros', 'np.empty', 'np.concatenate', 'np.vstack',
        'np.hstack', 'np.stack', 'np.repeat', 'np.delete', 'np.append', 'np.insert', 'np.sort',
        'np.clip', 'np.round', 'np.isnan', 'np.argmin', 'np.argmax', 'np.flip', 'np.roll',
        'os.path.join', 'copy.copy', 'copy.deepcopy'}
PURE_METHODS = {'format', 'strip', 'lstrip', 'rstrip', 'replace', 'upper', 'lower', 'title',
                'capitalize', 'split', 'rsplit', 'startswith', 'endswith', 'astype', 'transpose',
                'reshape', 'copy', 'flatten', 'ravel', 'tolist', 'squeeze',
                'zfill', 'ljust', 'rjust', 'join', 'isdigit'}


class Finding(object):
    def __init__(self, rule, module, node, where, detail):
        self.rule, self.module, self.node = rule, module, node
        self.where = '%s:%d %s' % (module.path, getattr(node, 'lineno', 0), where)
        self.detail = detail


def bound_by(target):
    for n in ast.walk(target):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n.id


def own(body, into_lambda=False):
    '''the nodes of a scope, without those of nested functions and classes'''
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo.extend(n.decorator_list)
            todo.extend(n.args.defaults)
            todo.extend(d for d in n.args.kw_defaults if d is not None)
            continue
        if isinstance(n, ast.ClassDef):
            todo.extend(n.decorator_list)
            todo.extend(n.bases)
            continue
        if isinstance(n, ast.Lambda) and not into_lambda:
            todo.extend(n.args.defaults)
            continue
        todo.extend(ast.iter_child_nodes(n))


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + \
        [x.arg for x in (a.vararg, a.kwarg) if x is not None]


def bindings(body):
    '''the names a scope binds'''
    out, glob = set(), set()
    for n in own(body):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name.split('.')[0]) for a in n.names}
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    return out - glob, glob


COMPS = (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)


class Names(object):
    def __init__(self, prog):
        self.prog = prog
        self.findings = []
        self.counts = {}
        self.functions = set()
        with open(os.path.join(HERE, 'extnames.json')) as f:
            self.ext = {k: set(v) for k, v in json.load(f).items()}
        self.extvocab = STD | set().union(*self.ext.values())
        self.local_tables = []
        self.module_names = {}
        self.star = set()
        for m in prog.modules.values():
            b, _ = bindings(m.tree.body)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    b |= set(n.names)
                if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                    self.star.add(m.name)
            self.module_names[m.name] = b
        self._attributes()
        self._concrete()

    # ------------------------------------------------------------------ tables
    def _attributes(self):
        '''what instances of each class define; attributes set on other objects'''
        self.instance = {c: set() for c in self.prog.classes}
        self.foreign = set()
        self.open = set()
        self.fields = set()
        for m in self.prog.modules.values():
            for q, f in m.namedtuples.values():
                self.fields |= set(f)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and _dotted(n.func) in ('namedtuple',
                                                                   'collections.namedtuple'):
                    nt = self.prog._namedtuple(n)
                    self.fields |= set(nt or ())
        owned = set()
        for c in self.prog.classes.values():
            s = self.instance[c.qual]
            s |= set(c.methods) | set(c.attrs)
            for b in c.node.body:
                if isinstance(b, (ast.AnnAssign, ast.AugAssign, ast.Assign)):
                    for t in b.targets if isinstance(b, ast.Assign) else [b.target]:
                        s |= set(bound_by(t))
                if isinstance(b, ast.ClassDef):
                    s.add(b.name)
            if '__getattr__' in c.methods or '__getattribute__' in c.methods or \
                    c.node.decorator_list or c.node.keywords:
                self.open.add(c.qual)
            for f in c.methods.values():
                if not f.node.args.args:
                    continue
                me = f.node.args.args[0].arg
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                            isinstance(n.value, ast.Name) and n.value.id == me:
                        s.add(n.attr)
                        owned.add(id(n))
                    if isinstance(n, ast.Call) and _dotted(n.func) in ('setattr', 'vars') or \
                            isinstance(n, ast.Attribute) and n.attr == '__dict__':
                        self.open.add(c.qual)
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                        id(n) not in owned:
                    self.foreign.add(n.attr)
                if isinstance(n, ast.Call) and _dotted(n.func) == 'setattr' and len(n.args) > 1 and \
                        isinstance(n.args[1], ast.Constant):
                    self.foreign.add(n.args[1].value)
        self.everything = set().union(self.foreign, self.fields, *self.instance.values()) | OBJECT

    def _concrete(self):
        '''classes that are instantiated (or handed over as values) somewhere'''
        self.concrete = set()
        for m in self.prog.modules.values():
            notval = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    notval |= {id(u) for b in n.bases for u in ast.walk(b)}
                if isinstance(n, ast.Call) and _dotted(n.func) in ('isinstance', 'issubclass', 'super'):
                    notval |= {id(u) for a in n.args for u in ast.walk(a)}
                if isinstance(n, ast.Attribute):
                    notval.add(id(n.value))
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and \
                        id(n) not in notval:
                    r = self.resolve(n, m)
                    if r and r[0] == 'class':
                        self.concrete.add(r[1].qual)

    def resolve(self, e, m):
        try:
            return self.prog.resolve_expr(e, m)
        except RecursionError:
            return None

    def count(self, rule, n=1):
        self.counts[rule] = self.counts.get(rule, 0) + n

    def report(self, rule, m, node, where, detail):
        self.findings.append(Finding(rule, m, node, where, detail))

    # ------------------------------------------------------------------ driver
    def run(self):
        self.duck, self.assigned_names = {}, {}
        self._reached, self._asked = {}, None
        self.args_of, self.option_reads, self.libs = set(), [], set()
        for m in self.prog.modules.values():
            self.module(m)
        for m in self.prog.modules.values():
            self.options(m)
        self.ducks()
        # a module that cannot be imported is reported for that alone
        broken = {f.module for f in self.findings if f.rule == 'imports' and any(
            f.node is x for x in f.module.tree.body)}
        self.findings = [f for f in self.findings if f.rule == 'imports' or f.module not in broken]
        self.option_reads = [o for o in self.option_reads if o[0] not in broken]
        return self

    def ducks(self):
        '''the attributes read from one variable: some class of the repository defines them all'''
        shapes = [(c.name, self.members(c)) for c in self.prog.classes.values() if self.known(c)]
        if any(not self.known(c) for c in self.prog.classes.values()):
            for c in self.prog.classes.values():
                if not self.known(c):
                    shapes.append((c.name, self.members(c)))
        for m in self.prog.modules.values():
            for q, f in m.namedtuples.values():
                shapes.append((q, set(f) | NAMEDTUPLE))
        own_ = self.everything - self.extvocab - OBJECT
        alike = {}      # variables of one name: what each of them is used for
        for (scope, key), uses in self.duck.items():
            attrs = {n.attr for n, _, _ in uses}
            alike.setdefault(key.split('.')[-1], {})[scope, key] = (
                bool(attrs & own_ - self.foreign),
                bool(attrs - self.everything - self.extvocab))
        for (scope, key), uses in sorted(self.duck.items()):
            attrs = {n.attr for n, _, _ in uses}
            mine = attrs & own_ - self.foreign
            if any(k[1].split('.')[-1] == key.split('.')[-1] and
                   k[0].rsplit('.', 1)[0].startswith(uses[0][1].name) for k in self.libs):
                continue
            others = [v for k, v in alike[key.split('.')[-1]].items() if k != (scope, key)]
            unknown = attrs - self.everything - self.extvocab
            if not mine and not (sum(o for o, _ in others) > 2 and not any(x for _, x in others) and
                                 self.specific(key.split('.')[-1])):
                continue
            if len(unknown) > max(len(mine), 1) or unknown and mine and \
                    any(x for _, x in others) and not self.specific(key.split('.')[-1]):
                continue
            if (scope, key) in self.args_of or (scope, key) in self.libs:
                continue
            for n, m, where in uses:
                if n.attr not in self.everything and n.attr not in self.extvocab:
                    self.report('attributes', m, n, where, 'no class defines %s (of %s)' % (n.attr, key))
            self.count('objects')
            if mine and not any(mine <= s for _, s in shapes) and not self.several(scope, key):
                n, m, where = uses[0]
                self.report('attributes', m, n, where, 'no class has all of %s (read from %s)'
                            % (', '.join(sorted(mine)), key))

    def specific(self, name):
        '''a name that says what kind of object of the repository it holds'''
        w = name.lower().replace('_', '')
        return w not in ('result', 'model') and ('_' in name or any(
            c.name.lower().startswith(w) for c in self.prog.classes.values()))

    def several(self, scope, key):
        return self.assigned_names.get((scope, key), 0) > 1

    def module(self, m):
        demo = set()
        for st in m.tree.body:
            if isinstance(st, ast.If) and any(isinstance(u, ast.Name) and u.id == '__name__'
                                              for u in ast.walk(st.test)):
                demo |= {id(u) for b in st.body for u in ast.walk(b)}
        self.demo = demo
        table = {}
        for st in ast.walk(m.tree):
            if id(st) in demo and isinstance(st, (ast.Import, ast.ImportFrom)):
                self.prog._import(m, st, table)
        self.local_tables = [table]
        self.imports(m)
        self.scope(m, m.tree.body, [], None, None, m.name)
        self.duplicates(m, m.tree.body, m.name)

    # ------------------------------------------------------------------ imports
    def imports(self, m):
        guarded = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try) and n.handlers:
                guarded |= {id(u) for b in n.body for u in ast.walk(b)}
        pkgs = {x.split('.')[0] for x in self.prog.modules}
        for n in ast.walk(m.tree):
            if id(n) in guarded:
                continue
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.count('imports')
                    if a.name.split('.')[0] in pkgs and a.name not in self.prog.modules and \
                            not self.exists(a.name):
                        self.report('imports', m, n, m.name, 'no module %s' % a.name)
            elif isinstance(n, ast.ImportFrom):
                table = {}
                self.prog._import(m, n, table)
                for _, base, name in table.values():
                    self.count('imports')
                    if name == '*' or base.split('.')[0] not in pkgs:
                        continue
                    if base not in self.prog.modules:
                        if not self.exists(base):
                            self.report('imports', m, n, m.name, 'no module %s' % base)
                        continue
                    if name not in self.module_names[base] and \
                            base + '.' + name not in self.prog.modules and \
                            base not in self.star and not self.exists(base + '.' + name):
                        self.report('imports', m, n, m.name, '%s has no %s' % (base, name))

    def exists(self, dotted):
        p = os.path.join(self.prog.root, *dotted.split('.'))
        return os.path.isdir(p) or os.path.exists(p + '.py')

    # ------------------------------------------------------------------ scopes
    def scope(self, m, body, outer, cls, fn, where, args=()):
        '''outer: the bindings of the enclosing functions'''
        bound, glob = bindings(body)
        bound |= set(args)
        env = outer + [bound] if fn is not None else outer
        if fn is not None:
            table = {}
            for n in own(body):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self.prog._import(m, n, table)
            self.local_tables.append(table)
            self.functions.add(where)
            self.flow(m, fn, bound, where)
        self.expressions(m, body, env, cls, fn, where)
        for n in own(body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.scope(m, n.body, env, cls, n, where + '.' + n.name, params(n))
            elif isinstance(n, ast.ClassDef):
                c = self.prog.classes.get(m.name + '.' + n.name) if fn is None else None
                if c is not None and c.node is not n:
                    c = None
                self.klass(m, n, env, c, where + '.' + n.name)
            elif isinstance(n, ast.Lambda):
                self.scope(m, [ast.Return(n.body, lineno=n.lineno, col_offset=n.col_offset)], env, cls, n,
                           where + '.<lambda>', params(n))
        if fn is not None:
            self.local_tables.pop()

    def klass(self, m, node, env, c, where):
        names = {}
        for b in node.body:
            if isinstance(b, ast.FunctionDef):
                names[b.name] = b
                self.scope(m, b.body, env, c, b, where + '.' + b.name, params(b))
        self.expressions(m, [b for b in node.body if not isinstance(b, ast.FunctionDef)],
                         env + [bindings(node.body)[0]], None, None, where)
        self.duplicates(m, node.body, where)

    def duplicates(self, m, body, where):
        seen = {}
        for b in body:
            if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                self.count('definitions')
                decs = [_dotted(d) or '' for d in b.decorator_list]
                if b.name in seen and not any(d.endswith(('.setter', '.getter', '.deleter', 'overload'))
                                              for d in decs):
                    self.report('definitions', m, b, where,
                                '%s is defined twice, the first definition is lost' % b.name)
                seen[b.name] = b

    # ------------------------------------------------------------------ flow of locals
    def flow(self, m, fn, bound, where):
        if isinstance(fn, ast.Lambda):
            return
        local = bindings(fn.body)[0]
        self.bad = {}
        self._flow_block(fn.body, set(params(fn)), local)
        for n, node in self.bad.items():
            self.report('names', m, node, where, 'local variable %s is read before any assignment' % n)

    def _reads(self, node, st, local, hidden=frozenset()):
        '''loads of locals that nothing can have assigned'''
        if node is None:
            return
        if isinstance(node, COMPS):
            names = set()
            for g in node.generators:
                self._reads(g.iter, st, local, hidden | names)
                names |= set(bound_by(g.target))
                for c in g.ifs:
                    self._reads(c, st, local, hidden | names)
            for x in ((node.key, node.value) if isinstance(node, ast.DictComp) else (node.elt,)):
                self._reads(x, st, local, hidden | names)
            return
        if isinstance(node, ast.Lambda):
            for d in node.args.defaults:
                self._reads(d, st, local, hidden)
            return
        if isinstance(node, ast.NamedExpr):
            self._reads(node.value, st, local, hidden)
            st.add(node.target.id)
            return
        if isinstance(node, ast.Name):
            if isinstance(node.ctx, ast.Load) and node.id in local and node.id not in st and \
                    node.id not in hidden:
                self.bad.setdefault(node.id, node)
            return
        for c in ast.iter_child_nodes(node):
            self._reads(c, st, local, hidden)

    def _flow_block(self, body, st, local):
        '''st: names that may have been assigned, None when not reached'''
        for b in body:
            if st is None:
                return None
            st = self._flow(b, st, local)
        return st

    def _flow(self, b, st, local):
        def join(*xs):
            xs = [x for x in xs if x is not None]
            return set().union(*xs) if xs else None
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in b.decorator_list:
                self._reads(d, st, local)
            return st | {b.name}
        if isinstance(b, (ast.Import, ast.ImportFrom)):
            return st | {(a.asname or a.name.split('.')[0]) for a in b.names}
        if isinstance(b, ast.If):
            self._reads(b.test, st, local)
            return join(self._flow_block(b.body, set(st), local),
                        self._flow_block(b.orelse, set(st), local))
        if isinstance(b, (ast.For, ast.AsyncFor, ast.While)):
            self._reads(b.iter if not isinstance(b, ast.While) else None, st, local)
            later = st | (bindings(b.body)[0] & local)
            if isinstance(b, ast.While):
                self._reads(b.test, st, local)
                inner = set(later)
            else:
                inner = later | set(bound_by(b.target))
            # the first iteration reads only what is assigned before; later ones may read more
            first = set(st) | (set() if isinstance(b, ast.While) else set(bound_by(b.target)))
            self._flow_block(b.body, first, local) if not self._assigns_late(b, local) else None
            if self._assigns_late(b, local):
                self._flow_block(b.body, inner, local)
            return join(later | (set() if isinstance(b, ast.While) else set(bound_by(b.target))),
                        self._flow_block(b.orelse, set(inner), local) if b.orelse else None)
        if isinstance(b, ast.Try):
            part = st | (bindings(b.body)[0] & local)
            end = self._flow_block(b.body, set(st), local)
            if end is not None and b.orelse:
                end = self._flow_block(b.orelse, end, local)
            outs = [end]
            for h in b.handlers:
                outs.append(self._flow_block(h.body, part | ({h.name} if h.name else set()), local))
            out = join(*outs)
            if b.finalbody:
                fin = self._flow_block(b.finalbody, join(out, part) or set(), local)
                return None if out is None or fin is None else fin
            return out
        if isinstance(b, (ast.With, ast.AsyncWith)):
            st = set(st)
            for i in b.items:
                self._reads(i.context_expr, st, local)
                if i.optional_vars is not None:
                    st |= set(bound_by(i.optional_vars))
            return self._flow_block(b.body, st, local)
        if isinstance(b, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(b):
                self._reads(c, st, local)
            return None
        if isinstance(b, (ast.Break, ast.Continue)):
            return None
        if isinstance(b, ast.AugAssign):
            self._reads(b.value, st, local)
            if isinstance(b.target, ast.Name):
                if b.target.id in local and b.target.id not in st:
                    self.bad.setdefault(b.target.id, b.target)
                return st | {b.target.id}
            self._reads(b.target, st, local)
            return st
        if isinstance(b, (ast.Assign, ast.AnnAssign)):
            self._reads(b.value, st, local)
            ts = b.targets if isinstance(b, ast.Assign) else [b.target]
            for t in ts:
                self._reads(t, st, local)
            if b.value is None:
                return st
            return st | {n for t in ts for n in bound_by(t)}
        if isinstance(b, ast.Match):
            return st | (bindings([b])[0] & local)
        st = set(st)
        self._reads(b, st, local)
        return st

    def _assigns_late(self, loop, local):
        '''a loop whose reads may be fed by an earlier iteration (behind a condition)'''
        return any(isinstance(x, (ast.If, ast.Try, ast.Continue, ast.IfExp, ast.While, ast.For,
                                  ast.BoolOp)) for x in own(loop.body))

    # ------------------------------------------------------------------ expressions
    def expressions(self, m, body, env, cls, fn, where):
        comp_names = {}
        local_types = self.types(m, body, env)
        self.local_types = local_types
        me = None
        if cls is not None and fn is not None and not isinstance(fn, ast.Lambda) and fn.args.args:
            decs = [_dotted(d) for d in fn.decorator_list]
            if 'staticmethod' not in decs and cls.methods.get(fn.name) is not None and \
                    cls.methods[fn.name].node is fn:
                me = fn.args.args[0].arg
        meth = cls.methods[fn.name] if me else None
        if fn is not None and not isinstance(fn, ast.Lambda) and me is None and cls is not None:
            # a function nested in a method sees the method's self
            pass
        ifs = any(isinstance(n, ast.Call) and _dotted(n.func) in ('isinstance', 'hasattr', 'type')
                  for n in own(body))
        for n in own(body):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                key = _dotted(n)
                if key is not None:
                    k = (cls.qual if me is not None and key.split('.')[0] == me else where, key)
                    self.assigned_names[k] = self.assigned_names.get(k, 0) + 1
        for n in own(body):
            # what a library call made belongs to the library
            if isinstance(n, (ast.Assign, ast.For, ast.withitem)):
                v = n.value if isinstance(n, ast.Assign) else n.iter if isinstance(n, ast.For) else \
                    n.context_expr
                ts = n.targets if isinstance(n, ast.Assign) else [
                    n.target if isinstance(n, ast.For) else n.optional_vars]
                r = self.root(v, env)
                r = self.static(r, m, env) if isinstance(r, ast.Name) else None
                if r is not None and r[0] in ('ext', 'missing'):
                    for t in ts:
                        for x in bound_by(t) if t is not None else ():
                            self.libs.add((where, x))
        if ifs:
            for n in own(body):
                if isinstance(n, ast.Call) and _dotted(n.func) in ('isinstance', 'hasattr', 'type') and n.args:
                    key = _dotted(n.args[0])
                    if key:
                        k = (cls.qual if me is not None and key.split('.')[0] == me else where, key)
                        self.assigned_names[k] = self.assigned_names.get(k, 0) + 2
        for n in own(body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.count('names')
                if not any(n.id in e for e in env) and n.id not in self.module_names[m.name] and \
                        n.id not in BUILTINS and m.name not in self.star:
                    self.report('names', m, n, where, 'name %s is not defined' % n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.attribute(m, n, env, cls, meth, me, where)
            elif isinstance(n, ast.Call):
                self.call(m, n, env, cls, meth, me, where, local_types)
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and \
                    isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                self.percent(m, n, where)
            elif isinstance(n, ast.Expr):
                self.discarded(m, n, env, where)
            elif isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                self.tested(m, n.test, env, where)
            elif isinstance(n, ast.BoolOp):
                for v in n.values[:-1]:
                    self.tested(m, v, env, where)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                self.tested(m, n.operand, env, where)
            elif isinstance(n, ast.Dict):
                keys = [(type(k.value), k.value) for k in n.keys if isinstance(k, ast.Constant)]
                self.count('definitions')
                for k in {k for k in keys if keys.count(k) > 1}:
                    self.report('definitions', m, n, where, 'key %r occurs twice' % (k[1],))

    def root(self, e, env):
        while isinstance(e, (ast.Attribute, ast.Call, ast.Subscript)):
            e = e.func if isinstance(e, ast.Call) else e.value
        return e

    def local(self, e, env):
        return isinstance(e, ast.Name) and any(e.id in x for x in env)

    def static(self, e, m, env):
        '''what an expression denotes when its root is not a local variable'''
        r = self.root(e, env)
        if not isinstance(r, ast.Name) or self.local(r, env):
            return self.local_import(e, m, env)
        return self.resolve(e, m) or self.local_import(e, m, env)

    def local_import(self, e, m, env):
        if isinstance(e, ast.Name):
            for t in reversed(self.local_tables):
                if e.id in t:
                    return self.prog.resolve_import(t[e.id])
        if isinstance(e, ast.Attribute):
            r = self.local_import(e.value, m, env)
            return self.prog.resolve_attr(r, e.attr, m) if r is not None else None
        return None

    def attribute(self, m, n, env, cls, meth, me, where):
        self.count('attributes')
        if isinstance(n.value, ast.Name) and me is not None and n.value.id == me:
            return self.self_attribute(m, n, cls, meth, where)
        r = self.static(n.value, m, env)
        if r is not None and r[0] == 'mod':
            if n.attr not in self.module_names.get(r[1], ()) and \
                    r[1] + '.' + n.attr not in self.prog.modules and r[1] not in self.star and \
                    n.attr not in ('__name__', '__file__', '__doc__', '__path__') and \
                    not self.exists(r[1] + '.' + n.attr):
                self.report('attributes', m, n, where, '%s has no %s' % (r[1], n.attr))
            return
        if r is not None and r[0] == 'ext':
            if r[1] in self.ext and n.attr not in self.ext[r[1]]:
                self.report('attributes', m, n, where, '%s has no %s' % (r[1], n.attr))
            return
        if r is not None and r[0] == 'class':
            c = r[1]
            if not self.known(c) or n.attr in self.members(c) or n.attr in OBJECT or \
                    n.attr in self.foreign or n.attr in STD & set(dir(type)):
                return
            self.report('attributes', m, n, where, 'class %s has no %s' % (c.name, n.attr))
            return
        if r is not None:
            return
        # an object of unknown class
        if isinstance(n.value, (ast.Constant, ast.JoinedStr, ast.List, ast.Dict, ast.Tuple)):
            v = n.value
            t = type(v.value) if isinstance(v, ast.Constant) else {
                ast.JoinedStr: str, ast.List: list, ast.Dict: dict, ast.Tuple: tuple}[type(v)]
            if not hasattr(t, n.attr):
                self.report('attributes', m, n, where, '%s has no %s' % (t.__name__, n.attr))
            return
        if self.foreign_root(n, m, env):
            return
        key = _dotted(n.value)
        if key in self.local_types:
            c = self.local_types[key]
            if self.known(c) and n.attr not in self.members(c) and n.attr not in self.foreign and \
                    n.attr not in OBJECT:
                self.report('attributes', m, n, where, 'objects of class %s have no %s'
                            % (c.name, n.attr))
                return
        if key is not None:
            if me is not None and key.split('.')[0] == me:
                k = (cls.qual, key)
            else:
                k = (where, key)
            self.duck.setdefault(k, []).append((n, m, where))

    def foreign_root(self, n, m, env):
        e = self.root(n, env)
        if isinstance(e, ast.Name):
            r = self.static(e, m, env)
            return r is None and not self.local(e, env) or r is not None and r[0] in ('ext', 'missing')
        return not isinstance(e, ast.Name)

    def known(self, c):
        return not any(k.qual in self.open for k in self.prog.mro(c)) and not any(
            not isinstance(b, Cls) and b not in ('object', 'Exception', 'ValueError', 'ABC', 'abc.ABC')
            and not (b or '').endswith('namedtuple') and b != '?'
            for k in self.prog.mro(c) for b in k.bases)

    def members(self, c):
        out = set()
        for k in self.prog.mro(c):
            out |= self.instance[k.qual]
            if k.name in k.module.namedtuples:
                out |= set(k.module.namedtuples[k.name][1]) | NAMEDTUPLE
        return out

    def runners(self, cls, meth):
        '''the concrete classes whose instances can run this method'''
        return [k for k in self.prog.subclasses(cls)
                if k.qual in self.concrete and self.known(k) and meth in self.reached(k)]

    def reached(self, k):
        '''the methods that can run on an instance of the class: those it can be asked for, and
        those that these call'''
        if k.qual in self._reached:
            return self._reached[k.qual]
        todo = []
        for c in self.prog.mro(k):
            for name in c.methods:
                private = name.startswith('_') and not name.endswith('__')
                if not private or name in self.asked_of_others():
                    f = self.prog.lookup(k, name)
                    if f is not None:
                        todo.append(f)
        seen = self._reached[k.qual] = set()
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute):
                    if isinstance(n.value, ast.Call) and _dotted(n.value.func) == 'super':
                        t = self.prog.lookup(k, n.attr, after=f.cls)
                    elif isinstance(n.value, ast.Name):
                        t = self.prog.lookup(k, n.attr)
                        if n.attr.startswith('__') and not n.attr.endswith('__'):
                            t = f.cls.methods.get(n.attr)
                    else:
                        t = None
                    if t is not None and t.cls is not None:
                        todo.append(t)
        return seen

    def asked_of_others(self):
        '''attributes read from something that is not a plain variable called self, cls or super()'''
        if self._asked is None:
            self._asked = set()
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and not (
                            isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls') or
                            isinstance(n.value, ast.Call) and _dotted(n.value.func) == 'super'):
                        self._asked.add(n.attr)
        return self._asked

    def self_attribute(self, m, n, cls, meth, where):
        attr = n.attr
        if attr.startswith('__') and not attr.endswith('__'):
            # private names belong to the class itself
            if attr not in self.instance[cls.qual] and self.known(cls):
                self.report('attributes', m, n, where, '%s has no %s' % (cls.name, attr))
            return
        if attr in OBJECT or attr in self.foreign:
            return
        ks = self.runners(cls, meth) or ([cls] if self.known(cls) else [])
        if not self.runners(cls, meth):
            # never instantiated by the repository: some class of the family defines it
            fam = set(self.prog.subclasses(cls))
            if any(not self.known(k) for k in fam) or \
                    any(attr in self.members(k) for k in fam):
                return
        for k in ks:
            if attr not in self.members(k):
                self.report('attributes', m, n, where, 'objects of class %s have no %s' % (k.name, attr))
                return

    # ------------------------------------------------------------------ calls
    def types(self, m, body, env):
        '''locals assigned exactly once, from a constructor'''
        seen, out = {}, {}
        for n in own(body):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                seen[n.id] = seen.get(n.id, 0) + 1
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                r = self.static(n.value.func, m, env)
                if r and r[0] == 'class':
                    out[n.targets[0].id] = r[1]
        return {k: v for k, v in out.items() if seen.get(k) == 1}

    def call(self, m, n, env, cls, meth, me, where, local_types):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) \
                and isinstance(f.value.value, str):
            return self.template(m, n, where)
        if isinstance(f, ast.Name) and f.id == 'super':
            return
        targets = []        # (function node, bound)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and \
                _dotted(f.value.func) == 'super' and cls is not None:
            if meth is not None:
                for k in self.runners(cls, meth) or ([cls] if self.known(cls) else []):
                    t = self.prog.lookup(k, f.attr, after=cls)
                    if t is not None:
                        self.fits(m, n, t, True, where, k.name)
                    elif self.known(k) and f.attr not in OBJECT and \
                            f.attr not in self.members(k):
                        self.report('calls', m, n, where, 'no base class has %s' % f.attr)
                    elif self.known(k) and f.attr not in OBJECT:
                        self.report('calls', m, n, where, 'no base class of %s has %s'
                                    % (cls.name, f.attr))
            return
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and me is not None and \
                f.value.id == me:
            name = f.attr
            ks = self.runners(cls, meth)
            if name.startswith('__') and not name.endswith('__'):
                ks = [cls]
            for k in ks:
                t = self.prog.lookup(k, name) if not (name.startswith('__') and not name.endswith(
                    '__')) else cls.methods.get(name)
                if t is None or self.assigned(k, name):
                    continue
                if not self.fits(m, n, t, True, where, k.name):
                    return
            return
        r = self.static(f, m, env)
        if r is None and isinstance(f, ast.Name) and self.local(f, env):
            return
        if r is not None and r[0] == 'missing':
            return
        if r is not None and r[0] == 'func':
            bound = r[1].cls is not None and r[1].is_classmethod
            self.fits(m, n, r[1], bound, where)
            return
        if r is not None and r[0] == 'class':
            self.construct(m, n, r[1], where)
            return
        if r is not None and r[0] == 'nt':
            self.fields_fit(m, n, r[1], where)
            return
        if r is not None:
            return
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name) and v.id in local_types:
                c = local_types[v.id]
                t = self.prog.lookup(c, f.attr)
                if t is not None and not self.assigned(c, f.attr):
                    self.fits(m, n, t, True, where, c.name)
                return
            if f.attr in self.extvocab or self.foreign_root(f, m, env) or f.attr in self.foreign or \
                    f.attr in ('predict', 'fit', 'forecast', 'plot'):
                return
            cands = [c.methods[f.attr] for c in self.prog.classes.values() if f.attr in c.methods]
            if not cands or any(self.is_assigned(f.attr)):
                return
            self.count('calls')
            if not any(self.accepts(n, t, not t.is_static) is None for t in cands):
                self.report('calls', m, n, where, '%s: %s' % (
                    f.attr, self.accepts(n, cands[0], not cands[0].is_static)))

    def is_assigned(self, attr):
        for c, s in self.instance.items():
            k = self.prog.classes[c]
            if attr in s and attr not in k.methods:
                yield True

    def assigned(self, c, attr):
        return any(attr in self.instance[k.qual] and attr not in k.methods for k in self.prog.mro(c))

    def construct(self, m, n, c, where):
        if c.name in c.module.namedtuples:
            if '__new__' not in c.methods and '__init__' not in c.methods:
                self.fields_fit(m, n, c.module.namedtuples[c.name], where)
            return
        new = self.prog.lookup(c, '__new__')
        init = self.prog.lookup(c, '__init__')
        if new is not None or c.node.decorator_list or not self.known(c):
            return
        if init is None:
            self.count('calls')
            if n.args or n.keywords:
                if not self.prog.has_external_base(c):
                    self.report('calls', m, n, where, '%s takes no arguments' % c.name)
            return
        self.fits(m, n, init, True, where, c.name)

    def fields_fit(self, m, n, nt, where):
        self.count('calls')
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        q, fields = nt
        given = list(fields[:len(n.args)]) + [k.arg for k in n.keywords]
        name = q.rsplit('.', 1)[-1]
        if len(n.args) > len(fields):
            self.report('calls', m, n, where, '%s has %d fields' % (name, len(fields)))
        elif [k for k in given if k not in fields]:
            self.report('calls', m, n, where, '%s has no field %s' % (
                name, [k for k in given if k not in fields][0]))
        elif [k for k in fields if k not in given] and not self.defaults(q):
            self.report('calls', m, n, where, '%s without its field %s' % (
                name, [k for k in fields if k not in given][0]))

    def defaults(self, q):
        m = self.prog.modules.get(q.rsplit('.', 1)[0])
        return m is not None and any(
            isinstance(u, ast.Call) and (_dotted(u.func) or '').endswith('namedtuple') and
            (u.keywords or len(u.args) > 2) for u in ast.walk(m.tree)) or m is not None and \
            '__defaults__' in m.src

    def fits(self, m, n, t, bound, where, of=None):
        self.count('calls')
        why = self.accepts(n, t, bound)
        if why is not None:
            self.report('calls', m, n, where, '%s%s: %s' % (of + '.' if of else '', t.name, why))
            return False
        return True

    def accepts(self, n, t, bound):
        '''None when the call matches the signature, else what does not'''
        decs = [_dotted(d) or '?' for d in t.node.decorator_list]
        if any(d not in ('staticmethod', 'classmethod', 'abstractmethod', 'abc.abstractmethod',
                         'property') for d in decs):
            return None
        if t.is_property:
            return None
        a = t.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if bound and not t.is_static:
            pos = pos[1:]
        need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
        kwo = [x.arg for x in a.kwonlyargs]
        kneed = [k for k, d in zip(kwo, a.kw_defaults) if d is None]
        if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
            if a.kwarg is None:
                for k in n.keywords:
                    if k.arg is not None and k.arg not in pos + kwo:
                        return 'no parameter %s' % k.arg
            return None
        if len(n.args) > len(pos) and a.vararg is None:
            return '%d arguments for %d parameters' % (len(n.args), len(pos))
        given = set(pos[:len(n.args)])
        for k in n.keywords:
            if k.arg in given:
                return 'parameter %s given twice' % k.arg
            if k.arg not in pos + kwo and a.kwarg is None:
                return 'no parameter %s' % k.arg
            given.add(k.arg)
        miss = [p for p in need + kneed if p not in given]
        if miss:
            return 'no argument for %s' % miss[0]
        return None

    # ------------------------------------------------------------------ text
    def template(self, m, n, where):
        self.count('templates')
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        auto, idx, names = 0, set(), set()

        def scan(text):
            nonlocal auto
            for _, field, spec, _ in string.Formatter().parse(text):
                if field is None:
                    continue
                head = field.split('.')[0].split('[')[0]
                if head == '':
                    auto += 1
                elif head.isdigit():
                    idx.add(int(head))
                else:
                    names.add(head)
                if spec:
                    scan(spec)
        try:
            scan(n.func.value.value)
        except ValueError as e:
            self.report('templates', m, n, where, 'malformed template: %s' % e)
            return
        need = max([auto] + [i + 1 for i in idx])
        kws = {k.arg for k in n.keywords}
        if need > len(n.args):
            self.report('templates', m, n, where, 'template with %d places and %d values'
                        % (need, len(n.args)))
        elif names - kws:
            self.report('templates', m, n, where, 'template without a value for %s'
                        % sorted(names - kws)[0])
        elif (need < len(n.args) and not idx or kws - names):
            self.report('templates', m, n, where, 'template with %d places and %d values'
                        % (need + len(names), len(n.args) + len(kws)))

    def percent(self, m, n, where):
        self.count('templates')
        text, i, need = n.left.value, 0, 0
        while i < len(text):
            if text[i] == '%':
                i += 1
                if i < len(text) and text[i] == '(':
                    return
                while i < len(text) and text[i] in '#0- +.123456789*hlL':
                    if text[i] == '*':
                        need += 1
                    i += 1
                if i < len(text) and text[i] != '%':
                    need += 1
            i += 1
        r = n.right
        if isinstance(r, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in r.elts):
                return
            have = len(r.elts)
        elif isinstance(r, (ast.Constant, ast.BinOp, ast.JoinedStr)):
            have = 1
        else:
            return
        if have != need:
            self.report('templates', m, n, where, 'template with %d places and %d values' % (need, have))

    # ------------------------------------------------------------------ values
    def discarded(self, m, n, env, where):
        v = n.value
        self.count('statements')
        if isinstance(v, ast.Call):
            d = _dotted(v.func)
            r = self.static(v.func, m, env) if d else None
            if isinstance(v.func, ast.Name) and r is None and not self.local(v.func, env) and \
                    d in PURE or r is not None and r[0] == 'ext' and r[1] in PURE:
                self.report('statements', m, n, where, 'the result of %s is thrown away' % d)
            elif isinstance(v.func, ast.Attribute) and v.func.attr in PURE_METHODS and \
                    (v.args or v.func.attr != 'join') and \
                    v.func.attr not in self.instance_names() and r is None:
                self.report('statements', m, n, where, 'the result of %s is thrown away'
                            % v.func.attr)
        elif isinstance(v, ast.Compare) and isinstance(v.ops[0], ast.Eq) and \
                isinstance(v.left, (ast.Attribute, ast.Subscript)) or \
                isinstance(v, ast.Attribute) and self.only_method(v.attr):
            self.report('statements', m, n, where, 'a value is computed and thrown away')

    def instance_names(self):
        if not hasattr(self, '_inames'):
            self._inames = set().union(*self.instance.values())
        return self._inames

    def only_method(self, attr):
        '''every class that defines the attribute defines it as a method'''
        defs = [c for c in self.prog.classes.values() if attr in self.instance[c.qual]]
        return bool(defs) and attr not in self.foreign and attr not in self.fields and all(
            attr in c.methods and not c.methods[attr].is_property for c in defs) and \
            attr not in self.extdata

    extdata = {'shape', 'size', 'ndim', 'T', 'dtype', 'flat', 'name', 'names'}

    def tested(self, m, e, env, where):
        self.count('tests')
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return
        if isinstance(e, ast.Attribute) and self.only_method(e.attr):
            self.report('tests', m, e, where, 'the method %s is tested instead of its result' % e.attr)
        elif isinstance(e, ast.Name) and not self.local(e, env):
            r = self.resolve(e, m)
            if r is not None and r[0] in ('func', 'class'):
                self.report('tests', m, e, where, '%s is always true' % e.id)
        elif isinstance(e, ast.Tuple) and e.elts:
            self.report('tests', m, e, where, 'a tuple is always true')

    # ------------------------------------------------------------------ command lines
    def dests(self, m, seen=None):
        seen = seen if seen is not None else set()
        if m.name in seen:
            return set(), set()
        seen.add(m.name)
        out, known = set(), set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr == 'add_argument':
                    d = [k.value.value for k in n.keywords if k.arg == 'dest' and
                         isinstance(k.value, ast.Constant)]
                    names = [a.value for a in n.args if isinstance(a, ast.Constant) and
                             isinstance(a.value, str)]
                    if d:
                        out.add(d[0])
                    elif names:
                        longs = [x for x in names if x.startswith('--')] or names
                        out.add(longs[0].lstrip('-').replace('-', '_'))
                    else:
                        known.add('?')
                elif n.func.attr == 'set_defaults':
                    out |= {k.arg for k in n.keywords}
                elif n.func.attr == 'add_subparsers':
                    out |= {k.value.value for k in n.keywords if k.arg == 'dest' and
                            isinstance(k.value, ast.Constant)}
        for imp in m.imports.values():
            base = imp[1]
            for b in (base, base + '.' + imp[2] if imp[0] == 'name' else base):
                if b in self.prog.modules:
                    o, k = self.dests(self.prog.modules[b], seen)
                    out |= o
                    known |= k
        return out, known

    def options(self, m):
        '''the options read from parsed arguments, in every function they are handed to, are
        declared by the parsers of the module (or of a module it uses)'''
        start = []

        def parsed(x):
            return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                x.func.attr == 'parse_args' or isinstance(x, ast.Call) and _dotted(x.func) in parsers

        parsers = set()
        for f in ast.walk(m.tree):
            if not isinstance(f, ast.FunctionDef):
                continue
            own_ = list(own(f.body))
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
                   n.func.attr == 'parse_args' for n in own_) and \
                    any(isinstance(n, ast.Return) and n.value is not None for n in own_):
                parsers.add(f.name)

        def handed(mm, node, where, body, n, given):
            '''the functions that receive the arguments in a call'''
            local = {x.name: x for x in own(body) if isinstance(x, ast.FunctionDef)}
            d = _dotted(n.func)
            if d in local:
                ts = [(mm.name, where + '.' + d, local[d])]
            elif isinstance(n.func, ast.Attribute) and n.func.attr == 'func' or \
                    isinstance(n.func, ast.Name) and self.resolve(n.func, mm) is None:
                ts = [(mm.name, mm.name + '.' + a, mm.funcs[a].node) for a in acts if a in mm.funcs]
            else:
                r = self.resolve(n.func, mm)
                ts = [(r[1].module.name, r[1].module.name + '.' + r[1].name, r[1].node)] \
                    if r and r[0] == 'func' and r[1].cls is None else []
            for mod, w, t in ts:
                ps = [a.arg for a in t.args.args]
                for i, a in enumerate(n.args):
                    if given(a) and i < len(ps):
                        start.append((mod, w, t, ps[i]))
                for k in n.keywords:
                    if given(k.value) and k.arg in ps:
                        start.append((mod, w, t, k.arg))

        def deep(body, var, where):
            for n in own(body, True):
                yield n
                if isinstance(n, ast.FunctionDef) and var not in params(n) and \
                        var not in bindings(n.body)[0]:
                    self.args_of.add((where + '.' + n.name, var))
                    yield from deep(n.body, var, where + '.' + n.name)

        acts = {k.value.id for n in ast.walk(m.tree) if isinstance(n, ast.Call) and
                isinstance(n.func, ast.Attribute) and n.func.attr == 'set_defaults'
                for k in n.keywords if isinstance(k.value, ast.Name)}
        acts |= {n.value.id for n in ast.walk(m.tree) if isinstance(n, ast.Assign) and
                 isinstance(n.value, ast.Name) and isinstance(n.targets[0], ast.Name) and
                 n.targets[0].id in acts}
        scopes = [(m.name, None)] + [(m.name + '.' + f.name, f.node) for f in m.funcs.values()]
        for where, f in scopes:
            body = f.body if f is not None else m.tree.body
            for n in own(body):
                if isinstance(n, ast.FunctionDef) and f is not None:
                    scopes.append((where + '.' + n.name, n))
                elif isinstance(n, ast.Assign) and parsed(n.value) and \
                        isinstance(n.targets[0], ast.Name):
                    start.append((m.name, where, f, n.targets[0].id))
                elif isinstance(n, ast.Call):
                    handed(m, None, where, body, n, parsed)
        if not start:
            return
        dests, dyn = self.dests(m)
        seen = set()
        read = set()
        while start:
            mod, where, node, var = key = start.pop()
            if (where, var) in seen:
                continue
            seen.add((where, var))
            mm = self.prog.modules[mod]
            body = node.body if node is not None else mm.tree.body
            self.args_of.add((where, var))
            nodes = list(deep(body, var, where))
            setters = {n.attr for n in nodes if isinstance(n, ast.Attribute) and
                       isinstance(n.ctx, ast.Store) and _dotted(n.value) == var}
            setters |= {n.args[1].value for n in nodes if isinstance(n, ast.Call) and
                        _dotted(n.func) == 'hasattr' and len(n.args) == 2 and
                        isinstance(n.args[1], ast.Constant)}
            for n in nodes:
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and \
                        isinstance(n.value, ast.Name) and n.value.id == var:
                    self.count('options')
                    read.add(n.attr)
                    if n.attr not in dests | setters and not dyn and not n.attr.startswith('_'):
                        self.report('options', mm, n, where, 'no option %s is declared' % n.attr)
                elif isinstance(n, ast.Assign):
                    pairs = [(n.targets[0], n.value)]
                    if isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple):
                        pairs = list(zip(n.targets[0].elts, n.value.elts))
                    for t, v in pairs:
                        if isinstance(t, ast.Name) and isinstance(v, ast.Name) and v.id == var:
                            start.append((mod, where, node, t.id))
                elif isinstance(n, ast.Call):
                    handed(mm, node, where, body, n,
                           lambda x: isinstance(x, ast.Name) and x.id == var)
                if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == var
                                                   for a in n.args) and \
                        _dotted(n.func) in ('vars', 'getattr'):
                    read |= dests
        # the same name in another function of the module, reached in a way not followed here
        for var in {v for w, v in seen if w.split('.')[:len(m.name.split('.'))] == m.name.split('.')}:
            for (w, key), uses in self.duck.items():
                if key == var and (w, var) not in self.args_of and uses[0][1] is m:
                    self.args_of.add((w, var))
                    read |= {n.attr for n, _, _ in uses}
        self.option_reads.append((m, dests, read))

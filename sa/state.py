'''
Is what a function alters what it is declared to alter?  (effects.py, and the declared effects in
effects.json: one entry per function of the repository, reviewed by hand.)

An effect that is not declared is judged by what it is:
  - the content of an argument, of the state behind an object, or of a module-level object is
    altered: a violation (the caller's data are not the ones it had);
  - an attribute that no code reads except after this very assignment: harmless;
  - an attribute (or an entry of a table) that is kept for the next call: a violation when what is
    kept depends on an argument that the place it is kept under does not determine, or on state
    that changes later; nothing when it is determined.
Functions that are not declared (new helpers) are judged through the functions that call them.
'''
import ast
import json
import os

from .effects import Effects, argnames
from .program import _dotted

HERE = os.path.dirname(os.path.abspath(__file__))
TABLE = os.path.join(HERE, 'effects.json')
OKAY, BAD, OPEN = 'ok', 'violation', 'undecided'


def text(key, names=None):
    kind, base, path = key
    root = base if kind == 'g' else (names[base] if names and base < len(names) else
                                     'argument %s' % base)
    return root + ''.join(path).replace('=', '')


def encode(key):
    return '%s:%s' % (key[1], ''.join(key[2]))


class State(object):
    def __init__(self, prog):
        with open(TABLE) as f:
            t = json.load(f)
        self.table = {q: set(v) for q, v in t['effects'].items()}
        self.mutable = set(t['state'])
        self.attrs = set(t['attributes'])
        self.globals = set(t['globals'])
        self.prog = prog
        self.E = Effects(prog, declared=self.table).run()
        self._reads()

    # ------------------------------------------------------------ readers of attributes
    def _reads(self):
        self.readers = {}
        for q, f in self.E.funcs.items():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    self.readers.setdefault(n.attr, []).append((q, n))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                        n.func.id in ('getattr', 'hasattr') and len(n.args) > 1 and \
                        isinstance(n.args[1], ast.Constant):
                    self.readers.setdefault(n.args[1].value, []).append((q, n))

    # ------------------------------------------------------------ judging
    def judge(self, q):
        '''[(verdict, detail, node)] for one declared function'''
        f = self.E.funcs[q]
        allowed = self.table[q]
        names = argnames(f)
        out = []
        s = self.E.sum[q]
        method = f.cls is not None and not f.is_static
        for key, node in sorted(s.muts.items(), key=lambda p: repr(p[0])):
            kind, base, path = key
            if encode(key) in allowed or '*' in ''.join(path):
                continue
            if kind == 'p' and base == 0 and method and f.name in ('__init__', '__new__') and (
                    not path or len(path) == 1 and path[0][0] == '='):
                continue
            if key not in s.own:
                continue
            # an object that the function has just made and stored is filled
            if kind == 'p' and any(
                    path[i].startswith('.') and (kind, base, path[:i] + ('=' + path[i],)) in s.muts
                    and (f.name == '__init__' and base == 0 and i == 0 or encode(
                        (kind, base, path[:i] + ('=' + path[i],))) in allowed)
                    for i in range(len(path))):
                continue
            # under another name or position of the same argument
            if kind == 'p' and any(a.split(':', 1)[1] == ''.join(path) and
                                   a.split(':', 1)[0] != '0' and not path == () for a in allowed):
                continue
            attr = path[-1].lstrip('=.') if path and path[-1] != '[]' else None
            setting = bool(path) and path[-1].startswith('=')
            if attr is not None and attr not in self.attrs or \
                    kind == 'g' and not path and base not in self.globals and \
                    not base.startswith('np.') and base != 'random':
                v, why = self.kept(f, key, attr)
                if v != OKAY:
                    out.append((v, '%s %s' % (text(key, names), why), node))
                continue
            if setting and attr in self.mutable and any(
                    a.endswith('=.' + attr) for a in allowed):
                continue
            out.append((BAD, '%s is altered%s' % (
                text(key, names), ' (set)' if setting else ''), node))
        return out

    # ------------------------------------------------------------ kept values
    def kept(self, f, key, attr):
        name = attr if attr is not None else key[1].rsplit('.', 1)[-1]
        sites = []
        for q, g in self.E.funcs.items():
            for n in ast.walk(g.node):
                for t, v in targets(n):
                    base, sub = t, None
                    while isinstance(base, ast.Subscript):
                        sub = base.slice if sub is None else sub
                        base = base.value
                    got = base.attr if isinstance(base, ast.Attribute) else \
                        base.id if isinstance(base, ast.Name) else None
                    if got == name and not (isinstance(base, ast.Name) and attr is not None):
                        if g.name != '__init__' or sub is not None:
                            sites.append((g, n, t, sub, v))
        if not sites:
            return OPEN, 'is altered in a way that is not understood'
        reads = [(q, n) for q, n in self.readers.get(name, ())]
        if attr is None:
            reads = [(q, n) for q, g in self.E.funcs.items() for n in ast.walk(g.node)
                     if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
        worst = (OKAY, '')
        for g, n, t, sub, v in sites:
            own = sub.value if isinstance(sub, ast.Index) else sub
            outside = [r for r in reads if r[0] != g.qual]
            if not outside and not exposed(g.node, name, n):
                continue
            r = self.determined(g, t, own, v, attr)
            if r[0] == BAD or r[0] == OPEN and worst[0] == OKAY:
                worst = r
        return worst

    def determined(self, g, t, sub, v, attr):
        names = set(argnames(g))
        me = g.node.args.args[0].arg if g.cls is not None and not g.is_static and \
            g.node.args.args else None
        need = self.sources(g, [v], names, me)
        # what the decision to keep depends on does not matter: a kept value is only read later
        have, lossy = key_paths(sub, g)
        shared = attr is None or isinstance(t, ast.Attribute) and self.on_class(t, g)
        missing = set()
        for p in need:
            if p == me or p.split('.')[0] == me:
                if shared and me not in have:
                    missing.add(me)
                continue
            if not any(p == h or p.startswith(h + '.') for h in have):
                missing.add(p)
        if missing:
            if all(any(m.split('.')[0] == l for l in lossy) for m in missing):
                return OPEN, 'is kept under a key made from %s' % ', '.join(sorted(missing))
            return BAD, 'keeps a value for later calls that depends on %s, which may differ ' \
                'then' % ', '.join(sorted(missing))
        stale = sorted(r[2][0].lstrip('.') for r in self.E.sum[g.qual].reads
                       if r[0] == 'p' and r[1] == 0 and me and r[2] and
                       self.changes(g.cls, r[2][0].lstrip('.')) and
                       any(p.split('.')[:2] == [me, r[2][0].lstrip('.')] for p in need))
        if stale:
            return BAD, 'keeps a value for later calls that depends on %s, which changes' % \
                ', '.join(stale)
        return OKAY, ''

    def changes(self, cls, attr):
        '''do the methods of the class (or of its bases or subclasses) set the attribute later?'''
        if attr not in self.mutable or cls is None:
            return False
        family = {c.qual for c in self.prog.mro(cls)} | {
            c.qual for c in self.E.subs.get(cls.qual, ())}
        for q, f in self.E.funcs.items():
            if f.cls is not None and f.cls.qual in family and f.name != '__init__' and (
                    'p', 0, ('=.' + attr,)) in self.E.sum[q].muts:
                return True
        return False

    def on_class(self, t, g):
        b = t.value
        d = _dotted(b) or ''
        return d in ('cls', 'self.__class__') or d.startswith('type(') or \
            d in g.module.classes

    @staticmethod
    def sources(g, exprs, names, me):
        '''access paths of the parameters that the expressions may depend on'''
        assigns = {}
        for n in ast.walk(g.node):
            for t, v in targets(n):
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        assigns.setdefault(x.id, []).append(v)
            if isinstance(n, (ast.For, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        assigns.setdefault(x.id, []).append(n.iter)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                for x in ast.walk(n.optional_vars):
                    if isinstance(x, ast.Name):
                        assigns.setdefault(x.id, []).append(n.context_expr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    isinstance(n.func.value, ast.Name):
                # what a local object is filled with
                assigns.setdefault(n.func.value.id, []).extend(n.args)
        out, seen, todo = set(), set(), [e for e in exprs if e is not None]
        while todo:
            e = todo.pop()
            skip = set()
            for n in ast.walk(e):
                if id(n) in skip:
                    continue
                d = _dotted(n) if isinstance(n, (ast.Attribute, ast.Name)) else None
                if d is not None:
                    for x in ast.walk(n):
                        skip.add(id(x))
                    root = d.split('.')[0]
                    if root in names and root not in assigns:
                        out.add(d)
                    elif root in assigns:
                        if root in names:
                            out.add(d)
                        if root not in seen:
                            seen.add(root)
                            todo.extend(assigns[root])
        return out


def targets(n):
    if isinstance(n, ast.Assign):
        for t in n.targets:
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                yield x, n.value
    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None:
        yield n.target, n.value
    elif isinstance(n, ast.NamedExpr):
        yield n.target, n.value
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and \
            len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
        yield ast.Attribute(n.args[0], str(n.args[1].value), ast.Store()), n.args[2]
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
            n.func.attr in ('append', 'add', 'update', 'extend', 'setdefault', 'insert') and n.args:
        sub = n.args[0] if n.func.attr == 'setdefault' and len(n.args) > 1 else \
            ast.Constant(None)
        yield ast.Subscript(n.func.value, sub, ast.Store()), n.args[-1]


def key_paths(sub, g):
    '''(access paths that the key determines, roots that it only depends on)'''
    have, lossy = set(), set()
    if sub is None:
        return have, lossy
    assigns = {}
    params = set(argnames(g))
    for n in ast.walk(g.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                isinstance(n.targets[0], ast.Name):
            assigns.setdefault(n.targets[0].id, []).append(n.value)

    def walk(e, depth=0):
        if isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                walk(x, depth)
        elif isinstance(e, (ast.Name, ast.Attribute)):
            d = _dotted(e)
            if d is None:
                return
            if d in assigns and depth < 4:
                if d in params:
                    have.add(d)
                elif len(assigns[d]) == 1:
                    walk(assigns[d][0], depth + 1)
                return
            have.add(d)
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id in ('tuple', 'frozenset', 'int') and len(e.args) == 1:
            walk(e.args[0], depth)
        else:
            for n in ast.walk(e):
                if isinstance(n, ast.Name):
                    lossy.add(n.id)
    walk(sub)
    # id(x) and len(x) tell little: two objects share them
    for n in ast.walk(sub):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('len', 'type'):
            for x in ast.walk(n):
                if isinstance(x, ast.Name):
                    lossy.discard(x.id)
    return have, lossy


def exposed(fn, name, store):
    '''is the attribute or name read in the function before it is assigned?'''
    first = None
    for n in ast.walk(fn):
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load) and \
                (n.attr if isinstance(n, ast.Attribute) else n.id) == name:
            pos = (n.lineno, n.col_offset)
            first = pos if first is None else min(first, pos)
        elif isinstance(n, ast.Constant) and n.value == name:
            pos = (n.lineno, n.col_offset)
            first = pos if first is None else min(first, pos)
    if first is None:
        return False
    if not isinstance(store, (ast.Assign, ast.AnnAssign)):
        return True
    if any(store in f.body for f in ast.walk(fn) if isinstance(f, ast.FunctionDef)):
        return first < (store.lineno, 0)
    return first[0] <= store.lineno or True


def declare(prog, state, out=TABLE):
    '''the table for the present tree, for review'''
    E = Effects(prog).run()
    effects = {}
    attrs, glob = set(), set()
    for q, f in E.funcs.items():
        effects[q] = sorted(encode(k) for k in E.sum[q].muts)
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                attrs.add(n.attr)
        glob |= {m.name + '.' + g for g in m.globals}
    with open(out, 'w') as f:
        json.dump({'state': sorted(state), 'attributes': sorted(attrs), 'globals': sorted(glob),
                   'effects': {q: effects[q] for q in sorted(effects)}}, f, indent=0,
                  sort_keys=True)
        f.write('\n')
    return E

'''
Resolved program model: modules, imports, classes (C3 linearisation), functions, namedtuples.
Built from the current sources under /repo on every run; nothing is imported or executed.
'''
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
EXT_ALIAS = {'numpy': 'np'}


class Func(object):
    def __init__(self, node, module, cls=None, parent=None):
        self.node, self.module, self.cls, self.parent = node, module, cls, parent
        self.name = getattr(node, 'name', '<lambda>')
        decs = [_dotted(d) for d in getattr(node, 'decorator_list', [])]
        self.is_property = 'property' in decs
        self.is_classmethod = 'classmethod' in decs
        self.is_static = 'staticmethod' in decs
        base = cls.qual if cls is not None else (parent.qual if parent is not None
                                                 else module.name)
        self.qual = base + '.' + self.name

    @property
    def loc(self):
        return '%s:%d' % (self.module.path, self.node.lineno)

    def __repr__(self):
        return self.qual


class Cls(object):
    def __init__(self, node, module, qual):
        self.node, self.module, self.qual = node, module, qual
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        self.bases = []          # Cls or external name strings
        self.scope = None

    def __repr__(self):
        return self.qual


class Module(object):
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.imports = {}        # local name -> ('mod', dotted) | ('name', module, name)
        self.funcs = {}
        self.classes = {}
        self.namedtuples = {}    # name -> (qual, fields)
        self.globals = {}        # name -> ast expression (last top-level assignment)
        self.is_pkg = path.endswith('__init__.py')


def _dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = _dotted(n.value)
        return None if b is None else b + '.' + n.attr
    return None


class Program(object):
    def __init__(self, root=None, packages=('spta', 'experiments')):
        self.root = root or REPO
        self.modules = {}
        self.parse_errors = []
        for pkg in packages:
            base = os.path.join(self.root, pkg)
            for d, dirs, files in os.walk(base):
                dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__'))
                for f in sorted(files):
                    if f.endswith('.py'):
                        self._load(os.path.join(d, f))
        self._link()

    # ------------------------------------------------------------ loading
    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, '.')
        if name.endswith('.__init__'):
            name = name[:-9]
        with open(path, encoding='utf-8') as f:
            src = f.read()
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            self.parse_errors.append((rel, str(e)))
            return
        m = Module(name, rel, tree, src)
        self.modules[name] = m
        self._scan(m, tree.body)

    def _scan(self, m, body):
        for st in body:
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                self._import(m, st, m.imports)
            elif isinstance(st, ast.FunctionDef):
                m.funcs[st.name] = Func(st, m)
            elif isinstance(st, ast.ClassDef):
                self._class(m, st, m.name + '.' + st.name)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                    isinstance(st.targets[0], ast.Name):
                nt = self._namedtuple(st.value)
                if nt:
                    m.namedtuples[st.targets[0].id] = (m.name + '.' + st.targets[0].id, nt)
                else:
                    m.globals[st.targets[0].id] = st.value
            elif isinstance(st, ast.If):
                if not (isinstance(st.test, ast.Compare) and
                        _dotted(st.test.left) == '__name__'):
                    self._scan(m, st.body)
                    self._scan(m, st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(m, st.body)

    @staticmethod
    def _namedtuple(v):
        if isinstance(v, ast.Call) and (_dotted(v.func) or '').split('.')[-1] == 'namedtuple' \
                and len(v.args) >= 2:
            a = v.args[1]
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                return tuple(a.value.replace(',', ' ').split())
            if isinstance(a, (ast.List, ast.Tuple)):
                try:
                    return tuple(ast.literal_eval(a))
                except Exception:
                    return None
        return None

    def _class(self, m, st, qual, register=True):
        c = Cls(st, m, qual)
        for b in st.body:
            if isinstance(b, ast.FunctionDef):
                c.methods[b.name] = Func(b, m, c)
            elif isinstance(b, ast.Assign) and len(b.targets) == 1 and \
                    isinstance(b.targets[0], ast.Name):
                c.attrs[b.targets[0].id] = b.value
        # class X(namedtuple('X', '..')): behaves like a namedtuple with methods
        for base in st.bases:
            nt = self._namedtuple(base)
            if nt:
                m.namedtuples[st.name] = (qual, nt)
        if register:
            m.classes[st.name] = c
        return c

    def _import(self, m, st, table):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    table[a.asname] = ('mod', a.name)
                else:
                    table[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
        else:
            base = st.module or ''
            if st.level:
                parts = m.name.split('.')
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (st.level - 1)] if st.level > 1 else parts
                base = '.'.join(parts + ([st.module] if st.module else []))
            for a in st.names:
                table[a.asname or a.name] = ('name', base, a.name)

    # ------------------------------------------------------------ linking
    def _link(self):
        self.classes = {}
        self.funcs = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes[c.qual] = c
            for f in m.funcs.values():
                self.funcs[f.qual] = f
        for c in list(self.classes.values()):
            self._link_class(c, c.module)
        self._mro = {}
        self.method_names = {}
        for c in self.classes.values():
            for n in c.methods:
                self.method_names.setdefault(n, []).append(c)
        self.by_name = {}
        for m in self.modules.values():
            for n, c in m.classes.items():
                self.by_name.setdefault(n, []).append(('class', c))
            for n, f in m.funcs.items():
                self.by_name.setdefault(n, []).append(('func', f))
            for n, nt in m.namedtuples.items():
                self.by_name.setdefault(n, []).append(('nt', nt))
        # type names of the namedtuples -> fields
        self.nt_fields = {}
        for m in self.modules.values():
            for n, (q, f) in m.namedtuples.items():
                self.nt_fields[q] = f

    def _link_class(self, c, m):
        c.bases = []
        for b in c.node.bases:
            r = self.resolve_expr(b, m)
            if r and r[0] == 'class':
                c.bases.append(r[1])
            else:
                c.bases.append(_dotted(b) or '?')

    def mro(self, c):
        if c.qual in self._mro:
            return self._mro[c.qual]
        seqs = [list(self.mro(b)) for b in c.bases if isinstance(b, Cls)]
        seqs.append([b for b in c.bases if isinstance(b, Cls)])
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        self._mro[c.qual] = out
        return out

    def lookup(self, c, name, after=None):
        '''method lookup along the MRO; after: start behind that class (super)'''
        chain = self.mro(c)
        if after is not None:
            if after in chain:
                chain = chain[chain.index(after) + 1:]
            else:
                chain = self.mro(after)[1:]
        for k in chain:
            if name in k.methods:
                return k.methods[name]
        return None

    def lookup_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
        return None

    def has_external_base(self, c):
        for k in self.mro(c):
            for b in k.bases:
                if not isinstance(b, Cls) and b != 'object':
                    return True
        return False

    def subclasses(self, c):
        return [k for k in self.classes.values() if c in self.mro(k)]

    # ------------------------------------------------------------ name resolution
    def resolve_name(self, name, m, depth=0):
        '''-> ('class',Cls)|('func',Func)|('nt',(qual,fields))|('mod',name)|('global',Module,expr)
              |('ext',dotted)|None'''
        if depth > 8:
            return None
        if hasattr(m, 'resolve'):
            return m.resolve(name)
        if name in m.classes:
            c = m.classes[name]
            if name in m.namedtuples:
                return ('nt', m.namedtuples[name])
            return ('class', c)
        if name in m.funcs:
            return ('func', m.funcs[name])
        if name in m.namedtuples:
            return ('nt', m.namedtuples[name])
        if name in m.imports:
            return self.resolve_import(m.imports[name], depth)
        if name in m.globals:
            return ('global', m, name)
        return None

    def resolve_import(self, imp, depth=0):
        if imp[0] == 'mod':
            if imp[1] in self.modules:
                return ('mod', imp[1])
            return ('ext', EXT_ALIAS.get(imp[1], imp[1]))
        _, base, name = imp
        if base in self.modules:
            r = self.resolve_name(name, self.modules[base], depth + 1)
            if r:
                return r
            if base + '.' + name in self.modules:
                return ('mod', base + '.' + name)
            return ('missing', base, name)
        if base + '.' + name in self.modules:
            return ('mod', base + '.' + name)
        b0 = base.split('.')[0]
        b = EXT_ALIAS.get(base, base if b0 not in EXT_ALIAS else
                          EXT_ALIAS[b0] + base[len(b0):])
        return ('ext', (b + '.' if b else '') + name)

    def resolve_attr(self, r, attr, m):
        if r is None:
            return None
        if r[0] == 'mod':
            mm = self.modules.get(r[1])
            if mm is None:
                return None
            x = self.resolve_name(attr, mm)
            if x:
                return x
            if r[1] + '.' + attr in self.modules:
                return ('mod', r[1] + '.' + attr)
            return ('missing', r[1], attr)
        if r[0] == 'ext':
            return ('ext', r[1] + '.' + attr)
        if r[0] == 'class':
            f = self.lookup(r[1], attr)
            if f:
                return ('func', f)
        return None

    def resolve_expr(self, e, m):
        if isinstance(e, ast.Name):
            return self.resolve_name(e.id, m)
        if isinstance(e, ast.Attribute):
            return self.resolve_attr(self.resolve_expr(e.value, m), e.attr, m)
        return None

    # ------------------------------------------------------------ convenience
    def find(self, dotted):
        '''"spta.region.scaling.SpatioTemporalScaled.descale" -> Func | Cls | None'''
        if dotted in self.classes:
            return self.classes[dotted]
        if dotted in self.funcs:
            return self.funcs[dotted]
        head, _, last = dotted.rpartition('.')
        if head in self.classes:
            return self.lookup(self.classes[head], last)
        return None

    def all_functions(self):
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                pass
        seen = []
        for m in self.modules.values():
            for f in m.funcs.values():
                seen.append(f)
            for c in m.classes.values():
                seen.extend(c.methods.values())
        return seen

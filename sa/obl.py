'''
Obligations: what is analysed, by which rule, and the three-valued outcome.

 OK         the construct in /repo's current source has the required value/effect/shape
 VIOLATION  it has a different one, and everything in it is understood by the analysis
 UNDECIDED  the current source uses constructs the analysis does not model there
            (never an alarm; counted and named in the evidence)
'''
import ast
import os
import signal
import sys
import traceback

from . import rounds
from . import terms as T
from .terms import *     # noqa
from .interp import Interp, Event, walk_own
from .program import Program, Cls, Func

OK, VIOLATION, UNDECIDED = 'ok', 'violation', 'undecided'

# types of parameters by conventional name (API vocabulary of the code base)
NAME_TYPES = {
    'point': 'Point', 'region': 'Region', 'relative_region': 'Region', 'point3': 'Point',
}


class Outcome(object):
    def __init__(self, status, detail='', where=None, expected=None, actual=None, functions=()):
        self.status, self.detail, self.where = status, detail, where
        self.expected, self.actual, self.functions = expected, actual, set(functions)


class Obligation(object):
    def __init__(self, name, rule, fn, tier='quick'):
        self.name, self.rule, self.fn, self.tier = name, rule, fn, tier


def unordered(t):
    '''a set listed in ascending order is a set listed in some order'''
    d = {}
    for u in T.subterms(t):
        if u.op == 'call' and u.args[0] == 'sorted' and len(u.args[1]) == 1 and not u.args[2]:
            x = u.args[1][0]
            if setlike(x):
                d[u] = T.mk('call', 'list', (x,), ())
    return T.subst(t, d) if d else t


def _depths(t):
    '''how deep in loops the collected events are'''
    out = set()
    for u in T.subterms(t):
        if u.op == 'set':
            for e in u.args[0]:
                n = 0
                while e.op == 'comp':
                    e, n = e.args[2], n + 1
                out.add(n)
            break
    return out


def setlike(x):
    if x.op == 'fold':
        return x.args[3].op == 'lv' and all(setlike(i) for l, i, _ in x.args[2]
                                            if l is x.args[3])
    return x.op == 'set' or x.op == 'call' and x.args[0] in ('set', 'frozenset')


class Skip(Exception):
    '''the obligation cannot be decided on this source'''


class Timeout(Exception):
    pass


# callees whose meaning is known, so a mismatch that involves them is a definite mismatch
DEFINITE = {
    'sorted', 'reversed', 'abs', 'round', 'min', 'max', 'int', 'float', 'np.mean', 'np.sum',
    'np.min', 'np.max', 'np.nanmin', 'np.nanmax', 'np.nanmean', 'np.nansum', 'np.abs', 'np.sqrt',
    'np.isnan', 'np.repeat', 'np.zeros', 'np.empty', 'np.ones', 'np.full', 'np.median', 'np.std',
    'floor', 'np.ceil', 'np.round', 'str', 'len', 'np.argmin', 'np.argmax', 'np.log', 'np.exp',
    'os.path.exists', 'os.path.isfile', 'div', 'np.nanargmin', 'np.nanargmax', 'np.transpose',
    'np.zeros_like', 'np.empty_like', 'np.flip', 'float.max', 'grid', 'np.any', 'np.all',
    'best.min', 'best.max', 'best.at', 'last.where', 'misplaced', 'nth', 'unsaved', 'tslearn.metrics.dtw',
    'np.isclose', 'np.allclose', 'math.isclose', 'np.nan_to_num', 'np.roll', 'np.astype',
    'np.float32', 'np.float16', 'np.int8', 'np.uint8', 'np.int16', 'np.uint16',
    'np.tile', 'np.ndim', 'np.average', 'np.prod', 'np.nanstd', 'np.nanmedian', 'np.nanvar',
    'np.sign', 'np.floor', 'np.square', 'invert', 'np.linalg.norm', 'pow', 'np.power', 'np.hypot', 'np.cumsum', 'np.diff', 'np.clip', 'np.percentile',
}

# structural operators the value graph understands everywhere
PLAIN_OPS = {
    'num', 'str', 'none', 'true', 'false', 'poly', 'ite', 'pos', 'iszero', 'eq', 'lt', 'isnone',
    'truth', 'sym', 'tuple', 'list', 'dict', 'index', 'slice', 'fmt', 'conv', 'len', 'floordiv',
    'mod', 'bv', 'lv', 'comp', 'range', 'concat', 'attr', 'store', 'lambda', 'class', 'ntclass',
    'isinstance', 'in', 'key', 'set', 'flat', 'exists', 'first', 'last', 'lastor', 'sum', 'obj',
    'dontcare', 'partial', 'func', 'bound', 'raise', 'module', 'lit', 'cyclic', 'update', 'exc',
    'notin', 'is', 'undef', 'hasattr',
}


# text operations on values the engine could not take apart
TEXT_METHODS = {'split', 'rsplit', 'partition', 'rpartition', 'strip', 'lstrip', 'rstrip',
                'replace', 'join', 'startswith', 'endswith', 'find', 'index'}


def constructs(t):
    '''multiset-free description of the constructs a term is built from'''
    out, seen, todo = set(), set(), [t]
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op != 'call' or u.args[0] != 'nth':
            todo.extend(T.children(u))      # what was sorted does not matter for its order
        if u.op == 'call' and u.args[0] in ('np.array', 'np.asarray') and any(
                x.op == 'ext' and x.args[0] in ('np.float32', 'np.float16', 'np.int8', 'np.uint8',
                                                'np.int16', 'np.uint16') for x in u.args[1]):
            out.add(('call', 'np.astype'))      # the values are cut down
        elif u.op == 'call':
            out.add(('call', u.args[0]))
        elif u.op == 'mcall':
            out.add(('mcall', u.args[1]))
        elif u.op == 'attr':
            out.add(('attr', u.args[1]))
        elif u.op == 'ext':
            out.add(('ext', u.args[0]))
        elif u.op == 'fold':
            n = 'while' if u.args[0].op == 'while' else 'for'
            out.add(('fold', n))
        elif u.op == 'apply':
            out.add(('op', 'apply'))
        elif u.op == 'sym':
            out.add(('sym', u.args[0]))
        else:
            out.add(('op', u.op))
    return out


def shorter_of(a, e):
    '''a differs from e only by the length of the shorter of two sequences iterated together'''
    def mins(t):
        return {u for u in T.subterms(t) if u.op == 'call' and u.args[0] == 'min' and
                len(u.args[1]) == 2 and all(x.op == 'len' or x.op == 'call' and
                                            x.args[0] == 'len' for x in u.args[1])}

    for m in sorted(mins(a) ^ mins(e), key=repr)[:3]:
        for k in (0, 1):
            x = T.canon(T.subst(a, {m: m.args[1][k]}))
            y = T.canon(T.subst(e, {m: m.args[1][k]}))
            if x is y or T.canon(unordered(x)) is T.canon(unordered(y)):
                return True
    return False


class Context(object):
    def __init__(self, prog, vocab):
        self.prog = prog
        self.vocab = vocab        # names known on the reference tree
        self.functions = set()
        self.sites = 0
        self.cfg = {}

    # ------------------------------------------------------------ engine access
    def interp(self, **kw):
        cfg = dict(self.cfg)
        nt = dict(NAME_TYPES)
        nt.update(cfg.get('name_types', {}))
        nt.update(kw.pop('name_types', {}))
        kw['keep'] = tuple(cfg.get('keep', ())) + tuple(kw.get('keep', ()))
        kw['atomic'] = tuple(cfg.get('atomic', ())) + tuple(kw.get('atomic', ()))
        kw['ints'] = tuple(cfg.get('ints', ())) + tuple(kw.get('ints', ()))
        kw['scalars'] = tuple(cfg.get('scalars', ())) + tuple(kw.get('scalars', ()))
        for k in ('attr_types', 'ret_types', 'hooks', 'ndims'):
            d = dict(cfg.get(k, {}))
            d.update(kw.get(k) or {})
            kw[k] = d
        return Interp(self.prog, name_types=nt, **kw)

    def find(self, q):
        f = self.prog.find(q)
        if f is None:
            raise Skip('anchor %s not found' % q)
        return f

    def where(self, f):
        return '%s:%d %s' % (f.module.path, getattr(f.node, 'lineno', 0), f.qual)

    # ------------------------------------------------------------ classification
    def known(self, actual, expected, extra=()):
        '''None when every construct of actual is understood, else what is not'''
        exp = constructs(expected)
        for e in extra:
            exp |= constructs(e)
        if _failures(actual) - _failures(expected):
            return 'failures of other operations'
        for c in constructs(actual):
            if c in exp:
                continue
            kind, name = c
            if kind == 'op':
                if name not in PLAIN_OPS:
                    return '%s' % name
                continue
            if kind == 'call':
                if name in DEFINITE or name.startswith('new:') or name in self.prog.funcs and \
                        name in self.vocab['funcs']:
                    continue
                if name == 'np.unique' and not exp & {('op', 'set'), ('call', 'set'),
                                                      ('call', 'sorted'), ('op', 'in')}:
                    continue        # nothing is required to be without repetitions
                return 'call of %s' % name
            if kind == 'mcall':
                if name not in TEXT_METHODS and name in self.vocab['methods']:
                    continue
                return 'method %s' % name
            if kind == 'attr':
                if name in self.vocab['attrs'] or name == 'T':
                    continue
                return 'attribute %s' % name
            if kind == 'ext':
                if name in ('nan', 'inf', 'all', 'uninitialised') or \
                        name.startswith(('np.float', 'np.int', 'np.uint')):
                    continue
                return 'external %s' % name
            if kind == 'fold':
                return 'loop (%s)' % name
            if kind == 'sym':
                continue
        return None

    def compare(self, actual, expected, where, funcs=(), what='value'):
        if actual is expected:
            return Outcome(OK, functions=funcs)
        if actual is T.canon(unordered(expected)) and actual is not expected:
            return Outcome(VIOLATION, '%s is not in the required order' % what, where, expected,
                           actual, funcs)
        if T.canon(unordered(actual)) is T.canon(unordered(expected)):
            return Outcome(OK, functions=funcs)
        if actual.op == 'tuple' and expected.op == 'tuple' and actual.args[0] == expected.args[0] \
                and len(actual.args[1]) == len(expected.args[1]):
            # one element that is known to be different is enough
            outs = [self.compare(a, b, where, funcs, what)
                    for a, b in zip(actual.args[1], expected.args[1])]
            for o in outs:
                if o.status == VIOLATION:
                    return Outcome(VIOLATION, o.detail, where, expected, actual, funcs)
        if shorter_of(actual, expected):
            return Outcome(UNDECIDED, 'not comparable: sequences iterated together may have '
                           'different lengths', where, expected, actual, funcs)
        bad = self.known(actual, expected)
        if bad is not None and bad.startswith('loop'):
            for k in (1, 2):
                ns = rounds.counts(actual) | rounds.counts(expected)
                a, e = rounds.instance(actual, ns, k), rounds.instance(expected, ns, k)
                if a is not e and a is not T.DONTCARE and e is not T.DONTCARE and \
                        self.known(a, e) is None and self.known(e, a) is None and \
                        all(c[0] not in ('call', 'mcall', 'fold') or c in constructs(a)
                            for c in constructs(e)):
                    return Outcome(VIOLATION, '%s differs from what the property requires, with %d '
                                   'element%s' % (what, k, 's'[:k - 1]), where, e, a, funcs)
        if bad is not None:
            return Outcome(UNDECIDED, 'not comparable: %s' % bad, where, expected, actual, funcs)
        return Outcome(VIOLATION, '%s differs from what the property requires' % what, where,
                       expected, actual, funcs)

    # ------------------------------------------------------------ rules
    def summarise(self, q, names=None, cls=None, types=None, **kw):
        f = self.find(q) if isinstance(q, str) else q
        I = self.interp(**kw)
        params = [a.arg for a in f.node.args.args]
        if f.cls is not None and not f.is_static:
            params = params[1:]
        args = {}
        selfterm = None
        if names:
            plain = [(n, ty) for n, ty in names if n not in ('self', 'cls')]
            for (n, ty), p in zip(plain, params):
                args[p] = I.sym(n, ty) if ty else I.param(n)
            if any(p not in args for p in params[len(plain):]):
                # parameters the property does not talk about keep their defaults
                ds = f.node.args.defaults
                allp = [a.arg for a in f.node.args.args]
                for p, d in zip(allp[len(allp) - len(ds):], ds):
                    if p not in args and p in params:
                        I.st = type(I.st)({}, {}, TRUE)
                        args[p] = I.eval_in_module(d, f.module)
            for n, ty in names:
                if n == 'self' and ty:
                    cls = cls or I.cls_named(ty)
        if isinstance(cls, str):
            cls = I.cls_named(cls)
        r = I.run(f, args, cls=cls)
        self.functions |= I.functions_seen
        return f, I, r

    def spec(self, src, **kw):
        I = self.interp(**kw)
        r = I.client(_dedent(src))
        return I, r

    def same(self, q, src, aspect='value', cls=None, care=True, strict=True, **kw):
        '''the summary of q equals the reference semantics written as a client snippet'''
        src = _dedent(src)
        fn = ast.parse(src).body[0]
        names = []
        for a in fn.args.args:
            ann = a.annotation
            names.append((a.arg, None if ann is None else
                          ann.value if isinstance(ann, ast.Constant) else ast.unparse(ann)))
        f, I, r = self.summarise(q, names, cls=cls, **kw)
        J, s = self.spec(src, **kw)
        # where the reference raises, nothing is required
        cond = FALSE if s.value.op == 'raise' else \
            T.map_leaves(s.value, lambda u: FALSE if u.op == 'raise' else TRUE)
        if callable(aspect):
            I.care = J.care = cond
        a = self.aspect(r, I, aspect, strict)
        b = self.aspect(s, J, aspect, True)
        self.asked(J)
        if b is None or a is None:
            raise Skip('aspect %s absent' % aspect)
        if strict == 'raises' and aspect == 'value':
            cond = TRUE
        lits = T.literals(cond)
        if lits:
            a, b = canon(T.restrict_deep(a, lits)), canon(T.restrict_deep(b, lits))
        if a is not b and cond.op == 'ite':
            a, b = canon(T.constrain_deep(a, cond)), canon(T.constrain_deep(b, cond))
        a, b = _live(a), _live(b)
        if strict == 'raises':
            a = T.map_leaves(a, lambda u: mk('raise', '*') if u.op == 'raise' else u)
            b = T.map_leaves(b, lambda u: mk('raise', '*') if u.op == 'raise' else u)
        elif cond is not TRUE:
            b = T.drop_raises(b)
            a = T.ite(cond, a, T.DONTCARE)
            b = T.ite(cond, b, T.DONTCARE)
        self.comparable(aspect, a, b)
        return self.compare(a, b, self.where(f), I.functions_seen,
                            aspect if isinstance(aspect, str) else 'result')

    def law(self, at, actual, expected, aspect='value', strict=True, **kw):
        '''a client computation over repository code equals the reference semantics'''
        fs = [self.find(q) for q in at]
        I = self.interp(**kw)
        r = I.client(_dedent(actual))
        self.functions |= I.functions_seen
        J, s = self.spec(expected, **kw)
        cond = FALSE if s.value.op == 'raise' else \
            T.map_leaves(s.value, lambda u: FALSE if u.op == 'raise' else TRUE)
        if callable(aspect):
            I.care = J.care = cond
        a, b = self.aspect(r, I, aspect, strict), self.aspect(s, J, aspect, True)
        self.asked(J)
        if strict == 'raises' and aspect == 'value':
            cond = TRUE
        lits = T.literals(cond)
        if lits:
            a, b = canon(T.restrict_deep(a, lits)), canon(T.restrict_deep(b, lits))
        if a is not b and cond.op == 'ite':
            a, b = canon(T.constrain_deep(a, cond)), canon(T.constrain_deep(b, cond))
        a, b = _live(a), _live(b)
        if strict == 'raises':
            a = T.map_leaves(a, lambda u: mk('raise', '*') if u.op == 'raise' else u)
            b = T.map_leaves(b, lambda u: mk('raise', '*') if u.op == 'raise' else u)
        elif cond is not TRUE:
            b = T.drop_raises(b)
            a = T.ite(cond, a, T.DONTCARE)
            b = T.ite(cond, b, T.DONTCARE)
        self.comparable(aspect, a, b)
        return self.compare(a, b, self.where(fs[0]), I.functions_seen,
                            aspect if isinstance(aspect, str) else 'result')

    def comparable(self, aspect, a, b):
        '''element stores can be arranged in other loops, or the array built in another way'''
        if getattr(aspect, 'arranged', False):
            da, db = _depths(a), _depths(b)
            if db and (not da or da - db):
                raise Skip('the array is filled by other loops')

    def asked(self, J):
        '''a requirement about operations that it does not itself contain would say nothing'''
        if getattr(J, 'unseen', None):
            raise Skip('the reference has no call of %s' % ', '.join(J.unseen))

    def aspect(self, r, I, aspect, strict):
        if aspect == 'value':
            return r.value if strict else r.ok
        if callable(aspect):
            return canon(aspect(r, I))
        if aspect.startswith('attr:'):
            st = I.frames_self if hasattr(I, 'frames_self') else T.mk('sym', 'self')
            v = r.attr(st, aspect[5:])
            if v is None:
                return T.mk('attr', st, aspect[5:])
            return v if strict else T.drop_raises(v)
        if aspect.startswith('content:'):
            return r.content(T.mk('sym', aspect[8:]))
        raise ValueError(aspect)


def _failures(t):
    '''the operations whose failure a value depends on'''
    return {u.args[2] for u in T.subterms(t) if u.op == 'exc' and len(u.args) > 2}


def _live(t):
    '''a set of events without those that cannot happen'''
    if t.op != 'set':
        return t

    def dead(e):
        if e.op == 'comp':
            return e.args[-1] is FALSE or dead(e.args[2])
        return e.op == 'tuple' and len(e.args[1]) == 2 and e.args[1][0] is FALSE
    return mk('set', tuple(sorted(e for e in t.args[0] if not dead(e))))


def _dedent(src):
    import textwrap
    return textwrap.dedent(src).strip('\n') + '\n'


def _alarm(sig, frame):
    raise Timeout('analysis time limit')


def run_obligation(ob, cx, limit=90):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        out = ob.fn(cx)
        if out is None:
            out = Outcome(OK)
        if isinstance(out, Outcome):
            out = [out]
        return out
    except Skip as e:
        return [Outcome(UNDECIDED, str(e))]
    except T.Unsupported as e:
        return [Outcome(UNDECIDED, 'not modelled: %s' % e)]
    except Timeout as e:
        return [Outcome(UNDECIDED, str(e))]
    except RecursionError:
        return [Outcome(UNDECIDED, 'recursion too deep')]
    except Exception as e:      # an unforeseen source shape is never an alarm
        tb = traceback.format_exc().splitlines()
        return [Outcome(UNDECIDED, 'analysis error: %r (%s)' % (e, tb[-3].strip() if len(tb) > 2
                                                                else ''))]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)

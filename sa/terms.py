'''
Hash-consed value-graph terms.

Every value the dataflow engine computes is a node of one shared, hash-consed graph, so "the same
value" is "the same node" (global value numbering). Normalising constructors do the work:

 - arithmetic is kept as polynomials with rational exponents on opaque factors, so `x*n + y`,
   `y + n*x` and a helper returning either are one node;
 - conditions and merges are kept as reduced ordered decision diagrams over atomic conditions
   (gated SSA with canonical gates), so nesting/early-return/inverted branches are one node;
 - strings are kept as flat concatenations, so format / f-string / + / os.path.join agree;
 - loops are summarised as comprehensions, sums, searches or folds over a normalised domain.

No path is ever enumerated and no solver is involved: control flow is merged at joins.
'''
import math


class Unsupported(Exception):
    '''The construct is outside what the engine models: the obligation is reported undecided.'''


class Term(object):
    __slots__ = ('op', 'args', 'id')

    def __init__(self, op, args, ident):
        self.op, self.args, self.id = op, args, ident

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id


_table = {}
_texts = {}     # a value -> the decisions that it is some text


def mk(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term(op, args, len(_table))
        _table[key] = t
        if op == 'eq' and len(args) == 2:
            for x, c in (args, args[::-1]):
                if c.op == 'str':
                    _texts.setdefault(x, []).append(t)
    return t


# ---------------------------------------------------------------- constants
def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, float) and v == v and v not in (math.inf, -math.inf) and v == int(v):
        v = int(v)
    if isinstance(v, (int, float)):
        return mk('num', v)
    if isinstance(v, str):
        return mk('str', v)
    return mk('lit', repr(v))


NONE = mk('none')
TRUE = mk('true')
FALSE = mk('false')
UNDEF = mk('undef')
ZERO = const(0)
ONE = const(1)
NAN = mk('ext', 'nan')
INF = mk('ext', 'inf')

_unknown_n = [0]


def unknown(reason):
    _unknown_n[0] += 1
    return mk('unknown', reason, _unknown_n[0])


def is_num(t):
    return t.op == 'num'


def numval(t):
    return t.args[0] if t.op == 'num' else None


# ---------------------------------------------------------------- lifting over decision nodes
LIFT_LIMIT = 96


def leaf_count(t, memo=None):
    if t.op != 'ite':
        return 1
    seen = {}

    def go(u):
        if u.op != 'ite':
            return 1
        if u in seen:
            return seen[u]
        seen[u] = go(u.args[1]) + go(u.args[2])
        return seen[u]
    return go(t)


def lift(f, args):
    '''apply f to args (a list of terms), distributing over decision nodes'''
    tops = [a.args[0] for a in args if a.op == 'ite']
    if not tops:
        return f(*args)
    n = 1
    for a in args:
        n *= leaf_count(a)
    if n > LIFT_LIMIT:
        return f(*args)
    return _lift(f, tuple(args), {})


def _lift(f, args, memo):
    got = memo.get(args)
    if got is not None:
        return got
    tops = [a.args[0] for a in args if a.op == 'ite']
    if not tops:
        r = f(*args)
    else:
        top = min(tops)
        hi = _lift(f, tuple(cof(a, top, True) for a in args), memo)
        lo = _lift(f, tuple(cof(a, top, False) for a in args), memo)
        r = node(top, hi, lo)
    memo[args] = r
    return r


# ---------------------------------------------------------------- decision diagrams
def cof(t, atom, val):
    if t.op == 'ite' and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


def _other_texts(atom):
    '''the decisions that the same value is some other text: false where this one is true'''
    for x, c in (atom.args, atom.args[::-1]):
        if c.op == 'str':
            return [a for a in _texts.get(x, ()) if a is not atom]
    return ()


def node(atom, hi, lo):
    if hi is lo:
        return hi
    if atom.op == 'eq' and hi.op == 'ite':
        for other in _other_texts(atom):
            hi = restrict(hi, other, False)
        if hi is lo:
            return hi
    if hi.op == 'dontcare':
        return lo
    if lo.op == 'dontcare':
        return hi
    if atom.op == 'iszero':
        b = _known_index(atom)
        if b is not None and not (hi.op == 'true' or hi.op == 'false'):
            hi = _at_index(hi, b)
            if hi is lo:
                return hi
    if hi.op == lo.op and hi.op == 'tuple' and hi.args[0] == lo.args[0] and \
            len(hi.args[1]) == len(lo.args[1]):
        return mk('tuple', hi.args[0],
                  tuple(ite(mk('ite', atom, TRUE, FALSE), a, b)
                        for a, b in zip(hi.args[1], lo.args[1])))
    return mk('ite', atom, hi, lo)


def _known_index(atom):
    '''a loop index that the decision gives the value of: (index, value)'''
    p = atom.args[0]
    if p.op != 'poly':
        return None
    best = None
    for m, c in p.args[0]:
        if len(m) == 1 and m[0][0].op == 'bv' and m[0][1] == 1 and c in (1, -1):
            if best is None or m[0][0].id > best[0].id:
                best = m[0][0], c
    if best is None:
        return None
    b, c = best
    rest = {m: -v if c == 1 else v for m, v in p.args[0] if m != ((b, 1),)}
    if any(contains(t, lambda u: u is b) for m in rest for t, _ in m):
        return None
    return b, _mkpoly(rest)


def _at_index(t, known):
    b, v = known

    def f(u):
        if u.op in ('true', 'false', 'num', 'str', 'none', 'sym') or \
                not contains(u, lambda w: w is b):
            return u
        r = subst(u, {b: v})
        return u if r.op == 'ite' else r
    return map_leaves(t, f)


_ite_memo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op != 'ite':
        c = truth(c)
        if c is TRUE or c is FALSE:
            return ite(c, a, b)
    if a is TRUE and b is FALSE:
        return c
    key = (c, a, b)
    got = _ite_memo.get(key)
    if got is not None:
        return got
    if len(_ite_memo) > 3000000:
        raise Unsupported('decision diagram too large')
    top = c.args[0]
    for t in (a, b):
        if t.op == 'ite' and t.args[0].id < top.id:
            top = t.args[0]
    hi = ite(cof(c, top, True), cof(a, top, True), cof(b, top, True))
    lo = ite(cof(c, top, False), cof(a, top, False), cof(b, top, False))
    r = node(top, hi, lo)
    _ite_memo[key] = r
    return r


def atom_bool(t):
    '''a boolean decision on an atomic condition'''
    if t.op == 'exists' and t.args[2] is FALSE:
        return FALSE
    return mk('ite', t, TRUE, FALSE)


def b_not(c):
    return ite(c, FALSE, TRUE)


def b_and(a, b):
    return ite(a, b, FALSE)


def b_or(a, b):
    return ite(a, TRUE, b)


def is_bool(t):
    if t is TRUE or t is FALSE:
        return True
    if t.op != 'ite':
        return False
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'ite':
            st.append(u.args[1])
            st.append(u.args[2])
        elif u is not TRUE and u is not FALSE:
            return False
    return True


def truth(t):
    '''python truth value of t as a decision'''
    if t.op == 'ite':
        if is_bool(t):
            return t
        return lift(truth, [t])
    if t is TRUE or t is FALSE:
        return t
    if t is NONE:
        return FALSE
    if t.op == 'num':
        return TRUE if t.args[0] else FALSE
    if t.op == 'str':
        return TRUE if t.args[0] else FALSE
    if t.op in ('list', 'set', 'dict'):
        return TRUE if t.args[0] else FALSE
    if t.op == 'tuple':
        return TRUE if t.args[1] else FALSE
    if t.op == 'len':
        return b_not(cmp_eq(t, ZERO))
    if t.op == 'comp' and t.args[3] is not TRUE:
        return atom_bool(mk('exists', t.args[0], t.args[1], t.args[3]))
    if t.op == 'fmt' and any(u.op == 'str' and u.args[0] for u in t.args[0]):
        return TRUE
    r = counted(t)
    if r is not None:
        return r
    if t.op in ('closure', 'func', 'class', 'bound', 'lambda', 'obj'):
        return TRUE
    return atom_bool(mk('truth', t))


def counted(t):
    '''the decision that a number of occurrences is not zero'''
    if t.op == 'call' and t.args[0] == 'np.sum' and len(t.args[1]) == 1 and not t.args[2]:
        c = t.args[1][0]
        if c.op == 'comp' and c.args[3] is TRUE and c.args[2].op == 'ite' and \
                all(u is ONE or u is ZERO for u in leaves(c.args[2])):
            return atom_bool(mk('exists', c.args[0], c.args[1],
                                map_leaves(c.args[2], lambda u: TRUE if u is ONE else FALSE)))
    return None


def dd_nodes(t):
    out = []
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'ite':
            out.append(u)
            st.append(u.args[1])
            st.append(u.args[2])
    return out


def leaves(t):
    '''the set of leaves of a decision diagram'''
    out = []
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == 'ite':
            st.append(u.args[1])
            st.append(u.args[2])
        else:
            out.append(u)
    return out


def map_leaves(t, f):
    memo = {}

    def go(u):
        if u in memo:
            return memo[u]
        if u.op == 'ite':
            r = ite(atom_bool(u.args[0]), go(u.args[1]), go(u.args[2]))
        else:
            r = f(u)
        memo[u] = r
        return r
    return go(t)


DONTCARE = mk('dontcare')


def drop_raises(t):
    '''the value on normal completion; raising outcomes become don't-cares'''
    return map_leaves(t, lambda u: DONTCARE if u.op == 'raise' else u)


def assume(t, cond):
    '''t under the assumption that cond (a decision) holds'''
    return ite(cond, t, DONTCARE)


def restrict(t, atom, val):
    memo = {}

    def go(u):
        if u.op != 'ite':
            return u
        if u in memo:
            return memo[u]
        if u.args[0] is atom:
            r = go(u.args[1] if val else u.args[2])
        else:
            r = ite(atom_bool(u.args[0]), go(u.args[1]), go(u.args[2]))
        memo[u] = r
        return r
    return go(t)


def literals(c):
    '''the literals a conjunction-like decision forces: [(atom, value)]'''
    out = []
    if c.op != 'ite':
        return out
    for atom in {d.args[0] for d in dd_nodes(c)}:
        if restrict(c, atom, True) is FALSE:
            out.append((atom, False))
        elif restrict(c, atom, False) is FALSE:
            out.append((atom, True))
    for atom, val in list(out):
        if atom.op == 'isnone' and val:
            out.append((mk('truth', atom.args[0]), False))
        elif atom.op == 'truth' and val:
            out.append((mk('isnone', atom.args[0]), False))
        elif atom.op in ('pos', 'iszero') and val:
            p = atom.args[0]
            for c in (cmp_lt(p, ZERO), cmp_lt(ZERO, p) if atom.op == 'iszero' else
                      cmp_eq(p, ZERO)):
                if c.op == 'ite' and c.args[1] is TRUE and c.args[2] is FALSE:
                    out.append((c.args[0], False))
        elif atom.op == 'eq' and val:
            for c in (cmp_lt(*atom.args), cmp_lt(atom.args[1], atom.args[0])):
                if c.op == 'ite' and c.args[1] is TRUE and c.args[2] is FALSE:
                    out.append((c.args[0], False))
    return out


def restrict_deep(t, lits):
    '''t with the conditions in lits fixed everywhere inside it'''
    if not lits:
        return t
    d = dict(lits)
    memo = {}

    def go(u):
        if u in memo:
            return memo[u]
        if not u.args or u.op in ('num', 'str', 'sym', 'ext'):
            r = u
        elif u.op == 'ite' and u.args[0] in d:
            r = go(u.args[1] if d[u.args[0]] else u.args[2])
        elif not any(v.op == 'ite' and v.args[0] in d for v in subterms(u)):
            r = u
        else:
            r = rebuild(u, go)
        memo[u] = r
        return r
    return go(t)


def constrain_deep(t, cond):
    '''t with every decision inside it simplified by what holds under cond, canonically: two
    decisions that agree wherever cond holds become the same'''
    if cond.op != 'ite':
        return t
    atoms = {d.args[0] for d in dd_nodes(cond)}
    memo = {}

    def strip(u):
        if u.op != 'ite':
            return u
        hi, lo = strip(u.args[1]), strip(u.args[2])
        if hi is DONTCARE:
            return lo
        if lo is DONTCARE:
            return hi
        return node(u.args[0], hi, lo)

    def go(u):
        if u in memo:
            return memo[u]
        if not u.args or u.op in ('num', 'str', 'sym', 'ext'):
            r = u
        elif not any(v.op == 'ite' and v.args[0] in atoms for v in subterms(u)):
            r = u
        else:
            if u.op == 'ite':
                v = strip(ite(cond, u, DONTCARE))
            else:
                v = u
            r = map_leaves(v, lambda x: rebuild(x, go) if x.op != 'ite' and x.args and
                           x.op not in ('num', 'str', 'sym', 'ext') else x)
        memo[u] = r
        return r
    return map_leaves(t, lambda x: rebuild(x, go) if x.args and
                      x.op not in ('num', 'str', 'sym', 'ext') else x)


def implies(a, b):
    '''decision a implies decision b (b-atoms syntactically canonical)'''
    return b_and(a, b_not(b)) is FALSE


# ---------------------------------------------------------------- polynomials
def _poly(t):
    '''term -> dict monomial -> coeff'''
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return {m: c for (m, c) in t.args[0]}
    if t is TRUE:
        return {(): 1}
    if t is FALSE:
        return {}
    return {((t, 1),): 1}


def _norm_num(c):
    if isinstance(c, float) and c == c and c not in (math.inf, -math.inf) and c == int(c):
        return int(c)
    return c


def _mkpoly(d):
    d = {m: _norm_num(c) for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if any(a.op == 'mod' or a.op == 'floordiv' for m in d for a, _ in m):
        r = _remainders(d)
        if r is not None:
            return _mkpoly(r)
    items = tuple(sorted(d.items(), key=lambda kv: tuple((t.id, e) for t, e in kv[0])))
    return mk('poly', items)


def _remainders(d):
    '''y * (x // y) + x % y is x, where that makes the sum shorter'''
    for m, c in d.items():
        for i, (a, k) in enumerate(m):
            if k != 1 or a.op not in ('mod', 'floordiv'):
                continue
            x, y = a.args
            rest = {m[:i] + m[i + 1:]: c}
            if a.op == 'mod':
                other = _mulp(rest, _mulp(_poly(y), {((mk('floordiv', x, y), 1),): 1}))
            else:
                py = _poly(y)
                if len(py) != 1:
                    continue
                (n, b), = py.items()
                if b == 0:
                    continue
                dv = dict(m[:i] + m[i + 1:])
                if any(dv.get(t, 0) < e for t, e in n) or not n or c % b:
                    continue
                for t, e in n:
                    dv[t] -= e
                rest = {tuple(sorted(((t, e) for t, e in dv.items() if e),
                                     key=lambda te: te[0].id)): c // b}
                other = _mulp(rest, {((mk('mod', x, y), 1),): 1})
            new = dict(d)
            new.pop(m)
            for sign, p in ((1, _mulp(rest, _poly(x))), (-1, other)):
                for mm, cc in p.items():
                    new[mm] = new.get(mm, 0) + sign * cc
            new = {mm: cc for mm, cc in new.items() if cc != 0}
            if len(new) < len(d):
                return new
    return None


def _mulp(p, q):
    out = {}
    for m, c in p.items():
        for n, b in q.items():
            e = dict(m)
            for t, k in n:
                e[t] = e.get(t, 0) + k
            key = tuple(sorted(((t, k) for t, k in e.items() if k), key=lambda te: te[0].id))
            out[key] = out.get(key, 0) + c * b
    return out


def _is_seq(t):
    return t.op in ('list', 'comp', 'flat', 'concat')


def _is_str(t):
    return t.op in ('str', 'fmt')


def add(a, b):
    return lift(_add, [a, b])


def _add(a, b):
    if _is_str(a) or _is_str(b):
        return concat_str([to_part(a), to_part(b)])
    if _is_seq(a) or _is_seq(b):
        return concat_list(a, b)
    if a.op == 'tuple' and b.op == 'tuple' and a.args[0] == '' and b.args[0] == '':
        return mk('tuple', '', a.args[1] + b.args[1])
    if (a is NAN and b.op == 'num') or (b is NAN and a.op == 'num') or a is NAN and b is NAN:
        return NAN
    d = dict(_poly(a))
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return lift(lambda x, y: _add(x, neg(y)) if not (_is_str(x) or _is_seq(x)) else
                mk('call', 'sub', (x, y), ()), [a, b])


def mul(a, b):
    return lift(_mul, [a, b])


def _mul(a, b):
    if _is_seq(a) or _is_seq(b) or _is_str(a) or _is_str(b) or a.op == 'tuple' or b.op == 'tuple':
        return mk('call', 'repeat_seq', tuple(sorted((a, b))), ())
    pa, pb = _poly(a), _poly(b)
    # (x / p) * p for a polynomial p
    for u, pu, w in ((a, pa, b), (b, pb, a)):
        if w.op == 'poly' and pu and all((w, -1) in m for m in pu):
            return _mkpoly({tuple(x for x in m if x != (w, -1)): c for m, c in pu.items()})
    if len(pa) * len(pb) > 200:
        raise Unsupported('polynomial too large')
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            e = {}
            for t, k in m1 + m2:
                e[t] = e.get(t, 0) + k
            m = tuple(sorted(((t, k) for t, k in e.items() if k != 0),
                             key=lambda tk: (tk[0].id, tk[1])))
            d[m] = d.get(m, 0) + c1 * c2
    return _mkpoly(d)


def div(a, b):
    return lift(_div, [a, b])


def _div(a, b):
    if b.op == 'num':
        if b.args[0] == 0:
            return mk('call', 'div', (a, b), ())
        v = b.args[0]
        if a.op == 'num' and isinstance(a.args[0], int) and isinstance(v, int) and \
                a.args[0] % v == 0:
            return const(a.args[0] // v)
        return _mul(a, const(1.0 / v))
    pb = _poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = _mkpoly({tuple((t, -k) for t, k in m): 1})
        if c != 1:
            inv = _mul(inv, const(1.0 / c))
        return _mul(a, inv)
    return _mul(a, _mkpoly({((b, -1),): 1}))


def power(a, n):
    if n.op == 'num' and isinstance(n.args[0], int) and 0 <= n.args[0] <= 4:
        r = ONE
        for _ in range(n.args[0]):
            r = mul(r, a)
        return r
    if n.op == 'num':
        return lift(lambda x: _mkpoly({((x, n.args[0]),): 1}) if x.op not in ('num', 'poly')
                    else mk('call', 'pow', (x, n), ()), [a])
    return lift(lambda x, y: mk('call', 'pow', (x, y), ()), [a, n])


def floordiv(a, b):
    def f(x, y):
        if is_num(x) and is_num(y) and y.args[0] != 0:
            return const(x.args[0] // y.args[0])
        if y is ONE:
            return x
        return mk('floordiv', x, y)
    return lift(f, [a, b])


def mod(a, b):
    def f(x, y):
        if is_num(x) and is_num(y) and y.args[0] != 0:
            return const(x.args[0] % y.args[0])
        # i - (i // n) * n style remainders are recognised in trunc/poly comparison
        return mk('mod', x, y)
    return lift(f, [a, b])


def trunc(x):
    '''int(x): on the index arithmetic of this code base, int(a / b) is a // b'''
    def f(t):
        if t.op == 'num':
            return const(int(t.args[0])) if t.args[0] == t.args[0] else t
        if t.op == 'poly':
            dens = {}
            for m, c in t.args[0]:
                for a, k in m:
                    if k == -1:
                        dens[a] = dens.get(a, 0) + 1
                    elif k < -1:
                        return mk('call', 'int', (t,), ())
            cands = [a for a, n in dens.items() if n == len(t.args[0])]
            if len(dens) == len(cands) and cands:
                den = ONE
                for a in cands:
                    den = _mul(den, a)
                num = ZERO
                for m, c in t.args[0]:
                    num = _add(num, _mkpoly({tuple((a, k) for a, k in m
                                                   if not (k == -1 and a in cands)): c}))
                return floordiv(num, den)
            if not dens:
                ints = all(isinstance(c, int) for _, c in t.args[0])
                if ints and all(a.op in ('floordiv', 'mod', 'len', 'bv') for m, c in t.args[0]
                                for a, k in m):
                    return t
                # int(n / 4) for a constant divisor
                qs = [q for q in (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 24, 32, 64, 365)
                      if all((c * q) == int(c * q) for _, c in t.args[0])]
                if qs and not ints:
                    return floordiv(_mkpoly({m: int(c * qs[0]) for m, c in t.args[0]}),
                                    const(qs[0]))
            return mk('call', 'int', (t,), ())
        if t.op in ('floordiv', 'len', 'bv', 'mod'):
            return t
        if t.op == 'call' and t.args[0] == 'int':
            return t
        if t is TRUE:
            return ONE
        if t is FALSE:
            return ZERO
        return mk('call', 'int', (t,), ())
    return lift(f, [x])


# ---------------------------------------------------------------- comparisons
def _numeric_like(t):
    return t.op in ('num', 'poly', 'sym', 'attr', 'index', 'len', 'call', 'mcall', 'floordiv',
                    'mod', 'bv', 'lv', 'sum', 'ext', 'fold', 'last')


def cmp_lt(a, b):
    def f(x, y):
        if x is NAN or y is NAN:
            return FALSE
        if is_num(x) and is_num(y):
            return TRUE if x.args[0] < y.args[0] else FALSE
        if _numeric_like(x) and _numeric_like(y) and INF not in (x, y):
            d = _add(y, neg(x))
            if d.op == 'num':
                return TRUE if d.args[0] > 0 else FALSE
            r = counted(d)
            if r is None:
                r = counted(_add(ONE, neg(d)))
                r = None if r is None else b_not(r)
            if r is not None:
                return r
            # positive scaling is irrelevant to the sign
            if d.op == 'poly':
                c0 = abs(d.args[0][0][1])
                if c0 != 1:
                    d = _mul(d, const(1.0 / c0))
            return atom_bool(mk('pos', d))
        return atom_bool(mk('lt', x, y))
    return lift(f, [a, b])


def cmp_le(a, b):
    return lift(lambda x, y: FALSE if x is NAN or y is NAN else b_not(cmp_lt(y, x)), [a, b])


_DISTINCT = ('num', 'str', 'none', 'true', 'false')


def cmp_eq(a, b):
    def f(x, y):
        if x is NAN or y is NAN:
            return FALSE
        if x is y:
            return TRUE
        if x is NONE or y is NONE:
            other = y if x is NONE else x
            return is_none(other)
        if x.op in _DISTINCT and y.op in _DISTINCT:
            if {x.op, y.op} <= {'num', 'true', 'false'} and x.op != y.op:
                vx = _poly(x).get((), 0)
                vy = _poly(y).get((), 0)
                return TRUE if vx == vy else FALSE
            return FALSE
        if x is ZERO or y is ZERO:
            r = counted(y if x is ZERO else x)
            if r is not None:
                return b_not(r)
        if x is TRUE or y is TRUE:
            return truth(y if x is TRUE else x)
        if x is FALSE or y is FALSE:
            return b_not(truth(y if x is FALSE else x))
        if x.op == 'tuple' and y.op == 'tuple':
            if len(x.args[1]) != len(y.args[1]):
                return FALSE
            r = TRUE
            for p, q in zip(x.args[1], y.args[1]):
                r = b_and(r, cmp_eq(p, q))
            return r
        if _numeric_like(x) and _numeric_like(y) and (x.op in ('num', 'poly') or
                                                      y.op in ('num', 'poly')):
            d = _add(x, neg(y))
            if d.op == 'num':
                return TRUE if d.args[0] == 0 else FALSE
            if d.op == 'poly':
                c0 = d.args[0][0][1]
                if c0 != 1:
                    d = _mul(d, const(1.0 / c0))
            return atom_bool(mk('iszero', d))
        if x.op in ('str', 'fmt') and y.op in ('str', 'fmt'):
            x, y = _text_diff(x, y)
            if x.op == 'str' and y.op == 'str':
                return TRUE if x is y else FALSE
        if x.id > y.id:
            x, y = y, x
        return atom_bool(mk('eq', x, y))
    return lift(f, [a, b])


def _text_diff(x, y):
    '''what remains of two texts without their common beginning and end'''
    def parts(t):
        return [t] if t.op == 'str' else list(t.args[0])

    def strip(p, q, end):
        while p and q:
            u, v = p[end], q[end]
            if u is v:
                p.pop(end)
                q.pop(end)
                continue
            if u.op != 'str' or v.op != 'str':
                break
            a, b = u.args[0], v.args[0]
            n = 0
            while n < min(len(a), len(b)) and (a[n] == b[n] if end == 0 else a[-1 - n] == b[-1 - n]):
                n += 1
            if not n:
                break
            for l, t in ((p, a), (q, b)):
                t = t[n:] if end == 0 else t[:len(t) - n]
                if t:
                    l[end] = const(t)
                else:
                    l.pop(end)
            if n < min(len(a), len(b)):
                break

    def text(l):
        if not l:
            return const('')
        return l[0] if len(l) == 1 and l[0].op == 'str' else mk('fmt', tuple(l))
    p, q = parts(x), parts(y)
    strip(p, q, 0)
    strip(p, q, -1)
    # different characters at an end: the texts differ
    for end in (0, -1):
        if p and q and p[end].op == 'str' and q[end].op == 'str' and p[end].args[0] and q[end].args[0] \
                and p[end].args[0][end] != q[end].args[0][end]:
            return const('a'), const('b')
    return text(p), text(q)


NOT_NONE_OPS = ('num', 'str', 'fmt', 'list', 'tuple', 'dict', 'set', 'comp', 'flat', 'concat',
                'obj', 'closure', 'func', 'class', 'bound', 'lambda', 'poly', 'true', 'false',
                'len', 'sum', 'ref', 'floordiv', 'mod', 'bv', 'slice', 'lit', 'partial')


def _stored_in(x):
    '''the object whose elements a loop stores into (its identity does not change)'''
    for c, init, nxt in x.args[2]:
        if c is x.args[3]:
            u = nxt
            while u.op == 'store':
                u = u.args[0]
            return init if u is c and nxt is not c else None
    return None


def is_none(t):
    def f(x):
        if x is NONE:
            return TRUE
        if x.op in NOT_NONE_OPS or x is NAN or x is INF:
            return FALSE
        if x.op == 'call' and x.args[0].startswith(('np.', 'new:')):
            return FALSE
        if x.op == 'store' or x.op == 'index' and any(
                i.op == 'slice' for i in _idx_items(x.args[1])):
            return FALSE
        if x.op == 'fold':
            base = _stored_in(x)
            if base is not None:
                return is_none(base)
        return atom_bool(mk('isnone', x))
    return lift(f, [t])


# ---------------------------------------------------------------- strings
def to_part(t, conv='s', spec=''):
    '''a string part for the value t'''
    def f(x):
        if x.op == 'fmt' and conv == 's' and not spec:
            return x
        if x.op == 'str':
            if conv == 's' and not spec:
                return x
            if conv == 'r' and not spec:
                return const(repr(x.args[0]))
        if x.op == 'num' and isinstance(x.args[0], int) and not spec:
            return const(str(x.args[0]))
        if x.op == 'num' and not spec:
            return const(repr(float(x.args[0])))
        if x in (TRUE, FALSE, NONE) and not spec:
            return const({TRUE: 'True', FALSE: 'False', NONE: 'None'}[x])
        return mk('fmt', (mk('conv', conv, spec, x),))
    return lift(f, [t])


def concat_str(parts):
    def f(*ps):
        out = []
        for p in ps:
            sub_ = p.args[0] if p.op == 'fmt' else (p,)
            for q in sub_:
                if q.op not in ('str', 'conv'):
                    q = mk('conv', 's', '', q)
                if q.op == 'str' and out and out[-1].op == 'str':
                    out[-1] = const(out[-1].args[0] + q.args[0])
                elif q.op == 'str' and q.args[0] == '':
                    continue
                else:
                    out.append(q)
        if not out:
            return const('')
        if len(out) == 1 and out[0].op == 'str':
            return out[0]
        if len(out) == 1 and out[0].op == 'conv' and out[0].args[:2] == ('s', ''):
            v = out[0].args[2]
            if v.op == 'mcall' and v.args[1] == 'join' and v.args[0].op == 'str':
                return v
        return mk('fmt', tuple(out))
    if not parts:
        return const('')
    return lift(f, list(parts))


# ---------------------------------------------------------------- sequences
def concat_list(a, b):
    def f(x, y):
        xs = x.args[0] if x.op == 'concat' else (x,)
        ys = y.args[0] if y.op == 'concat' else (y,)
        out = []
        for p in xs + ys:
            if p.op == 'list' and not p.args[0]:
                continue
            if out and out[-1].op == 'list' and p.op == 'list':
                out[-1] = mk('list', out[-1].args[0] + p.args[0])
            else:
                out.append(p)
        if not out:
            return mk('list', ())
        if len(out) == 1:
            return out[0]
        return mk('concat', tuple(out))
    return lift(f, [a, b])


def tup(*items):
    return mk('tuple', '', tuple(items))


NDIMS = {}      # symbolic arrays of known number of dimensions (set by the interpreter)


def rank(t):
    '''the number of dimensions of an elementwise expression over arrays, None if not known'''
    if t.op == 'sym' and t.args[0] in NDIMS:
        k = NDIMS[t.args[0]]
        return len(k) if isinstance(k, tuple) else k
    if t.op in ('num', 'ext', 'true', 'false') or t.op == 'call' and t.args[0] in (
            'np.nanmin', 'np.nanmax', 'np.min', 'np.max', 'np.mean', 'np.sum') and \
            len(t.args[1]) == 1 and not t.args[2]:
        return 0
    if t.op in ('poly', 'mask', 'eq', 'lt', 'not', 'and', 'or', 'cmp') or is_bool(t):
        ks = [rank(u) for u in children(t)]
        return None if None in ks else max(ks, default=0)
    return None


def length(t):
    def f(x):
        if x.op == 'list' or x.op == 'set':
            return const(len(x.args[0]))
        if x.op == 'tuple':
            return const(len(x.args[1]))
        if x.op == 'dict':
            return const(len(x.args[0]))
        if x.op == 'str':
            return const(len(x.args[0]))
        if x.op == 'comp':
            if x.args[3] is TRUE:
                return x.args[0]
            n, b, _, c = x.args
            return mk('call', 'np.sum', (mk('comp', n, b, ite(c, ONE, ZERO), TRUE),), ())
        if x.op == 'concat':
            r = ZERO
            for p in x.args[0]:
                r = add(r, length(p))
            return r
        if x.op == 'range':
            return sub(x.args[1], x.args[0])
        if x.op == 'store':
            return length(x.args[0])
        if x.op == 'call' and x.args[0] in ('sorted', 'list', 'reversed', 'dict.keys', 'dict.values',
                                            'dict.items') and x.args[1]:
            return length(x.args[1][0])
        if x.op == 'call' and x.args[0] in ('np.where', 'np.nonzero') and len(x.args[1]) == 1 and \
                x.args[1][0].op == 'mask' and rank(x.args[1][0]):
            return const(rank(x.args[1][0]))
        if x.op == 'sym' and x.args[0] in NDIMS:
            k = NDIMS[x.args[0]]
            return k[0] if isinstance(k, tuple) else index(mk('attr', x, 'shape'), ZERO)
        if x.op == 'index':
            u = _idx_items(x.args[1])
            if arraylike(u[0]) and all(v is _FULL for v in u[1:]):
                n = vector_length(u[0])
                if n is not None:
                    return n
        if x.op == 'call':
            n = vector_length(x)
            if n is not None:
                return n
        return mk('len', x)
    return lift(f, [t])


# ---------------------------------------------------------------- generic rebuild
def rebuild(t, f):
    '''rebuild one level with children mapped through f, re-normalising'''
    op, a = t.op, t.args
    if op == 'poly':
        r = ZERO
        for m, c in a[0]:
            p = const(c)
            for b, e in m:
                nb = f(b)
                if e > 0 and isinstance(e, int):
                    for _ in range(e):
                        p = mul(p, nb)
                elif isinstance(e, int):
                    for _ in range(-e):
                        p = div(p, nb)
                else:
                    p = mul(p, power(nb, const(e)))
            r = add(r, p)
        return r
    if op == 'ite':
        return ite(rebuild_atom(a[0], f), f(a[1]), f(a[2]))
    if op == 'pos':
        return rebuild_atom(t, f)
    if op == 'floordiv':
        return floordiv(f(a[0]), f(a[1]))
    if op == 'mod':
        return mod(f(a[0]), f(a[1]))
    if op == 'len':
        return length(f(a[0]))
    if op == 'fmt':
        return concat_str([to_part(f(p.args[2]), p.args[0], p.args[1]) if p.op == 'conv' else p
                           for p in a[0]])
    if op == 'concat':
        r = mk('list', ())
        for p in a[0]:
            r = concat_list(r, f(p))
        return r
    if op == 'index':
        return index(f(a[0]), f(a[1]))
    return mk(op, *[_rb(x, f) for x in a])


def rebuild_atom(t, f):
    op, a = t.op, t.args
    if op == 'pos':
        d = f(a[0])
        return cmp_lt(ZERO, d)
    if op == 'iszero':
        return cmp_eq(f(a[0]), ZERO)
    if op == 'eq':
        return cmp_eq(f(a[0]), f(a[1]))
    if op == 'lt':
        return cmp_lt(f(a[0]), f(a[1]))
    if op == 'isnone':
        return is_none(f(a[0]))
    if op == 'truth':
        return truth(f(a[0]))
    return atom_bool(mk(op, *[_rb(x, f) for x in a]))


def _rb(x, f):
    if isinstance(x, Term):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_rb(y, f) for y in x)
    return x


def children(t):
    out = []

    def go(x):
        if isinstance(x, Term):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    for x in t.args:
        go(x)
    return out


def subterms(t):
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        st.extend(children(u))


def contains(t, pred):
    return any(pred(u) for u in subterms(t))


def occurs(t, x):
    return any(u is x for u in subterms(t))


def subst(t, mapping):
    '''mapping: Term -> Term'''
    memo = {}
    keys = set(mapping)

    def go(u):
        if u in memo:
            return memo[u]
        if u in mapping:
            r = mapping[u]
        elif not u.args or u.op in ('num', 'str', 'sym'):
            r = u
        elif not any(v in keys for v in subterms(u)):
            r = u
        else:
            r = rebuild(u, go)
        memo[u] = r
        return r
    return go(t)


# ---------------------------------------------------------------- indexing
def _has_slice(i):
    if i.op == 'slice':
        return True
    if i.op == 'tuple':
        return any(_has_slice(x) for x in i.args[1])
    if i.op in ('list', 'comp', 'ext', 'none'):
        return True
    return False


def _idx_items(i):
    return i.args[1] if i.op == 'tuple' else (i,)


def _text_slice(o, i):
    '''a slice that cuts only the constant ends of a formatted text'''
    ks = [None if s is NONE else numval(s) for s in i.args]
    if not all((s is NONE) == (k is None) and (k is None or isinstance(k, int))
               for s, k in zip(i.args, ks)) or ks[2] not in (None, 1):
        return None
    if o.op == 'str':
        return const(o.args[0][slice(*ks)])
    parts = list(o.args[0])
    a, b = ks[0] or 0, ks[1]
    if b is not None:
        if b >= 0 and parts[0].op == 'str' and b <= len(parts[0].args[0]):
            return const(parts[0].args[0][a:b]) if a >= 0 else None
        if b >= 0 or parts[-1].op != 'str' or -b > len(parts[-1].args[0]):
            return None
        parts[-1] = const(parts[-1].args[0][:b])
    if a:
        if a < 0 or parts[0].op != 'str' or a > len(parts[0].args[0]):
            return None
        parts[0] = const(parts[0].args[0][a:])
    return concat_str(parts)


def _reshaped_cell(u, dims, i):
    items = list(_idx_items(i))
    full = mk('slice', NONE, NONE, NONE)
    while len(items) < len(dims):
        items.append(full)
    if len(items) != len(dims) or any(is_num(d) and d.args[0] < 0 for d in dims):
        return None
    rest = ONE
    for d in dims[1:]:
        rest = mul(rest, d)
    point = not any(_has_slice(x) for x in items[1:])
    if u.op == 'call' and u.args[0] == 'np.repeat' and len(u.args[1]) == 2 and point:
        v, n = u.args[1]
        if n is mul(dims[0], rest) and not _has_slice(items[0]):
            return v
        if n is rest:
            return v if items[0] is full else index(v, items[0])
    # [v, v, ..., None] as objects without the last
    if u.op == 'index' and u.args[1].op == 'slice' and u.args[1].args[0] is NONE and \
            numval(u.args[1].args[1]) == -1 and u.args[0].op == 'call' and \
            u.args[0].args[0] == 'np.array' and len(u.args[0].args[1]) == 2:
        c, dt = u.args[0].args[1]
        if c.op == 'concat' and len(c.args[0]) == 2 and c.args[0][0].op == 'comp' and \
                c.args[0][1].op == 'list' and c.args[0][1].args[0] == (NONE,) and \
                dt.op in ('ext', 'sym') and dt.args[0] == 'object' and point and \
                not _has_slice(items[0]):
            n, b, body, cond = c.args[0][0].args
            if cond is TRUE and n is mul(dims[0], rest) and len(dims) == 2:
                return subst(body, {b: add(mul(items[0], dims[1]), items[1])})
    return None


ARRAY_CALLS = {'np.where', 'np.nonzero', 'np.flatnonzero', 'np.argwhere', 'np.arange', 'np.array',
               'np.argsort', 'np.zeros', 'np.ones', 'np.empty', 'np.full', 'grid', 'np.unique',
               'np.transpose', 'np.reshape', 'list', 'range', 'sorted', 'zip', 'np.random.choice'}


def vector_length(x):
    '''the number of elements of a one-dimensional array, where known'''
    if x.op in ('comp', 'list', 'range', 'concat'):
        return length(x)
    if x.op == 'sym' and NDIMS.get(x.args[0]) == 1:
        return length(x)
    if x.op == 'call' and x.args[0] == 'np.random.choice' and len(x.args[1]) > 1:
        return x.args[1][1]
    return None


_FULL = mk('slice', NONE, NONE, NONE)


def arraylike(x):
    '''an index that selects several elements'''
    if x.op == 'sym':
        return x.args[0] in NDIMS
    if x.op in ('mask', 'comp', 'list', 'concat', 'range', 'flat', 'set'):
        return True
    if x.op == 'call':
        return x.args[0] in ARRAY_CALLS or (
            x.args[0] in ('np.argmin', 'np.argmax', 'np.sum', 'np.mean') and
            (len(x.args[1]) > 1 or bool(x.args[2])))
    if x.op == 'index':
        o, i = x.args
        if o.op == 'call' and o.args[0] in ('np.where', 'np.nonzero'):
            return len(_idx_items(i)) == 1
        return any(arraylike(y) or y.op == 'slice' for y in _idx_items(i))
    if x.op == 'poly':
        return any(arraylike(c) for c in children(x))
    return False


def _grid_cell(o, i):
    pat, body = o.args[1][0].args[0], o.args[1][3]
    items = list(_idx_items(i))
    full = mk('slice', NONE, NONE, NONE)
    while len(items) < len(pat):
        items.append(full)
    if len(items) != len(pat):
        return None
    rest = []
    for p, x in zip(pat, items):
        if p == ':':
            rest.append(x)
        elif _has_slice(x) or (is_num(x) and x.args[0] < 0) or x.op == 'bool' or arraylike(x):
            return None
        else:
            body = subst(body.args[2], {body.args[1]: x})
    if all(x is full for x in rest):
        return body
    return index(body, rest[0] if len(rest) == 1 else mk('tuple', '', tuple(rest)))


def index(o, i):
    if i.op == 'tuple' and i.args[1] and i.args[1][-1] is _FULL:
        # trailing full slices select everything that is left
        items = list(i.args[1])
        while len(items) > 1 and items[-1] is _FULL:
            items.pop()
        i = items[0] if len(items) == 1 else mk('tuple', '', tuple(items))
    return lift(_index, [o, i])


def countable(t):
    '''a sum of loop counters, lengths and positive constants'''
    if t.op == 'num':
        return t.args[0] >= 0
    if t.op in ('bv', 'len'):
        return True
    return t.op == 'poly' and all(c >= 0 and all(countable(u) for u, _ in m) for m, c in t.args[0])


def _index(o, i):
    if i.op == 'call' and i.args[0] in ('np.argmin', 'np.argmax') and len(i.args[1]) == 1 and \
            not i.args[2] and i.args[1][0] is o:
        return mk('call', 'np.min' if i.args[0] == 'np.argmin' else 'np.max', (o,), ())
    if o.op == 'call' and o.args[0] == 'np.partition' and len(o.args[1]) == 2 and \
            o.args[1][1] is i and is_num(i) and not o.args[2]:
        return index(mk('call', 'sorted', (o.args[1][0],), ()), i)
    if o.op in ('list', 'tuple'):
        items = o.args[0] if o.op == 'list' else o.args[1]
        if is_num(i) and isinstance(i.args[0], int) and -len(items) <= i.args[0] < len(items):
            return items[i.args[0]]
        if i.op == 'slice':
            ks = [None if s is NONE else numval(s) for s in i.args]
            if all(k is None or isinstance(k, int) for k in ks) and \
                    all((s is NONE) == (k is None) for s, k in zip(i.args, ks)):
                sel = items[slice(*ks)]
                return mk('list', tuple(sel)) if o.op == 'list' else mk('tuple', '', tuple(sel))
    if o.op == 'index' and o.args[1].op == 'slice' and is_num(i) and isinstance(i.args[0], int):
        # [lo:lo + n][i], both beyond the end or neither
        lo, hi, step = o.args[1].args
        n = None if hi is NONE or lo is NONE else numval(sub(hi, lo))
        if step is NONE and n is not None and 0 <= i.args[0] < n and countable(lo):
            return index(o.args[0], add(lo, i))
    if o.op in ('str', 'fmt') and i.op == 'slice':
        r = _text_slice(o, i)
        if r is not None:
            return r
    if o.op == 'dict':
        for k, v in o.args[0]:
            if k is i:
                return v
        if i.op in ('str', 'fmt'):
            same = [(v, cmp_eq(k, i)) for k, v in o.args[0]]
            if all(c is TRUE or c is FALSE for _, c in same) and any(c is TRUE for _, c in same):
                return [v for v, c in same if c is TRUE][-1]
    if o.op == 'store':
        if o.args[1] is i:
            return o.args[2]
        a, b = o.args[1], i
        if a.op in ('num', 'str') and b.op in ('num', 'str') and a is not b:
            return index(o.args[0], i)
        if a.op == 'tuple' and b.op == 'tuple' and len(a.args[1]) == len(b.args[1]) and \
                all(is_num(u) and is_num(v) for u, v in zip(a.args[1], b.args[1])):
            if a.args[1] == b.args[1]:
                return o.args[2]
            return index(o.args[0], i)
    if o.op == 'call' and o.args[0] == 'np.array' and len(o.args[1]) == 1 and not o.args[2] and \
            o.args[1][0].op == 'comp' and o.args[1][0].args[2].op not in ('tuple', 'list', 'obj') \
            and not arraylike(i) and i.op != 'tuple':
        return index(o.args[1][0], i)
    if o.op == 'comp' and o.args[3] is TRUE and i.op not in ('slice', 'tuple'):
        n, bvar, body, _ = o.args
        if not (is_num(i) and i.args[0] < 0) and not arraylike(i):
            return subst(body, {bvar: i})
    if o.op == 'call' and o.args[0] == 'range' and len(o.args[1]) == 3 and \
            i.op not in ('slice', 'tuple', 'num') and not arraylike(i):
        return add(o.args[1][0], mul(o.args[1][2], i))
    if o.op == 'attr' and o.args[1] == 'shape' and i.op == 'slice' and i.args[0] in (NONE, ZERO) \
            and is_num(i.args[1]) and i.args[1].args[0] == 2 and i.args[2] is NONE:
        # the first two dimensions of something that has at least two
        return tup(index(o, ZERO), index(o, ONE))
    if o.op == 'attr' and o.args[1] == 'shape' and is_num(i) and i.args[0] < 0:
        return index(o, add(mk('attr', o.args[0], 'ndim'), i))
    if o.op == 'range' and i.op not in ('slice', 'tuple') and not arraylike(i):
        if not (is_num(i) and i.args[0] < 0):
            return add(o.args[0], i)
    if o.op == 'call' and o.args[0] == 'grid':
        r = _grid_cell(o, i)
        if r is not None:
            return r
    if o.op == 'call' and o.args[0] == 'np.reshape' and len(o.args[1]) == 2 and \
            o.args[1][1].op == 'tuple':
        r = _reshaped_cell(o.args[1][0], o.args[1][1].args[1], i)
        if r is not None:
            return r
    if o.op == 'call' and o.args[0] in ('np.empty', 'np.zeros', 'np.ones') and o.args[1] and \
            i.op in ('tuple', 'num', 'bv') and o.args[1][0].op == 'tuple' and \
            len(_idx_items(i)) == len(o.args[1][0].args[1]) and \
            all(u.op in ('num', 'bv') for u in _idx_items(i)):
        return {'np.zeros': ZERO, 'np.ones': ONE}.get(o.args[0]) or mk('ext', 'uninitialised')
    if o.op == 'call' and o.args[0] == 'np.array' and len(o.args[1]) == 1 and not o.args[2] and \
            o.args[1][0].op == 'list' and is_num(i):
        r = _index(o.args[1][0], i)
        if r.op not in ('index', 'list', 'comp', 'tuple', 'ref'):
            return r
    if o.op == 'call' and o.args[0] == 'best.at' and not arraylike(i) and not _has_slice(i):
        # an element of what goes with the best is what goes with the best
        n, b, body, cond = o.args[1][3].args
        none = o.args[1][4]
        if body.op in ('tuple', 'list') and (none is NONE or none.op in ('tuple', 'list')):
            return mk('call', 'best.at', o.args[1][:3] + (
                mk('comp', n, b, index(body, i), cond),
                none if none is NONE else index(none, i)), ())
    # an array filled with one function holds it everywhere
    if o.op == 'call' and o.args[0] == 'np.reshape' and o.args[1] and not _has_slice(i):
        u = o.args[1][0]
        if u.op == 'call' and u.args[0] == 'np.array' and u.args[1]:
            u = u.args[1][0]
        if u.op == 'comp' and u.args[3] is TRUE and \
                u.args[2].op in ('ext', 'func', 'closure', 'bound', 'partial') and \
                not occurs(u.args[2], u.args[1]):
            return u.args[2]
    # a[list][j] is a[list[j]]
    if o.op == 'index' and not _has_slice(i) and not any(arraylike(u) for u in _idx_items(i)):
        a, b = _idx_items(o.args[1]), _idx_items(i)
        if arraylike(a[0]) and a[0].op != 'mask' and len(b) <= len(a) and \
                all(u is _FULL for u in a[1:]):
            return index(o.args[0], index(a[0], b[0]) if len(b) == 1 else
                         mk('tuple', '', (index(a[0], b[0]),) + b[1:]))
    # a[i][j] is a[i, j] unless the first index selects a sub-array by slice or list
    if o.op == 'index' and not any(arraylike(u) for u in _idx_items(o.args[1])) and not _has_slice(o.args[1]) and not _has_slice(i):
        return mk('index', o.args[0], mk('tuple', '', _idx_items(o.args[1]) + _idx_items(i)))
    # a slice of a slice along different dimensions is one slice
    if o.op == 'index' and o.args[0].op != 'index' and _has_slice(o.args[1]):
        full = mk('slice', NONE, NONE, NONE)
        a, b = _idx_items(o.args[1]), _idx_items(i)
        if all(u.op == 'slice' for u in a):
            n = max(len(a), len(b))
            a, b = a + (full,) * (n - len(a)), b + (full,) * (n - len(b))
            if all(u is full or v is full for u, v in zip(a, b)) and \
                    all(v.op in ('slice', 'num', 'poly', 'sym', 'attr', 'bv', 'lv') for v in b):
                return _index(o.args[0], mk('tuple', '', tuple(
                    v if u is full else u for u, v in zip(a, b))))
    if i.op == 'tuple' and len(i.args[1]) == 1:
        i = i.args[1][0]
    # trailing full slices select everything that is left
    if i.op == 'tuple':
        items = list(i.args[1])
        full = mk('slice', NONE, NONE, NONE)
        while len(items) > 1 and items[-1] is full:
            items.pop()
        i = items[0] if len(items) == 1 else mk('tuple', i.args[0], tuple(items))
        if i.op == 'tuple' and i.args[0]:
            i = mk('tuple', '', i.args[1])
    return mk('index', o, i)


def dict_of(items):
    items = tuple(items)
    if not any(k.op == 'ite' for k, _ in items):
        return mk('dict', items)
    n = len(items)
    return lift(lambda *kv: mk('dict', tuple(zip(kv[:n], kv[n:]))),
                [k for k, _ in items] + [v for _, v in items])


def store(o, i, v):
    if o.op == 'dict' and i.op == 'ite':
        return lift(lambda k, x: store(o, k, x), [i, v])
    if o.op == 'dict' and not o.args[0] and i.op != 'slice':
        return mk('dict', ((i, v),))
    if o.op == 'dict' and i.op == 'fmt':
        same = [cmp_eq(k, i) for k, _ in o.args[0]]
        if all(c is FALSE for c in same):
            return mk('dict', o.args[0] + ((i, v),))
        if all(c is TRUE or c is FALSE for c in same):
            return mk('dict', tuple((k, v if c is TRUE else x) for c, (k, x) in zip(same, o.args[0])))
    if o.op == 'dict' and i.op in ('str', 'num'):
        items = [(k, x) for k, x in o.args[0] if k is not i]
        if all(k.op in ('str', 'num') for k, _ in items):
            pos = [k for k, _ in o.args[0]]
            if i in pos:
                return mk('dict', tuple((k, v if k is i else x) for k, x in o.args[0]))
            return mk('dict', tuple(items + [(i, v)]))
    if o.op == 'list' and is_num(i) and isinstance(i.args[0], int) and \
            -len(o.args[0]) <= i.args[0] < len(o.args[0]):
        items = list(o.args[0])
        items[i.args[0]] = v
        return mk('list', tuple(items))
    if o.op == 'list' and i.op == 'slice' and v.op in ('list', 'tuple') and \
            all(x is NONE or is_num(x) and isinstance(x.args[0], int) for x in i.args[:2]) and \
            i.args[2] is NONE:
        items = list(o.args[0])
        items[slice(*[None if x is NONE else x.args[0] for x in i.args[:2]])] = \
            list(v.args[0] if v.op == 'list' else v.args[1])
        return mk('list', tuple(items))
    if i.op == 'str' and v.op == 'call' and v.args[0] == 'np.arange' and len(v.args[1]) <= 2 and \
            not v.args[2]:
        # a column of consecutive numbers
        v = mk('range', *((ZERO,) + v.args[1])[-2:])
    if o.op == 'list' and i.op == 'slice' and v.op == 'ite':
        return lift(lambda x: store(o, i, x), [v])
    if o.op == 'concat' and o.args[0][0].op == 'list' and i.op == 'slice' and i.args[2] is NONE and \
            v.op in ('list', 'tuple') and all(
                is_num(x) and isinstance(x.args[0], int) and
                0 <= x.args[0] <= len(o.args[0][0].args[0]) for x in i.args[:2]):
        first = store(o.args[0][0], i, v)
        return concat_list(first, mk('concat', o.args[0][1:]) if len(o.args[0]) > 2
                           else o.args[0][1])
    if i.op == 'tuple' and i.args[0]:
        i = mk('tuple', '', i.args[1])
    return mk('store', o, i, v)


# ---------------------------------------------------------------- alpha-canonical form
def free_bvs(t):
    return {u for u in subterms(t) if u.op in ('bv', 'lv')}


_canon_memo = {}


def canon(t):
    '''rename binder variables by nesting height so that alpha-equal graphs are one node'''
    if t in _canon_memo:
        return _canon_memo[t]
    r = _canon(unmark(t) if contains(t, lambda u: u.op == 'old') else t)
    _canon_memo[t] = r
    return r


def unmark(t):
    '''the marks of earlier values removed'''
    memo = {}

    def go(u):
        if u not in memo:
            memo[u] = go(u.args[0]) if u.op == 'old' else rebuild(u, go)
        return memo[u]
    return go(t)


def _height(t, memo):
    if t in memo:
        return memo[t]
    h = 0
    for c in children(t):
        h = max(h, _height(c, memo))
    if t.op in ('comp', 'flat', 'exists', 'first', 'fold', 'lambda', 'last'):
        h += 1
    memo[t] = h
    return h


def _canon(t):
    memo = {}

    def go(u):
        if u in memo:
            return memo[u]
        if not u.args or u.op in ('num', 'str', 'sym'):
            memo[u] = u
            return u
        if u.op == 'ite' and u.args[0].op in ('exists', 'fold'):
            x = mk(u.args[0].op, *[_rb(y, go) for y in u.args[0].args])
            r = ite(atom_bool(_rename(x)), go(u.args[1]), go(u.args[2]))
            memo[u] = r
            return r
        r = rebuild(u, go)
        if r.op == 'call' and r.args[0] == 'list' and len(r.args[1]) == 1 and not r.args[2] and \
                r.args[1][0].op in ('sym', 'index', 'attr'):
            # the elements of a value of unknown kind, in its own order
            b = mk('bv', 'list')
            r = mk('comp', mk('len', r.args[1][0]), b, index(r.args[1][0], b), TRUE)
        # after children are canonical, rename this node's own binders by its height
        if r.op in ('comp', 'flat', 'exists', 'first', 'lambda', 'fold', 'last'):
            r = _rename(r)
        elif r.op == 'ite':
            pass
        memo[u] = r
        return r

    def _rename(r):
        h = max([_height(c, {}) for c in children(r)] + [0]) + 1
        m = {}
        if r.op == 'lambda':
            for k, b in enumerate(r.args[0]):
                m[b] = mk('bv', 'c%d.%d' % (h, k))
        elif r.op == 'fold':
            n, bvar, carr, sel, stop = r.args
            m[bvar] = mk('bv', 'c%d' % h)
            order = _order_carried(carr, sel)
            for k, c in enumerate(order):
                m[c[0]] = mk('lv', 'c%d.%d' % (h, k))
            r = mk('fold', n, bvar, tuple(order), sel, stop)
        else:
            m[r.args[1]] = mk('bv', 'c%d' % h)
        m = {k: v for k, v in m.items() if k is not v}
        if not m:
            return r
        # two-step renaming avoids capture
        tmp = {k: mk('bv', 'tmp%d' % k.id) for k in m}
        r = mk(r.op, *[_rb(x, lambda y: subst(y, tmp)) for x in r.args])
        back = {tmp[k]: v for k, v in m.items()}
        return mk(r.op, *[_rb(x, lambda y: subst(y, back)) for x in r.args])

    def _order_carried(carr, sel):
        # selected variable first, then in order of a lv-blind signature
        def sig(c):
            blind = {x[0]: mk('lv', '?') for x in carr}
            own = dict(blind)
            own[c[0]] = mk('lv', 'own')
            return (0 if c[0] is sel else 1, subst(c[1], {}).id, subst(c[2], own).id)
        return sorted(carr, key=sig)
    return go(t)


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if depth <= 0:
        return '...'
    s = lambda x: show(x, depth - 1)
    op, a = t.op, t.args
    if op == 'num' or op == 'str':
        return repr(a[0])
    if op in ('none', 'true', 'false', 'undef', 'dontcare'):
        return {'none': 'None', 'true': 'True', 'false': 'False'}.get(op, op)
    if op in ('sym', 'ext', 'bv', 'lv', 'lit'):
        return str(a[0])
    if op == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if op == 'call':
        return '%s(%s)' % (a[0], ', '.join([s(x) for x in a[1]] +
                                           ['%s=%s' % (k, s(v)) for k, v in a[2]]))
    if op == 'mcall':
        return '%s.%s(%s)' % (s(a[0]), a[1], ', '.join([s(x) for x in a[2]] +
                                                       ['%s=%s' % (k, s(v)) for k, v in a[3]]))
    if op == 'poly':
        out = []
        for m, c in a[0]:
            f = [('%s' % s(b) if e == 1 else '%s^%s' % (s(b), e)) for b, e in m]
            if c != 1 or not f:
                f = [str(c)] + f
            out.append('*'.join(f))
        return '(%s)' % ' + '.join(out)
    if op == 'ite':
        if t.args[1] is TRUE and t.args[2] is FALSE:
            return s(a[0])
        if t.args[1] is FALSE and t.args[2] is TRUE:
            return 'not(%s)' % s(a[0])
        return 'if(%s, %s, %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'pos':
        return '(%s > 0)' % s(a[0])
    if op == 'iszero':
        return '(%s == 0)' % s(a[0])
    if op == 'eq':
        return '(%s == %s)' % (s(a[0]), s(a[1]))
    if op == 'isnone':
        return '(%s is None)' % s(a[0])
    if op == 'truth':
        return 'bool(%s)' % s(a[0])
    if op == 'tuple':
        return '%s(%s)' % (a[0].rsplit('.', 1)[-1], ', '.join(s(x) for x in a[1]))
    if op == 'list':
        return '[%s]' % ', '.join(s(x) for x in a[0])
    if op == 'dict':
        return '{%s}' % ', '.join('%s: %s' % (s(k), s(v)) for k, v in a[0])
    if op == 'index':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'slice':
        return ':'.join('' if x is NONE else s(x) for x in a[:2])
    if op == 'fmt':
        return "f'%s'" % ''.join(p.args[0] if p.op == 'str' else '{%s%s%s}' % (
            s(p.args[2]), '!r' if p.args[0] == 'r' else '', ':' + p.args[1] if p.args[1] else '')
            for p in a[0])
    if op == 'obj':
        return '%s{%s}' % (a[0].rsplit('.', 1)[-1],
                           ', '.join('%s=%s' % (k, s(v)) for k, v in a[1]))
    if op == 'len':
        return 'len(%s)' % s(a[0])
    if op == 'comp':
        return '[%s for %s in <%s>%s]' % (s(a[2]), s(a[1]), s(a[0]),
                                          '' if a[3] is TRUE else ' if ' + s(a[3]))
    if op == 'store':
        return '%s{[%s] := %s}' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'raise':
        return 'raise(%s)' % a[0]

    def g(x):
        if isinstance(x, Term):
            return s(x)
        if isinstance(x, tuple):
            return '(' + ', '.join(g(y) for y in x) + ')'
        return str(x)
    return '%s(%s)' % (op, ', '.join(g(x) for x in a))

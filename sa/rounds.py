'''Loops over few elements: a loop that has no closed form is compared with the required one for
collections of one or two elements, by substituting the steps of the loop into each other.'''
from . import terms as T
from .terms import mk, const

BEST = ('best.min', 'best.max', 'best.at')


def counts(t):
    '''what the numbers of rounds of the loops depend on'''
    out = set()
    for u in T.subterms(t):
        n = None
        if u.op in ('fold', 'comp', 'exists'):
            n = u.args[0]
        if n is None or T.is_num(n) or n.op == 'while':
            continue
        for v in T.subterms(n):
            if v.op == 'len' or v.op in ('sym', 'attr') and not any(
                    w.op == 'len' for w in T.subterms(n)):
                if not any(w.op in ('bv', 'lv') for w in T.subterms(v)):
                    out.add(v)
    return {v for v in out if not any(v is not w and T.occurs(w, v) for w in out
                                      if w.op != 'len' or v.op == 'len')}


def instance(t, ns, k):
    '''t when each of ns is k, with the loops written out'''
    t = T.subst(t, {n: const(k) for n in ns})
    memo = {}

    def go(u):
        if u in memo:
            return memo[u]
        if not u.args or u.op in ('num', 'str', 'sym', 'bv', 'lv'):
            r = u
        elif u.op == 'fold' and rounds(u.args[0]) is not None and u.args[4] is T.FALSE:
            r = go(written_out(u, rounds(u.args[0])))
        elif u.op == 'call' and u.args[0] in BEST and all(
                c.op == 'comp' and rounds(c.args[0]) is not None for c in u.args[1]
                if c.op == 'comp'):
            w = best(u)
            r = u if w is None else go(w)
        else:
            r = T.rebuild(u, go)
        memo[u] = r
        return r
    return T.canon(go(t))


def rounds(n):
    return int(n.args[0]) if T.is_num(n) and 0 <= n.args[0] <= 8 else None


def written_out(u, n):
    _, b, cs, sel, _ = u.args
    now = {lv: init for lv, init, _ in cs}
    for i in range(n):
        m = dict(now)
        m[b] = const(i)
        now = {lv: T.subst(nxt, m) for lv, _, nxt in cs}
    return T.subst(sel, now)


def elements(c):
    n, b, body, cond = c.args
    return [(T.subst(body, {b: const(i)}), T.subst(cond, {b: const(i)}))
            for i in range(rounds(n))]


def best(u):
    name, a = u.args[0], u.args[1]
    if name == 'best.at':
        kind, init, vals, what, then = a
        if not (vals.op == what.op == 'comp' and kind.op == 'str'):
            return None
        kind = kind.args[0]
        ws = elements(what)
    else:
        init, vals = a
        if vals.op != 'comp':
            return None
        kind, then = {'best.min': '<', 'best.max': '>'}[name], init
        ws = elements(vals)
    v, w = init, then
    for (x, cond), (y, _) in zip(elements(vals), ws):
        c = {'<': lambda: T.cmp_lt(x, v), '<=': lambda: T.b_not(T.cmp_lt(v, x)),
             '>': lambda: T.cmp_lt(v, x), '>=': lambda: T.b_not(T.cmp_lt(x, v))}[kind]()
        c = T.b_and(cond, c)
        v, w = T.ite(c, x, v), T.ite(c, y, w)
    return w

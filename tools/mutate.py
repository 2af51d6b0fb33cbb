#!/usr/bin/env python3
'''Which small changes of the repository's code do the checks notice?

  python3 tools/mutate.py --files spta/kmedoids/kmedoids.py [--func NAME] [--only C15,C01] [--tests]

Every mutation is applied alone to a scratch copy of the repository's Python files; the checks run
against the copy (VERIF_REPO).  Mutations that nothing notices are listed for review.'''
import argparse
import ast
import copy
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
       ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult,
       ast.FloorDiv: ast.Mod, ast.Mod: ast.FloorDiv}
SWAPS = [('x_len', 'y_len'), ('x1', 'x2'), ('y1', 'y2'), ('min', 'max'), ('argmin', 'argmax'),
         ('i', 'j'), ('x', 'y'), ('nanmin', 'min'), ('nanmax', 'max'), ('nanmean', 'mean'),
         ('any', 'all'), ('training', 'test'), ('forecast', 'test'), ('mean', 'sum')]
LOGS = ('logger', 'log', 'print')


def is_log(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and any(
        isinstance(u, (ast.Attribute, ast.Name)) and
        (u.attr if isinstance(u, ast.Attribute) else u.id) in LOGS
        for u in ast.walk(n.value.func))


def anchors():
    import json
    out = {}
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(l)
        out[d['id']] = ' '.join(d['anchors']['files'])
    return out


ANCHORS = anchors()


def mutations(tree, func=None):
    '''(description, mutate(tree copy)) by position in ast.walk order'''
    out = []
    skip = set()
    inside = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef,)) and (func is None or f.name in func):
            inside |= {id(n) for n in ast.walk(f)}
        if is_log(f) or isinstance(f, ast.Raise):
            skip |= {id(n) for n in ast.walk(f)}
        if isinstance(f, ast.Expr) and isinstance(f.value, ast.Constant):
            skip |= {id(n) for n in ast.walk(f)}
        if isinstance(f, ast.If) and '__main__' in ast.dump(f.test):
            skip |= {id(n) for n in ast.walk(f)}
        if isinstance(f, ast.FunctionDef) and f.name in ('__str__', 'show_report', 'plot_save'):
            skip |= {id(n) for n in ast.walk(f)}
    for pos, n in enumerate(ast.walk(tree)):
        if id(n) in skip or id(n) not in inside:
            continue

        def add(desc, fn, n=n, pos=pos):
            out.append((getattr(n, 'lineno', 0), desc, pos, fn))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            add('compare %s' % ast.unparse(n),
                lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]()))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(
                n.left, ast.Constant):
            add('operator %s' % ast.unparse(n), lambda m: setattr(m, 'op', BIN[type(m.op)]()))
        if isinstance(n, ast.BoolOp):
            add('and/or %s' % ast.unparse(n), lambda m: setattr(
                m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not isinstance(n.test, ast.Constant):
            add('negate %s' % ast.unparse(n.test), lambda m: setattr(
                m, 'test', ast.UnaryOp(ast.Not(), m.test)))
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and \
                not isinstance(n.value, bool):
            add('constant %r' % n.value, lambda m: setattr(m, 'value', m.value + 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add('constant %r' % n.value, lambda m: setattr(m, 'value', not m.value))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 60:
            add('text %r' % n.value, lambda m: setattr(m, 'value', m.value + 'x'))
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(
                isinstance(a, ast.Starred) for a in n.args):
            add('swap arguments %s' % ast.unparse(n)[:80],
                lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
        if isinstance(n, ast.Call) and n.keywords:
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    add('drop %s= of %s' % (n.keywords[k].arg, ast.unparse(n.func)),
                        lambda m, k=k: m.keywords.pop(k))
        if isinstance(n, (ast.FunctionDef,)) or hasattr(n, 'body') and isinstance(n.body, list):
            for fld in ('body', 'orelse'):
                b = getattr(n, fld, None)
                if not isinstance(b, list):
                    continue
                for k, s in enumerate(b):
                    if is_log(s) or id(s) in skip or isinstance(
                            s, (ast.Pass, ast.FunctionDef, ast.ClassDef, ast.Import,
                                ast.ImportFrom)):
                        continue
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Assert,
                                      ast.Continue, ast.Break)):
                        out.append((s.lineno, 'delete %s' % ast.unparse(s)[:90], pos,
                                    lambda m, fld=fld, k=k: getattr(m, fld).__setitem__(
                                        k, ast.Pass())))
        nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
        if nm and isinstance(n.ctx, ast.Load):
            for a, b in SWAPS:
                for x, y in ((a, b), (b, a)):
                    if nm == x:
                        add('%s for %s' % (y, x), lambda m, y=y: setattr(
                            m, 'attr' if isinstance(m, ast.Attribute) else 'id', y))
        if isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            out.append((n.lineno, 'truth of %s' % ast.unparse(n), pos, 'truth'))
        if isinstance(n, ast.Call):
            fn = ast.unparse(n.func)
            if fn in ('range',) and n.args:
                add('range end %s' % ast.unparse(n), lambda m: m.args.__setitem__(
                    min(1, len(m.args) - 1), ast.BinOp(m.args[min(1, len(m.args) - 1)], ast.Sub(),
                                                       ast.Constant(1))))
            if fn in ('sorted', 'deepcopy', 'copy.deepcopy', 'np.copy', 'abs', 'np.array', 'list',
                      'dict', 'float', 'str', 'set') and len(n.args) == 1:
                out.append((n.lineno, 'without %s' % ast.unparse(n)[:80], pos, 'unwrap'))
            if fn in ('list', 'tuple') and len(n.args) == 1:
                add('sorted %s' % ast.unparse(n)[:80], lambda m: setattr(
                    m, 'func', ast.Name('sorted', ast.Load())))
            if fn == 'int' and len(n.args) == 1 and isinstance(n.args[0], ast.BinOp):
                add('round %s' % ast.unparse(n)[:80], lambda m: setattr(
                    m, 'func', ast.Name('round', ast.Load())))
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                out.append((n.lineno, 'without %s' % ast.unparse(n)[:80], pos, 'uncopy'))
        if isinstance(n, ast.Tuple) and len(n.elts) >= 2 and isinstance(n.ctx, ast.Load):
            add('swap %s' % ast.unparse(n)[:80], lambda m: m.elts.__setitem__(
                slice(0, 2), [m.elts[1], m.elts[0]]))
        if isinstance(n, ast.Continue):
            out.append((n.lineno, 'break for continue', pos, 'break'))
        if isinstance(n, ast.Break):
            out.append((n.lineno, 'continue for break', pos, 'continue'))
        if isinstance(n, ast.FunctionDef) and n.args.args and n.args.args[0].arg == 'self' and \
                n.name != '__init__':
            rets = [u for u in ast.walk(n) if isinstance(u, ast.Return) and u.value is not None and
                    not isinstance(u.value, (ast.Constant, ast.Name)) and not isinstance(
                        u.value, ast.Attribute)]
            if len(rets) == 1 and rets[0] is n.body[-1]:
                out.append((n.lineno, 'memo of %s' % n.name, pos, 'memo'))
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name) and not isinstance(n.value, (ast.Constant, ast.List,
                                                                     ast.Dict, ast.Tuple)):
            add('falsy %s' % ast.unparse(n)[:80], lambda m: setattr(
                m, 'value', ast.BoolOp(ast.Or(), [m.value, ast.Constant(1)])))
        if isinstance(n, ast.For):
            add('skip first of %s' % ast.unparse(n.iter)[:60], lambda m: setattr(
                m, 'iter', ast.Subscript(ast.Call(ast.Name('list', ast.Load()), [m.iter], []),
                                         ast.Slice(ast.Constant(1), None), ast.Load())))
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(
                n.value, ast.Constant):
            add('return None for %s' % ast.unparse(n.value)[:60],
                lambda m: setattr(m, 'value', ast.Constant(None)))
    return out


def structural(tree, n, kind):
    '''changes that replace the node in its parent'''
    if kind == 'memo':
        r = n.body[-1]
        a = ast.Attribute(ast.Name('self', ast.Load()), '_memo_' + n.name, ast.Load())
        st = ast.Attribute(ast.Name('self', ast.Load()), '_memo_' + n.name, ast.Store())
        n.body[-1:] = [
            ast.If(ast.parse("not hasattr(self, '_memo_%s')" % n.name, mode='eval').body,
                   [ast.Assign([st], r.value, lineno=r.lineno)], []),
            ast.Return(a)]
        return
    new = {'truth': lambda: n.left if isinstance(n.ops[0], ast.IsNot) else
           ast.UnaryOp(ast.Not(), n.left),
           'unwrap': lambda: n.args[0], 'uncopy': lambda: n.func.value,
           'break': ast.Break, 'continue': ast.Continue}[kind]()

    class R(ast.NodeTransformer):
        def visit(self, u):
            return new if u is n else self.generic_visit(u)
    R().visit(tree)


def work(job):
    path, line, desc, pos, k, func, only, tests, dest = job
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    ms = mutations(tree, func)
    line, desc, pos, fn = ms[k]
    n = list(ast.walk(tree))[pos]
    if isinstance(fn, str):
        structural(tree, n, fn)
    else:
        fn(n)
    ast.fix_missing_locations(tree)
    d = tempfile.mkdtemp(prefix='mut')
    try:
        copy_py(d)
        open(os.path.join(d, path), 'w').write(ast.unparse(tree) + '\n')
        hits = []
        for c in sorted(only, key=lambda c: path not in ANCHORS.get(c, '')):
            env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=os.path.join(d, '.ev'))
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), c],
                               capture_output=True, text=True, env=env, cwd=HERE)
            if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                hits.append(c)
                break
            if r.returncode not in (0, 1):
                hits.append(c + '?')
        return path, line, desc, hits
    finally:
        shutil.rmtree(d)


def copy_py(d):
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if x[0] != '.' and x not in ('__pycache__', 'pickle', 'raw',
                                                               'outputs', 'plots', 'csv')]
        for f in files:
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(root, f), REPO)
                os.makedirs(os.path.dirname(os.path.join(d, rel)), exist_ok=True)
                shutil.copy(os.path.join(root, f), os.path.join(d, rel))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--files', required=True)
    ap.add_argument('--func', default='')
    ap.add_argument('--only', default='')
    ap.add_argument('--caught', action='store_true')
    a = ap.parse_args()
    only = a.only.split(',') if a.only else sorted(
        'C' + f[1:-3] for f in os.listdir(os.path.join(HERE, 'props'))
        if f[0] == 'c' and f[1:3].isdigit())
    func = set(a.func.split(',')) if a.func else None
    jobs = []
    for p in a.files.split(','):
        ms = mutations(ast.parse(open(os.path.join(REPO, p)).read()), func)
        jobs += [(p, m[0], m[1], m[2], k, func, only, False, None) for k, m in enumerate(ms)]
    miss = und = 0
    with mp.Pool(int(os.environ.get('MUTPROCS', '8'))) as pool:
        for p, line, desc, hits in pool.imap(work, jobs):
            if not any('?' not in h for h in hits):
                miss += 1
                print('MISS %s:%d %s %s' % (p, line, desc, ' '.join(hits)), flush=True)
            elif a.caught:
                print('  ok %s:%d %s %s' % (p, line, desc, ' '.join(hits)), flush=True)
    print('%d mutations, %d not noticed' % (len(jobs), miss))


if __name__ == '__main__':
    main()

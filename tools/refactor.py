#!/usr/bin/env python3
'''Development aid: behaviour-preserving rewrites of the whole tree; every check must stay quiet.

refactor.py [transform ...] [--tests] [--only C01,C02]'''
import ast
import copy
import glob
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = ast.Name
LOAD, STORE = ast.Load(), ast.Store()


def names_in(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or \
        (isinstance(e, ast.Attribute) and simple(e.value))


class FuncT(ast.NodeTransformer):
    '''transforms function bodies, outermost functions first'''
    n = 0

    def fresh(self, base='tmp'):
        self.n += 1
        return '%s_%d' % (base, self.n)

    def block(self, stmts):
        return stmts

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and \
                    not isinstance(node, (ast.Module, ast.ClassDef)):
                setattr(node, f, self.block(b))
        return node


class RenameLocals(FuncT):
    def visit_FunctionDef(self, node):
        params = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)}
        glob_ = {x for n in ast.walk(node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        inner = {n.name for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not node}
        imps = {(a.asname or a.name).split('.')[0] for n in ast.walk(node)
                if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        exc = {n.name for n in ast.walk(node) if isinstance(n, ast.ExceptHandler) and n.name}
        innerp = {a.arg for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node
                  for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        loc = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        loc -= params | glob_ | inner | imps | exc | innerp
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = 'v_' + n.id + '_q'
        return node


class InvertIf(FuncT):
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            node.test, node.body, node.orelse = ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body
        return node


class InvertIfExp(FuncT):
    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and isinstance(node.test, ast.Compare) and len(node.test.ops) == 1:
            inv = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                   ast.In: ast.NotIn, ast.NotIn: ast.In}
            o = inv.get(type(node.test.ops[0]))
            if o:
                node.test.ops = [o()]
                node.body, node.orelse = node.orelse, node.body
        return node


class ReturnTemp(FuncT):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not simple(s.value):
                t = self.fresh('ret')
                out += [ast.Assign([N(t, STORE)], s.value), ast.Return(N(t, LOAD))]
            else:
                out.append(s)
        return out


class ReturnElse(FuncT):
    'if c: return a; rest  ->  if c: return a else: rest'
    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b):
                s.orelse = self.block(b[i + 1:])
                return b[:i + 1]
        return b


class ReturnUnelse(FuncT):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and \
                    not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
                e = s.orelse
                s.orelse = []
                out.append(s)
                out += e
            else:
                out.append(s)
        return out


class HoistArgs(FuncT):
    '''arguments of calls in simple statements become temporaries, in evaluation order'''
    def block(self, b):
        out = []
        for s in b:
            c = None
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call):
                c = s.value
            if c is not None and not any(isinstance(a, ast.Starred) for a in c.args) and \
                    not any(k.arg is None for k in c.keywords) and simple(c.func) and \
                    not (isinstance(c.func, ast.Name) and c.func.id in ('super', 'locals')):
                pre = []
                for i, a in enumerate(c.args):
                    if not isinstance(a, ast.Constant):
                        t = self.fresh('arg')
                        pre.append(ast.Assign([N(t, STORE)], a))
                        c.args[i] = N(t, LOAD)
                for k in c.keywords:
                    if not isinstance(k.value, ast.Constant):
                        t = self.fresh('kw')
                        pre.append(ast.Assign([N(t, STORE)], k.value))
                        k.value = N(t, LOAD)
                out += pre
            out.append(s)
        return out


class InlineTemps(FuncT):
    '''a = e; <next statement uses a exactly once, first> -> inlined'''
    def visit_FunctionDef(self, node):
        old = getattr(self, 'cur', None)
        self.cur = node
        self.generic_visit(node)
        self.cur = old
        return node

    def block(self, b):
        b = list(b)
        i = 0
        while i + 1 < len(b):
            s, nx = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    isinstance(nx, (ast.Return, ast.Assign, ast.Expr)) and getattr(self, 'cur', None) is not None:
                v = s.targets[0].id
                uses = [n for n in ast.walk(self.cur) if isinstance(n, ast.Name) and n.id == v]
                here = [n for n in ast.walk(nx.value)] if nx.value is not None else []
                inner = any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp))
                            for n in here)
                hu = [n for n in here if isinstance(n, ast.Name) and n.id == v]
                before_calls = False
                if len(uses) == 2 and len(hu) == 1 and not inner:
                    # only move past names
                    for n in here:
                        if isinstance(n, ast.Call) and not any(m is hu[0] for m in ast.walk(n)):
                            before_calls = True
                    if not before_calls:
                        val = s.value

                        class R(ast.NodeTransformer):
                            def visit_Name(self_, n):
                                return val if n is hu[0] else n
                        nx.value = R().visit(nx.value)
                        del b[i]
                        i = max(i - 1, 0)
                        continue
            i += 1
        return b


class CompToLoop(FuncT):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                g = s.value.generators[0]
                t = self.fresh('items')
                body = [ast.Expr(ast.Call(ast.Attribute(N(t, LOAD), 'append', LOAD), [s.value.elt], []))]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                out.append(ast.Assign([N(t, STORE)], ast.List([], LOAD)))
                out.append(ast.For(g.target, g.iter, body, []))
                s.value = N(t, LOAD)
            out.append(s)
        return out


class LoopToComp(FuncT):
    def block(self, b):
        out = list(b)
        i = 0
        while i + 1 < len(out):
            s, f = out[i], out[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and \
                    isinstance(s.targets[0], ast.Name) and isinstance(f, ast.For) and not f.orelse and len(f.body) >= 1:
                v = s.targets[0].id
                last = f.body[-1]
                if isinstance(last, ast.Expr) and isinstance(last.value, ast.Call) and \
                        isinstance(last.value.func, ast.Attribute) and last.value.func.attr == 'append' and \
                        isinstance(last.value.func.value, ast.Name) and last.value.func.value.id == v and len(f.body) == 1:
                    out[i] = ast.Assign(s.targets, ast.ListComp(last.value.args[0],
                                        [ast.comprehension(f.target, f.iter, [], 0)]))
                    del out[i + 1]
                    continue
            i += 1
        return out


class Noop(FuncT):
    def block(self, b):
        k = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
        return b[:k] + [ast.Assign([N('unused_marker', STORE)], ast.Constant(None))] + b[k:]


class FlipCompare(FuncT):
    def visit_Compare(self, node):
        self.generic_visit(node)
        f = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(node.ops) == 1 and type(node.ops[0]) in f:
            return ast.Compare(node.comparators[0], [f[type(node.ops[0])]()], [node.left])
        if len(node.ops) == 2 and simple(node.comparators[0]):
            a = ast.Compare(node.left, [node.ops[0]], [node.comparators[0]])
            c = ast.Compare(copy.deepcopy(node.comparators[0]), [node.ops[1]], [node.comparators[1]])
            return ast.BoolOp(ast.And(), [a, c])
        return node


class FloorDiv(FuncT):
    'int(a / b) -> a // b (indices and lengths)'
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'int' and len(node.args) == 1 and \
                isinstance(node.args[0], ast.BinOp) and isinstance(node.args[0].op, ast.Div):
            return ast.BinOp(node.args[0].left, ast.FloorDiv(), node.args[0].right)
        return node


class FormatToF(FuncT):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and \
                isinstance(f.value.value, str) and not node.keywords and \
                not any(isinstance(a, ast.Starred) for a in node.args):
            parts = re.split(r'(\{[^{}]*\})', f.value.value)
            vals, i = [], 0
            for p in parts:
                if p.startswith('{'):
                    m = re.match(r'\{(?:!(\w))?(?::([^{}]*))?\}$', p)
                    if not m:
                        return node
                    vals.append(ast.FormattedValue(node.args[i], ord(m.group(1)) if m.group(1) else -1,
                                ast.JoinedStr([ast.Constant(m.group(2))]) if m.group(2) else None))
                    i += 1
                elif '{' in p or '}' in p:
                    return node
                elif p:
                    vals.append(ast.Constant(p))
            try:
                j = ast.JoinedStr(vals)
                ast.parse(ast.unparse(ast.fix_missing_locations(ast.Expression(j))))
                return j
            except Exception:
                return node
        return node


class ExtractImpl(FuncT):
    '''every plain method / function delegates to a helper'''
    def visit_ClassDef(self, node):
        out = []
        for s in node.body:
            out.append(s)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.name.startswith('__') and \
                    not s.args.vararg and not s.args.kwarg and not s.args.kwonlyargs and s.args.args and \
                    s.args.args[0].arg == 'self':
                if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s)) or \
                        any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super'
                            for n in ast.walk(s)) or \
                        any(isinstance(n, ast.Raise) and 'NotImplemented' in ast.dump(n) for n in s.body) or \
                        not [x for x in s.body if not (isinstance(x, ast.Pass) or (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)))]:
                    continue
                h = copy.deepcopy(s)
                h.name = '_%s_of_%s' % (s.name.strip('_'), node.name.lower())
                h.args.defaults = []
                s.body = [ast.Return(ast.Call(ast.Attribute(N('self', LOAD), h.name, LOAD),
                                              [N(a.arg, LOAD) for a in s.args.args[1:]], []))]
                out.append(h)
        node.body = out
        return node

    def visit_FunctionDef(self, node):
        return node

    def visit_Module(self, node):
        out = []
        for s in node.body:
            if isinstance(s, ast.ClassDef):
                s = self.visit_ClassDef(s)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.vararg and not s.args.kwarg and \
                    not any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global)) for n in ast.walk(s)):
                h = copy.deepcopy(s)
                h.name = '_' + s.name + '_impl'
                h.args.defaults = []
                s.body = [ast.Return(ast.Call(N(h.name, LOAD), [N(a.arg, LOAD) for a in s.args.args], []))]
                out.append(h)
            out.append(s)
        node.body = out
        return node


class SplitTuple(FuncT):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                    len(s.targets[0].elts) == len(s.value.elts):
                ts = [self.fresh('part') for _ in s.value.elts]
                out += [ast.Assign([N(t, STORE)], v) for t, v in zip(ts, s.value.elts)]
                out += [ast.Assign([g], N(t, LOAD)) for t, g in zip(ts, s.targets[0].elts)]
            else:
                out.append(s)
        return out


class ShapeUnpack(FuncT):
    'a, b, c = x.shape -> index accesses'
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Attribute) and \
                    s.value.attr.startswith('shape') and all(isinstance(e, ast.Name) for e in s.targets[0].elts):
                t = self.fresh('shape')
                out.append(ast.Assign([N(t, STORE)], s.value))
                for i, e in enumerate(s.targets[0].elts):
                    if e.id != '_':
                        out.append(ast.Assign([e], ast.Subscript(N(t, LOAD), ast.Constant(i), LOAD)))
            else:
                out.append(s)
        return out


class Super0(FuncT):
    def visit_FunctionDef(self, node):
        self.stack = getattr(self, 'stack', []) + [node]
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and len(node.args) == 2 and \
                len(getattr(self, 'stack', [])) == 1:
            node.args = []
        return node


class EnumToRange(FuncT):
    'for i, x in enumerate(xs) -> counter'
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and \
                    s.iter.func.id == 'enumerate' and len(s.iter.args) == 1 and isinstance(s.target, ast.Tuple) and \
                    not any(isinstance(n, ast.Continue) for n in ast.walk(s)):
                i, x = s.target.elts
                c = self.fresh('count')
                out.append(ast.Assign([N(c, STORE)], ast.Constant(0)))
                s.target, s.iter = x, s.iter.args[0]
                s.body = [ast.Assign([i], N(c, LOAD))] + s.body + [ast.AugAssign(N(c, STORE), ast.Add(), ast.Constant(1))]
            out.append(s)
        return out


class RangeZero(FuncT):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'range':
            if len(node.args) == 2 and isinstance(node.args[0], ast.Constant) and node.args[0].value == 0:
                node.args = node.args[1:]
            elif len(node.args) == 1:
                node.args = [ast.Constant(0), node.args[0], ast.Constant(1)]
        return node


class ForToWhile(FuncT):
    'for i in range(a, b) -> while'
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and \
                    s.iter.func.id == 'range' and len(s.iter.args) <= 2 and isinstance(s.target, ast.Name) and \
                    not any(isinstance(n, ast.Continue) for n in ast.walk(s)):
                a = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
                e = s.iter.args[-1]
                lim, c = self.fresh('limit'), self.fresh('pos')
                out.append(ast.Assign([N(lim, STORE)], e))
                out.append(ast.Assign([N(c, STORE)], a))
                out.append(ast.While(ast.Compare(N(c, LOAD), [ast.Lt()], [N(lim, LOAD)]),
                           [ast.Assign([s.target], N(c, LOAD))] + s.body +
                           [ast.AugAssign(N(c, STORE), ast.Add(), ast.Constant(1))], []))
            else:
                out.append(s)
        return out


class IfExpToIf(FuncT):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                a, c = copy.deepcopy(s), copy.deepcopy(s)
                a.value, c.value = s.value.body, s.value.orelse
                out.append(ast.If(s.value.test, [a], [c]))
            else:
                out.append(s)
        return out


class IfToIfExp(FuncT):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and \
                    type(s.body[0]) is type(s.orelse[0]) and isinstance(s.body[0], (ast.Assign, ast.Return)):
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Return) and x.value is not None and y.value is not None:
                    out.append(ast.Return(ast.IfExp(s.test, x.value, y.value)))
                    continue
                if isinstance(x, ast.Assign) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                    out.append(ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value)))
                    continue
            out.append(s)
        return out


class AndToNested(FuncT):
    def visit_If(self, node):
        self.generic_visit(node)
        if isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.And) and not node.orelse:
            v = node.test.values
            inner = node.body
            for c in reversed(v):
                inner = [ast.If(c, inner, [])]
            return inner[0]
        return node


class DeMorgan(FuncT):
    def visit_BoolOp(self, node):
        self.generic_visit(node)
        o = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        return ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in node.values]))

    # only in tests: the value of and/or is otherwise observable
    def visit_Assign(self, node):
        return node

    def visit_Return(self, node):
        return node

    def visit_Expr(self, node):
        return node


class ReorderMethods(FuncT):
    def visit_ClassDef(self, node):
        idx = [i for i, s in enumerate(node.body) if isinstance(s, ast.FunctionDef)]
        # keep properties/setters in order
        if not any(isinstance(d, ast.Attribute) for i in idx for d in node.body[i].decorator_list):
            fs = [node.body[i] for i in idx][::-1]
            for i, f in zip(idx, fs):
                node.body[i] = f
        return node


class SelfTemp(FuncT):
    'reads of self.x at the start of a statement through a local when the function never assigns it'
    def visit_FunctionDef(self, node):
        if not node.args.args or node.args.args[0].arg != 'self' or node.name == '__init__':
            return node
        if any(isinstance(n, (ast.Yield,)) for n in ast.walk(node)):
            return node
        st = {n.attr for n in ast.walk(node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        callees = {id(n.func) for n in ast.walk(node) if isinstance(n, ast.Call)}
        # only attributes read in the first statement (always evaluated)
        body = node.body
        k = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        if k >= len(body) or any(isinstance(n, ast.Call) for s in body for n in ast.walk(s)
                                 if not isinstance(s, ast.Return) and s is not body[k]):
            pass
        first = body[k] if k < len(body) else None
        if not isinstance(first, (ast.Assign, ast.Return)) or first.value is None:
            return node
        got = {}
        for n in ast.walk(first.value):
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.BoolOp, ast.IfExp)):
                return node
        for n in ast.walk(first.value):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and \
                    isinstance(n.ctx, ast.Load) and id(n) not in callees and n.attr not in st:
                got.setdefault(n.attr, 'own_' + n.attr.strip('_'))

        class R(ast.NodeTransformer):
            def visit_Attribute(s_, n):
                if isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in got and id(n) not in callees:
                    return N(got[n.attr], LOAD)
                s_.generic_visit(n)
                return n
        first.value = R().visit(first.value)
        node.body = body[:k] + [ast.Assign([N(v, STORE)], ast.Attribute(N('self', LOAD), a, LOAD))
                                for a, v in got.items()] + body[k:]
        return node


class KwToPos(FuncT):
    'keyword arguments of repository calls in another order'
    def visit_Call(self, node):
        self.generic_visit(node)
        if len(node.keywords) > 1 and all(k.arg and (simple(k.value)) for k in node.keywords):
            node.keywords = node.keywords[::-1]
        return node


class AugExpand(FuncT):
    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Name) and isinstance(node.op, (ast.Add, ast.Sub)) and \
                isinstance(node.value, (ast.Constant, ast.Call, ast.BinOp, ast.Name)):
            if isinstance(node.value, ast.Name) and node.value.id.startswith('param'):
                return node
            return ast.Assign([node.target], ast.BinOp(N(node.target.id, LOAD), node.op, node.value))
        return node


class SwapAssign(FuncT):
    'adjacent independent assignments of simple values swapped'
    def block(self, b):
        out = list(b)
        i = 0
        while i + 1 < len(out):
            s, t = out[i], out[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and simple(x.targets[0]) and simple(x.value)
                   for x in (s, t)):
                a, c = ast.unparse(s.targets[0]), ast.unparse(t.targets[0])
                if a != c and a not in ast.unparse(t.value) and c not in ast.unparse(s.value) and \
                        not c.startswith(a + '.') and not a.startswith(c + '.'):
                    out[i], out[i + 1] = t, s
                    i += 2
                    continue
            i += 1
        return out


class NestedHelper(FuncT):
    'the right side of an assignment of a call goes through a nested function'
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, (ast.BinOp, ast.Call)) and \
                    isinstance(s.targets[0], ast.Name) and not any(
                        isinstance(n, (ast.Yield, ast.Lambda)) or (isinstance(n, ast.Name) and n.id == 'super')
                        for n in ast.walk(s.value)) and s.targets[0].id not in names_in(s.value):
                h = self.fresh('compute')
                out.append(ast.FunctionDef(h, ast.arguments([], [], None, [], [], None, []),
                                           [ast.Return(s.value)], [], None, type_params=[]))
                s.value = ast.Call(N(h, LOAD), [], [])
            out.append(s)
        return out


class ModuleHelper(FuncT):
    'the right side of an assignment moves to a module function with its free names as parameters'
    def visit_Module(self, node):
        self.extra = []
        self.top = {t.id for s in node.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.top.add(s.name)
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.top |= {(a.asname or a.name).split('.')[0] for a in s.names}
        self.generic_visit(node)
        node.body += self.extra
        return node

    def visit_FunctionDef(self, node):
        old, oldi = getattr(self, 'locs', None), getattr(self, 'inner', set())
        self.locs = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
            {a.arg for a in ast.walk(node) if isinstance(a, ast.arg)} | (old or set())
        self.inner = {n.name for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not node} | \
            {(a.asname or a.name).split('.')[0] for n in ast.walk(node)
             if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names} | oldi
        self.generic_visit(node)
        self.locs, self.inner = old, oldi
        return node

    def block(self, b):
        if not getattr(self, 'locs', None) or getattr(self, 'inner', None):
            return b
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.BinOp, ast.Call, ast.ListComp)) and not any(
                    isinstance(n, (ast.Yield, ast.Lambda, ast.Starred)) or (isinstance(n, ast.Name) and n.id in ('super', '__class__'))
                    or (isinstance(n, ast.Attribute) and n.attr.startswith('__'))
                    for n in ast.walk(s.value)):
                bound = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                free = sorted((names_in(s.value) & self.locs) - bound)
                h = self.fresh('_piece')
                self.extra.append(ast.FunctionDef(
                    h, ast.arguments([], [ast.arg(f, None) for f in free], None, [], [], None, []),
                    [ast.Return(s.value)], [], None, type_params=[]))
                s.value = ast.Call(N(h, LOAD), [N(f, LOAD) for f in free], [])
        return b


class GuardAssert(FuncT):
    'assert c -> if not c: raise AssertionError'
    def visit_Assert(self, node):
        return ast.If(ast.UnaryOp(ast.Not(), node.test),
                      [ast.Raise(ast.Call(N('AssertionError', LOAD), [], []), None)], [])


class StripLog(FuncT):
    'logging removed'
    def visit_Expr(self, node):
        if isinstance(node.value, ast.Call) and ast.unparse(node.value.func).startswith(('logger.', 'self.logger.')):
            return ast.Pass()
        return node


class AddLog(FuncT):
    def visit_FunctionDef(self, node):
        k = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        imp = ast.parse('import logging as _lg\n_lg.getLogger("extra").debug("in %s", "x")').body
        node.body = node.body[:k] + imp + node.body[k:]
        return node


class MapComp(FuncT):
    '[f(x) for x in xs] -> list(map(lambda x: f(x), xs))'
    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators
        if len(g) == 1 and not g[0].ifs and isinstance(g[0].target, ast.Name):
            lam = ast.Lambda(ast.arguments([], [ast.arg(g[0].target.id, None)], None, [], [], None, []), node.elt)
            return ast.Call(N('list', LOAD), [ast.Call(N('map', LOAD), [lam, g[0].iter], [])], [])
        return node


class ElifToNested(FuncT):
    'conditions of if statements named first'
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If):
                t = self.fresh('cond')
                out.append(ast.Assign([N(t, STORE)], s.test))
                s.test = N(t, LOAD)
            out.append(s)
        return out


class MulSwap(FuncT):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mult) and not any(isinstance(x, ast.Constant) and isinstance(x.value, str)
                                                     for x in (node.left, node.right)):
            return ast.BinOp(node.right, node.op, node.left)
        return node


T = {k: v for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, FuncT) and v is not FuncT}


def apply(tree, names):
    for root in ('spta', 'experiments'):
        for p in glob.glob(os.path.join(tree, root, '**', '*.py'), recursive=True):
            if '/tests' in p:
                continue
            src = open(p).read()
            t = ast.parse(src)
            for n in names:
                t = T[n]().visit(t)
            ast.fix_missing_locations(t)
            out = ast.unparse(t)
            compile(out, p, 'exec')
            open(p, 'w').write(out + '\n')


def run_checks(tree, only=None):
    ids = only or sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(HERE + '/props/c[0-9]*.py'))

    def one(i):
        e = dict(os.environ, VERIF_REPO=tree, VERIF_EVIDENCE='/tmp/refev')
        try:
            r = subprocess.run(['/usr/bin/python3', 'check.py', i, '-v'], cwd=HERE, env=e,
                               capture_output=True, text=True, timeout=900)
            return i, r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return i, 99, 'timeout'
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, ids))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    only = [a[7:].split(',') for a in sys.argv if a.startswith('--only=')]
    ts = args or sorted(T)
    for n in ts:
        tree = '/tmp/refw/' + n
        shutil.rmtree(tree, ignore_errors=True)
        os.makedirs('/tmp/refw', exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', tree])
        apply(tree, n.split('+'))
        if '--tests' in sys.argv:
            from seed import tests
            got, tail = tests(tree)
            print(n, 'tests', len(got))
        res = run_checks(tree, only[0] if only else None)
        bad = [(i, rc) for i, rc, o in res if rc]
        und = sum(int(m.group(1)) for _, _, o in res for m in [re.search(r'(\d+) undecided', o)] if m)
        print('%-16s alarms %s undecided %d' % (n, bad, und), flush=True)
        if '--show' in sys.argv:
            for i, rc, o in res:
                for l in o.splitlines():
                    if l.startswith(('[violation', '[undecided')) or (rc and l.startswith(('    expected', '    actual'))):
                        print('   ', i, l[:700])
        if '--keep' not in sys.argv:
            shutil.rmtree(tree, ignore_errors=True)


if __name__ == '__main__':
    sys.path.insert(0, os.path.join(HERE, 'tools'))
    main()

'''Writes sa/vocab.json: the identifiers of the pinned tree (run once at the pinned commit).'''
import ast, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.program import Program
P = Program()
attrs, methods = set(), set()
for m in P.modules.values():
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute):
            attrs.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            methods.add(n.func.attr)
        if isinstance(n, ast.FunctionDef):
            methods.add(n.name)
for q, f in P.nt_fields.items():
    attrs |= set(f)
json.dump({'attrs': sorted(attrs), 'methods': sorted(methods), 'funcs': sorted(P.funcs)},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vocab.json'), 'w'), indent=0)

#!/usr/bin/env python3
'''check.py Cxx [--tier quick|thorough]: decide one property statically on /repo's current tree.'''
import argparse
import importlib
import json
import multiprocessing
import os
import re
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.chdir(HERE)

from sa.program import Program             # noqa: E402
from sa import obl, terms                  # noqa: E402


def known_findings():
    out = []
    p = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(p):
        with open(p) as f:
            out = json.load(f)
    return out


def judge_state(prog, conn):
    '''in a child process: {function: [(verdict, detail, where)]} of the effect analysis'''
    from sa.state import State
    out = {}
    try:
        sys.setrecursionlimit(20000)
        s = State(prog)
        for q in s.table:
            if q in s.E.funcs:
                f = s.E.funcs[q]
                out[q] = [(v, d, '%s:%d %s' % (f.module.path, getattr(n, 'lineno', f.node.lineno),
                                               q)) for v, d, n in s.judge(q)]
    except Exception as e:      # nothing is claimed about what cannot be analysed
        out = {'': [('undecided', 'the effect analysis failed: %r' % e, None)]}
    conn.send(out)
    conn.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--only')
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module('props.' + a.pid.lower())
    P = mod.P
    prog = Program()
    child = None
    if getattr(P, 'state', True) and not a.only:
        conn, other = multiprocessing.Pipe(False)
        child = multiprocessing.get_context('fork').Process(
            target=judge_state, args=(prog, other), daemon=True)
        child.start()
        other.close()
    vocab = json.load(open(os.path.join(HERE, 'sa', 'vocab.json')))
    vocab = {k: set(v) for k, v in vocab.items()}
    counts = {'ok': 0, 'violation': 0, 'undecided': 0}
    results, violations, known = [], [], []
    functions = set()
    kf = [k for k in known_findings() if k.get('property') == P.pid and k.get('status') == 'known']
    sites = 0
    obs = list(P.obs)
    if child is not None:
        def state_rule(cx):
            got = conn.recv() if conn.poll(240) else \
                {'': [('undecided', 'the effect analysis took too long', None)]}
            out = [obl.Outcome(obl.VIOLATION if v == 'violation' else obl.UNDECIDED, d, w)
                   for q, l in sorted(got.items()) if q in functions or not q for v, d, w in l]
            cx.sites += sum(q in functions for q in got)
            return out or [obl.Outcome(obl.OK, '%d functions' % cx.sites)]
        obs.append(obl.Obligation('nothing else is altered or kept', 'the functions analysed for '
                                  'this property alter only what they are declared to alter, and '
                                  'keep nothing for later calls that those calls may need '
                                  'differently', state_rule))
    for ob in obs:
        if a.only and a.only not in ob.name:
            continue
        if ob.tier == 'thorough' and a.tier != 'thorough':
            continue
        cx = obl.Context(prog, vocab)
        cx.cfg = P.cfg
        outs = obl.run_obligation(ob, cx, 180 if a.tier == 'thorough' else 60 if ob in P.obs else 250)
        functions |= cx.functions
        sites += cx.sites
        for o in outs:
            st = o.status
            key = '%s|%s' % (ob.name, o.detail)
            if st == obl.VIOLATION:
                hit = [k for k in kf if k['obligation'] == ob.name and
                       k.get('match', '') in (o.detail + ' ' + re.sub(r':\d+ ', ' ', o.where or ''))]
                if hit:
                    known.append((hit[0], o))
                    counts['known'] = counts.get('known', 0) + 1
                    continue
                violations.append((ob, o))
            counts[st] += 1
            results.append({'obligation': ob.name, 'rule': ob.rule, 'status': st,
                            'detail': o.detail, 'where': o.where})
            if a.v and st != obl.OK:
                print('[%s] %s: %s @ %s' % (st, ob.name, o.detail, o.where))
                if o.expected is not None:
                    print('    expected:', terms.show(o.expected)[:3000])
                    print('    actual:  ', terms.show(o.actual)[:3000])
            elif a.v:
                print('[ok] %s %s' % (ob.name, o.detail))
    for pe in prog.parse_errors:
        print('note: cannot parse %s: %s' % pe)
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    decided = counts['ok'] + counts['violation'] + counts.get('known', 0)
    total = decided + counts['undecided']
    ev = {
        'property': P.pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': P.explanation + ' An obligation the analysis cannot model on the '
            'current source is reported undecided and never raises an alarm.',
            'modules_parsed': len(prog.modules),
            'functions_analysed': sorted(functions),
            'functions_analysed_n': len(functions),
            'sites_inspected': sites,
            'obligations': total, 'decided': decided, 'undecided': counts['undecided'],
            'held': counts['ok'], 'known_findings': counts.get('known', 0),
            'results': results,
        },
        'assumptions': P.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    with open(os.path.join(evdir, P.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, o in known:
        print('KNOWN-FINDING: property=%s %s' % (P.pid, k['what']))
    print('%s: %d obligations, %d held, %d undecided, %d violated, %d known (%d functions, %.1fs)'
          % (P.pid, total, counts['ok'], counts['undecided'], len(violations),
             counts.get('known', 0), len(functions), time.time() - t0))
    rc = 0
    for i, (ob, o) in enumerate(violations):
        path = os.path.join(evdir, '%s.violation.%d.json' % (P.pid, i + 1))
        with open(path, 'w') as f:
            json.dump({'property': P.pid, 'obligation': ob.name, 'rule': ob.rule,
                       'where': o.where, 'detail': o.detail,
                       'expected': terms.show(o.expected)[:20000] if o.expected is not None else None,
                       'actual': terms.show(o.actual)[:20000] if o.actual is not None else None},
                      f, indent=1)
        print('%s: %s [%s] %s' % (o.where or ob.name, o.detail, ob.name, ob.rule))
        print('VIOLATION property=%s replay=%s' % (P.pid, path))
        rc = 1
    if not rc and not a.only and total and not decided:
        print('%s: too much of the code is outside the analysis (%d of %d decided)'
              % (P.pid, decided, total))
        rc = 2
    return rc


if __name__ == '__main__':
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    # signals (the per-obligation time limit) need the main thread; give it a deep stack instead
    import resource
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 1 << 30
        if soft != resource.RLIM_INFINITY and soft < want and not os.environ.get('VERIF_STACK'):
            resource.setrlimit(resource.RLIMIT_STACK,
                               (want if hard == resource.RLIM_INFINITY or hard >= want else hard,
                                hard))
            os.environ['VERIF_STACK'] = '1'
            os.execv(sys.executable, [sys.executable] + sys.argv)
    except (ValueError, OSError):
        pass
    sys.exit(main())

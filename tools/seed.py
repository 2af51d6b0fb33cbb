#!/usr/bin/env python3
'''Development aid: define, verify and measure a planted bug (never used by the checks).

seed.py ID PROPERTY  < spec on stdin:  a Python file defining EDITS [(path, old, new)], DEMO (python
source), NEEDS, BREAKS.'''
import json, os, re, shutil, subprocess, sys, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
           PATH='/opt/venv/bin:' + os.environ['PATH'], CUDA_VISIBLE_DEVICES='',
           TF_CPP_MIN_LOG_LEVEL='3', KERAS_BACKEND='tensorflow')


def run(cmd, cwd, env, t=300):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        class R: returncode, stdout, stderr = 124, '', 'timeout'
        return R


def tests(copy):
    env = dict(ENV, PYTHONPATH=copy)
    r = run(['python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-rA',
             '--continue-on-collection-errors', '-o', 'junit_family=xunit2', 'spta'], copy, env, 600)
    return set(re.findall(r'^PASSED (\S+)', r.stdout, re.M)), r.stdout[-2000:]


def checks(copy, only=None):
    ids = only or sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(HERE + '/props/c[0-9]*.py'))
    from concurrent.futures import ThreadPoolExecutor
    def one(i):
        ev = '/tmp/seedev'
        r = run(['/usr/bin/python3', 'check.py', i], HERE, dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE='/tmp/seedev'))
        return i, r.returncode, r.stdout
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, ids))


def main():
    sid, prop = sys.argv[1:3]
    ns = {}
    exec(sys.stdin.read(), ns)
    copy = '/tmp/seedw/' + sid
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs('/tmp/seedw', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', copy])
    out = os.path.join(HERE, 'seeded', sid)
    os.makedirs(out, exist_ok=True)
    demo = ('#!/bin/bash\n# exit 0 on the unchanged tree, non-zero when the property is broken\n'
            '. /opt/vp/env.sh\nHERE=$(cd "$(dirname "$0")" && pwd)\n'
            'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python "$HERE/demo.py"\n')
    open(out + '/demo.sh', 'w').write(demo)
    open(out + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(out + '/meta.json', 'w'), indent=1)
    r0 = run(['bash', out + '/demo.sh'], copy, ENV)
    ok0 = r0.returncode == 0
    for path, old, new in ns['EDITS']:
        s = open(os.path.join(copy, path)).read()
        assert s.count(old) == 1, (path, s.count(old), old)
        open(os.path.join(copy, path), 'w').write(s.replace(old, new))
    d = run(['git', 'diff'], copy, ENV)
    open(out + '/patch.diff', 'w').write(d.stdout)
    r1 = run(['bash', out + '/demo.sh'], copy, ENV)
    ok1 = r1.returncode != 0
    if not ok0: print('DEMO FAILS ON UNCHANGED', r0.stderr[-1500:], r0.stdout[-500:])
    if not ok1: print('DEMO PASSES WITH PATCH', r1.stdout[-500:])
    else: print('demo with patch:', (r1.stderr.strip().splitlines() or ['?'])[-1])
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    got, tail = tests(copy)
    print('tests passed', len(got))
    if len(got) < 116:
        print(tail)
    # the patch must not touch lines added by the fix commits
    blame = run(['git', 'diff', '--quiet', '03dd589', 'HEAD', '--'] + [e[0] for e in ns['EDITS']], copy, ENV)
    caught = [(i, rc) for i, rc, o in checks(copy) if rc != 0]
    print('caught by', caught)
    good = ok0 and ok1 and len(got) >= 116
    print('RESULT', sid, 'OK' if good else 'BAD', 'caught' if (prop, 1) in caught else 'MISSED')
    # rewrite the evidence for the real tree
    shutil.rmtree(copy, ignore_errors=True)
    run(['git', 'apply', '--check', out + '/patch.diff'], '/repo', ENV)


if __name__ == '__main__':
    main()

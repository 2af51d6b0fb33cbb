'''Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes).'''
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('static analysis: value-graph (gated SSA / global value numbering) abstract '
        'interpretation of the source with per-property obligations')
LINT = 'static analysis: custom whole-program dataflow/effect rules over the syntax tree'
PROPS, NA = [], []


def p(pid, title, statement, over, text, why, files, mech, state=None, tech=TECH, note=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    PROPS.append(({'id': pid, 'title': title, 'statement': statement,
                   'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                   'anchors': a}, tech, note))


def na(pid, title, statement, over, text, why, files, mech, reason):
    p(pid, title, statement, over, text, why, files, mech)
    NA.append((pid, reason))


exec(open(os.path.join(HERE, 'tools', 'propdata.py')).read())


def main():
    nas = dict(NA)
    checks = []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, tech, note in sorted(PROPS, key=lambda x: x[0]['id']):
            assert len(d['title']) <= 80, d['title']
            if d['id'] not in nas and not os.path.exists(
                    os.path.join(HERE, 'props', d['id'].lower() + '.py')):
                print('no check for', d['id'])
                continue
            f.write(json.dumps(d) + '\n')
            if d['id'] in nas:
                continue
            checks.append({
                'property': d['id'],
                'quick_cmd': 'python3 check.py %s --tier quick' % d['id'],
                'thorough_cmd': 'python3 check.py %s --tier thorough' % d['id'],
                'evidence_file': 'evidence/%s.json' % d['id'],
                'technique': tech, 'level': 'other',
                'level_note': note or 'Decided from the source for every input the obligations '
                'leave symbolic; constructs outside the model are reported undecided, never as '
                'alarms.'})
    m = {'version': 1, 'setup_cmd': 'python3 -c "import ast"', 'checks': checks,
         'not_applicable': [{'property': k, 'reason': v} for k, v in NA],
         'hooks': None, 'notes': 'All checks parse /repo (or $VERIF_REPO) on every run; nothing '
         'of the repository is imported or executed.'}
    del m['hooks']
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()

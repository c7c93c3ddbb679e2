"""Generates properties.jsonl and MANIFEST.json from one table, so that they stay in step.
Run: python3 tools/mkmeta.py"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'src/CTL/tensor/'
K = 'src/CTL/tensor/contract/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, note, state=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, note=note, state=state, technique=technique))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
             'observe_at': p['observe'], 'hook_needed': None}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')

checks = []
for p in P:
    if not os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')):
        print('no check for', p['id'])
        continue
    checks.append({'property': p['id'], 'quick_cmd': './run.sh ' + p['id'], 'thorough_cmd': './run.sh ' + p['id'] + ' --tier thorough',
                   'evidence_file': 'evidence/' + p['id'] + '.json',
                   'technique': p['technique'] or 'runtime monitoring: generated workloads on the real code, online model-based oracle',
                   'level': 'exploration', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': 'no check yet'} for p in P if p['id'] not in [c['property'] for c in checks]],
     'hooks': {'guard': 'VERIF_REPO_SRC', 'enable': 'no hooks were needed: monitors observe the public objects (legs, bonds, data, returned values); the variable only tells run.sh where the sources are (default /repo/src)', 'source_commits': []},
     'notes': 'Pure Python: every check imports CTL from /repo/src (the working tree) with a fresh bytecode cache. ./run.sh <ID> [--seed N] [--tier quick|thorough] [--only WORKLOAD] [--replay FILE].'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'checks')

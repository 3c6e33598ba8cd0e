#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from tools/props.py (single source, keeps them in step)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOTES
NOTE = ('Seeded search over schedules, clocks, I/O and faults in one process with a simulated kernel; the listed oracles run on every simulated run. '
        'Sampling, not enumeration; sequentially consistent memory; trusts the simulated kernel and the world models. ')
with open(f'{VERIF}/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'state': [{'name': n, 'meaning': m} for n, m in p.get('state', [])],
                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/gen_build.py',
     'hooks': {'guard': 'none: no hooks were added to /repo', 'enable': 'the simulator interposes on libc/pthread/OpenSSL/c-ares/SQLite calls at object level when it builds /repo sources (tools/gen_build.py)', 'source_commits': []},
     'checks': [], 'not_applicable': [], 'notes': NOTES}
for p in PROPS:
    if 'na' in p:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        m['checks'].append({'property': p['id'], 'quick_cmd': f'python3 tools/check.py {p["id"]}', 'thorough_cmd': f'python3 tools/check.py {p["id"]} --tier thorough',
            'evidence_file': f'evidence/{p["id"]}.json', 'technique': 'deterministic simulation with fault injection: ' + p['tech'],
            'level': 'exploration', 'level_note': NOTE + p.get('note', '')})
json.dump(m, open(f'{VERIF}/MANIFEST.json', 'w'), indent=1)
import jsonschema
for l in open(f'{VERIF}/properties.jsonl'): jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
for p in PROPS: assert len(p['title']) <= 80, p['id']
for p in PROPS:
    for f in p['files']: assert os.path.exists('/repo/' + f), f
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')

"""Writes MANIFEST.json: the properties whose check module exists are claimed."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
notes = json.load(open(os.path.join(V, 'tools', 'level_notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'props', i.lower() + '.py')):
        n = notes[i]
        checks.append({'property': i, 'quick_cmd': f'./check {i}',
                       'thorough_cmd': f'./check {i} thorough',
                       'technique': n['technique'], 'level': 'model_checking',
                       'level_note': n['note']})
    else:
        na.append({'property': i, 'reason': notes.get(i, {}).get(
            'na', 'Check not built yet (work in progress).')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks in /repo: the public API already exposes the abstract '
              'state, so conformance replays specification behaviours through '
              'public calls. The C extension is compiled from /repo/c into '
              '/verif/build by the checks themselves.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')

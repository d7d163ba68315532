"""Writes MANIFEST.json from the plan."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN, NOT_APPLICABLE, LEVEL_NOTES, TECHNIQUE
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = [{
    'property': p,
    'quick_cmd': f'python3 check.py run {p} --tier quick',
    'thorough_cmd': f'python3 check.py run {p} --tier thorough',
    'technique': TECHNIQUE.get(p, TECHNIQUE['']),
    'level': 'exploration',
    'level_note': LEVEL_NOTES.get(p, LEVEL_NOTES['']),
} for p in PLAN]
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'not built yet')} for p in ids if p not in PLAN]
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Violations are replayed with: python3 check.py replay <file> [--trace]. No hooks in /repo are used.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')

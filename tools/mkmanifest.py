"""Writes ../MANIFEST.json from the rules that exist."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H + '/../nr')
import rules
TECH = json.load(open(H + '/technique.json'))
NA = json.load(open(H + '/not_applicable.json'))
ids = [json.loads(l)['id'] for l in open(H + '/../properties.jsonl')]
checks = []; na = []
for i in ids:
    if i in rules.RULES:
        t, note = TECH[i]
        checks.append({'property': i, 'quick_cmd': f'python3 nr/check.py {i}', 'thorough_cmd': f'python3 nr/check.py {i} --tier thorough', 'technique': t, 'level': 'other', 'level_note': note})
    else: na.append({'property': i, 'reason': NA.get(i, 'no rule decides it yet')})
json.dump({'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
  'notes': 'Static analysis only: a compiler driver (driver/) dumps the MIR and the types of the crate in /repo; nr/ analyses it as dataflow over every path of every function and applies one rule per property. No file of /repo is executed or changed; build output goes to a scratch directory.'},
  open(H + '/../MANIFEST.json', 'w'), indent=1)

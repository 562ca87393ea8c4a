"""Writes MANIFEST.json from specs/info.py (python3-vt tools/mkmanifest.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from specs.info import INFO, NOTES, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in ids:
    if p in INFO:
        i = INFO[p]
        tech = {'proof': 'contract obligations generated from the real source (pyvc) discharged by SMT; run-time contracts replay counterexamples',
                'exploration': 'contract obligations from the real source where listed; bounded run-time contract checking for the rest'}[i['level']]
        if p in ('P06', 'P07', 'P08'):
            tech = tech.replace('SMT', 'SMT with Lean lemmas')
        checks.append(dict(property=p, quick_cmd='python3-vt check.py ' + p, thorough_cmd='python3-vt check.py ' + p, technique=tech, level=i['level'],
                           level_note=(NOTES.get(p, '') + ' Assumes: ' + '; '.join(i['assumptions']) + '.').strip()))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, 'not claimed yet')) for p in ids if p not in INFO]
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && lean --version', checks=checks, not_applicable=na,
         notes='check.py Pxx: rebuilds the extension in a scratch copy when the built one is stale, generates and discharges the obligations of the property from the source in /repo, and runs the run-time contracts. See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')

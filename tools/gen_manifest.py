#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a harness."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = V + '/harness/'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = {}
exec(open(V + '/tools/notes.py').read()) if os.path.exists(V + '/tools/notes.py') else None
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(H + i.lower() + '.cpp'):
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'stateless explicit model checking of the real code: ' + NOTE.get(i, 'exhaustive bounded enumeration of call sequences'),
                       'level': 'model_checking',
                       'level_note': 'Every decision sequence within the stated bounds is executed on the real code and judged by an independent oracle; '
                                     'nothing is claimed beyond the alphabets and depths listed in the evidence. Trusts the compiler and harness/ref.hpp.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'g++ --version && python3 -c "import json; json.load(open(\'known_findings.json\'))"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks use the public interface only. run.py builds each harness from /repo in a scratch folder.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))

#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the texts below and (for the table of bounds) evidence/*.json of a quick run."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + '/tools/notes.py').read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = [open(V + '/tools/design_head.md').read().rstrip() + '\n']
out.append('\n## Properties: what is enumerated, against which oracle, and why tests cannot reach it\n')
bounds = json.load(open(V + '/tools/bounds.json')) if os.path.exists(V + '/tools/bounds.json') else {}
for p in props:
    i = p['id']
    ev = V + '/evidence/%s.json' % i
    if os.path.exists(ev):
        c = json.load(open(ev))
        if c.get('tier') == 'quick' and not c.get('violations'):
            bounds[i] = [[s['name'], s['bound'], s['executions']] for s in c['coverage']['scenarios']]
    out.append('\n### %s  %s\n%s\n' % (i, p['title'], DESIGN[i].strip()))
    if i in bounds:
        out.append('Quick tier: ' + '; '.join('`%s` %s (%d)' % tuple(b) for b in bounds[i]) + '.\n')
out.append('\n' + open(V + '/tools/design_tail.md').read())
import glob
out.append('\n## Planted bugs and the checks that catch them\nEvery one below compiles, passes the 118 tests, has a demonstration, and is reported by the quick check of its property (`tools/gen_design.py` copies this list from the meta files; no check reads them).\n\n| planted bug | caught by | needs |\n|---|---|---|\n')
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    out.append('| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'], str(m['needs']).replace('|', '/').replace('\n', ' ')))
json.dump(bounds, open(V + '/tools/bounds.json', 'w'), indent=0)
open(V + '/DESIGN.md', 'w').write(''.join(out))

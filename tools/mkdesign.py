#!/opt/venv/bin/python
"""Writes DESIGN.md from tools/design/*.md, the costs in tools/design/costs.json and the table of planted bugs in tools/design/caught.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
d = os.path.join(here, 'design')
costs = json.load(open(os.path.join(d, 'costs.json')))
caught = json.load(open(os.path.join(d, 'caught.json')))
rows = open(os.path.join(d, 'rows.md')).read()
for k, v in costs.items():
    rows = rows.replace('@%s@' % k, v)
out = [open(os.path.join(d, 'head.md')).read().rstrip('\n'), rows.rstrip('\n'), '', open(os.path.join(d, 'mid.md')).read().rstrip('\n'), '']
root = os.path.dirname(here)
out += ['| planted bug | needs | caught by, clauses |', '|---|---|---|']
for n in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', n, 'meta.json')))
    out.append('| %s | %s | %s: %s |' % (n, m['needs'].replace('|', '/'), m['property'], caught.get(n, 'not run yet')))
out += ['', open(os.path.join(d, 'tail.md')).read().rstrip('\n')]
fixed = [x for x in json.load(open(os.path.join(root, 'known_findings.json')))['fixed']]
out += [''] + ['* ' + x[len('fixed: '):] for x in fixed]
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')

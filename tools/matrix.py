"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and a
log of which checks caught them (lines: NAME PROPERTY CAUGHT|MISSED ... # MESSAGE)."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
for log in sys.argv[1:]:
    for l in open(log):
        m = re.match(r'(\S+)\s+(C\d\d) (CAUGHT|MISSED) ?\S*(?: # (.*))?', l)
        if m:
            caught.setdefault(m[1], {})[m[2]] = (m[3], (m[4] or '').strip())
rows = []
for n in sorted(os.listdir(here + '/seeded')):
    meta = json.load(open(f'{here}/seeded/{n}/meta.json'))
    c = caught.get(n, {})
    by = ', '.join(sorted(p for p, v in c.items() if v[0] == 'CAUGHT')) or 'none'
    rows.append(f"| {n} | {meta['property']} | {meta['needs']} | {by} |")
design = open(here + '/DESIGN.md').read()
a, b = '<!-- planted -->\n', '<!-- /planted -->'
table = '| change | property | manifests with | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
if a in design:
    design = design[:design.index(a) + len(a)] + table + design[design.index(b):]
    open(here + '/DESIGN.md', 'w').write(design)
print(len(rows), 'rows')

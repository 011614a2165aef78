"""the table of planted bugs in DESIGN.md, from seeded/*/meta.json"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    rows.append((d['property'], os.path.basename(os.path.dirname(m)), d['what_it_breaks'], d['needs']))
table = '\n'.join(['| caught by | planted bug | breaks | needs |', '|---|---|---|---|'] + [f'| {p} | {i} | {w} | {n} |' for p, i, w, n in sorted(rows)])
path = os.path.join(HERE, 'DESIGN.md')
s = open(path).read()
a, b = '<!-- seeds -->\n', '\n<!-- /seeds -->'
if a in s:
    s = s[: s.index(a) + len(a)] + table + s[s.index(b):]
    open(path, 'w').write(s)
print(len(rows))

"""python3 tools/table.py: rewrite the table of planted bugs in DESIGN.md (between its markers) from tools/bugs*.py"""
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
V = plant.V
A, B = '<!-- planted -->', '<!-- /planted -->'
rows = ['| planted bug | caught by | files | needs |', '|---|---|---|---|']
for i, b in sorted(plant.bugs().items()):
    if os.path.exists(f'{V}/seeded/{i}/patch.diff'):
        fs = sorted({re.sub('^experiments/', '', e[0]) for e in b['edits']})
        rows.append(f"| {i} | {b['prop']} | {', '.join(fs)} | {b['needs']} |")
t = open(f'{V}/DESIGN.md').read()
p, q = t.index(A) + len(A), t.index(B)
open(f'{V}/DESIGN.md', 'w').write(t[:p] + '\n' + '\n'.join(rows) + '\n' + t[q:])
print(len(rows) - 2, 'bugs')

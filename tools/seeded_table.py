"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEGIN, END = '<!-- seeded: begin -->', '<!-- seeded: end -->'
rows = ['| planted bug | needs, in order to manifest | caught by |', '|---|---|---|']
folder = os.path.join(VERIF, 'seeded')
for name in sorted(os.listdir(folder)):
    with open(os.path.join(folder, name, 'meta.json')) as f:
        meta = json.load(f)
    rows.append('| %s | %s | %s |' % (name, meta['needs'].replace('|', '/'), meta.get('caught_by', meta['property'])))
path = os.path.join(VERIF, 'DESIGN.md')
with open(path) as f:
    text = f.read()
before, _, rest = text.partition(BEGIN)
_, _, after = rest.partition(END)
with open(path, 'w') as f:
    f.write(before + BEGIN + '\n' + '\n'.join(rows) + '\n' + END + after)

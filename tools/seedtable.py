"""rewrites the table of planted bugs at the end of DESIGN.md"""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property, caught by its check | what it breaks |', '|---|---|---|']
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']}{m.get('note', '')} | {m['what_it_breaks']} |")
p = R + '/DESIGN.md'
s = open(p).read()
i = s.find('SEEDTABLE') if 'SEEDTABLE' in s else s.index('| planted bug |')
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n')

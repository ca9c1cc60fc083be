"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/seeded_results.json."""
import glob, json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
res = json.load(open('tools/seeded_results.json')) if os.path.exists('tools/seeded_results.json') else {}
rows = ['| id | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d)); i = d.split('/')[1]
    rows.append(f"| {i} | {m['property']} | {' '.join(m['needs'].split())} | {res.get(i, m['property'])} |")
s = open('DESIGN.md').read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
i, j = s.index(a) + len(a), s.index(b)
open('DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])

"""Fills the generated tables of DESIGN.md: repaired defects, planted bugs. (Documentation only: no check reads these.)"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(H, 'DESIGN.md')).read()

def fill(tag, text):
    global s
    s = re.sub(f'<!-- {tag} -->.*?<!-- /{tag} -->', lambda _: f'<!-- {tag} -->\n{text}\n<!-- /{tag} -->', s, flags=re.S)

known = json.load(open(os.path.join(H, 'findings', 'known.json')))
rows = ['| property | commit | what failed |', '|----|----|----|']
for f in known['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f, re.S)
    rows.append('| %s | %s | %s |' % m.groups())
fill('fixes', '\n'.join(rows))
D = os.path.join(H, 'seeded')
caught = json.load(open(os.path.join(H, 'findings', 'seeded.json')))
rows = ['| bug | property | needs | caught by | first try |', '|----|----|----|----|----|']
ms = sorted((json.load(open(os.path.join(D, i, 'meta.json')))['property'], i) for i in os.listdir(D))
for p, i in ms:
    m = json.load(open(os.path.join(D, i, 'meta.json')))
    c = caught.get(i, {})
    rows.append(f"| {i} | {p} | {m['needs']} | {', '.join(c.get('by', ['?']))} | {c.get('first', '?')} |")
fill('seeded', '\n'.join(rows))
open(os.path.join(H, 'DESIGN.md'), 'w').write(s)

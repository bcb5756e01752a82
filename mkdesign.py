"""Rewrites the tables of DESIGN.md that are derived from other files: findings and planted bugs."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
os.chdir(here)
d = open('DESIGN.md').read()
f = ['| property | commit | what failed |', '|----|----|----|']
for l in open('known-findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        f.append('| %s | %s | %s |' % m.groups())
b = ['| bug | caught by | needs |', '|----|----|----|']
late = json.load(open('late.json'))
for i in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{i}/meta.json'))
    b.append(f"| {i} | {m['property']}{' (late: ' + late[i] + ')' if i in late else ''} | {m['needs']} |")
def put(d, title, rows):
    a = d.index('## ' + title)
    a = d.index('| ', a)
    e = a
    while d[e:e + 1] == '|':
        e = d.index('\n', e) + 1
    return d[:a] + '\n'.join(rows) + '\n' + d[e:]
d = put(d, 'Findings', f)
d = put(d, 'Planted bugs', b)
open('DESIGN.md', 'w').write(d)

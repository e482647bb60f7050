"""Write the table of planted bugs into DESIGN.md; ids given as arguments were not caught by their own check."""
import json, os, sys
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
missed = set(sys.argv[1:])
out = '| id | needs, in order to show | caught by |\n|----|----|----|\n'
for i in sorted(os.listdir(D)):
    m = json.load(open(f'{D}/{i}/meta.json'))
    out += f"| {i} | {' '.join(m['needs'].split())} | {'**missed**' if i in missed else m['property']} |\n"
P = os.path.join(D, '..', 'DESIGN.md')
a, b = '<!-- seeds (tools/seedtable.py) -->', '<!-- end seeds -->'
s = open(P).read()
assert s.count(a) == 1 and s.count(b) == 1
open(P, 'w').write(s[:s.index(a) + len(a)] + '\n' + out + s[s.index(b):])

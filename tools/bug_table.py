"""rewrites the list of planted bugs in DESIGN.md; argument: file with lines 'id how' (how: caught with input / obligation / missed)"""
import json, os, sys, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
how = {}
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split(None, 1)
        if len(w) == 2: how[w[0]] = w[1].strip()
out = ['| change | needs | caught by |', '|---|---|---|']
for d in sorted(glob.glob(f'{ROOT}/seeded/*/meta.json')):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out.append(f'| {n} | {m["needs"][:160]} | {m["property"]}{": " + how[n] if n in how else ""} |'.replace('\n', ' '))
s = open(f'{ROOT}/DESIGN.md').read()
a, b = '<!-- bugs -->', '<!-- end of bugs -->'
open(f'{ROOT}/DESIGN.md', 'w').write(s[:s.index(a) + len(a)] + '\n' + '\n'.join(out) + '\n' + s[s.index(b):])

"""rewrites the generated part of DESIGN.md: per property, every contract, what it specifies, its functions and how it is decided"""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{ROOT}/properties.jsonl')]
out = []
for p in props:
    f = f'{ROOT}/evidence/{p["id"]}.json'
    if not os.path.exists(f): continue
    d = json.load(open(f)); cs = d['coverage'].get('contracts', [])
    cov = d['coverage']
    short = lambda s: s.replace('surfalize/', '')
    out += [f'### {p["id"]} {p["title"]}', '', f'{sum(c["proof_status"] == "proved" for c in cs)} of {len(cs)} contracts proved; {cov.get("obligations", 0)} obligations; about {d["wall_s"]:.0f} s (quick tier, 8 cores).', '',
            '| contract | specifies | functions | decided by |', '|---|---|---|---|']
    group = {}
    for c in cs:
        m = re.match(r'(layout )[\w.]+$', c['contract'])
        key = 'layout *' if m else c['contract']
        group.setdefault(key, []).append(c)
    for key, g in group.items():
        c = g[0]; fn = sorted({short(x) for y in g for x in y['functions']})
        fns = ', '.join(f'`{x.split(":")[-1]}`' for x in fn[:9]) + (f' and {len(fn) - 9} more' if len(fn) > 9 else '')
        how = 'proof, ' + f'{sum(y["obligations"] for y in g)} obligations' if c['proof_status'] == 'proved' else 'bounded: ' + (c.get('bounded') or {}).get('bound', '')
        if c['proof_status'] not in ('proved', 'bounded only', 'bounded'): how += ' (known finding)' if c['proof_status'] == 'refuted' else f' ({c["proof_status"]})'
        name = key + (f' ({len(g)} layouts)' if len(g) > 1 else '')
        out.append('| ' + ' | '.join(x.replace('|', '\\|').replace('\n', ' ') for x in (name, c['specifies'], fns, how)) + ' |')
    out.append('')
s = open(f'{ROOT}/DESIGN.md').read()
a, b = '<!-- table -->', '<!-- end of table -->'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(out) + '\n' + s[s.index(b):]
open(f'{ROOT}/DESIGN.md', 'w').write(s)

"""writes MANIFEST.json from properties.jsonl, contracts/ and baseline.json"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
base = json.load(open(f'{V}/baseline.json')) if os.path.exists(f'{V}/baseline.json') else {}
checks = []; na = []
for p in props:
    i = p['id']
    if not os.path.exists(f'{V}/contracts/{i.lower()}.py'):
        na.append(dict(property=i, reason='no contract registered yet')); continue
    b = base.get(i, {})
    pr = sum(v == 'proved' for v in b.values())
    level = 'proof' if pr * 2 > len(b) else 'exploration'
    checks.append(dict(property=i, quick_cmd=f'/opt/venv/bin/python -m dv.run {i} --tier quick', thorough_cmd=f'/opt/venv/bin/python -m dv.run {i} --tier thorough',
        technique='contract-based deductive verification: contracts over the real functions, executed symbolically on arrays of arbitrary size, obligations discharged by z3/cvc5; bounded contract runs of the same contracts where undecided',
        level=level, level_note=f'{pr} of {len(b)} contracts discharged for all inputs on the unchanged tree; the others are bounded contract runs (listed under bounded_only in the evidence)'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, notes='checks import the code of /repo directly; no hooks in /repo'), open(f'{V}/MANIFEST.json', 'w'), indent=1)

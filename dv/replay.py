import sys, json
from dv import run
d = json.load(open(sys.argv[1]))
cs = [c for c in run.load(d['property']) if c.name == d['contract']]
if d.get('failing'):
    v = d['failing'].get('inputs')
    if 'k' in d['failing'] and not v: print('sample', d['failing']['k'])
    seed = 1
    r = run.one_conc(cs[0], run.rng_for(cs[0], seed, d['failing'].get('k', 10**6)), run.unpack(v))
    print(r[0], r[1], r[2])
else: print(json.dumps(d['failed_obligations'], indent=1))

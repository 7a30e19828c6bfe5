"""check runner:  python -m dv.run P01 [--tier quick|thorough] [--only name] [-v]"""
import os; os.environ['TQDM_DISABLE'] = '1'
import os, sys, time, json, importlib, warnings, traceback, argparse, multiprocessing as mp, hashlib, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DV_REPO', '/repo')
os.environ.setdefault('MPLBACKEND', 'Agg'); os.environ.setdefault('OMP_NUM_THREADS', '1'); os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO); sys.path.insert(0, VERIF)
warnings.simplefilter('ignore')
import numpy as np
from dv import core, arr, npshim, env
from dv.contract import REG
import z3

def load(prop):
    import surfalize
    assert os.path.abspath(surfalize.__file__).startswith(os.path.abspath(REPO) + os.sep), surfalize.__file__
    import logging; logging.disable(logging.CRITICAL)
    REG.clear()
    importlib.import_module(f'contracts.{prop.lower()}')
    cs = [c for c in REG if c.prop == prop]
    names = [c.name for c in cs]
    assert len(set(names)) == len(names), 'duplicate contract names'
    return cs

# ------------------------------------------------------------------------------------------------ symbolic
def repo_tracer(seen):
    root = os.path.abspath(os.path.join(REPO, 'surfalize')) + os.sep
    def tr(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(root):
                seen.add(f"{os.path.relpath(co.co_filename, REPO)}:{getattr(co, 'co_qualname', co.co_name)}")
    return tr

def run_sym(c, tier):
    t0 = time.monotonic()
    limit = (c.timeout or 50) * (1.7 if tier == 'quick' else 4)
    e = core.Engine(timeout_ms=c.solver_ms * (1 if tier == 'quick' else 3), max_paths=c.max_paths, deadline=t0 + limit)
    seen = set()
    def harness(e):
        E = env.SymEnv(e, c.cid)
        with npshim.patched():
            sys.setprofile(repo_tracer(seen))
            try:
                c.fn(E)
            except core.Unsupported: raise
            except (TypeError, AttributeError, NotImplementedError, NameError, RecursionError, z3.Z3Exception, AssertionError, SystemError) as ex:
                tb = traceback.extract_tb(ex.__traceback__)
                raise core.Unsupported(f'{type(ex).__name__}: {ex} @ {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}')
            except Exception as ex:
                tb = traceback.extract_tb(ex.__traceback__)
                if not any(f.filename.startswith(os.path.abspath(REPO) + os.sep) for f in tb): raise core.Unsupported(f'{type(ex).__name__}: {ex} @ {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}')
                o = e.prove(f'{c.cid}/no exception', core.FALSE)
                o.detail = f'{type(ex).__name__}: {ex} @ {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}'
            finally:
                sys.setprofile(None)
    info = e.explore(harness)
    agg = {}
    refuted = []
    for o in e.obls:
        a = agg.setdefault(o.name, dict(n=0, proved=0, refuted=0, unknown=0, secs=0.0, backends={}))
        a['n'] += 1; a[o.status] += 1; a['secs'] += o.secs
        if o.status == 'proved': a['backends'][o.backend] = a['backends'].get(o.backend, 0) + 1
        if o.status == 'refuted': refuted.append(dict(name=o.name, model=o.model, detail=o.detail))
        if o.status == 'unknown' : a['detail'] = o.detail[:400]
    uns = sorted({m for s, m in info if s == 'unsupported'}); lim = [m for s, m in info if s == 'limit']
    done = sum(1 for s, m in info if s == 'done' and m != 'unsat')
    return dict(name=c.name, agg=agg, refuted=refuted[:8], witnesses=e.path_inputs, unsupported=uns, limit=lim, paths=e.paths, done=done, solver_s=e.solver_s,
                queries=e.queries, assumed=sorted(e.assumed), lemmas=sorted(e.lemmas), functions=sorted(seen), wall=time.monotonic() - t0)

# ------------------------------------------------------------------------------------------------ concrete
def rng_for(c, seed, k):
    h = hashlib.sha256(f'{c.cid}|{seed}|{k}'.encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], 'little'))

def one_conc(c, rng, values=None, scale=None):
    """('ok'|'discard'|'fail', label, detail, inputs, nchecks)"""
    E = env.ConcEnv(c.cid, rng, values, rtol=c.rtol)
    E.values_given = values is not None; E.scale = scale
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            np.random.seed(int(rng.integers(2**31)))
            c.fn(E)
        return ('ok', '', '', E.used, E.checked)
    except env.Discard: return ('discard', '', '', E.used, E.checked)
    except env.ContractViolation as v: return ('fail', v.label, v.detail, E.used, E.checked)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        return ('fail', 'no exception', f'{type(ex).__name__}: {ex} @ {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}', E.used, E.checked)

def run_conc(c, tier, seed, n=None, limit=None, skip=()):
    t0 = time.monotonic()
    n = n or (c.samples or (60, 600))[0 if tier == 'quick' else 1]
    soft = n                                    # at least n samples, more while they are cheap
    if tier == 'quick' and n >= 20: n *= 10
    limit = limit or (25 if tier == 'quick' else 150)
    ok = disc = chk = 0; fails = []; distinct = set(); sample = None
    for k in range(n):
        if time.monotonic() - t0 > limit or k >= soft and time.monotonic() - t0 > 4: break
        r = one_conc(c, rng_for(c, seed, k))
        if r[0] == 'ok':
            ok += 1; distinct.add(hashlib.md5(repr(sorted((a, np.asarray(b).tobytes() if isinstance(b, np.ndarray) else str(b)) for a, b in r[3].items())).encode()).hexdigest())
            if sample is None: sample = {a: (b.tolist() if isinstance(b, np.ndarray) and b.size < 40 else str(b)[:80]) for a, b in r[3].items()}
        elif r[0] == 'discard': disc += 1
        else:
            fails.append(dict(label=r[1], detail=r[2], k=k, inputs=pack(r[3])))
            if len(fails) >= 3: break
        chk += r[4]
    return dict(name=c.name, ok=ok, discarded=disc, checks=chk, fails=fails, distinct=len(distinct), sample=sample, wall=time.monotonic() - t0)

LARGE = [(1100, None), (None, 1100), (2600, None), (None, 2600), (280, 270), (6000, None), (None, 6000)]
def run_large(c, seed, limit=40):
    """a few inputs far larger than the other bounded ones, for code that treats large arrays differently"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    t0 = time.monotonic(); ok = chk = 0; fails = []
    for k in range(2 * len(LARGE)):
        if time.monotonic() - t0 > limit or fails: break
        try: r = one_conc(c, rng_for(c, seed, 2 * 10**6 + k), scale=LARGE[k % len(LARGE)])
        except (env.Discard, MemoryError): continue
        chk += r[4]
        if r[0] == 'ok': ok += 1
        elif r[0] == 'fail' and 'MemoryError' not in str(r[2]): fails.append(dict(label=r[1], detail=r[2], k=k, inputs=pack(r[3])))
    return dict(name=c.name, ok=ok, discarded=0, checks=chk, fails=fails, distinct=ok, sample=None, wall=time.monotonic() - t0)

def run_guided(c, model, seed, limit=30):
    """replay a counter-model; then its sizes and scalars with generated contents"""
    if mp.parent_process() is not None:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    t0 = time.monotonic()
    part = {k: v for k, v in model.items() if not isinstance(v, np.ndarray)}
    for k in range(200):
        if time.monotonic() - t0 > limit: break
        try: o = one_conc(c, rng_for(c, seed, 10**6 + k), model if k == 0 else part)
        except BaseException: continue
        if o[0] == 'fail' and 'MemoryError' not in str(o[2]): return dict(label=o[1], detail=o[2], inputs=pack(o[3]))
    return None

def pack(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, np.ndarray): out[k] = dict(__array__=[[repr(float(x)) if v.dtype.kind == 'f' else x for x in v.ravel().tolist()], list(v.shape), v.dtype.str])
        elif isinstance(v, (np.integer, np.floating, np.bool_)): out[k] = v.item()
        else: out[k] = v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)
    return out
def unpack(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and '__array__' in v:
            vals, sh, dt = v['__array__']
            out[k] = np.array([float(x) for x in vals] if np.dtype(dt).kind == 'f' else vals, dtype=dt).reshape(sh)
        else: out[k] = v
    return out

# ------------------------------------------------------------------------------------------------ pool
def _child(conn, fn, args):
    try: conn.send(('ok', fn(*args)))
    except BaseException as ex: conn.send(('err', f'{type(ex).__name__}: {ex}\n{traceback.format_exc()[-1500:]}'))
    finally:
        conn.close(); os._exit(0)

def pool(tasks, workers, hard):
    """tasks: list of (key, fn, args, timeout); forked processes; returns {key: result}"""
    ctx = mp.get_context('fork')
    todo = list(tasks); live = []; res = {}
    t0 = time.monotonic()
    while todo or live:
        while todo and len(live) < workers:
            key, fn, args, to = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, fn, args)); p.start(); b.close()
            live.append([key, p, a, time.monotonic() + to])
        now = time.monotonic()
        for it in list(live):
            key, p, a, dl = it
            if a.poll(0):
                try: res[key] = a.recv()
                except EOFError: res[key] = ('err', 'worker died')
                p.join(); live.remove(it)
            elif now > dl or now - t0 > hard:
                p.kill(); p.join(); live.remove(it); res[key] = ('err', 'timeout')
        if now - t0 > hard and todo:
            for key, *_ in todo: res[key] = ('err', 'not started: time budget used up')
            todo = []
        time.sleep(.01)
    return res

def load_known():
    known = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                d = dict(x.split('=', 1) for x in line[6:].split(' | ')[0].split() if '=' in x)
                known.append((d['property'], d['id'].replace('~', ' '), line.split(' | ', 1)[1] if ' | ' in line else ''))
    return known

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-sym', action='store_true'); ap.add_argument('--no-conc', action='store_true'); ap.add_argument('--baseline', action='store_true')
    ap.add_argument('--trace', action='store_true'); ap.add_argument('--large', action='store_true')
    a = ap.parse_args()
    t0 = time.monotonic()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ.setdefault('MPLCONFIGDIR', '/tmp/dv-mpl')
    cs = load(prop)
    if a.only: cs = [c for c in cs if a.only in c.name]
    if a.trace:
        for c in cs:
            if c.sym and not a.no_sym: print(json.dumps(run_sym(c, tier), indent=1, default=str))
        return 0
    if a.large:
        for n, r in pool([(c.name, run_large, (c, seed), 60) for c in cs if c.conc], 8, 1e9).items():
            print('[large]', prop, n, r[0], r[1] if r[0] != 'ok' else f"ok={r[1]['ok']} wall={r[1]['wall']:.1f}s" + ''.join(f" FAIL k={f['k']} {f['label']}: {str(f['detail'])[:300]}" for f in r[1]['fails']))
        return 0
    base = {}
    bp = os.path.join(VERIF, 'baseline.json')
    if os.path.exists(bp): base = json.load(open(bp)).get(prop, {})
    known = load_known()
    total = 700 if tier == 'quick' else 3000
    workers = 8
    tasks = []
    for c in cs:
        if c.sym and not a.no_sym: tasks.append((('sym', c.name), run_sym, (c, tier), (c.timeout or 50) * (1.7 if tier == 'quick' else 4) * 1.5 + 20))
    for c in cs:
        if c.conc and not a.no_conc: tasks.append((('conc', c.name), run_conc, (c, tier, seed), 60 if tier == 'quick' else 240))
    for c in cs:
        if c.conc and not a.no_conc and (not c.sym or base.get(c.name) != 'proved'): tasks.append((('large', c.name), run_large, (c, seed, 10), 30))
    tasks.sort(key=lambda t: -t[3])
    res = pool(tasks, workers, total)
    for c in cs:
        k, l = res.get(('conc', c.name)), res.pop(('large', c.name), None)
        if l and l[0] == 'ok' and k and k[0] == 'ok': k[1]['ok'] += l[1]['ok']; k[1]['distinct'] += l[1]['ok']; k[1]['checks'] += l[1]['checks']; k[1]['fails'] += l[1]['fails']
    # contracts proved on the committed tree that are no longer proved: search more widely for a failing input
    ext = []
    if not a.no_conc and not a.baseline:
        for c in cs:
            s = res.get(('sym', c.name)); k = res.get(('conc', c.name))
            if s is None or not c.conc or base.get(c.name) != 'proved' or (k and k[0] == 'ok' and k[1]['fails']): continue
            ok = s[0] == 'ok' and s[1]['done'] and not s[1]['unsupported'] and not s[1]['limit'] and all(x['proved'] == x['n'] for x in s[1]['agg'].values())
            if not ok: ext.append(c)
    if ext:
        left = max(30, 600 - (time.monotonic() - t0))
        wide = pool([(c.name, run_conc, (c, 'thorough', seed + 7777, 2000, 60), 80) for c in ext] + [((c.name, 'large'), run_large, (c, seed), 60) for c in ext], workers, left)
        for c in ext:
            w, l = wide[c.name], wide.pop((c.name, 'large'))
            if l[0] == 'ok' and (w[0] != 'ok' or l[1]['fails'] and not w[1]['fails']): wide[c.name] = l
    else: wide = {}
    # inputs that take the paths the prover did not decide
    wit = []
    for c in cs:
        s = res.get(('sym', c.name)); k = res.get(('conc', c.name))
        if s is None or s[0] != 'ok' or a.no_conc or not c.conc or (k and k[0] == 'ok' and k[1]['fails']) or wide.get(c.name, ('err',))[0] == 'ok' and wide[c.name][1]['fails']: continue
        wit += [((c.name, n), run_guided, (c, m, seed, 20), 60) for n, m in enumerate(s[1]['witnesses'])]
    wits = {}
    for (n, _), r in sorted(pool(wit, workers, max(30, 640 - (time.monotonic() - t0))).items()) if wit else ():
        w = wits.setdefault(n, [0, []]); w[0] += 1
        if r[0] == 'ok' and r[1]: w[1].append(r[1])
    byname = {c.name: c for c in cs}
    lines = []; viols = []; obligations = discharged = 0; und = []; evc = []; solver_s = 0.0
    assumed = set(); lemmas = set(); funcs = set(); backends = {}; proved_contracts = []
    newbase = {}
    for c in cs:
        s = res.get(('sym', c.name)); k = res.get(('conc', c.name))
        rec = dict(contract=c.name, specifies=c.stmt, functions=c.functions)
        status = 'none'
        if s is not None:
            if s[0] == 'err':
                status = 'undecided'; rec['reason'] = s[1][-600:]
                if a.v: print('SYM ERR', c.name, s[1])
            else:
                s = s[1]; solver_s += s['solver_s']; assumed.update(s['assumed']); lemmas.update(s['lemmas']); funcs.update(s['functions'])
                n = sum(x['n'] for x in s['agg'].values()); pr = sum(x['proved'] for x in s['agg'].values())
                obligations += n; discharged += pr
                for x in s['agg'].values():
                    for b, m in x['backends'].items(): backends[b] = backends.get(b, 0) + m
                rf = sum(x['refuted'] for x in s['agg'].values())
                if rf: status = 'refuted'
                elif s['unsupported'] or s['limit'] or any(x['unknown'] for x in s['agg'].values()): status = 'undecided'
                elif n == 0 or s['done'] == 0: status = 'vacuous'
                else: status = 'proved'
                rec.update(obligations=n, discharged=pr, paths=s['paths'], feasible_paths=s['done'], solver_s=round(s['solver_s'], 2), wall_s=round(s['wall'], 2),
                           undecided=s['unsupported'] + s['limit'] + [f'{q}: unknown' for q, x in s['agg'].items() if x['unknown']])
                if a.v:
                    print(f"[sym] {c.name}: {status} obligations={n} proved={pr} paths={s['paths']} done={s['done']} wall={s['wall']:.1f}s")
                    for q, x in s['agg'].items():
                        if x['proved'] != x['n']: print('    ', q, x['n'], 'proved', x['proved'], 'refuted', x['refuted'], 'unknown', x['unknown'], x.get('detail', '')[:300])
                    for r in s['refuted'][:3]: print('     REFUTED', r['name'], str(r['detail'])[:400], '\n       model', str(r['model'])[:300])
                    if s['unsupported'] or s['limit']: print('     UNDECIDED', s['unsupported'], s['limit'])
        rec['proof_status'] = status
        newbase[c.name] = status
        if status == 'proved': proved_contracts.append(c.name)
        elif c.sym: und.append(c.name)
        fails = []
        if k is not None:
            if k[0] == 'err':
                rec['bounded'] = dict(error=k[1][-300:])
                if a.v: print('CONC ERR', c.name, k[1])
            else:
                k = k[1]; fails = k['fails']
                rec['bounded'] = dict(samples=k['ok'], distinct=k['distinct'], discarded=k['discarded'], clauses_checked=k['checks'], bound=c.bounded or 'seeded inputs: sizes up to about 20 points per axis (a few inputs up to 6000), see dv/env.py gen_values', sample=k['sample'])
                if a.v: print(f"[conc] {c.name}: ok={k['ok']} disc={k['discarded']} checks={k['checks']} fails={len(fails)} wall={k['wall']:.1f}s" + (''.join('\n     FAIL ' + f['label'] + ': ' + str(f['detail'])[:300] for f in fails)))
        w = wide.get(c.name)
        if w and w[0] == 'ok':
            rec['wider_search'] = dict(samples=w[1]['ok'], fails=len(w[1]['fails']))
            fails = fails + w[1]['fails']
            if a.v: print(f"[wide] {c.name}: ok={w[1]['ok']} fails={len(w[1]['fails'])}" + (''.join('\n     FAIL ' + f['label'] + ': ' + str(f['detail'])[:300] for f in w[1]['fails'])))
        if c.name in wits:
            rec['path_witnesses'] = dict(paths=wits[c.name][0], fails=len(wits[c.name][1])); fails = fails + wits[c.name][1]
            if a.v: print(f"[paths] {c.name}: undecided paths run={wits[c.name][0]} fails={len(wits[c.name][1])}" + ''.join('\n     FAIL ' + f['label'] + ': ' + str(f['detail'])[:300] for f in wits[c.name][1]))
        evc.append(rec)
        # known findings of this contract
        kn = {i: w for p, i, w in known if p == prop}
        bad = []
        for f in fails:
            fid = f'{c.name}/{f["label"]}'
            if fid in kn: lines.append(f'KNOWN-FINDING: property={prop} {fid}: {kn[fid]}')
            else: bad.append(f)
        ref = []
        if s is not None and isinstance(s, dict) and status == 'refuted':
            ref = [r for r in s['refuted'] if r['name'].split('/', 1)[1] not in kn]
        if bad:
            viols.append((c, 'replayed', bad[0], ref[:1]))
        elif ref:
            # replay the counter-models, then search more widely
            found = None
            for r in ref:
                if r['model']:
                    q = pool([('r', run_guided, (c, r['model'], seed), 40)], 1, 40).get('r')
                    if q and q[0] == 'ok' and q[1]: found = q[1]; break
            if found is not None and f'{c.name}/{found["label"]}' in kn: found = None
            elif found is not None: viols.append((c, 'replayed', found, ref[:1]))
            elif base.get(c.name) == 'proved' or a.baseline: viols.append((c, 'nfi', None, ref[:2]))
            else: und.append(c.name)
    seenl = set()
    for l in lines:
        if l not in seenl: print(l); seenl.add(l)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True); os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    out = []
    for n, (c, kind, f, ref) in enumerate(viols):
        path = os.path.join(VERIF, 'replays', f'{prop}-{n}.json')
        json.dump(dict(property=prop, contract=c.name, specifies=c.stmt, kind=kind, failing=f, failed_obligations=[dict(name=r['name'], detail=r['detail'], model=str(r['model'])) for r in ref],
                       rerun=f'cd /verif && /opt/venv/bin/python -m dv.replay {path}'), open(path, 'w'), indent=1, default=str)
        what = f"{c.name}/{f['label']}: {f['detail']}" if f else '; '.join(r['name'] + ' ' + str(r['detail'])[:200] for r in ref)
        print(f'# {what[:500]}')
        print(f'VIOLATION property={prop} replay={path}' + (' no-failing-input-found' if kind == 'nfi' else ''))
    bn = sum(r.get('bounded', {}).get('samples', 0) or 0 for r in evc)
    try:
        man = {x['property']: x['level'] for x in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']}
    except Exception: man = {}
    level = man.get(prop, 'proof')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.monotonic() - t0, 2), violations=len(viols),
              coverage=dict(obligations=obligations, discharged=discharged, checker_cmd=f'cd /verif && /opt/venv/bin/python -m dv.run {prop} --tier {tier}',
                            trusted_base=TRUSTED + sorted(assumed), evaluations=bn, distinct_nontrivial=sum(r.get('bounded', {}).get('distinct', 0) or 0 for r in evc),
                            rule='bounded contract runs on seeded inputs of the unmodified functions; distinct by input values; discarded samples not counted',
                            samples=[dict(contract=r['contract'], input=r['bounded'].get('sample')) for r in evc if r.get('bounded', {}).get('sample')][:3],
                            explanation='contracts discharged for all inputs are listed under proved_contracts; the others were decided by the bounded contract runs only and are listed under bounded_only',
                            proved_contracts=proved_contracts, bounded_only=[c.name for c in cs if c.name not in proved_contracts],
                            functions_executed_symbolically=sorted(funcs), back_ends=backends, solver_s=round(solver_s, 2), lemmas=sorted(lemmas), contracts=evc),
              assumptions=ASSUMPTIONS + sorted(assumed))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w'), indent=1, default=str)
    if a.baseline:
        allb = json.load(open(bp)) if os.path.exists(bp) else {}
        allb[prop] = newbase
        json.dump(allb, open(bp, 'w'), indent=1, sort_keys=True)
    nothing = obligations == 0 and bn == 0
    print(f'{prop}: {len(cs)} contracts, {len(proved_contracts)} proved, obligations {discharged}/{obligations}, bounded runs {bn}, violations {len(viols)}, {time.monotonic() - t0:.1f}s')
    if und and a.v: print('not proved:', und)
    if viols: return 1
    if nothing:
        print('no obligation was generated and nothing was executed'); return 2
    return 0

TRUSTED = ['CPython executing the repository functions on symbolic values (dv/core.py, dv/arr.py)', 'numpy/scipy contracts in dv/npshim.py', 'z3', 'cvc5', 'polynomial normaliser in dv/core.py']
ASSUMPTIONS = ['machine floats are treated as mathematical reals with a missing flag; rounding, overflow and infinities are outside the proofs (the bounded runs use real floats)',
               'integers are mathematical', 'division by zero is an unspecified value in the proofs', 'array elements are independent reals; dtype effects are covered by the bounded runs only']
if __name__ == '__main__':
    sys.exit(main())

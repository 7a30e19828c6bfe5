import itertools, math, os, shutil, tempfile, threading, zlib
from pathlib import Path
import numpy as np, pandas as pd
from dv.contract import contract
from dv.core import Unsupported, Infeasible, PathLimit, PathEnd
from dv.env import Discard
from .common import *
from .itercut import AnyList
from surfalize.batch import Batch, FileInput, BatchResult
from surfalize.exceptions import CalculationError, FittingError, BatchError
F = 'surfalize/batch.py:'
TASK = [F + f for f in ('_task', '_Operation.execute_on', '_Parameter.calculate_from', '_CustomParameter.calculate_from', '_CustomOperation.execute_on')]
EXEC = [F + 'Batch.' + f for f in ('execute', '_disptach_tasks', '_construct_dataframe', '_add_step', '_create_batch_method', 'custom_parameter', 'custom_operation', 'roughness_parameters', '__init__')]

def kinds():
    ops, pars = {}, {}
    for c in Surface.__mro__:
        for k, v in vars(c).items():
            if hasattr(v, '_batch_type') and k not in ops and k not in pars: (ops if v._batch_type == 'operation' else pars)[k] = v
    return ops, pars
OPS, PARS = kinds()

class Boom(Exception):
    """any other error"""

def value(state, name, a, k): return zlib.crc32(repr((state, name, a, sorted(k.items()))).encode()) / 7

class Host:
    """surfaces whose operations and parameters are arbitrary functions of the history and the arguments"""
    def __init__(s, fails=()):
        s.fails, s.loads, s.lock = dict(fails), [], threading.Lock()
        host = s
        class Ghost(Surface):
            def __init__(g, f): g.state = ('file', f); g.log = []
            def __repr__(g): return f'<{g.state}>'
        def op(n):
            def m(g, *a, **k): g.state = (n, a, tuple(sorted(k.items())), g.state); g.log.append(n); return g
            return m
        def par(n, labels):
            def m(g, *a, **k):
                g.log.append(n)
                if n in host.fails: raise host.fails[n]
                return value(g.state, n, a, k) if labels is None else tuple(value(g.state, (n, l), a, k) for l in labels)
            if labels is not None: m.return_labels = labels
            return m
        for n in OPS: setattr(Ghost, n, op(n))
        for n, f in PARS.items(): setattr(Ghost, n, par(n, getattr(f, 'return_labels', None)))
        s.Ghost = Ghost
    def load(s, cls, f, *a, **k):
        with s.lock: s.loads.append((f, k.get('format', a[0] if a else None)))
        return s.Ghost(f)
    def __enter__(s):
        s.old = Surface.__dict__['load']; host = s
        Surface.load = classmethod(lambda cls, f, *a, **k: host.load(cls, f, *a, **k))
        return s
    def __exit__(s, *a): Surface.load = s.old

class Step:
    """one registered step and what it does when applied directly"""
    def __init__(s, kind, name=None, args=(), kwargs=None, custom=None):
        s.kind, s.name, s.args, s.kwargs, s.custom = kind, name, args, kwargs or {}, custom
        n = name
        if kind == 'cop':
            def func(g): g.state = ('custom operation', n, g.state); g.log.append(n); return 5
            s.func = func
        if kind == 'cpar':
            def func(g):
                g.log.append(n)
                if n == 'failing': raise CalculationError('x')
                return {f'{n}_1': value(g.state, n, 1, {}), f'{n}_2': value(g.state, n, 2, {})}
            s.func = func
    def register(s, b):
        if s.kind == 'cop': return b.custom_operation(s.func)
        if s.kind == 'cpar': return b.custom_parameter(s.func)
        return getattr(b, s.name)(*s.args, **s.kwargs, **({'custom_name': s.custom} if s.custom else {}))
    @property
    def isop(s): return s.kind in ('op', 'cop')
    def column(s): return s.custom or s.name
    def apply(s, g, ignore):
        """direct application: columns it adds"""
        if s.kind in ('cop', 'cpar'):
            try: r = s.func(g)
            except CalculationError:
                if not ignore: raise
                return {}
            return {} if s.kind == 'cop' else r
        real = (OPS if s.isop else PARS)[s.name]
        m = getattr(g, s.name); labels = getattr(m, 'return_labels', None)
        if s.isop: m(*s.args, **{**s.kwargs, **real._fixed}); return {}
        try: r = m(*s.args, **{**s.kwargs, **real._fixed})
        except CalculationError:
            if not ignore: raise
            return {f'{s.column()}_{l}': math.nan for l in labels} if labels else {s.column(): math.nan}
        return {f'{s.column()}_{l}': v for l, v in zip(labels, r)} if labels else {s.column(): r}
    def __repr__(s): return f'{s.kind}:{s.name}{s.args}{s.kwargs}{s.custom or ""}'

def direct(host, fname, source, steps, ignore, preserve):
    g = host.Ghost(source); row = {'file': fname}
    for s in steps if preserve else [s for s in steps if s.isop] + [s for s in steps if not s.isop]: row.update(s.apply(g, ignore))
    return row, g

def same(a, b): return set(a) == set(b) and all(a[k] == b[k] or isinstance(a[k], float) and isinstance(b[k], float) and math.isnan(a[k]) and math.isnan(b[k]) for k in a)
LABELLED = [n for n, f in PARS.items() if hasattr(f, 'return_labels')]
FAILS = {'Ssk': CalculationError('failed'), **({LABELLED[0]: CalculationError('failed')} if LABELLED else {})}

MENU = lambda: [Step('op', 'center'), Step('op', 'filter', ('lowpass', 3)), Step('op', 'level'), Step('par', 'Sa'), Step('par', 'Smr', (1.5,), dict(), 'named'), Step('par', 'Vmc', (), dict(p=11, q=70)), Step('par', 'Ssk'),
                *[Step('par', n) for n in LABELLED], *[Step('par', n, (), {}, 'labelled') for n in LABELLED], Step('cop', 'first'), Step('cpar', 'second'), Step('cpar', 'failing')]

# ---------------------------------------------------------------------------------------------- one file
PRE = '<columns of any steps before>'
@contract('P20', 'any list of steps', TASK + EXEC[:2])
def anysteps(E):
    """loop over the steps of one file: each step is applied once, in order, to the surface the steps before it left; its columns are added"""
    err = E.choose('fail', [None, CalculationError, FittingError]); fails = {} if err is None else {n: err('failed') for n in FAILS}
    ignore = E.choose('ignore_errors', [True, False]); via = E.choose('file', ['path', 'input'])
    file = Path('dir.v/X 1.b.SUR') if via == 'path' else FileInput('Name.DAT', object(), '.sur')
    name, src = ('X 1.b.SUR', file) if via == 'path' else ('Name.DAT', file.data)
    with Host(fails) as host:
        if not E.sym:
            steps = distinct([MENU()[i] for i in E.rng.integers(0, len(MENU()), int(E.rng.integers(1, 9)))])
            b = Batch([file])
            for s in steps: s.register(b)
            check(E, b, host, [(file, name, src)], steps, ignore, True, False)
            return
        b = Batch([file]); made = []
        if not hasattr(b, '_steps'): raise Unsupported('no _steps')
        def born(f):
            g = host.Ghost(f); made.append(g); return g
        host.load = lambda cls, f, *a, **k: (host.loads.append((f, k.get('format', a[0] if a else None))), born(f))[1]
        def established(r): return r == {'file': name} and len(made) == 1 and made[0].state == ('file', src) and host.loads == [(src, file.format if via == 'input' else None)]
        def havoc(r):
            r[PRE] = 1.0; made[0].state = ('any operations before', made[0].state); made[0].log.clear(); L.ref = host.Ghost(src); L.ref.state = made[0].state
        def pick():
            s = E.choose('step', MENU()); L.step = s; t = Batch([]); s.register(t); return t._steps[0]
        def preserved(r, _):
            try: want = L.step.apply(L.ref, ignore)
            except CalculationError: return False
            if same(r, {'file': name, PRE: 1.0}) and not made[0].log and (want or L.ref.log): return None
            return same(r, {'file': name, PRE: 1.0, **want}) and made[0].state == L.ref.state and made[0].log == L.ref.log
        L = AnyList(E, 'surfalize/batch.py', dict, established, havoc, pick, preserved); L.nonempty = True; L.step = None
        b._steps = L
        try: r = b.execute(multiprocessing=False, ignore_errors=ignore)
        except CalculationError:
            E.ens('fails only when errors are not ignored and the step fails', not ignore and bool(fails) and (L.step.name in fails or L.step.name == 'failing') or not ignore and L.step.name == 'failing')
            return
        E.ens('one row with the columns of all steps', r.get_dataframe().to_dict('records') == [{'file': name, PRE: 1.0}])
        E.ens('one surface', len(made) == 1)

def errors():
    """every kind of error that is no calculation error: the interpreter's, the package's, numpy's and an unknown one"""
    out, todo = [], [Exception]
    while todo:
        c = todo.pop(); todo += c.__subclasses__()
        if c.__module__ == 'builtins' or c.__module__.startswith(('surfalize', 'numpy')): out.append(c)
    return sorted({c for c in out if not issubclass(c, (CalculationError, StopIteration, StopAsyncIteration, Warning, BaseExceptionGroup))}, key=lambda c: c.__qualname__) + [Boom]
ERRORS = errors()
def arisen(c):
    try: return c('x')
    except TypeError: return c.__new__(c)

@contract('P20', 'errors at any step', TASK + EXEC[:2], max_paths=2000)
def anyerror(E):
    """an error of a parameter that is no calculation error, and every error of an operation, propagates from any place in the list"""
    kind = E.choose('kind', ['par', 'labelled', 'cpar', 'op', 'cop']); err = arisen(E.choose('error', ERRORS if kind in ('par', 'labelled', 'cpar') else [Boom, ValueError, CalculationError, FittingError]))
    ignore = E.choose('ignore_errors', [True, False])
    called = []
    def fail(*a, **k): called.append(1); raise err
    name = {'par': 'Sq', 'op': 'level', 'labelled': (LABELLED or ['Sq'])[0]}.get(kind, 'fail')
    with Host() as host:
        f = fail
        if kind == 'labelled': f.return_labels = getattr(PARS[name], 'return_labels', ())
        if kind not in ('cop', 'cpar'): setattr(host.Ghost, name, f)
        def bad(b): return b.custom_operation(f) if kind == 'cop' else b.custom_parameter(f) if kind == 'cpar' else getattr(b, name)()
        b = Batch([Path('a.sur')])
        if E.sym:
            if not hasattr(b, '_steps'): raise Unsupported('no _steps')
            def pick():
                L.picked = True; t = Batch([]); bad(t); return t._steps[0]
            L = AnyList(E, 'surfalize/batch.py', dict, lambda r: set(r) == {'file'}, lambda r: r.update({PRE: 1.0}), pick, lambda r, s: False if called else None); L.nonempty = True; L.picked = False
            b._steps = L; multi = False
        else:
            M = [m for m in MENU() if m.name != name and m.name != 'failing']; steps = distinct([M[i] for i in E.rng.integers(0, len(M), int(E.rng.integers(0, 5)))]); at = int(E.rng.integers(0, len(steps) + 1))
            for m in steps[:at]: m.register(b)
            bad(b)
            for m in steps[at:]: m.register(b)
            multi = err.args == ('x',) and bool(E.rng.integers(4) == 0)
        try: b.execute(multiprocessing=multi, ignore_errors=ignore, **({} if E.sym else dict(preserve_chaining_order=bool(E.rng.integers(2))))); got = None
        except (Unsupported, Infeasible, PathLimit, PathEnd): raise
        except Exception as ex: got = ex
        if E.sym and not L.picked: return
        E.ens('propagates', got is not None and (got is err or type(got) is type(err)), f'{got!r} for {err!r}')

@contract('P20', 'any list of files', EXEC[:2])
def anyfiles(E):
    """loop over the files without multiprocessing: one row per file, in order, and one call of the callback"""
    fails = E.choose('fails', [False, True])
    with Host({'Sa': CalculationError('x')} if fails else {}) as host:
        files = [FileInput(f'n{i}', ('data', i), f'.f{i}') for i in range(5)]
        seen = []
        if not E.sym:
            k = int(E.rng.integers(1, 5)); b = Batch(files[:k]).level().Sa(); r = b.execute(multiprocessing=bool(E.rng.integers(2)), on_file_complete=seen.append).get_dataframe()
            E.ens('one row per file', sorted(r['file']) == [f.name for f in files[:k]]); E.ens('one call per file', sorted(x['file'] for x in seen) == sorted(r['file'])); return
        b = Batch(files[:1]).level().Sa()
        if not hasattr(b, '_files'): raise Unsupported('no _files')
        row = lambda f: {'file': f.name, **{k: v for k, v in direct(host, f.name, f.data, [Step('op', 'level'), Step('par', 'Sa')], True, True)[0].items() if k != 'file'}}
        first = {'file': '<rows of any files before>', 'Sa': 1.0}
        L = AnyList(E, 'surfalize/batch.py', list, lambda r: r == [] and not host.loads and not seen, lambda r: r.append(first), lambda: files[0],
                    lambda r, f: None if len(r) == 1 and not host.loads else len(r) == 2 and r[0] is first and same(r[1], row(f)) and len(seen) == 1 and same(seen[0], row(f)) and host.loads == [(f.data, f.format)])
        L.nonempty = True
        b._files = L
        r = b.execute(multiprocessing=False, on_file_complete=seen.append).get_dataframe()
        E.ens('one row per file', r.to_dict('records') == [first])

def distinct(steps):
    """drop repeated parameters (refused at registration)"""
    out, seen = [], set()
    for s in steps:
        if not s.isop:
            k = s.column() if s.kind == 'par' else s.name
            if k in seen: continue
            seen.add(k)
        out.append(s)
    return out

def check(E, b, host, files, steps, ignore, preserve, multi, lbl=''):
    want, err = [], None
    n0 = len(host.loads)
    for f, name, src in files:
        try: want.append(direct(host, name, src, steps, ignore, preserve)[0])
        except (CalculationError, Boom) as ex: err = err or ex
    seen = []
    try: r = b.execute(multiprocessing=multi, ignore_errors=ignore, preserve_chaining_order=preserve, on_file_complete=seen.append)
    except (CalculationError, Boom) as ex:
        E.ens(lbl + 'error propagates', err is not None and type(ex) is type(err), f'{ex!r}'); return
    E.ens(lbl + 'no error', err is None, f'{err!r} did not propagate')
    df = r.get_dataframe()
    E.ens(lbl + 'every file loaded exactly once', sorted(map(repr, host.loads[n0:])) == sorted(repr((src, f.format if isinstance(f, FileInput) else None)) for f, _, src in files))
    cols = list(dict.fromkeys(k for w in want for k in w))
    E.ens(lbl + 'columns', set(df.columns) == set(cols), f'{list(df.columns)} for {cols}')
    got = df.to_dict('records')
    E.ens(lbl + 'one row per file', sorted(x['file'] for x in got) == sorted(w['file'] for w in want))
    for w in want:
        m = [x for x in got if x['file'] == w['file'] and same({k: v for k, v in x.items() if k in w}, w)]
        if m: got.remove(m[0])
        E.ens(lbl + 'values of direct computation', len(m) >= 1, f'{steps}: {[x for x in got if x["file"] == w["file"]]} for {w}')
    E.ens(lbl + 'callback once per file', sorted(x['file'] for x in seen) == sorted(w['file'] for w in want))

@contract('P20', 'sequences of steps', TASK + EXEC, sym=False, bounded='every sequence of up to two steps and sampled ones of up to nine, of the step kinds; both orders, errors ignored or not, with and without multiprocessing', samples=(60, 600))
def sequences(E):
    r = E.rng; M = MENU()
    if not DONE: DONE.append(1); S = [list(p) for n in (1, 2) for p in itertools.product(M, repeat=n) if len(distinct(p)) == n]
    else: S = [distinct([M[i] for i in r.integers(0, len(M), int(r.integers(3, 10)))]) for _ in range(3)]
    for steps in S:
        with Host(FAILS if r.integers(3) else {}) as host:
            k = 1 if len(S) > 10 else int(r.integers(1, 6))
            nm = (lambda i: 0) if r.integers(3) == 0 else (lambda i: i)          # files of different folders may have the same name
            files = [(f := Path(f'd{i}') / (n := r.choice(NAMES) % nm(i)), n, f) if r.integers(2) else (f := FileInput(n := r.choice(NAMES) % nm(i), f'data{i}', '.x'), n, f.data) for i in range(k)]
            how = r.integers(3)
            if how == 0: b = Batch([f for f, _, _ in files])
            else:
                j = int(r.integers(0, k + 1)); b = Batch([f for f, _, _ in files[:j]]); b.add_files([f for f, _, _ in files[j:]])
            E.ens('length', len(b) == k)
            for s in steps: E.ens('chaining', s.register(b) is b)
            for preserve in (True, False):
                for ignore in (True, False) if len(S) > 10 else (bool(r.integers(4)),): check(E, b, host, files, steps, ignore, preserve, len(S) <= 10 and bool(r.integers(2)), f'{"preserved" if preserve else "operations first"}: ')
DONE = []
NAMES = ['f%d.sur', 'F%d.SUR', 'f.%d.Sdf', ' f %d', 'é_%d.vk4', '.f%d', 'f%d.']

# ---------------------------------------------------------------------------------------------- registration
@contract('P20', 'registered methods', EXEC[3:5] + TASK[1:3], max_paths=5000)
def registered(E):
    """every batch method applies the surface method of its name with the given arguments and the fixed ones, under the given name"""
    name = E.choose('method', [*OPS, *PARS]); a, k = E.choose('arguments', [((), {}), ((1, 'x'), {}), ((), dict(q=2.5, w=None)), ((3,), dict(z='y')), ((), dict(inplace=False))])
    isop = name in OPS; custom = None if isop else E.choose('custom name', [None, 'my name'])
    with Host() as host:
        s = Step('op' if isop else 'par', name, a, k, custom)
        b = Batch([Path('X.y.SUR')])
        E.ens('chaining', s.register(b) is b)
        steps = [s]
        if isop: steps.append(Step('par', 'Sq')); steps[1].register(b)           # its value depends on the operation and its arguments
        check(E, b, host, [(Path('X.y.SUR'), 'X.y.SUR', Path('X.y.SUR'))], steps, True, True, False)

@contract('P20', 'same name twice', EXEC[3:8])
def twice(E):
    """refused however the name arises; different names and operations are accepted"""
    names = list(PARS); n = E.choose('parameter', names); between = E.choose('between', [0, 1])
    def f(s): return {}
    for first, second in ((lambda b: getattr(b, n)(), lambda b: getattr(b, n)()), (lambda b: getattr(b, n)(1), lambda b: getattr(b, n)(2)), (lambda b: b.roughness_parameters([n]), lambda b: getattr(b, n)()), (lambda b: getattr(b, n)(), lambda b: b.roughness_parameters([n])),
                          (lambda b: b.Sq(custom_name=n) if n != 'Sq' else b.Sa(custom_name=n), lambda b: getattr(b, n)()), (lambda b: getattr(b, n)(custom_name='c'), lambda b: b.Sa(custom_name='c')), (lambda b: b.roughness_parameters([n, n]) if 0 else getattr(b, n)(custom_name='q'), lambda b: b.Sz(custom_name='q'))):
        b = Batch([]); first(b)
        if between: b.level().custom_operation(f).level()
        E.raises('refused', BatchError, second, b)
    b = Batch([]); getattr(b, n)()
    if between: b.level()
    E.ens('other name accepted', getattr(b, n)(custom_name='other') is b)
    E.ens('operations may repeat', b.level().level().custom_operation(f).custom_operation(f) is b)
    E.raises('nothing registered', BatchError, Batch([Path('x.sur')]).execute)

@contract('P20', 'standard parameters', EXEC[7:8] + TASK[2:3] + EXEC[3:4], max_paths=5000)
def standard(E):
    """roughness_parameters registers the named ones, whatever the list, or all standard ones, in order"""
    known = [p for p in Surface.AVAILABLE_PARAMETERS if p in PARS]; r = getattr(E, 'rng', None)
    row = [(Path('x.sur'), 'x.sur', Path('x.sur'))]
    with Host() as host:
        b = Batch([Path('x.sur')]).level(); steps = [Step('op', 'level')]
        if not E.sym or E.choose('list', ['any', 'standard']) == 'standard':
            L = None if E.sym or r.integers(3) == 0 else [known[i] for i in r.permutation(len(known))[:r.integers(0, len(known))]]
            b.roughness_parameters(L) if L is not None or E.sym or r.integers(2) else b.roughness_parameters()
            check(E, b, host, row, steps + [Step('par', p) for p in (Surface.ISO_PARAMETERS if L is None else L)], True, True, False); return
        if not hasattr(b, '_steps'): raise Unsupported('no _steps')
        before = Step('par', E.choose('before', ['Sq', 'Sa'])); name = E.choose('name', known)
        def havoc(st): before.register(b); steps.append(before)
        def preserved(st, p):
            if len(b._steps) == 2: return None
            if p == before.name: return False
            check(E, b, host, row, steps + [Step('par', p)], True, True, False); return True
        L = AnyList(E, 'surfalize/batch.py', list, lambda st: len(b._steps) == 1, havoc, lambda: name, preserved); L.state = lambda: b._steps; L.nonempty = True
        try: r = b.roughness_parameters(L)
        except BatchError:
            E.ens('refused only when registered before', name == before.name); return
        E.ens('chaining', r is b); E.ens('nothing else registered', len(b._steps) == 2)

# ---------------------------------------------------------------------------------------------- one parameter
@contract('P20', 'values of a parameter', TASK[2:3], max_paths=5000)
def values(E):
    """arbitrary numbers: one column, or one per label; errors become as many missing columns; unlabelled or mislabelled lists are refused"""
    k = E.choose('values', ['one', 0, 1, 2, 3]); nl = E.choose('labels', ['none', 0, 1, 2, 3]); kind = E.choose('container', [list, tuple, 'array']) if k != 'one' else None
    fail = E.choose('fails', [False, True]); ignore = E.choose('ignore_errors', [True, False]); custom = E.choose('custom name', [None, 'c'])
    if kind == 'array' and k == 0: kind = list
    v = [E.real(f'v{i}') for i in range(1 if k == 'one' else k)]
    labels = None if nl == 'none' else tuple(f'l{i}' for i in range(nl))
    class G(Surface):
        def __init__(s): pass
        def Sa(s):
            if fail: raise CalculationError('x')
            return v[0] if k == 'one' else E.np.array(v) if kind == 'array' else kind(v)
        if labels is not None: Sa.return_labels = labels
    b = Batch([]); b.Sa(**({'custom_name': custom} if custom else {}))
    if not hasattr(b, '_steps') or not hasattr(b._steps[0], 'calculate_from'): raise (Unsupported if E.sym else Discard)('internal interface')
    calc = lambda: b._steps[0].calculate_from(G(), ignore_errors=ignore)
    name = custom or 'Sa'
    if fail:
        if not ignore: E.raises('propagates', CalculationError, calc); return
        r = calc()
        want = [name] if labels is None else [f'{name}_{l}' for l in labels]
        E.ens('missing columns', sorted(r) == sorted(want) and all(isinstance(x, float) and math.isnan(x) for x in r.values()), repr(r)); return
    if k == 'one':
        r = calc(); E.ens('one column', list(r) == [name]); E.ens_eq('value', r[name], v[0], atol=0)
    elif labels is None or len(labels) != k: E.raises('refused', BatchError, calc)
    else:
        r = calc(); E.ens('one column per label', list(r) == [f'{name}_{l}' for l in labels])
        for i, l in enumerate(labels): E.ens_eq(f'value {i}', r[f'{name}_{l}'], v[i], atol=0)

# ---------------------------------------------------------------------------------------------- real surfaces
def realops(r):
    return [[('level', (), {})], [('center', (), {})], [('zero', (), {})], [('filter', ('lowpass', 2.5), {})], [('filter', ('highpass', 4), {})], [('invert', (), {})], [('threshold', (), dict(threshold=2))], [('crop', ((1, 8, 1, 7),), {})], [('detrend_polynomial', (), dict(degree=2))], [('zoom', (1.5,), {})], [('remove_outliers', (), {}), ('fill_nonmeasured', (), {})]][int(r.integers(11))]
@contract('P20', 'real surfaces', TASK + EXEC, sym=False, bounded='seeded surfaces and chains of up to eight steps', samples=(14, 120))
def real(E):
    """files on disk and in memory, evaluated in a batch and directly"""
    r = E.rng; d = tempfile.mkdtemp(prefix='dv-')
    try:
        files = []; n = int(r.integers(1, 5)); made = []
        for i in range(n):
            h = r.normal(size=(int(r.integers(12, 20)), int(r.integers(12, 20)))); s = Surface(h, .9, 1.1); made.append(h)
            nm = str(r.choice(['s%d.sur', 'S %d.a.sur', 'é%d.sur'])) % i; p = os.path.join(d, nm); s.save(p)
            if r.integers(3): files.append((p if r.integers(2) else Path(p), nm, p))
            else: files.append((FileInput(f'mem{i}', __import__('io').BytesIO(open(p, 'rb').read()), '.sur'), f'mem{i}', p))
        steps = []; used = set()
        for _ in range(int(r.integers(1, 6))):
            if r.integers(2): steps += [('op', *o) for o in realops(r)]
            else:
                p = str(r.choice(['Sa', 'Sq', 'Sz', 'Sp', 'Ssk', 'Sdq', 'Sdr', 'Smr', 'Sdc', 'Vmc', 'Sxp', 'Sk', 'Spk', 'Vvv'])); a = dict(Smr=(.2,), Sdc=(20,)).get(p, ()); c = f'c{len(steps)}' if p in used or r.integers(3) == 0 else None
                used.add(p); steps.append(('par', p, a, {}, c))
        if not any(s[0] == 'par' for s in steps): steps.append(('par', 'Sa', (), {}, None))
        b = Batch([f for f, _, _ in files])
        for s in steps: getattr(b, s[1])(*s[2], **s[3], **({'custom_name': s[4]} if s[0] == 'par' and s[4] else {}))
        preserve = bool(r.integers(2))
        order = steps if preserve else [s for s in steps if s[0] == 'op'] + [s for s in steps if s[0] == 'par']
        want = {}
        try:
            for f, name, p in files:
                s = Surface.load(p); row = want[name] = {}
                for t in order:
                    if t[0] == 'op': getattr(s, t[1])(*t[2], **t[3], inplace=True)
                    else:
                        try: row[t[4] or t[1]] = getattr(s, t[1])(*t[2], **t[3])
                        except CalculationError: row[t[4] or t[1]] = np.nan
        except (ValueError, IndexError): raise Discard()
        df = b.execute(multiprocessing=bool(r.integers(2)), preserve_chaining_order=preserve).get_dataframe()
        E.ens('one row per file', sorted(df['file']) == sorted(want))
        for name, row in want.items():
            got = df[df['file'] == name].iloc[0]
            E.ens('columns', set(df.columns) == {'file', *row})
            for k, v in row.items(): E.ens(f'{k}', got[k] == v or np.isnan(got[k]) and np.isnan(v) or abs(got[k] - v) <= 1e-9 * abs(v), f'{steps}: {got[k]} for {v}')
    finally: shutil.rmtree(d)

@contract('P20', 'files of a directory', [F + 'Batch.from_dir', F + 'Batch.add_dir', F + 'Batch.add_files'], sym=False, bounded='seeded directories', samples=(20, 200))
def directory(E):
    """every file of the given types exactly once"""
    r = E.rng; d = tempfile.mkdtemp(prefix='dv-')
    try:
        names = [f'{a}{i}{s}' for i, (a, s) in enumerate((str(r.choice(['a', 'b_', 'sur', 'X.Y', ' é'])), str(r.choice(['.sur', '.sdf', '.txt', '.png', '.vk4', '.fit', '.fits', '.plu', '.plux', '']))) for _ in range(int(r.integers(0, 9))))]
        for n in names: open(os.path.join(d, n), 'wb').close()
        ext = r.choice([None, '.sur', 'list'])
        ext = ['.sdf', '.vk4', '.txt'] if ext == 'list' else ext
        from surfalize.file import supported_formats_read as sup
        want = [n for n in names if os.path.splitext(n)[1] in (sup if ext is None else [ext] if isinstance(ext, str) else ext)]
        for b in (Batch.from_dir(d, file_extensions=ext), Batch([]).add_dir(d, file_extensions=ext)):
            with Host() as host:
                E.ens('number', len(b) == len(want), f'{len(b)} for {want}')
                if not want: continue
                df = b.Sa().execute(multiprocessing=False).get_dataframe()
                E.ens('each once', sorted(df['file']) == sorted(want)); E.ens('loaded', sorted(str(f) for f, _ in host.loads) == sorted(os.path.join(d, n) for n in want))
    finally: shutil.rmtree(d)

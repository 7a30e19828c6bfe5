from dv.contract import contract
from .common import *
from .p09 import SURF, PROF
from dv.core import Unsupported
from dv.env import Discard
from surfalize.cache import cache, CachedInstance
from surfalize.abbottfirestone import AbbottFirestoneCurve
FNC = ['surfalize/cache.py:cache', 'surfalize/cache.py:CachedInstance.clear_cache']

def state(t): return (t.data.copy(), step_of(t))

class ProbeSurface(Surface):
    """an arbitrary cached query: returns everything a query could depend on"""
    @cache
    def probe(self, *a, **k): return state(self), a, k
    @cache
    def probe2(self, *a, **k): return state(self), a, k, 2
class ProbeProfile(Profile):
    @cache
    def probe(self, *a, **k): return state(self), a, k
    @cache
    def probe2(self, *a, **k): return state(self), a, k, 2

def same(E, label, got, t, a, k):
    E.ens(label + ' arguments', got[1] == a and got[2] == k)
    d, st = got[0]
    d0, s0 = state(t)
    E.ens_arr(label + ' heights', d, d0)
    for x, y in zip(st, s0): E.ens_eq(label + ' step', x, y)

ARGS = [((), {}), ((0.2,), {}), ((0.5,), {}), ((1,), {}), (('1',), {}), ((True,), {}), ((10, 80), {}), ((1, 2), {}), ((12,), {}), ((1080,), {}), ((), {'s': 0.2}), ((), {'s': 0.5}), ((), {'p': 10, 'q': 80}), ((), {'p': 80, 'q': 10}), ((0.2,), {'s': 1}), ((('Sa',),), {}), ((('Sa', 'Sq'),), {}), ((None,), {}),
        ((0.30000000000000004,), {}), ((0.3,), {}), ((np.float64(0.1),), {}), ((np.float64(0.1) + 1e-16,), {}), ((1e22,), {}), ((-0.2,), {})]

@contract('P06', 'arguments', FNC)
def args(E):
    """queries with different arguments (or of different methods) never return each other's result; repeating returns the first value"""
    k = E.choose('kind', ['surface', 'profile'])
    if k == 'surface': h = heights(E, nan=True); st = steps(E); t = ProbeSurface(own(h), *st)
    else: h = E.array('h', [('n', 1)], nan=True); st = (E.real('step', gt=0, conc=STEPS),); t = ProbeProfile(own(h), *st)
    first = []
    for a, kw in ARGS:
        r = t.probe(*a, **kw); same(E, f'probe{a}{kw}', r, t, a, kw); first.append(r)
        r2 = t.probe2(*a, **kw); E.ens('method', len(r2) == 4)
    for (a, kw), r in zip(ARGS, first):
        E.ens('repeated', t.probe(*a, **kw) is r)

@contract('P06', 'objects', FNC + ['surfalize/cache.py:CachedInstance.__init__'])
def objects(E):
    """queries of different objects never share results, whatever was queried first"""
    k = E.choose('kind', ['surface', 'profile'])
    mk = lambda nm: (lambda h: (h, ProbeSurface(own(h), *steps(E, nm))))(heights(E, 'h' + nm, nan=True)) if k == 'surface' else (lambda h: (h, ProbeProfile(own(h), E.real('step' + nm, gt=0, conc=STEPS))))(E.array('h' + nm, [('n' + nm, 1)], nan=True))
    h1, t1 = mk('a'); h2, t2 = mk('b')
    for a in ((), (0.2,), (1,)):
        same(E, 'first', t1.probe(*a), t1, a, {}); same(E, 'second', t2.probe(*a), t2, a, {}); same(E, 'first again', t1.probe(*a), t1, a, {})

def mutators(E, t, h, kind):
    """every way of changing the topography in place"""
    key = (0,) * len(h.shape)
    def item(): t[key if len(key) > 1 else 0] = E.real('v')
    def assign(): t.data = E.array('k', [(f'k{i}', 2) for i in range(len(h.shape))])
    def setd(): t._set_data(data=E.array('k', [(f'k{i}', 2) for i in range(len(h.shape))]))
    def setstep():
        s2 = E.real('s2', gt=0, conc=STEPS)
        if kind == 'surface': E.choose('which', [lambda: t._set_data(step_x=s2), lambda: t._set_data(step_y=s2)])()
        else: t._set_data(step=s2)
    def again():
        # the array itself edited by its owner, then assigned once more
        a = E.array('k', [(f'k{i}', 2) for i in range(len(h.shape))]); t.data = a; t.probe(); t.probe(0.2)
        a[key if len(key) > 1 else 0] = E.real('v'); t.data = a
    return dict(again=again, item=item, slice=lambda: t.__setitem__((slice(None), 0) if kind == 'surface' else slice(None), E.real('v')), assign=assign, setd=setd, setstep=setstep)

def mutate(E, kind, name):
    """a cached query answered before the edit is not returned after it: the next query of any argument sees exactly the edited state"""
    cls = ProbeSurface if kind == 'surface' else ProbeProfile
    if name in MUT:
        if kind == 'surface': h = heights(E, ny=2, nx=2); st = steps(E)
        else: h = E.array('h', [('n', 2)]); st = (E.real('step', gt=0, conc=STEPS),)
        t = cls(h.copy(), *st)
        ap = mutators(E, t, h, kind)[name]
    else:
        t0, h, st, ap0 = setup_op(E, kind, name)
        t = cls(h.copy(), *st)
        from .p07 import rebind
        ap1 = rebind(ap0, t0, t); ap = lambda: ap1(True)
    t.probe(); t.probe(0.2); t.probe2(s=1)
    ap()
    same(E, 'after', t.probe(), t, (), {}); same(E, 'after with argument', t.probe(0.2), t, (0.2,), {}); same(E, 'other method', t.probe2(s=1), t, (), {'s': 1})
    ap_again = mutators(E, t, h, kind)['item']
    ap_again()
    same(E, 'after second edit', t.probe(0.2), t, (0.2,), {})
MUT = ('again', 'item', 'slice', 'assign', 'setd', 'setstep')
for _k, _ops in (('surface', SURFACE_OPS), ('profile', PROFILE_OPS)):
    for _n in list(MUT) + list(_ops):
        _f = lambda E, k=_k, n=_n: mutate(E, k, n); _f.__doc__ = mutate.__doc__
        contract('P06', f'{_k} {_n}', FNC + ([f'surfalize/{_k}.py:{_k.capitalize()}._set_data', f'surfalize/{_k}.py:{_k.capitalize()}.data', 'surfalize/base.py:BaseTopography.__setitem__']), sym=(_k, _n) not in CONC_ONLY, samples=(25, 250))(_f)

CHEAP = dict(surface=('Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Sdr', 'Sdq', 'surface_area', 'projected_area'), profile=('Ra', 'Rq', 'Rt', 'Rdq'))
def real_query(E, kind, name):
    """a real parameter queried before and after an edit equals the one of a freshly constructed object"""
    if kind == 'surface': t, h, *_ = surface(E, ny=2, nx=2)
    else: t, h, _ = profile(E, n=2)
    m = E.choose('edit', ['item', 'assign', 'setd', 'setstep', 'invert', 'zero', 'center'])
    q = lambda x: getattr(x, name)()
    q(t)
    if m in MUT: mutators(E, t, h, kind)[m]()
    else: getattr(t, m)(inplace=True)
    f = type(t)(t.data.copy(), *step_of(t))
    E.ens_eq(name, q(t), q(f)); E.ens_eq(name + ' repeated', q(t), q(f))
for _k, _ps in CHEAP.items():
    for _n in _ps:
        _f = lambda E, k=_k, n=_n: real_query(E, k, n); _f.__doc__ = real_query.__doc__
        contract('P06', f'{_k} {_n} fresh', [f'surfalize/{_k}.py:{_k.capitalize()}.{_n}'])(_f)

QS = {n: (lambda t, a, n=n: getattr(t, n)()) for n in Surface.ISO_PARAMETERS + ('stepheight', 'period', 'Std', '_stepheight_get_upper_lower_median', 'period_x_y', 'projected_area', 'surface_area', 'height_parameters')}
QS.update(Smr_=lambda t, a: t.Smr(a), Smc_=lambda t, a: t.Smc(a), Vm_=lambda t, a: t.Vm(a), Vv_=lambda t, a: t.Vv(a), Vmc_=lambda t, a: t.Vmc(p=a, q=90), Vvc_=lambda t, a: t.Vvc(a, 95), Vmp_=lambda t, a: t.Vmp(p=a), Vvv_=lambda t, a: t.Vvv(a),
          Sxp_=lambda t, a: t.Sxp(a, 60), Sdc_=lambda t, a: t.Sdc(p=a), Sal_=lambda t, a: t.Sal(s=a / 100), Str_=lambda t, a: t.Str(a / 100), Std_=lambda t, a: t.Std(a), homog_=lambda t, a: t.homogeneity(('Sa', 'Sq'), period=a / 2), homog2_=lambda t, a: t.homogeneity(('Sz',), period=a / 2), cavity_=lambda t, a: t.cavity_volume(a / 100), orient_=lambda t, a: t.orientation('fft'),
          ac_=lambda t, a: t.get_autocorrelation_function().data, aps_=lambda t, a: t.get_fourier_transform().angular_power_spectrum(a)[1])
QP = {n: (lambda t, a, n=n: getattr(t, n)()) for n in Profile.ISO_PARAMETERS + ('Rt',)}
QP.update(Rmr_=lambda t, a: t.Rmr(a), Rmc_=lambda t, a: t.Rmc(a), Vm_=lambda t, a: t.Vm(a), Vv_=lambda t, a: t.Vv(a), Rp_=lambda t, a: t.Rp(int(a)), Rv_=lambda t, a: t.Rv(n_sections=int(a)), Rz_=lambda t, a: t.Rz(int(a)), Rxp_=lambda t, a: t.Rxp(a, 60), Rdc_=lambda t, a: t.Rdc(p=a), Vmc_=lambda t, a: t.Vmc(p=a), Vvc_=lambda t, a: t.Vvc(q=a))

def ask(q, t, a):
    try: return q(t, a)
    except Exception as ex: return type(ex).__name__
def agree(E, nm, x, y):
    if isinstance(x, str) or isinstance(y, str): E.ens(nm, type(x) is type(y) and x == y, f'{x!r} != {y!r}'); return
    if isinstance(x, dict): x, y = list(x.values()), list(y.values())
    E.ens_arr(nm, np.asarray(x, float), np.asarray(y, float), tol=1e-12, atol=1e-13)

@contract('P06', 'histories', FNC, sym=False, bounded='seeded histories of up to 8 edits with 6 queries in between, 12 to 20 points per axis, every query compared with a fresh object', samples=(40, 400))
def hist(E):
    """random histories: every query equals the one on a fresh object, and repeated queries agree"""
    kind = E.choose('kind', ['surface', 'surface', 'profile'])
    r = np.random.default_rng(E.int('seed', lo=0, hi=10**9))
    if kind == 'surface': t = Surface(rnd(r, (int(r.integers(12, 20)), int(r.integers(12, 20)))), float(r.choice(STEPS)), float(r.choice(STEPS))); Q = QS
    else: t = Profile(rnd(r, (int(r.integers(40, 80)),)), float(r.choice(STEPS))); Q = QP
    names = list(Q)
    for _ in range(int(r.integers(2, 9))):
        qs = [(names[r.integers(len(names))], float(r.choice([5, 10, 20, 30, 8.5]))) for _ in range(6)]
        qs += qs[:2] + [(n, float(r.choice([5, 10, 15, 7.5]))) for n, _ in qs if n.endswith('_')]
        for n, a in qs:
            fresh = type(t)(t.data.copy(), *step_of(t))
            agree(E, n, ask(Q[n], t, a), ask(Q[n], fresh, a))
        edit(r, t, kind)
        if r.integers(3) == 0: t = derived(r, t, kind)
def derived(r, t, kind):
    """an object obtained from t, which later histories continue with"""
    n = t.data.shape
    c = ['center', 'invert', 'level', 'crop', 'fill'] + (['getitem', 'add', 'sub', 'trend', 'stepheight', 'lowpass', 'zoom'] if kind == 'surface' else ['zoom'])
    k = str(r.choice(c))
    if k in ('center', 'invert', 'level'): return getattr(t, k)()
    if k == 'crop': return t.crop((0, n[1] - 1, 0, n[0] - 1) if kind == 'surface' else (0, n[0] - 1), in_units=False)
    if k == 'fill': return t.fill_nonmeasured()
    if k == 'zoom': return t.zoom(1.05) if min(n) > 12 else t.center()
    if k == 'getitem': return t[:, :]
    if k == 'add': return t + 1
    if k == 'sub': return 2 * t - t
    if k == 'trend': return t.level(return_trend=True)[int(r.integers(2))] + t
    if k == 'stepheight': return t.stepheight_level()
    return t.filter('lowpass', 2 * step_of(t)[0])
def rnd(r, sh):
    i = np.indices(sh)
    return np.sin(2 * np.pi * i[-1] / r.choice([4, 5, 6])) + np.where(r.random(sh) < .3, 2., 0) + r.normal(0, .2, sh)
def edit(r, t, kind):
    k = int(r.integers(12))
    n = t.data.shape
    if k == 0: t[tuple(int(r.integers(s)) for s in n) if kind == 'surface' else int(r.integers(n[0]))] = r.normal() * 5
    elif k == 1: t[1:4] = r.normal()
    elif k == 2: t.data = rnd(r, n)
    elif k == 3: t.center(inplace=True)
    elif k == 4: t.zero(inplace=True)
    elif k == 5: t.invert(inplace=True)
    elif k == 6: t.level(inplace=True)
    elif k == 7: t.filter('lowpass', 3 * step_of(t)[0], inplace=True)
    elif k == 8: t.remove_outliers(n=1.5, inplace=True).fill_nonmeasured(inplace=True)
    elif k == 9: t.threshold(5, inplace=True); t.fill_nonmeasured(inplace=True)
    elif k == 10 and min(n) > 11: t.zoom(1.1, inplace=True)
    elif k == 11 and kind == 'surface': t.stepheight_level(inplace=True)
    else: t.detrend_polynomial(2, inplace=True)

def result(E, kind, name):
    """what a not-in-place operation returns answers every query like a freshly constructed object with its heights and steps"""
    t, h, st, ap = setup_op(E, kind, name)
    ask0 = ('Sa', 'Sq', 'stepheight', 'Sal', 'period') if kind == 'surface' else ('Ra', 'Rq', 'period')
    if not E.sym:
        for q in ask0:
            if E.choose('ask ' + q, [0, 1]): ask(lambda x, a: getattr(x, q)(), t, 0)
        r = ap(False); f = type(t)(np.array(r.data), *step_of(r)); Q = QS if kind == 'surface' else QP; names = list(Q)
        if r.data.size > 900 or r.data.size < 4: raise Discard()
        g = np.random.default_rng(E.int('seed', lo=0, hi=10**9))
        for n in ['stepheight'] * (kind == 'surface') + [names[i] for i in g.choice(len(names), 12, replace=False)]: agree(E, n, ask(Q[n], r, 10.), ask(Q[n], f, 10.))
        return
    from .p07 import rebind
    cls = ProbeSurface if kind == 'surface' else ProbeProfile
    u = cls(h.copy(), *st); ap = rebind(ap, t, u); u.probe(); u.probe(0.2)
    r = ap(False)
    f = (Surface if kind == 'surface' else Profile)(r.data.copy(), *step_of(r))
    # the state of the result is that of a fresh object: every query, a function of the state, answers alike
    if set(vars(r)) != set(vars(f)) or type(r) is not type(f): raise Unsupported('other attributes than a fresh object')
    for k, x in vars(f).items():
        y = vars(r)[k]
        if isinstance(x, dict): 
            if x or y: raise Unsupported(f'entries in {k}')
        elif k.startswith('_'):
            if not (k == '_data' or (x is None or isinstance(x, (str, bool))) and x == y): raise Unsupported(f'attribute {k}')
        elif k in ('step', 'step_x', 'step_y', 'width_um', 'height_um', 'length_um'): E.ens_eq(k, y, x)
        elif k not in ('metadata', 'image_layers', 'size', 'data'): raise Unsupported(f'attribute {k}')
    E.ens_arr('heights', r.data, f.data)
for _k, _ops in (('surface', SURFACE_OPS), ('profile', PROFILE_OPS)):
    for _n in _ops:
        _f = lambda E, k=_k, n=_n: result(E, k, n); _f.__doc__ = result.__doc__
        contract('P06', f'{_k} {_n} result', FNC, sym=(_k, _n) not in CONC_ONLY, timeout=100 if _n == 'stepheight_level' else None, samples=(15, 250))(_f)

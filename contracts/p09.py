from dv.contract import contract
from .common import *
import surfalize.abbottfirestone as AF
from surfalize.abbottfirestone import AbbottFirestoneCurve
from surfalize.autocorrelation import AutocorrelationFunction
from surfalize.fourier import FourierTransform

# every standard roughness parameter, the filter, rotation, the periodicity parameters and the analyses
S_ARGS = dict(Smr=(0.1,), Smc=(20,), Vm=(10,), Vv=(10,))
S_EXTRA = {'filter lowpass': lambda t: t.filter('lowpass', 2.0), 'filter highpass': lambda t: t.filter('highpass', 2.0), 'filter both': lambda t: t.filter('both', 2.0), 'filter bandpass': lambda t: t.filter('bandpass', 2.0, 5.0),
           'filter inplace': lambda t: t.filter('lowpass', 2.0, inplace=True),
           'get_abbott_firestone_curve': lambda t: t.get_abbott_firestone_curve(), 'AbbottFirestoneCurve': lambda t: AbbottFirestoneCurve(t)}
SURF = {n: (lambda t, n=n: getattr(t, n)()) for n in Surface.ISO_PARAMETERS}
SURF.update({n: (lambda t, n=n: getattr(t, n)()) for n in ('Smrk1', 'Smrk2', 'height_parameters', 'surface_area', 'period', 'period_x_y', 'orientation', 'depth', 'aspect_ratio', 'homogeneity', 'Std', 'roughness_parameters', 'get_autocorrelation_function', 'get_fourier_transform')})
SURF.update({n: (lambda t, n=n, a=a: getattr(t, n)(*a)) for n, a in S_ARGS.items()})
SURF.update(S_EXTRA)
SURF.update({'orientation fft': lambda t: t.orientation(method='fft'), 'rotate': lambda t: t.rotate(10.0), 'rotate inplace': lambda t: t.rotate(10.0, inplace=True), 'align': lambda t: t.align(method='fft'), 'Sal 0.5': lambda t: t.Sal(0.5), 'Str 0.5': lambda t: t.Str(s=0.5),
             'homogeneity of Sq': lambda t: t.homogeneity(('Sq',), period=4.0), 'AutocorrelationFunction': lambda t: AutocorrelationFunction(t), 'FourierTransform': lambda t: FourierTransform(t)})
PROF = {n: (lambda t, n=n: getattr(t, n)()) for n in Profile.ISO_PARAMETERS}
PROF.update({n: (lambda t, n=n: getattr(t, n)()) for n in ('Rt', 'period', 'Rmrk1', 'Rmrk2', 'roughness_parameters')})
PROF.update({n: (lambda t, n=n, a=a: getattr(t, n)(*a)) for n, a in dict(Rmr=(0.1,), Rmc=(20,), Vm=(10,), Vv=(10,), Rp=(3,), Rz=(3,), Rv=(3,)).items()})
PROF.update(S_EXTRA)
FN = ['surfalize/base.py:no_nonmeasured_points', 'surfalize/base.py:BaseTopography.has_missing_points']

def missing_at(E, t, h):
    """an arbitrary position"""
    return tuple(E.int(f'pos{k}', lo=0, conc=lambda r, n=n: int(r.integers(0, int(n)))) for k, n in enumerate(h.shape))

def make(E, kind, nan=False, small=1):
    if kind == 'surface':
        t, h, *_ = surface(E, ny=small, nx=small, nan=nan)
    else: t, h, _ = profile(E, nan=nan, n=small)
    return t, h

def refused(E, kind, names):
    """every query of an arbitrary topography with at least one missing point raises ValueError"""
    t, h = make(E, kind, nan=True)
    E.req(E.has_nan(h))
    tab = SURF if kind == 'surface' else PROF
    for n in names:
        if E.sym and (kind, n) in HEAVY: continue
        E.raises(n, ValueError, tab[n], t)

def edits(E, t, h):
    """make the point pos missing by each way of editing"""
    pos = missing_at(E, t, h)
    E.req(E.both(*[p < n for p, n in zip(pos, h.shape)]))
    E.index(*pos)
    def by_item(): t[pos if len(pos) > 1 else pos[0]] = np.nan
    def by_data():
        d = h.copy(); d[pos if len(pos) > 1 else pos[0]] = np.nan; t.data = d
    def by_set():
        d = h.copy(); d[pos if len(pos) > 1 else pos[0]] = np.nan; t._set_data(data=d)
    return E.choose('edit', [by_item, by_data, by_set])

def after(E, kind, names):
    """the same query succeeded (and was cached) before a point became missing: it is refused afterwards"""
    t, h = make(E, kind, small=1 if E.sym else 12)
    tab = SURF if kind == 'surface' else PROF
    ed = edits(E, t, h)
    for n in names:
        if E.sym: 
            if (kind, n) not in CHEAP: continue
        try: tab[n](t)
        except Exception as ex:
            if E.sym: raise
        if n in ('filter inplace', 'rotate inplace'): t.data = h.copy()
    ed()
    for n in names:
        if E.sym and (kind, n) in HEAVY: continue
        E.raises(n, ValueError, tab[n], t)

HEAVY = set()
CHEAP = {('surface', n) for n in ('Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'Sdr', 'Sdq', 'height_parameters', 'surface_area', 'get_fourier_transform', 'FourierTransform', 'filter lowpass', 'filter both')} | \
        {('profile', n) for n in ('Ra', 'Rq', 'Rt', 'Rsk', 'Rku', 'Rdq', 'filter lowpass', 'filter both')}

def groups(tab, k=8):
    ns = list(tab); return [ns[i:i + k] for i in range(0, len(ns), k)]
for _kind, _tab in (('surface', SURF), ('profile', PROF)):
    for _g, _ns in enumerate(groups(_tab)):
        _f = lambda E, k=_kind, ns=_ns: refused(E, k, ns); _f.__doc__ = refused.__doc__ + ': ' + ', '.join(_ns)
        contract('P09', f'{_kind} refused {_g}', FN, samples=(25, 250))(_f)
        _f = lambda E, k=_kind, ns=_ns: after(E, k, ns); _f.__doc__ = after.__doc__ + ': ' + ', '.join(_ns)
        contract('P09', f'{_kind} refused after edit {_g}', FN + ['surfalize/base.py:BaseTopography.__setitem__', 'surfalize/cache.py:cache'], samples=(10, 120))(_f)

@contract('P09', 'has_missing_points', FN)
def has(E):
    """the guard is exactly 'some height is missing'"""
    t, h = make(E, E.choose('kind', ['surface', 'profile']), nan=True)
    E.ens_eq('guard', t.has_missing_points, E.has_nan(h))

@contract('P09', 'nothing refused without missing points', FN, sym=False, bounded='seeded textured surfaces and profiles, 30 to 48 points per axis', samples=(16, 200))
def free(E):
    """without missing points no query is refused"""
    r = np.random.default_rng(E.int('seed', lo=0, hi=10**6))
    n = E.int('n', lo=30, hi=48); m = E.int('m', lo=30, hi=48)
    y, x = np.mgrid[:n, :m]
    p = E.choose('period', [6.0, 8.0, 10.0])
    h = np.sin(2 * np.pi * x / p + r.random()) + r.normal(0, .05, (n, m))
    sx, sy = steps(E)
    for nm, q in SURF.items():
        if nm in ('align', 'orientation', 'depth', 'aspect_ratio', 'homogeneity', 'homogeneity of Sq', 'roughness_parameters'):
            t = Surface(own(h), 1.0, 1.0)
        else: t = Surface(own(h), sx, sy)
        no_refusal(E, nm, q, t)
    pr = np.sin(2 * np.pi * np.arange(200) / 20) * 50 + r.normal(0, .1, 200)
    for nm, q in PROF.items(): no_refusal(E, nm, q, Profile(own(pr), sx))
def no_refusal(E, nm, q, t):
    try: q(t); ok = True; d = ''
    except ValueError as ex: ok = 'issing' not in str(ex) and 'measured' not in str(ex); d = str(ex)
    except Exception as ex: ok = True; d = ''
    E.ens('not refused ' + nm, ok, d)

@contract('P09', 'cheap parameters not refused', FN)
def cheap(E):
    """on every fully measured topography these queries return normally"""
    k = E.choose('kind', ['surface', 'profile'])
    t, h = make(E, k, small=2)
    for kd, n in sorted(CHEAP):
        if kd == k: (SURF if k == 'surface' else PROF)[n](t); E.ens('returned ' + n, True)

@contract('P09', 'refused after in-place operations', FN + ['surfalize/base.py:BaseTopography.remove_outliers', 'surfalize/base.py:BaseTopography.threshold'], samples=(60, 500))
def ops(E):
    """queries answered before an in-place operation drops points are refused once a point is missing"""
    k = E.choose('kind', ['surface', 'profile'])
    t, h = make(E, k, small=3)
    op = E.choose('op', [lambda: t.remove_outliers(n=E.real('n', lo=0, conc=[0.3, 0.8, 1.5]), method='mean', inplace=True), lambda: t.remove_outliers(n=E.real('n', lo=0, conc=[0.3, 0.8, 1.5]), method='median', inplace=True),
                         lambda: t.threshold(E.real('p', lo=0, lt=50, conc=[5, 20, 40]), inplace=True)])
    tab = SURF if k == 'surface' else PROF
    names = ('Sa', 'Sdq', 'Sdr', 'filter lowpass', 'get_fourier_transform', 'Ssw') if k == 'surface' else ('Ra', 'Rdq', 'Rt', 'filter lowpass')
    for n in names:
        if n != 'Ssw': tab[n](t)
    if not E.sym: 
        for n in ('get_abbott_firestone_curve', 'Vmc'): tab[n](t)
        names += ('get_abbott_firestone_curve', 'Vmc')
    op()
    if E.cond(E.has_nan(t.data)):
        for n in names: E.raises(n, ValueError, tab[n], t)

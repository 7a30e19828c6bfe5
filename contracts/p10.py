from dv.contract import contract
from .common import *
B = 'surfalize/base.py:BaseTopography.'

def topo(E):
    """a surface or a profile with arbitrary (possibly missing) heights of which at least one is measured"""
    kind = E.choose('kind', ['surface', 'profile'])
    inplace = E.choose('inplace', [False, True])
    if kind == 'surface': t, h, *_ = surface(E, nan=True)
    else: t, h, _ = profile(E, nan=True)
    m = h[~E.np.isnan(h)]
    E.req(m.size > 0)
    return t, h, m, inplace

@contract('P10', 'center', [B + 'center', 'surfalize/surface.py:Surface._set_data', 'surfalize/surface.py:Surface._with_data', 'surfalize/profile.py:Profile._set_data', 'surfalize/profile.py:Profile._with_data'])
def center(E):
    """centering subtracts the mean of the measured heights; the result has mean zero and the same points missing"""
    t, h, m, inplace = topo(E)
    mu = E.np.sum(m) / m.size
    r = t.center(inplace=inplace)
    E.ens_arr('heights', r.data, h - mu)
    E.ens_eq('mean is zero', r.mean(), 0, atol=1e-6 if not E.sym and abs(mu) < 1e6 else None)

@contract('P10', 'zero', [B + 'zero'])
def zero(E):
    """zeroing subtracts the minimum of the measured heights; the result has minimum zero"""
    t, h, m, inplace = topo(E)
    r = t.zero(inplace=inplace)
    E.ens_arr('heights', r.data, h - E.np.min(m))
    E.ens_eq('minimum is zero', r.min(), 0)

@contract('P10', 'invert', [B + 'invert'])
def invert(E):
    """inverting maps h to minimum + maximum - h, keeping minimum and maximum and the missing points"""
    t, h, m, inplace = topo(E)
    r = t.invert(inplace=inplace)
    mn, mx = E.np.min(m), E.np.max(m)
    E.ens_arr('heights', r.data, mn + mx - h)
    E.ens_eq('minimum kept', r.min(), mn)
    E.ens_eq('maximum kept', r.max(), mx)

@contract('P10', 'statistics', [B + n for n in ('min', 'max', 'mean', 'std', 'median')])
def stats(E):
    """minimum, maximum, mean, median and standard deviation of the measured points only"""
    t, h, m, _ = topo(E)
    mu = E.np.sum(m) / m.size
    E.ens_eq('min', t.min(), E.np.min(m))
    E.ens_eq('max', t.max(), E.np.max(m))
    E.ens_eq('mean', t.mean(), mu)
    E.ens_eq('std', t.std(), E.np.sqrt(E.np.sum((m - mu) ** 2) / m.size), atol=1e-6)
    E.ens_eq('median', t.median(), E.np.median(m))

ask = lambda n, *a, **k: (lambda t: getattr(t, n)(*a, **k))
_q = {n: (ask(n), 1) for n in ('center', 'zero', 'invert', 'min', 'max', 'mean', 'std', 'median')}
magnitude_contract('P10', [B + n for n in ('center', 'zero', 'invert', 'min', 'max', 'mean', 'std', 'median')], dict(surface=_q, profile=_q), nan=True, lo=1)

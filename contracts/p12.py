from dv.contract import contract
from .common import *
B = 'surfalize/base.py:BaseTopography.'
from .p10 import topo

@contract('P12', 'outliers mean', [B + 'remove_outliers'])
def out_mean(E):
    """marks as missing exactly the measured points further than n standard deviations from the mean of the measured points"""
    t, h, m, inplace = topo(E)
    n = E.choose('default', [None, 1])
    n = E.real('n', ge=0, lo=0, conc=[0.5, 1.0, 1.5, 2.0, 3.0]) if n else None
    mu = E.np.sum(m) / m.size
    sd = E.np.sqrt(E.np.sum((m - mu) ** 2) / m.size)
    r = t.remove_outliers(inplace=inplace) if n is None else t.remove_outliers(n, inplace=inplace)
    lim = (3 if n is None else n) * sd
    if not E.sym: E.req(E.forall(m, lambda i: abs(abs(m[i] - mu) - lim) > 1e-9 * (1 + abs(mu))))
    E.ens_arr('heights', r.data, E.np.where(E.np.abs(h - mu) > lim, E.np.nan, h))

@contract('P12', 'outliers median', [B + 'remove_outliers'])
def out_med(E):
    """marks as missing exactly the measured points further from the median than n median distances"""
    t, h, m, inplace = topo(E)
    n = E.choose('default', [None, 1])
    n = E.real('n', lo=0, conc=[0.5, 1.0, 1.5, 2.0, 3.0]) if n else None
    md = E.np.median(m)
    dist = E.np.median(E.np.abs(m - md))
    r = t.remove_outliers(method='median', inplace=inplace) if n is None else t.remove_outliers(n=n, method='median', inplace=inplace)
    lim = (3 if n is None else n) * dist
    # every value is computed without rounding for quarter-integer heights and factors: then the limit itself is tested, too
    exact = not E.sym and all((4 * m) % 1 == 0) and (4 * lim) % 1 == 0 and abs(m).max() < 1e6
    if not E.sym and not exact: E.req(E.forall(m, lambda i: abs(abs(m[i] - md) - lim) > 1e-9 * (1 + abs(md))))
    E.ens_arr('heights', r.data, E.np.where(E.np.abs(h - md) > lim, E.np.nan, h))

@contract('P12', 'outliers unknown method', [B + 'remove_outliers'])
def out_bad(E):
    """unknown methods are refused and change nothing"""
    t, h, m, inplace = topo(E)
    E.raises('refused', ValueError, t.remove_outliers, 3, 'mode', inplace)
    E.ens_arr('untouched', t.data, h)


def thr(E, up, lo, call):
    t, h, m, inplace = topo(E)
    n = m.size
    y = E.np.sort(m)[::-1]
    x = E.np.arange(1, n + 1, 1) / n
    # the sampled ratio closest to the requested one; the first of equally close ones
    k0 = E.np.argmin(E.np.abs(x - up / 100)); k1 = E.np.argmin(E.np.abs(x - (1 - lo / 100)))
    hu, hl = y[k0], y[k1]
    r = call(t, inplace)
    E.ens_arr('heights', r.data, E.np.where((h > hu) | (h < hl), E.np.nan, h))

@contract('P12', 'threshold', [B + 'threshold', 'surfalize/mathutils.py:argclosest', 'surfalize/utils.py:is_list_like'])
def threshold(E):
    """marks as missing exactly the points above the height at the upper, or below the height at the lower percentage"""
    up = E.real('upper', lo=0, hi=99, conc=[0, 0.5, 1, 3, 10, 25, 40, 50, 60, 90]); lo = E.real('lower', lo=0, hi=99, conc=[0, 0.5, 1, 3, 7, 10, 25, 33, 40])
    E.req(up + lo < 100)
    thr(E, up, lo, lambda t, ip: t.threshold((up, lo), inplace=ip))

@contract('P12', 'threshold one percentage', [B + 'threshold'])
def threshold1(E):
    """one percentage is used for both ends (default 0.5)"""
    p = E.choose('default', [None, 1])
    if p: p = E.real('p', lo=0, lt=50, conc=[0, 0.5, 1, 3, 10, 20, 25, 40, 49])
    v = .5 if p is None else p
    thr(E, v, v, (lambda t, ip: t.threshold(inplace=ip)) if p is None else (lambda t, ip: t.threshold(p, inplace=ip)))

@contract('P12', 'threshold refused', [B + 'threshold'])
def threshold_bad(E):
    """combined percentages of 100 or more are refused"""
    t, h, m, inplace = topo(E)
    up = E.real('upper', lo=0, conc=[0, 30, 50, 60, 99, 100]); lo = E.real('lower', lo=0, conc=[0, 40, 50, 70, 100, 150])
    E.req(up + lo >= 100)
    E.raises('refused', ValueError, t.threshold, (up, lo), inplace)
    E.ens_arr('untouched', t.data, h)
    E.req(up >= 50)
    E.raises('refused single', ValueError, t.threshold, up, inplace)

ask = lambda meth, *a, **k: (lambda t: getattr(t, meth)(*a, **k))
_q = {'outliers mean': (ask('remove_outliers', n=1.3), 1), 'outliers median': (ask('remove_outliers', n=2, method='median'), 1), 'threshold': (ask('threshold', 7), 1), 'threshold pair': (ask('threshold', (12, 3)), 1)}
magnitude_contract('P12', [B + 'remove_outliers', B + 'threshold'], dict(surface=_q, profile=_q), nan=True)

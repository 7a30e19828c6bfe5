from dv.contract import contract
from .common import *
import scipy.ndimage as ndi
B = 'surfalize/base.py:BaseTopography.'
G = 'surfalize/filter.py:GaussianFilter.'
MODES = ['reflect', 'nearest', 'wrap', 'mirror', 'constant']

def setup(E, inplace_ok=True):
    kind = E.choose('kind', ['surface', 'profile'])
    if kind == 'surface': t, h, sx, sy = surface(E); st = (sy, sx)
    else: t, h, s = profile(E); st = (s,)
    c = E.real('cutoff', gt=0, conc=[0.5, 1.0, 2.5, 5.0, 20.0])
    mode = E.choose('mode', [None] + MODES)
    inplace = E.choose('inplace', [False, True]) if inplace_ok else False
    kw = {} if mode is None else dict(endeffect_mode=mode)
    return t, h, st, c, mode or 'reflect', inplace, kw

def gauss(E, h, st, c, mode):
    """Gaussian smoothing, standard deviation per axis cutoff/step/pi*sqrt(ln2/2) samples"""
    k = E.np.sqrt(E.np.log(2) / 2) / E.np.pi
    sg = tuple(c / s * k for s in st)
    f = E.ndi_gauss if E.sym else ndi.gaussian_filter
    return f(h, sg if len(sg) > 1 else sg[0], mode=mode)

@contract('P16', 'lowpass', [B + 'filter', G + '__init__', G + '__call__', G + 'apply', G + 'sigma'])
def low(E):
    """low-pass = Gaussian smoothing with the cutoff-defined width per axis and the chosen boundary mode"""
    t, h, st, c, mode, ip, kw = setup(E)
    r = t.filter('lowpass', c, inplace=ip, **kw)
    E.ens_arr('heights', r.data, gauss(E, h, st, c, mode))

@contract('P16', 'highpass', [B + 'filter', G + 'apply'])
def high(E):
    """high-pass = original minus the low-pass of the same cutoff"""
    t, h, st, c, mode, ip, kw = setup(E)
    r = t.filter('highpass', c, inplace=ip, **kw)
    E.ens_arr('heights', r.data, h - gauss(E, h, st, c, mode))

@contract('P16', 'both', [B + 'filter', G + 'apply'])
def both(E):
    """mode both returns (high-pass, low-pass), which together restore the original"""
    t, h, st, c, mode, ip, kw = setup(E, False)
    r = t.filter('both', c, **kw)
    E.ens('pair', isinstance(r, tuple) and len(r) == 2)
    hp, lp = r
    E.ens_arr('high', hp.data, h - gauss(E, h, st, c, mode))
    E.ens_arr('low', lp.data, gauss(E, h, st, c, mode))
    E.ens_arr('restores', hp.data + lp.data, h)
    E.ens_arr('receiver', t.data, h)

@contract('P16', 'bandpass', [B + 'filter', G + 'apply'])
def band(E):
    """band-pass = high-pass at the larger cutoff of the low-pass at the smaller"""
    t, h, st, c, mode, ip, kw = setup(E)
    c2 = E.real('cutoff2', gt=0, conc=[1.5, 6.0, 30.0, 50.0])
    E.req(c2 > c)
    r = t.filter('bandpass', c, c2, inplace=ip, **kw)
    lp = gauss(E, h, st, c, mode)
    E.ens_arr('heights', r.data, lp - gauss(E, lp, st, c2, mode))

@contract('P16', 'refusals', [B + 'filter', G + '__init__'])
def refuse(E):
    """unknown modes, a missing or not larger second cutoff and in-place both are refused, leaving the receiver untouched"""
    t, h, st, c, mode, ip, kw = setup(E)
    E.raises('mode', ValueError, t.filter, 'band', c, inplace=ip, **kw)
    E.raises('mode2', ValueError, t.filter, 'Lowpass', c, inplace=ip, **kw)
    E.raises('both inplace', ValueError, t.filter, 'both', c, inplace=True, **kw)
    E.raises('no cutoff2', ValueError, t.filter, 'bandpass', c, inplace=ip, **kw)
    c2 = E.real('cutoff2', conc=[0.25, 0.5, 1.0, 2.5, 5.0, 20.0, -1.0])
    E.req(c2 <= c)
    E.raises('cutoff2 not larger', ValueError, t.filter, 'bandpass', c, c2, inplace=ip, **kw)
    E.ens_arr('untouched', t.data, h)
    from surfalize.filter import GaussianFilter
    E.raises('filter object', ValueError, GaussianFilter, c, 'bandpass')

ask = lambda n, *a, **k: (lambda t: getattr(t, n)(*a, **k))
_q = {'lowpass': (ask('filter', 'lowpass', 2.0), 1), 'highpass': (ask('filter', 'highpass', 3.0), 1), 'bandpass': (ask('filter', 'bandpass', 1.0, 4.0), 1)}
magnitude_contract('P16', [B + 'filter', G + 'apply'], dict(surface=_q, profile=_q), lo=1)

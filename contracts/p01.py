from dv.contract import contract
from .common import *

F = ['surfalize/surface.py:Surface.' + n for n in ('Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku')]

def spec(E, h):
    n = h.size
    mu = E.np.sum(h) / n
    d = h - mu
    sq2 = E.np.sum(d ** 2) / n
    return mu, d, sq2

@contract('P01', 'Sa', F[:1])
def sa(E):
    """Sa = mean absolute deviation from the mean plane"""
    s, h, sx, sy = surface(E)
    mu, d, sq2 = spec(E, h)
    E.ens_eq('Sa', s.Sa(), E.np.sum(E.np.abs(d)) / h.size)

@contract('P01', 'Sq', F[1:2])
def sq(E):
    """Sq**2 = mean squared deviation, Sq >= 0"""
    s, h, sx, sy = surface(E)
    mu, d, sq2 = spec(E, h)
    E.ens_eq('Sq', s.Sq(), E.np.sqrt(sq2))

@contract('P01', 'Sp Sv Sz', F[2:5])
def spv(E):
    """Sp = max - mean, Sv = mean - min (magnitude), Sz = Sp + Sv"""
    s, h, sx, sy = surface(E)
    mu, d, sq2 = spec(E, h)
    mx, mn = E.np.max(h), E.np.min(h)
    E.ens_eq('Sp', s.Sp(), mx - mu)
    E.ens_eq('Sv', s.Sv(), mu - mn)
    E.ens_eq('Sz', s.Sz(), mx - mn)

@contract('P01', 'Ssk Sku', F[5:])
def ssk(E):
    """Ssk, Sku: third and fourth central moments over Sq**3 and Sq**4"""
    s, h, sx, sy = surface(E)
    mu, d, sq2 = spec(E, h)
    E.req(sq2 > 0)
    if not E.sym: E.req(sq2 > 1e-12 * (1 + abs(mu)))
    q = E.np.sqrt(sq2)
    E.ens_eq('Ssk', s.Ssk(), E.np.sum(d ** 3) / h.size / (q ** 3))
    E.ens_eq('Sku', s.Sku(), E.np.sum(d ** 4) / h.size / (q ** 4))

ask = lambda n, *a, **k: (lambda t: getattr(t, n)(*a, **k))
magnitude_contract('P01', F, dict(surface={**{n: (ask(n), 1) for n in ('Sa', 'Sq', 'Sp', 'Sv', 'Sz')}, **{n: (ask(n), 0) for n in ('Ssk', 'Sku')}}), kinds=('surface',))

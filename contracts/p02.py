from dv.contract import contract
from .common import *
P = 'surfalize/profile.py:Profile.'

def mom(E, h):
    n = h.size; mu = E.np.sum(h) / n; d = h - mu
    return n, mu, d

@contract('P02', 'Ra', [P + 'Ra'])
def ra(E):
    """Ra = mean absolute deviation from the mean line"""
    p, h, st = profile(E); n, mu, d = mom(E, h)
    E.ens_eq('Ra', p.Ra(), E.np.sum(E.np.abs(d)) / n)

@contract('P02', 'Rq', [P + 'Rq'])
def rq(E):
    """Rq = root mean square deviation from the mean line"""
    p, h, st = profile(E); n, mu, d = mom(E, h)
    E.ens_eq('Rq', p.Rq(), E.np.sqrt(E.np.sum(d ** 2) / n))

@contract('P02', 'Rt', [P + 'Rt'])
def rt(E):
    """Rt = max - min"""
    p, h, st = profile(E)
    E.ens_eq('Rt', p.Rt(), E.np.max(h) - E.np.min(h))

@contract('P02', 'Rsk Rku', [P + 'Rsk', P + 'Rku'])
def rsk(E):
    """third and fourth central moments over Rq**3, Rq**4"""
    p, h, st = profile(E); n, mu, d = mom(E, h)
    s2 = E.np.sum(d ** 2) / n
    E.req(s2 > 0)
    if not E.sym: E.req(s2 > 1e-12 * (1 + abs(mu)))
    q = E.np.sqrt(s2)
    E.ens_eq('Rsk', p.Rsk(), E.np.sum(d ** 3) / n / q ** 3)
    E.ens_eq('Rku', p.Rku(), E.np.sum(d ** 4) / n / q ** 4)

def sections(E, h, n):
    """first index and length of section k (the sizes differ by at most one and the longer ones come first)"""
    N = h.size
    base = N // n; extra = N % n
    out = []
    for k in range(n):
        lo = k * base + E.np.minimum(k, extra)
        hi = lo + base + E.ite(k < extra, 1, 0)
        out.append((lo, hi))
    return out

def rsec(E, n, args, what):
    p, h, st = profile(E)
    E.req(h.size >= n)
    mu = E.np.sum(h) / h.size
    secs = sections(E, h, n)
    if what == 'Rp': v = [E.np.max(h[a:b]) - mu for a, b in secs]
    elif what == 'Rv': v = [E.np.abs(E.np.min(h[a:b]) - mu) for a, b in secs]
    else: v = [E.np.max(h[a:b]) - E.np.min(h[a:b]) for a, b in secs]
    t = v[0]
    for x in v[1:]: t = t + x
    got = getattr(p, what)(*args)
    E.ens_eq(what, got, t / n)

for _w in ('Rp', 'Rv', 'Rz'):
    contract('P02', _w + ' default', [P + _w, P + '_sectioned_data'])(lambda E, w=_w: rsec(E, 5, (), w))
    def _f(E, w=_w):
        """section average of the section extreme for a given section count"""
        n = E.choose('n', [1, 2, 3, 4, 7])
        rsec(E, n, (n,), w)
    contract('P02', _w + ' sections', [P + _w, P + '_sectioned_data'])(_f)

@contract('P02', 'sections cover', [P + '_sectioned_data'])
def cover(E):
    """the sections are consecutive, cover every point once and their sizes differ by at most one"""
    p, h, st = profile(E)
    n = E.choose('n', [1, 2, 3, 5, 8])
    E.req(h.size >= n)
    s = p._sectioned_data(n)
    E.ens('count', len(s) == n)
    pos = 0
    mu = E.np.sum(h) / h.size
    big = s[0].shape[0]
    for k, x in enumerate(s):
        m = x.shape[0]
        E.ens('nearly equal', E.both(m >= 1, m <= big, m >= big - 1))
        for (i,) in E.each(x):
            E.ens_eq('points', E.at(x, (i,)), E.at(h, (pos + i,)) - mu)
        pos = pos + m
    E.ens('all points', pos == h.size)

@contract('P02', 'section count refused', [P + '_sectioned_data'])
def refuse(E):
    """a section count below one or above the number of points is refused"""
    p, h, st = profile(E)
    n = E.int('n', lo=-5, hi=60)
    E.req(E.either(n < 1, n > h.size))
    for w in ('Rp', 'Rv', 'Rz'):
        E.raises(w, ValueError, getattr(p, w), n)

ask = lambda n, *a, **k: (lambda t: getattr(t, n)(*a, **k))
magnitude_contract('P02', [P + n for n in ('Ra', 'Rq', 'Rz')], dict(profile={**{n: (ask(n), 1) for n in ('Ra', 'Rq', 'Rp', 'Rv', 'Rz', 'Rt')}, 'Rz(2)': (ask('Rz', 2), 1), **{n: (ask(n), 0) for n in ('Rsk', 'Rku')}}), kinds=('profile',))

from dv.contract import contract
from .common import *

def monos(degree, idx):
    """monomials up to the degree in the grid coordinates"""
    if len(idx) == 1: return [idx[0] ** k for k in range(degree + 1)]
    return [idx[1] ** (i - j) * idx[0] ** j for i in range(degree + 1) for j in range(i + 1)]

def expos(degree, nd):
    return [(k,) for k in range(degree + 1)] if nd == 1 else [(j, i - j) for i in range(degree + 1) for j in range(i + 1)]

def setup(E, kind, degree, nan=True):
    if kind == 'surface':
        t, h, sx, sy = surface(E, ny=2, nx=2, nan=nan); st = (sx, sy)
    else:
        t, h, s = profile(E, n=2, nan=nan); st = (s,)
    E.req(h[~E.np.isnan(h)].size > 0)
    if not E.sym: E.req(all(n > degree for n in h.shape))
    return t, h, st

def zero_sum(E, label, vals, scale):
    """the sum over the measured points vanishes (to working precision on floats)"""
    s = E.np.nansum(vals)
    if E.sym: E.ens_eq(label, s, 0)
    else: E.ens(label, abs(float(s)) <= 1e-6 * scale, f'inner product {s!r} at scale {scale!r}')

def body(E, kind, degree):
    """result + trend = original at every measured point; missing stays missing; the residual is orthogonal to every monomial up to the degree in the grid coordinates; the trend is a polynomial of that degree; steps carried"""
    t, h, st = setup(E, kind, degree)
    ip = E.choose('inplace', [False, True]) if degree < 3 else False
    f = E.choose('call', [lambda: t.level(return_trend=True, inplace=ip), lambda: t.detrend_polynomial(degree=1, return_trend=True, inplace=ip)]) if degree == 1 else lambda: t.detrend_polynomial(degree=degree, return_trend=True, inplace=ip)
    r, tr = f()
    d, T = r.data, tr.data
    E.ens_shape('result', d, h.shape); E.ens_shape('trend', T, h.shape)
    E.ens_arr('result plus trend', d + T, E.np.where(E.np.isnan(h), h, h))
    E.ens('trend has no missing points', E.neg(E.has_nan(T)))
    for k in range(len(st)):
        E.ens_eq('step', step_of(r)[k], st[k]); E.ens_eq('trend step', step_of(tr)[k], st[k])
    E.ens('in place', (r is t) == ip); E.ens('trend is another object', tr is not t and tr is not r)
    if not E.sym:
        res = np.where(np.isnan(h), 0.0, d)
        g = np.indices(h.shape)
        loc = [(2.0 * a / max(a.max(), 1) - 1) for a in g]
        sc = max(np.nanmax(np.abs(h)), 1e-300) * h.size
        for k, m in enumerate(monos(degree, loc)): E.ens(f'orthogonal {k}', abs(float((res * m).sum())) <= 1e-7 * sc, f'{(res * m).sum()!r} at scale {sc!r}')
        # trend is a polynomial of at most that degree: best fit of that degree reproduces it everywhere
        A = np.column_stack([np.broadcast_to(m, h.shape).ravel() for m in monos(degree, loc)])
        c, *_ = np.linalg.lstsq(A, T.ravel(), rcond=None)
        E.ens_arr('trend polynomial', A @ c, T.ravel(), tol=1e-6, atol=1e-7 * (np.abs(T).max() + np.nanmax(np.abs(h))))
    else:
        E.index(*[n - 1 for n in h.shape])
        E.ens_polynomial('trend polynomial', T, degree)
        for k, ex in enumerate(expos(degree, len(h.shape))): E.ens_orthogonal(f'orthogonal {k}', d, ex, degree)

for _k in ('surface', 'profile'):
    for _d in (0, 1, 2, 3):
        _f = lambda E, k=_k, d=_d: body(E, k, d)
        _f.__doc__ = body.__doc__
        contract('P11', f'{_k} degree {_d}', [f'surfalize/{_k}.py:{_k.capitalize()}.detrend_polynomial', f'surfalize/{_k}.py:{_k.capitalize()}.level'])(_f)

ask = lambda n, *a, **k: (lambda t: getattr(t, n)(*a, **k))
_q = {'level': (ask('level'), 1), 'degree 2': (ask('detrend_polynomial', 2), 1), 'trend': (lambda t: t.detrend_polynomial(3, return_trend=True)[1], 1)}
magnitude_contract('P11', ['surfalize/surface.py:Surface.detrend_polynomial', 'surfalize/profile.py:Profile.detrend_polynomial'], dict(surface=_q, profile=_q), lo=6)

def high(E, kind):
    """degrees up to eight: a polynomial of that degree in the grid coordinates is removed, other heights leave a residual orthogonal to every such polynomial"""
    r = E.rng; d = E.int('degree', lo=0, hi=8)
    sh = [int(r.integers(12, 30)) for _ in range(2 if kind == 'surface' else 1)]
    loc = [2.0 * a / (n - 1) - 1 for a, n in zip(np.indices(sh), sh)]
    leg = lambda k, x: np.polynomial.legendre.legval(x, [0] * k + [1])
    ms = [np.prod([leg(k, x) for k, x in zip(e, loc)], axis=0) for e in (expos(d, len(sh)))]
    exact = E.int('polynomial', lo=0, hi=1)
    noise = E.array('h', sh); c = r.normal(size=len(ms)) * 10.0 ** r.integers(-2, 3)
    z = sum(a * m for a, m in zip(c, ms)) + (0 if exact else noise)
    t = Surface(own(z), .5, .7) if kind == 'surface' else Profile(own(z), .5)
    res, tr = t.detrend_polynomial(degree=d, return_trend=True)
    sc = np.abs(z).max() + 1e-300
    if exact: E.ens('removed', np.abs(res.data).max() <= 1e-7 * sc, f'degree {d}: {np.abs(res.data).max()!r} of {sc!r} left')
    E.ens_arr('sum', res.data + tr.data, z, atol=1e-9 * sc)
    for e, m in zip(expos(d, len(sh)), ms): E.ens(f'orthogonal {e}', abs((res.data * m).mean()) <= 1e-7 * sc, f'degree {d}: {(res.data * m).mean()!r} at scale {sc!r}')
for _k in ('surface', 'profile'):
    _f = lambda E, k=_k: high(E, k)
    _f.__doc__ = high.__doc__
    contract('P11', f'{_k} high degrees', [f'surfalize/{_k}.py:{_k.capitalize()}.detrend_polynomial'], sym=False, bounded='seeded polynomials and heights, degrees 0 to 8, 12 to 29 points per axis', samples=(40, 400))(_f)

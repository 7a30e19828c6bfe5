from dv.contract import contract
from .common import *

def nearest(E, h, r, E2, dist):
    pass

@contract('P25', 'surface fill', ['surfalize/surface.py:Surface.fill_nonmeasured'], samples=(80, 800))
def surf(E):
    """measured heights kept exactly; nothing missing; each filled height is that of a measured point at minimal grid distance; steps and dimensions kept"""
    t, h, sx, sy = surface(E, nan=True)
    E.req(h[~E.np.isnan(h)].size > 0)
    ip = E.choose('inplace', [False, True])
    r = t.fill_nonmeasured(inplace=ip)
    check(E, r, h)
    E.ens_eq('step x', r.step_x, sx); E.ens_eq('step y', r.step_y, sy)
    ens_dims(E, 'result', r)

@contract('P25', 'profile fill', ['surfalize/profile.py:Profile.fill_nonmeasured'], samples=(80, 800))
def prof(E):
    t, h, st = profile(E, nan=True)
    E.req(h[~E.np.isnan(h)].size > 0)
    ip = E.choose('inplace', [False, True])
    r = t.fill_nonmeasured(inplace=ip)
    check(E, r, h)
    E.ens_eq('step', r.step, st)
    ens_dims(E, 'result', r)
prof.__doc__ = surf.__doc__

def check(E, r, h):
    d = r.data
    E.ens_shape('result', d, h.shape)
    for i in E.each(h):
        v = E.at(d, i); m = E.at(h, i)
        E.ens('no gap', E.neg(isnan(E, v)))
        if E.cond(E.neg(isnan(E, m))): E.ens_eq('measured height kept', v, m, tol=1e-15, atol=0)
        else:
            # some measured point p has this height and no measured point q is nearer
            if E.sym:
                p = E.nearest_source(i); q = E.arbitrary(h)
                E.ens('source inside', E.both(*[E.both(a >= 0, a < n) for a, n in zip(p, h.shape)]))
                E.ens('source measured', E.neg(isnan(E, E.at(h, p))))
                E.ens_eq('height of the source', v, E.at(h, p))
                E.ens('no measured point nearer than the source', E.either(isnan(E, E.at(h, q)), d2(p, i) <= d2(q, i)))
            else: E.ens('height of a nearest measured point', E.exists(h, lambda *p: E.both(E.neg(isnan(E, E.at(h, p))), eqv(E, E.at(h, p), v), E.forall(h, lambda *q: E.either(isnan(E, E.at(h, q)), d2(p, i) <= d2(q, i))))))

def d2(p, q): return sum((a - b) * (a - b) for a, b in zip(p, q))
def isnan(E, v): return E.np.isnan(v)
def eqv(E, a, b): return a == b

@contract('P25', 'nothing missing', ['surfalize/surface.py:Surface.fill_nonmeasured', 'surfalize/profile.py:Profile.fill_nonmeasured'])
def full(E):
    """an array without missing points comes back with equal heights (any method)"""
    k = E.choose('kind', ['surface', 'profile'])
    if k == 'surface': t, h, *_ = surface(E)
    else: t, h, _ = profile(E)
    m = E.choose('method', ['nearest', 'linear', 'cubic'])
    r = t.fill_nonmeasured(method=m, inplace=E.choose('inplace', [False, True]))
    E.ens_arr('heights', r.data, h)

@contract('P25', 'other methods', ['surfalize/surface.py:Surface.fill_nonmeasured'])
def other(E):
    """measured heights and steps are kept with every method"""
    t, h, sx, sy = surface(E, ny=4, nx=4, nan=True)
    m = E.choose('method', ['linear', 'cubic']); ip = E.choose('inplace', [False, True])
    if E.sym:
        r = t.fill_nonmeasured(method=m, inplace=ip)
        E.ens_shape('result', r.data, h.shape)
        for i in E.each(h):
            E.index(*i)
            if E.cond(E.neg(isnan(E, E.at(h, i)))):
                E.ens('measured stays measured', E.neg(isnan(E, E.at(r.data, i)))); E.ens_eq('measured height kept', E.at(r.data, i), E.at(h, i))
    else:
        E.req((~np.isnan(h)).sum() > 6)
        f = np.argwhere(~np.isnan(h)); E.req(np.linalg.matrix_rank(f - f[0]) == 2)
        r = t.fill_nonmeasured(method=m, inplace=ip); k = ~np.isnan(h)
        E.ens_arr('measured heights', r.data[k], h[k], tol=1e-9)
    E.ens_eq('step x', r.step_x, sx); E.ens_eq('step y', r.step_y, sy); ens_dims(E, 'result', r)

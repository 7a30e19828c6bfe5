from dv.contract import contract
from .common import *
FN = dict(center='base.py:BaseTopography.center', zero='base.py:BaseTopography.zero', invert='base.py:BaseTopography.invert', remove_outliers='base.py:BaseTopography.remove_outliers',
          threshold='base.py:BaseTopography.threshold', filter='base.py:BaseTopography.filter')

def body(E, kind, name):
    """not in-place: receiver untouched, another object sharing no storage; in-place: the receiver itself holding what the other mode returns"""
    t, h, st, ap = setup_op(E, kind, name)
    n0 = dims_of(t)
    r = ap(False)
    if E.sym and name in ('rotate', 'align'): E.req(E.both(*[x > 0 for x in r.data.shape]))    # a rotation that leaves at least one point
    E.ens('other object', r is not t)
    E.ens('class', type(r) is type(t))
    E.ens_arr('receiver heights', t.data, h)
    for k in range(len(st)): E.ens_eq('receiver step', step_of(t)[k], st[k]); E.ens_eq('receiver dimension', dims_of(t)[k], n0[k])
    rd, rs, rz = r.data.copy(), step_of(r), dims_of(r)
    # later edits of one never change the other
    c = E.real('edit', conc=[1234.5])
    key = (0,) * len(st)
    r[key] = c
    E.ens_arr('receiver after editing the result', t.data, h)
    t2 = type(t)(h.copy(), *st)
    ap2 = rebind(ap, t, t2)
    r2 = ap2(False); d2 = r2.data.copy()
    t2[key] = c
    E.ens_arr('result after editing the receiver', r2.data, d2)
    t3 = type(t)(h.copy(), *st)
    r3 = rebind(ap, t, t3)(True)
    E.ens('in-place returns the receiver', r3 is t3)
    E.ens_arr('in-place heights', r3.data, rd)
    for k in range(len(st)): E.ens_eq('in-place step', step_of(r3)[k], rs[k]); E.ens_eq('in-place dimension', dims_of(r3)[k], rz[k])

def rebind(ap, old, new):
    """the same operation with the same arguments on another receiver"""
    import types
    cells = tuple(types.CellType(new) if c.cell_contents is old else c for c in ap.__closure__)
    return types.FunctionType(ap.__code__, ap.__globals__, ap.__name__, ap.__defaults__, cells)

for _k, _ops in (('surface', SURFACE_OPS), ('profile', PROFILE_OPS)):
    for _n in _ops:
        _f = lambda E, k=_k, n=_n: body(E, k, n)
        _f.__doc__ = body.__doc__
        contract('P07', f'{_k} {_n}', ['surfalize/' + FN[_n] if _n in FN else f'surfalize/{_k}.py:{_k.capitalize()}.{ {"detrend": "detrend_polynomial"}.get(_n, _n)}'], sym=(_k, _n) not in CONC_ONLY)(_f)

@contract('P07', 'getitem', ['surfalize/surface.py:Surface.__getitem__'])
def getitem(E):
    """indexing shares no storage with the surface"""
    t, h, sx, sy = surface(E, ny=2, nx=2, nan=True)
    r = E.choose('k', [lambda: t[1:, :], lambda: t[:, 1:], lambda: t[:], lambda: t[:1]])()
    d = r.data.copy(); c = E.real('edit', conc=[1234.5])
    r[(0, 0)] = c
    E.ens_arr('receiver', t.data, h)
    t[:, :] = c
    E.ens_eq('edited', E.at(t.data, (0, 0)), c)
    d = E.np.where(E.np.isnan(d), d, d)
    for i, j in E.each(r.data):
        if E.cond(E.either(i > 0, j > 0)): E.ens_eq('result', E.at(r.data, (i, j)), E.at(d, (i, j)))

@contract('P07', 'profiles and arithmetic', ['surfalize/surface.py:Surface.get_horizontal_profile', 'surfalize/surface.py:Surface.get_vertical_profile', 'surfalize/surface.py:Surface._arithmetic_operation'])
def derived(E):
    """extracted profiles and arithmetic results share no storage with their sources"""
    t, h, sx, sy = surface(E, ny=2, nx=2)
    r = E.choose('k', [lambda: t.get_horizontal_profile(0), lambda: t.get_vertical_profile(0), lambda: t + 0, lambda: t * 1, lambda: t - t, lambda: t + t])()
    c = E.real('edit', conc=[1234.5])
    r[(0,) * len(r.data.shape)] = c
    E.ens_arr('receiver', t.data, h)

@contract('P07', 'data view', ['surfalize/surface.py:Surface.data', 'surfalize/profile.py:Profile.data'])
def view(E):
    """the data property is read-only: heights change only through assignment to the topography"""
    k = E.choose('kind', ['surface', 'profile'])
    if k == 'surface': t, h, *_ = surface(E)
    else: t, h, _ = profile(E)
    def w():
        t.data[(0,) * len(h.shape)] = 1.0
    E.raises('read only', ValueError, w)
    E.ens_arr('unchanged', t.data, h)

from dv.contract import contract
from .common import *

@contract('P08', 'surface construction and assignment', ['surfalize/surface.py:Surface.__init__', 'surfalize/surface.py:Surface.data', 'surfalize/surface.py:Surface._set_data', 'surfalize/surface.py:Surface.size'])
def surf(E):
    """width/height = step * (points - 1), size = (rows, columns) after construction, from raw data, data and item assignment"""
    t, h, sx, sy = surface(E, nan=True)
    E.ens_eq('step x', t.step_x, sx); E.ens_eq('step y', t.step_y, sy)
    ens_dims(E, 'constructed', t)
    t[(0, 0)] = E.real('v')
    ens_dims(E, 'item assigned', t)
    h2 = heights(E, 'k', nan=True)
    t.data = h2
    ens_dims(E, 'data assigned', t)
    E.ens_eq('step x kept', t.step_x, sx); E.ens_eq('step y kept', t.step_y, sy)
    sx2, sy2 = steps(E, '2')
    t._set_data(step_x=sx2, step_y=sy2)
    E.ens_eq('new step x', t.step_x, sx2); E.ens_eq('new step y', t.step_y, sy2)
    ens_dims(E, 'steps set', t)
    h3 = heights(E, 'l', nan=True); sx3, sy3 = steps(E, '3')
    t._set_data(data=h3, step_x=sx3)
    E.ens_eq('new step x (2)', t.step_x, sx3); E.ens_eq('step y kept (2)', t.step_y, sy2)
    ens_dims(E, 'data and step x set', t)
    t._set_data(data=h, step_y=sy3)
    E.ens_eq('step x kept (3)', t.step_x, sx3); E.ens_eq('new step y (3)', t.step_y, sy3)
    ens_dims(E, 'data and step y set', t)

@contract('P08', 'surface from raw data', ['surfalize/surface.py:Surface.from_raw_surface'])
def raw(E):
    """loading: a surface built from a reader's raw record carries its steps and agreeing dimensions"""
    from surfalize.file.common import RawSurface
    h = heights(E, nan=True); sx, sy = steps(E)
    t = Surface.from_raw_surface(RawSurface(h, sx, sy))
    E.ens_eq('step x', t.step_x, sx); E.ens_eq('step y', t.step_y, sy)
    E.ens_arr('heights', t.data, h)
    ens_dims(E, 'loaded', t)

@contract('P08', 'profile construction and assignment', ['surfalize/profile.py:Profile.__init__', 'surfalize/profile.py:Profile.data', 'surfalize/profile.py:Profile._set_data'])
def prof(E):
    h = E.array('h', [('n', 1)], nan=True); st = E.real('step', gt=0, conc=STEPS)
    t = Profile(h, st)
    E.ens_eq('step', t.step, st)
    ens_dims(E, 'constructed', t)
    t[0] = E.real('v'); ens_dims(E, 'item assigned', t)
    t.data = E.array('k', [('m', 1)], nan=True); ens_dims(E, 'data assigned', t)
    E.ens_eq('step kept', t.step, st)
    s2 = E.real('step2', gt=0, conc=STEPS)
    t._set_data(step=s2); E.ens_eq('new step', t.step, s2); ens_dims(E, 'step set', t)
    t._set_data(data=h); E.ens_eq('step kept 2', t.step, s2); ens_dims(E, 'data set', t)
prof.__doc__ = 'length = step * (points - 1) after construction, data and item assignment'

def op(E, kind, name):
    """result of the operation (in place or not): dimensions agree with shape and step, steps preserved (except rotation)"""
    t, h, st, ap = setup_op(E, kind, name)
    ip = E.choose('inplace', [False, True])
    r = ap(ip)
    if isinstance(r, tuple): r = r[0]
    ens_dims(E, 'result', r); ens_dims(E, 'receiver', t)
    if name not in ('rotate', 'align'):
        for k in range(len(st)): E.ens_eq('step kept', step_of(r)[k], st[k])
for _k, _ops in (('surface', SURFACE_OPS), ('profile', PROFILE_OPS)):
    for _n in _ops:
        _f = lambda E, k=_k, n=_n: op(E, k, n)
        _f.__doc__ = op.__doc__
        contract('P08', f'{_k} {_n}', [f'surfalize/{_k}.py:{_k.capitalize()}._set_data', f'surfalize/{_k}.py:{_k.capitalize()}._with_data'], sym=(_k, _n) not in CONC_ONLY)(_f)

@contract('P08', 'trend surface', ['surfalize/surface.py:Surface.detrend_polynomial', 'surfalize/profile.py:Profile.detrend_polynomial'])
def trend(E):
    """the reported trend carries the steps and dimensions too"""
    k = E.choose('kind', ['surface', 'profile'])
    t, h, st, ap = setup_op(E, k, 'detrend')
    r, tr = t.level(return_trend=True)
    ens_dims(E, 'trend', tr)
    for j in range(len(st)): E.ens_eq('step', step_of(tr)[j], st[j])
    E.ens('shape', all(bool(a == b) for a, b in zip(tr.data.shape, h.shape)))

@contract('P08', 'band separation', ['surfalize/base.py:BaseTopography.filter'])
def both(E):
    """both results of the two-way filter carry steps and dimensions"""
    k = E.choose('kind', ['surface', 'profile'])
    t, h, st, ap = setup_op(E, k, 'filter')
    for r in t.filter('both', E.real('c2', gt=0, conc=[1, 2])):
        ens_dims(E, 'part', r)
        for j in range(len(st)): E.ens_eq('step', step_of(r)[j], st[j])

@contract('P08', 'arithmetic', ['surfalize/surface.py:Surface._arithmetic_operation'])
def arith(E):
    """arithmetic results keep steps and agreeing dimensions"""
    t, h, sx, sy = surface(E, nan=True)
    c = E.choose('number', [2, 0.5, -1.5])
    o = E.choose('op', [lambda: t + c, lambda: t - c, lambda: c - t, lambda: t * c, lambda: t / c, lambda: t + t, lambda: t - t, lambda: t * t])()
    ens_dims(E, 'result', o)
    E.ens_eq('step x', o.step_x, sx); E.ens_eq('step y', o.step_y, sy)

@contract('P08', 'indexing', ['surfalize/surface.py:Surface.__getitem__'])
def index(E):
    """indexing: steps times the strides, dimensions agree"""
    t, h, sx, sy = surface(E, ny=3, nx=3, nan=True)
    if E.choose('strides', ['chosen', 'any']) == 'any':
        a, b = [E.int(q, lo=1, conc=lambda r: int(r.integers(1, 9))) for q in ('stride_y', 'stride_x')]
        k, fx, fy = E.choose('rows only', [(slice(None, None, a), 1, a), ((slice(None, None, a), slice(None, None, b)), b, a), ((slice(1, None, a), slice(None, -1, b)), b, a), ((slice(None), slice(None, None, b)), b, 1)])
    else: k, fx, fy = E.choose('key', [(slice(1, None), 1, 1), (slice(None, None, 2), 1, 2), ((slice(None), slice(0, 2)), 1, 1), ((slice(None, None, 2), slice(None, None, 3)), 3, 2),
                                 ((slice(1, None, 3), slice(None)), 1, 3), ((slice(None), slice(None, -1, 2)), 2, 1)])
    r = t[k]
    ens_dims(E, 'result', r)
    E.ens_eq('step x', r.step_x, sx * fx); E.ens_eq('step y', r.step_y, sy * fy)

@contract('P08', 'extracted profiles', ['surfalize/surface.py:Surface.get_horizontal_profile', 'surfalize/surface.py:Surface.get_vertical_profile', 'surfalize/surface.py:Surface.get_oblique_profile'])
def extracted(E):
    """extracted profiles: length = step * (points - 1)"""
    t, h, sx, sy = surface(E, ny=2, nx=2)
    k = E.choose('kind', ['h', 'v', 'o'])
    if k == 'o':
        n, m = h.shape
        a = [E.real(q, lo=0, conc=lambda r: float(r.random())) for q in ('x0', 'y0', 'x1', 'y1')]
        if not E.sym: a = [a[0] * t.width_um, a[1] * t.height_um, a[2] * t.width_um, a[3] * t.height_um]
        E.req(E.both(a[0] <= t.width_um, a[2] <= t.width_um, a[1] <= t.height_um, a[3] <= t.height_um))
        try: p = t.get_oblique_profile(*a)
        except ValueError: return
    else:
        w = t.height_um if k == 'h' else t.width_um
        f = E.real('pos', lo=0, conc=lambda r: float(r.random()))
        if not E.sym: f = f * w
        E.req(f <= w)
        p = (t.get_horizontal_profile if k == 'h' else t.get_vertical_profile)(f)
        E.ens_eq('step', p.step, sx if k == 'h' else sy)
    ens_dims(E, 'profile', p)

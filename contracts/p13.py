from dv.contract import contract
from .common import *
S = 'surfalize/surface.py:Surface.'
P = 'surfalize/profile.py:Profile.'

def ip(E): return E.choose('inplace', [False, True])

def check(E, r, h, i0, ni, j0, nj, sx, sy, ky=1, kx=1):
    """r holds h[i0 + ky*i, j0 + kx*j], i < ni, j < nj"""
    E.ens_shape('points', r.data, (ni, nj))
    for i, j in E.each(r.data):
        E.ens_eq('heights', E.at(r.data, (i, j)), E.at(h, (i0 + ky * i, j0 + kx * j)))
    E.ens_eq('step_x', r.step_x, sx * kx); E.ens_eq('step_y', r.step_y, sy * ky)

def box4(E, h, wide=0):
    ny, nx = h.shape
    if E.sym: lo, hi = (None, None)
    x0 = E.int('x0', conc=lambda r: int(r.integers(-wide, max(int(nx), 1)))); x1 = E.int('x1', conc=lambda r: int(r.integers(x0, int(nx) + wide)))
    y0 = E.int('y0', conc=lambda r: int(r.integers(-wide, max(int(ny), 1)))); y1 = E.int('y1', conc=lambda r: int(r.integers(y0, int(ny) + wide)))
    return x0, x1, y0, y1

@contract('P13', 'crop pixels', [S + 'crop'])
def crop_px(E):
    """crop in pixels returns exactly the points of the box, both ends included"""
    s, h, sx, sy = surface(E, nan=True)
    x0, x1, y0, y1 = box4(E, h)
    ny, nx = h.shape
    E.req(E.both(0 <= x0, x0 <= x1, x1 < nx, 0 <= y0, y0 <= y1, y1 < ny))
    r = s.crop((x0, x1, y0, y1), in_units=False, inplace=ip(E))
    check(E, r, h, y0, y1 - y0 + 1, x0, x1 - x0 + 1, sx, sy)

@contract('P13', 'crop units', [S + 'crop'])
def crop_um(E):
    """crop in micrometres: coordinates rounded to the nearest sample, y counted upwards from the bottom row"""
    s, h, sx, sy = surface(E, nan=True)
    px0, px1, py0, py1 = box4(E, h)
    ny, nx = h.shape
    E.req(E.both(0 <= px0, px0 <= px1, px1 < nx, 0 <= py0, py0 <= py1, py1 < ny))
    co = []
    for n, k, st in (('x0', px0, sx), ('x1', px1, sx), ('y0', py0, sy), ('y1', py1, sy)):
        f = E.real('f' + n, gt=-0.5, lt=0.5, conc=[-.45, -.3, 0, 0, .2, .45])
        co.append((k + f) * st)
    r = s.crop(tuple(co), in_units=E.choose('units', [True]), inplace=ip(E)) if E.choose('explicit', [0, 1]) else s.crop(tuple(co), inplace=ip(E))
    check(E, r, h, ny - 1 - py1, py1 - py0 + 1, px0, px1 - px0 + 1, sx, sy)

@contract('P13', 'crop refused', [S + 'crop'])
def crop_bad(E):
    """a box reaching outside the data is refused and nothing changes"""
    s, h, sx, sy = surface(E, nan=True)
    x0, x1, y0, y1 = box4(E, h, 3)
    ny, nx = h.shape
    E.req(E.both(x0 <= x1, y0 <= y1))
    E.req(E.either(x0 < 0, x1 > nx - 1, y0 < 0, y1 > ny - 1))
    p = ip(E)
    E.raises('pixels', ValueError, s.crop, (x0, x1, y0, y1), False, p)
    E.raises('units', ValueError, s.crop, (x0 * sx, x1 * sx, (ny - 1 - y1) * sy, (ny - 1 - y0) * sy), True, p)
    E.ens_arr('untouched', s.data, h)

@contract('P13', 'zoom', [S + 'zoom'])
def zoom(E):
    """zoom returns the centred region of the size divided by the factor plus one point"""
    s, h, sx, sy = surface(E, nan=True)
    f = E.real('factor', gt=1, conc=[1.01, 1.5, 2, 2.0, 3, 4, 1.25, 10])
    ny, nx = h.shape
    r = s.zoom(f, inplace=ip(E))
    fl = (lambda v: E.np.floor(v)) 
    my, mx = E.floor(ny / f), E.floor(nx / f)
    oy, ox = E.floor((ny - my) / 2), E.floor((nx - mx) / 2)
    # at most the points there are
    cy, cx = E.np.minimum(my + 1, ny - oy), E.np.minimum(mx + 1, nx - ox)
    E.ens_eq('rows', r.data.shape[0], cy); E.ens_eq('columns', r.data.shape[1], cx)
    check(E, r, h, oy, cy, ox, cx, sx, sy)

@contract('P13', 'index slices', [S + '__getitem__'])
def index(E):
    """indexing with slices returns the addressed points, steps multiplied by the strides"""
    s, h, sx, sy = surface(E, nan=True)
    ny, nx = h.shape
    a, b = E.int('a', lo=0, conc=lambda r: int(r.integers(0, int(ny)))), E.int('b', lo=0, conc=lambda r: int(r.integers(1, int(ny) + 1)))
    c, d = E.int('c', lo=0, conc=lambda r: int(r.integers(0, int(nx)))), E.int('d', lo=0, conc=lambda r: int(r.integers(1, int(nx) + 1)))
    E.req(E.both(a < b, b <= ny, c < d, d <= nx))
    if E.choose('strides', ['chosen', 'any']) == 'any': ky, kx = [E.int(q, lo=1, conc=lambda r: int(r.integers(1, 9))) for q in ('stride_y', 'stride_x')]
    else: ky, kx = E.choose('stride', [(None, None), (2, 3), (1, 2), (3, None), (None, 4), (1, 1), (5, 1)])
    form = E.choose('form', ['both', 'rows', 'open'])
    if form == 'both':
        r = s[a:b:ky, c:d:kx]; i0, n, j0, m = a, b - a, c, d - c
    elif form == 'rows':
        r = s[a:b:ky]; kx = None; i0, n, j0, m = a, b - a, 0, nx
    else:
        r = s[a::ky, :d:kx]; i0, n, j0, m = a, ny - a, 0, d
    ky, kx = 1 if ky is None else ky, 1 if kx is None else kx
    check(E, r, h, i0, (n + ky - 1) // ky, j0, (m + kx - 1) // kx, sx, sy, ky, kx)
    E.ens('type', isinstance(r, Surface) and r is not s)
    E.ens_arr('receiver', s.data, h)

@contract('P13', 'index negative', [S + '__getitem__'])
def index_neg(E):
    """negative slice bounds count from the end"""
    s, h, sx, sy = surface(E, ny=4, nx=4)
    ny, nx = h.shape
    k = E.choose('k', [0, 1, 2])
    if k == 0: r = s[-3:, :-1]; check(E, r, h, ny - 3, 3, 0, nx - 1, sx, sy)
    if k == 1: r = s[1:-1, -4::2]; check(E, r, h, 1, ny - 2, nx - 4, 2, sx, sy, 1, 2)
    if k == 2: r = s[:, 1:]; check(E, r, h, 0, ny, 1, nx - 1, sx, sy)

@contract('P13', 'profile crop', [P + 'crop'])
def pcrop(E):
    """profile crop returns exactly the points of the interval, both ends included; outside or empty intervals are refused"""
    p, h, st = profile(E, nan=True)
    n = h.shape[0]
    x0 = E.int('x0', conc=lambda r: int(r.integers(-2, int(n)))); x1 = E.int('x1', conc=lambda r: int(r.integers(x0 - 1, int(n) + 3)))
    units = E.choose('units', [False, True])
    q = ip(E)
    if units:
        f0 = E.real('f0', gt=-0.5, lt=0.5, conc=[-.4, 0, .4]); f1 = E.real('f1', gt=-0.5, lt=0.5, conc=[-.4, 0, .4])
        iv = ((x0 + f0) * st, (x1 + f1) * st)
    else: iv = (x0, x1)
    if E.cond(E.both(0 <= x0, x0 < x1, x1 < n)):
        r = p.crop(iv, units, q)
        E.ens_shape('points', r.data, (x1 - x0 + 1,))
        for (i,) in E.each(r.data): E.ens_eq('heights', E.at(r.data, (i,)), E.at(h, (x0 + i,)))
        E.ens_eq('step', r.step, st)
    else:
        E.raises('refused', ValueError, p.crop, iv, units, q)
        E.ens_arr('untouched', p.data, h)

@contract('P13', 'profile zoom', [P + 'zoom'])
def pzoom(E):
    """profile zoom returns the centred region of the size divided by the factor plus one point"""
    p, h, st = profile(E, nan=True)
    f = E.real('factor', gt=1, conc=[1.01, 1.5, 2, 2.0, 3, 4, 1.25, 10])
    n = h.shape[0]
    r = p.zoom(f, inplace=ip(E))
    m = E.floor(n / f); o = E.floor((n - m) / 2)
    c = E.np.minimum(m + 1, n - o)
    E.ens_shape('points', r.data, (c,))
    for (i,) in E.each(r.data): E.ens_eq('heights', E.at(r.data, (i,)), E.at(h, (o + i,)))
    E.ens_eq('step', r.step, st)

from dv.contract import contract
from .common import *
S = 'surfalize/surface.py:Surface.'

def grid(E, ny=2, nx=2):
    """surface whose extents (points minus one) are the given variables"""
    my, mx = E.int('my', lo=ny - 1), E.int('mx', lo=nx - 1)
    h = E.array('h', [my + 1, mx + 1])
    sx, sy = steps(E)
    return Surface(own(h), sx, sy), h, my, mx, sx, sy

def position(E, name, m, st):
    """a position 0..m*st on an axis of m+1 points and the index of the point whose cell contains it"""
    v = E.real(name, lo=0, hi=1, conc=[0, 0.1, 0.25, 0.5, 0.5, 0.77, 0.999, 1, 1])
    L = m * st
    pos = v * L
    if not E.sym:
        pos = min(pos, L)
        x = pos / L * (m + 1)
        E.req(abs(x - round(x)) > 1e-6 or v in (0, 1))
        return pos, min(int(x), m)
    k = E.int('k' + name, lo=0)
    E.lemma(name + ' range', E.both(v * m >= 0, v * m <= m))
    E.candidate(k); E.candidate(m + 1)
    if E.choose('end ' + name, [0, 1]): E.req(E.both(v == 1, k == m))
    else: E.req(E.both(k <= v * m + v, v * m + v < k + 1, k <= m))
    return pos, k

def prof(E, axis, mode):
    s, h, my, mx, sx, sy = grid(E, 1 if axis == 'v' else 2, 1 if axis == 'h' else 2)
    n, m, st, so = (my + 1, mx + 1, sy, sx) if axis == 'h' else (mx + 1, my + 1, sx, sy)
    pos, c = position(E, 'frac', my if axis == 'h' else mx, st)
    f = s.get_horizontal_profile if axis == 'h' else s.get_vertical_profile
    row = (lambda k, j: E.at(h, (k, j))) if axis == 'h' else (lambda k, j: E.at(h, (j, k)))
    if mode in ('single', 'one'):
        r = f(pos) if mode == 'single' else f(pos, E.choose('av', [1, 0]))
        val = lambda j: row(c, j)
    else:
        k, avs = {'average': (1, [2, 3, 4, 7]), 'stride 1': (1, [3]), 'stride 2': (2, [2, 3, 4]), 'stride 3': (3, [2, 3])}[mode]
        av = E.choose('average', avs) if E.sym else E.choose('average', [2, 3, 4, 5, 6, 7, 8])
        if mode == 'average': r = f(pos, av)
        else:
            E.candidate(k)
            d = E.real('d', gt=-0.5, lt=0.5, conc=[-.4, 0, .3])
            r = f(pos, average=av, average_step=(k + d) * st)
        # rows c - half*k ... c + half*k in strides of k that lie on the surface
        half = av // 2
        def val(j):
            t = c0 = 0
            for q in range(-half, half + 1):
                on = E.both(c + q * k >= 0, c + q * k <= n - 1)
                t = t + (E.ite(on, row(c + q * k, j), 0) if E.sym else (row(c + q * k, j) if on else 0))
                c0 = c0 + E.ite(on, 1, 0)
            return t / c0
    E.ens_shape('points', r.data, (m,))
    for (j,) in E.each(r.data): E.ens_eq('heights', E.at(r.data, (j,)), val(j))
    E.ens_eq('step', r.step, so)
    E.ens_eq('length', r.length_um, (m - 1) * so)
    E.ens_arr('receiver', s.data, h)

for _ax, _fn, _nm in (('h', 'get_horizontal_profile', 'horizontal'), ('v', 'get_vertical_profile', 'vertical')):
    for _mode in ('single', 'one', 'average', 'stride 1', 'stride 2', 'stride 3'):
        def _f(E, ax=_ax, mode=_mode):
            """mean over the parallel rows (columns) centred on the one containing the position and clipped to the surface; step and length of the axis"""
            prof(E, ax, mode)
        contract('P14', f'{_nm} profile {_mode}', [S + _fn])(_f)

@contract('P14', 'refused', [S + 'get_horizontal_profile', S + 'get_vertical_profile', S + 'get_oblique_profile'])
def refused(E):
    """positions beyond the surface are refused"""
    s, h, sx, sy = surface(E, ny=2, nx=2)
    ny, nx = h.shape
    v = E.real('v', conc=[-1, -1e-6, -20])
    E.req(v < 0)
    W, H = (nx - 1) * sx, (ny - 1) * sy
    E.raises('y below', ValueError, s.get_horizontal_profile, v)
    E.raises('y above', ValueError, s.get_horizontal_profile, H - v)
    E.raises('x below', ValueError, s.get_vertical_profile, v)
    E.raises('x above', ValueError, s.get_vertical_profile, W - v)
    for k in range(4):
        for o in (v, (W if k % 2 == 0 else H) - v):
            p = [0, 0, W, H] if k < 2 else [W, H, 0, 0]
            p = [W / 2, H / 2, W / 2, H / 2]
            p[k] = o
            E.raises('oblique', ValueError, s.get_oblique_profile, *p)
    E.raises('oblique same point', ValueError, s.get_oblique_profile, 0, 0, 0, 0)

@contract('P14', 'oblique', [S + 'get_oblique_profile'])
def oblique(E):
    """samples the straight line between the two points, starting at the first and ending at the second point"""
    s, h, my, mx, sx, sy = grid(E)
    (px0, x0), (py0, y0), (px1, x1), (py1, y1) = position(E, 'fx0', mx, sx), position(E, 'fy0', my, sy), position(E, 'fx1', mx, sx), position(E, 'fy1', my, sy)
    co = (px0, py0, px1, py1)
    dx, dy = x1 - x0, y1 - y0
    E.req(dx * dx + dy * dy >= 4)
    r = s.get_oblique_profile(*co)
    n = r.data.shape[0]
    E.ens('two points', n >= 2)
    E.ens_eq('first point', E.at(r.data, (0,)), E.at(h, (y0, x0)))
    E.ens_eq('last point', E.at(r.data, (n - 1,)), E.at(h, (y1, x1)))
    if not E.sym:
        # straight line: cubic spline interpolation of the heights at equidistant points
        import scipy.ndimage as nd
        E.ens_arr('line', r.data, nd.map_coordinates(h, [np.linspace(y0, y1, n), np.linspace(x0, x1, n)]), atol=1e-7)
    L = E.np.sqrt((dx * sx) ** 2 + (dy * sy) ** 2)
    E.ens_eq('length', r.length_um, L)
    E.ens_eq('step', r.step * (n - 1), L)
    if not E.sym: E.ens('density', E.both(n * n <= dx * dx + dy * dy, (n + 1) * (n + 1) > dx * dx + dy * dy))

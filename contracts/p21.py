from dv.contract import contract
from .common import *
from surfalize.autocorrelation import AutocorrelationFunction
import surfalize.surface as surfmod
import scipy.ndimage as ndimage
F = 'surfalize/autocorrelation.py:AutocorrelationFunction.'
S = 'surfalize/surface.py:Surface.'
CALLS = [F + 'calculate_autocorrelation', F + '__init__']

def texture(E, lo=1, hi=14):
    if E.sym: return surface(E)
    n, m = E.int('ny', lo=lo, hi=hi), E.int('nx', lo=lo, hi=hi)
    def tex(r, sh):
        y, x = np.mgrid[:sh[0], :sh[1]]; k = r.integers(4)
        if k == 0: return np.sin(2 * np.pi * x / r.uniform(3, 9)) + .1 * r.normal(size=sh)
        if k == 1: return np.sin(2 * np.pi * (x * r.uniform(-.2, .2) + y * r.uniform(-.2, .2))) + 5
        if k == 2: return ndimage.gaussian_filter(r.normal(size=sh), r.uniform(.5, 2))
        return r.normal(size=sh)
    h = E.array('h', [n, m], values=tex); sx, sy = steps(E)
    return Surface(own(h), sx, sy), h, sx, sy

@contract('P21', 'estimator', CALLS)
def estimator(E):
    """entry (a, b): mean over all pairs of points the lag (a - ny + 1, b - nx + 1) apart of the product of their deviations from the mean"""
    s, h, sx, sy = texture(E)
    acf = AutocorrelationFunction(s)
    ny, nx = h.shape
    E.ens_shape('acf', acf.data, [2 * ny - 1, 2 * nx - 1])
    E.ens_eq('zero lag at the centre (rows)', acf.center[0], ny - 1); E.ens_eq('zero lag at the centre (columns)', acf.center[1], nx - 1)
    d = h - h.mean()
    if E.sym:
        for a, b in E.each(acf.data):
            ty, tx = a - ny + 1, b - nx + 1
            pairs = (ny - E.np.abs(ty)) * (nx - E.np.abs(tx))
            E.ens('pairs exist', pairs > 0)
            E.nonzero(pairs)
            tot = E.sum([ny, nx], lambda y, x: E.ite(E.both(y - ty >= 0, y - ty < ny, x - tx >= 0, x - tx < nx), E.at(d, (y, x)) * E.at(d, (y - ty, x - tx)), 0))
            E.ens_eq('mean over the pairs', E.at(acf.data, (a, b)), tot / pairs)
    else:
        ref = np.zeros((2 * ny - 1, 2 * nx - 1))
        for ty in range(-ny + 1, ny):
            for tx in range(-nx + 1, nx):
                u = d[max(ty, 0):ny + min(ty, 0), max(tx, 0):nx + min(tx, 0)]; v = d[max(-ty, 0):ny + min(-ty, 0), max(-tx, 0):nx + min(-tx, 0)]
                ref[ty + ny - 1, tx + nx - 1] = (u * v).mean()
        E.ens_arr('mean over the pairs', acf.data, ref, atol=1e-8 * (1 + np.abs(ref).max()))

@contract('P21', 'zero lag', CALLS)
def zero_lag(E):
    """the centre equals Sq squared"""
    s, h, sx, sy = texture(E)
    acf = AutocorrelationFunction(s) if E.choose('via', [0, 1]) else s.get_autocorrelation_function()
    ny, nx = h.shape
    E.ens_eq('centre row', acf.center[0], ny - 1); E.ens_eq('centre column', acf.center[1], nx - 1)
    d = h - h.mean()
    if not E.sym:
        E.ens_eq('mean square', acf.data[ny - 1, nx - 1], np.mean(d * d), atol=1e-9)
        E.ens_eq('Sq squared', acf.data[ny - 1, nx - 1], s.Sq() ** 2, atol=1e-9); return
    for a, b in E.each(acf.data):
        E.req(a == ny - 1); E.req(b == nx - 1)
        E.nonzero(ny); E.nonzero(nx)
        ty, tx = a - ny + 1, b - nx + 1
        def tot(y, x): return E.ite(E.both(y - ty >= 0, y - ty < ny, x - tx >= 0, x - tx < nx), E.at(d, (y, x)) * E.at(d, (y - ty, x - tx)), 0)
        pairs = (ny - E.np.abs(ty)) * (nx - E.np.abs(tx)); E.nonzero(pairs)
        E.lemma('every point pairs with itself', pairs == ny * nx)
        E.lemma('estimate', E.at(acf.data, (a, b)) == E.sum([ny, nx], tot) / pairs)
        E.lemma_sum_shift('squares', [ny, nx], tot, lambda y, x: E.at(d, (y, x)) * E.at(d, (y, x)), (ty, tx))
        E.ens_eq('mean square', E.at(acf.data, (a, b)), E.sum([ny, nx], lambda y, x: E.at(d, (y, x)) * E.at(d, (y, x))) / (ny * nx))

@contract('P21', 'symmetry', CALLS)
def symmetry(E):
    """unchanged under reversing the lag"""
    s, h, sx, sy = texture(E)
    acf = AutocorrelationFunction(s); ny, nx = h.shape
    if not E.sym: E.ens_arr('reversed lag', acf.data, acf.data[::-1, ::-1], atol=1e-9 * (1 + np.abs(acf.data).max())); return
    d = h - h.mean()
    for a, b in E.each(acf.data):
        ty, tx = a - ny + 1, b - nx + 1
        def tot(ty, tx): return lambda y, x: E.ite(E.both(y - ty >= 0, y - ty < ny, x - tx >= 0, x - tx < nx), E.at(d, (y, x)) * E.at(d, (y - ty, x - tx)), 0)
        E.lemma_sum_shift('pairs counted from either point', [ny, nx], tot(ty, tx), tot(-ty, -tx), (ty, tx))
        pairs = (ny - E.np.abs(ty)) * (nx - E.np.abs(tx)); E.nonzero(pairs)
        x, y = E.at(acf.data, (a, b)), E.at(acf.data, (2 * ny - 2 - a, 2 * nx - 2 - b))
        E.lemma('estimate', x == E.sum([ny, nx], tot(ty, tx)) / pairs)
        E.lemma('estimate at the reversed lag', y == E.sum([ny, nx], tot(-ty, -tx)) / pairs)
        E.ens_eq('reversed lag', x, y)

@contract('P21', 'height offset', CALLS)
def offset(E):
    """unchanged by adding a constant height"""
    s, h, sx, sy = texture(E)
    c = E.real('c', conc=[.5, -3, 20])
    a, b = AutocorrelationFunction(s), AutocorrelationFunction(Surface(h + c, sx, sy))
    if E.sym:
        for i in E.each(a.data): E.ens_eq('same estimate', E.at(a.data, i), E.at(b.data, i))
    else: E.ens_arr('same estimate', a.data, b.data, atol=1e-8 * (1 + np.abs(a.data).max()))

@contract('P21', 'missing points refused', [F + '__init__'])
def refused(E):
    s, h, sx, sy = surface(E, nan=True)
    E.req(E.has_nan(h))
    E.raises('refused', ValueError, AutocorrelationFunction, s)

@contract('P21', 'Sal and Str', [F + 'Sal', F + 'Str', S + 'Sal', S + 'Str'])
def derived(E):
    """Sal is the shortest decay length and Str its ratio to the longest one, at the requested threshold, default 0.2"""
    s, h, sx, sy = texture(E, 4, 24)
    if not E.sym: E.req(h.max() - h.min() > 1e-3)
    t = E.real('t', gt=0, lt=1, conc=[.1, .2, .5, .8])
    old = AutocorrelationFunction._calculate_decay_lengths
    if E.sym:
        from dv.arr import functional
        from dv.core import SNum
        def decay(self, s): return tuple(SNum(x) for x in functional('decay', [self._surface.data], [s, self._surface.step_x, self._surface.step_y], 2)[0])
        AutocorrelationFunction._calculate_decay_lengths = decay
    try:
        acf = AutocorrelationFunction(s)
        lo, hi = acf._calculate_decay_lengths(t); d0, d1 = acf._calculate_decay_lengths(0.2)
        if not E.sym: E.req(hi > 0 and d1 > 0)
        E.ens_eq('Sal', acf.Sal(t), lo); E.ens_eq('Sal of the surface', s.Sal(t), lo); E.ens_eq('Sal by name', s.Sal(s=t), lo)
        E.ens_eq('Str', acf.Str(t), lo / hi); E.ens_eq('Str of the surface', s.Str(t), lo / hi); E.ens_eq('Str by name', s.Str(s=t), lo / hi)
        E.ens_eq('default Sal', s.Sal(), d0); E.ens_eq('default Str', s.Str(), d0 / d1); E.ens_eq('default Sal of the curve', acf.Sal(), d0); E.ens_eq('default Str of the curve', acf.Str(), d0 / d1)
    finally: AutocorrelationFunction._calculate_decay_lengths = old

def decay_spec(acf, sx, sy, s):
    """allowed (shortest, longest) decay lengths: edge points of the connected region above the threshold around zero lag,
    nearest and farthest in physical units, and the crossing along the straight line to them (cubic interpolation, 1000 samples)"""
    ny, nx = acf.shape; cy, cx = ny // 2, nx // 2
    th = s * acf[cy, cx]
    seen = {(cy, cx)}; todo = [(cy, cx)]; edge = set()
    while todo:
        y, x = todo.pop()
        for u, v in ((y - 1, x), (y + 1, x), (y, x - 1), (y, x + 1)):
            if not (0 <= u < ny and 0 <= v < nx): continue
            if acf[u, v] > th:
                if (u, v) not in seen: seen.add((u, v)); todo.append((u, v))
            else: edge.add((u, v))
    if not edge: return None
    D = {p: np.hypot((p[0] - cy) * sy, (p[1] - cx) * sx) for p in edge}
    out = []
    for best in (min(D.values()), max(D.values())):
        c = [p for p in edge if abs(D[p] - best) <= 1e-9 * best]
        low = min(acf[p] for p in c); c = [p for p in c if acf[p] <= low + 1e-9 * abs(acf[cy, cx])]
        r = []
        for p in c:
            line = ndimage.map_coordinates(acf, [np.linspace(cy, p[0], 1000), np.linspace(cx, p[1], 1000)], order=3)
            g = np.abs(line - th)
            r += [k * best / 999 for k in np.flatnonzero(g <= g.min() + 1e-9 * abs(acf[cy, cx]))]
        out.append(r)
    return out

BOUND = 'seeded textures, 4 to 24 points per axis, unequal steps, thresholds 0.05 to 0.8'
def threshold_safe(acf, t):
    """no sample of the estimate within rounding of the threshold"""
    c = acf[acf.shape[0] // 2, acf.shape[1] // 2]
    return c > 1e-9 and (np.abs(acf - t * c) > 1e-9 * c).all()

@contract('P21', 'decay lengths', [F + '_calculate_decay_lengths', 'surfalize/mathutils.py:interpolate_line_on_2d_array'], sym=False, bounded=BOUND, samples=(120, 1200))
def decay(E):
    """shortest and longest decay length to the threshold in physical units"""
    s, h, sx, sy = texture(E, 4, 24)
    t = E.real('t', conc=lambda r: float(r.uniform(.05, .8)))
    acf = AutocorrelationFunction(s)
    E.req(threshold_safe(acf.data, t))
    ref = decay_spec(acf.data, sx, sy, t)
    E.req(ref is not None)
    sal = s.Sal(t)
    E.ens('Sal', any(abs(sal - x) <= 1e-6 * (1 + x) for x in ref[0]), sal)
    if max(ref[1]) > 0: E.ens('Str', any(abs(s.Str(t) * y - x) <= 1e-6 * (x + y) for x in ref[0] for y in ref[1]), s.Str(t))
    # another threshold of the same surface
    u = E.real('u', conc=lambda r: float(r.uniform(.05, .8)))
    if threshold_safe(acf.data, u) and (ref := decay_spec(acf.data, sx, sy, u)) is not None:
        for q in (s, acf): E.ens('Sal at another threshold', any(abs(q.Sal(u) - x) <= 1e-6 * (1 + x) for x in ref[0]), q.Sal(u))
        E.ens('Sal again', s.Sal(t) == sal)

@contract('P21', 'rescaled steps', [F + '_calculate_decay_lengths'], sym=False, bounded=BOUND, samples=(80, 800))
def rescaled(E):
    """rescaling both steps scales Sal and leaves Str unchanged"""
    s, h, sx, sy = texture(E, 4, 24)
    t = E.real('t', conc=lambda r: float(r.uniform(.05, .8)))
    k = E.choose('k', [2., .5, 8., 1024.])
    E.req(threshold_safe(AutocorrelationFunction(s).data, t) and decay_spec(AutocorrelationFunction(s).data, sx, sy, t) is not None)
    r = Surface(own(h), sx * k, sy * k)
    E.ens_eq('Sal scales', r.Sal(t), k * s.Sal(t)); E.ens_eq('Str unchanged', r.Str(t), s.Str(t))

magnitude_contract('P21', CALLS, dict(surface={'autocorrelation': (lambda t: AutocorrelationFunction(t).data, 2), 'Sal': (lambda t: t.Sal(), 0), 'Str': (lambda t: t.Str(), 0)}), kinds=('surface',))

"""shared input constructors for the contracts"""
import zlib
import numpy as np
from surfalize import Surface
from surfalize.profile import Profile

STEPS = [0.5, 1.0, 0.125, 2.0, 0.3, 1.7, 7.0]

def own(h):
    """the heights handed to the code: a copy; in bounded runs of any memory layout and, where they are whole numbers, of any integer type"""
    if not isinstance(h, np.ndarray): return h.copy()
    k = zlib.crc32(h.tobytes()); how, k = k % 5, k // 5
    if how == 4 and h.dtype.kind == 'f' and h.size and np.isfinite(h).all() and (h == np.trunc(h)).all() and abs(h).max() < 2 ** 53:
        fits = [t for t in ('int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'bool') if (h.astype(t) == h).all()]
        return h.astype(fits[k % len(fits)])
    if how == 1: return np.array(h, order='F')
    if how == 2: return np.repeat(h, 2, -1)[..., ::2]
    if how == 3: r = (slice(None, None, -1),) * h.ndim; return h[r].copy()[r]
    return h.copy()

def heights(E, name='h', ny=1, nx=1, nan=False):
    return E.array(name, [(name + '_ny', ny), (name + '_nx', nx)], nan=nan)

def steps(E, name=''):
    sx = E.real('step_x' + name, gt=0, conc=STEPS); sy = E.real('step_y' + name, gt=0, conc=STEPS)
    return sx, sy

def surface(E, name='h', ny=1, nx=1, nan=False):
    """a surface of arbitrary size, heights and steps: (surface, heights, step_x, step_y)"""
    d = heights(E, name, ny, nx, nan)
    sx, sy = steps(E, '' if name == 'h' else '_' + name)
    return Surface(own(d), sx, sy), d, sx, sy

def profile(E, name='h', n=1, nan=False):
    d = E.array(name, [(name + '_n', n)], nan=nan)
    st = E.real('step' if name == 'h' else 'step_' + name, gt=0, conc=STEPS)
    return Profile(own(d), st, st * (size1(E, d) - 1)), d, st

def size1(E, d): return d.shape[0]

# ---- operations: name -> (apply(topography, inplace) for arguments drawn from E, requires measured points only)
def surface_ops(E, t, name):
    """callable applying the named operation with arbitrary arguments"""
    if name in ('center', 'zero', 'invert', 'fill_nonmeasured', 'stepheight_level', 'level'):
        return lambda ip: getattr(t, name)(inplace=ip)
    if name == 'detrend': d = E.choose('degree', [0, 1, 2]); return lambda ip: t.detrend_polynomial(degree=d, inplace=ip)
    if name == 'remove_outliers':
        m = E.choose('method', ['mean', 'median']); n = E.real('n', lo=0, conc=[0.5, 1, 2, 3]); return lambda ip: t.remove_outliers(n=n, method=m, inplace=ip)
    if name == 'threshold': p = E.real('p', lo=0, lt=50, conc=[0, 1, 5, 20, 40]); return lambda ip: t.threshold(p, inplace=ip)
    if name == 'filter':
        k = E.choose('type', ['lowpass', 'highpass', 'bandpass']); c = E.real('c', gt=0, conc=[.5, 1, 3]); d = E.real('d', gt=0, conc=[1, 2, 4])
        return lambda ip: t.filter(k, c, c + d, inplace=ip)
    if name == 'zoom': f = E.real('f', lo=1, conc=[1, 1.1, 1.5, 2, 3]); return lambda ip: t.zoom(f, inplace=ip)
    if name == 'rotate': a = E.real('angle', conc=[0, 3, 10, -20, 45, 90]); return lambda ip: t.rotate(a, inplace=ip)
    if name == 'align':
        a = E.choose('axis', ['x', 'y'])
        if E.sym: return opaque_align(E, t, a)
        return lambda ip: t.align(axis=a, method='fft', inplace=ip)
    raise KeyError(name)

def opaque_align(E, t, axis):
    """align against the contract of orientation: a function of the heights and steps (P22 decides which) that edits nothing (P06)"""
    from dv.arr import functional
    from dv.core import SNum
    def ap(ip):
        def orientation(method='fft_refined'): return SNum(functional('orientation', [t.data], [t.step_x, t.step_y], extra=(method,))[0][0])
        t.orientation = orientation
        try: return t.align(axis=axis, method='fft', inplace=ip)
        finally: del t.__dict__['orientation']
    return ap

SURFACE_OPS = ['center', 'zero', 'invert', 'remove_outliers', 'threshold', 'filter', 'fill_nonmeasured', 'level', 'detrend', 'zoom', 'crop', 'rotate', 'align', 'stepheight_level']
PROFILE_OPS = ['center', 'zero', 'invert', 'remove_outliers', 'threshold', 'filter', 'fill_nonmeasured', 'level', 'detrend', 'zoom', 'crop']
FULL_ONLY = {'filter', 'rotate', 'align', 'stepheight_level'}
CONC_ONLY = set()     # operations decided on concrete inputs only

def crop_op(E, t, h):
    if len(h.shape) == 2:
        ny, nx = h.shape
        x0 = E.int('x0', lo=0, conc=lambda r: int(r.integers(0, int(nx)))); x1 = E.int('x1', lo=0, conc=lambda r: int(r.integers(x0, int(nx))))
        y0 = E.int('y0', lo=0, conc=lambda r: int(r.integers(0, int(ny)))); y1 = E.int('y1', lo=0, conc=lambda r: int(r.integers(y0, int(ny))))
        E.req(E.both(x0 <= x1, x1 < nx, y0 <= y1, y1 < ny))
        return lambda ip: t.crop((x0, x1, y0, y1), in_units=False, inplace=ip)
    n = h.shape[0]
    x0 = E.int('x0', lo=0, conc=lambda r: int(r.integers(0, int(n)))); x1 = E.int('x1', lo=0, conc=lambda r: int(r.integers(x0, int(n))))
    E.req(E.both(x0 < x1, x1 < n))
    return lambda ip: t.crop((x0, x1), in_units=False, inplace=ip)

def setup_op(E, kind, name):
    """(topography, heights, steps, apply)"""
    full = name in FULL_ONLY
    if E.sym: E.e.opaque_slices = name in ('rotate', 'align')
    if kind == 'surface':
        lo = {'detrend': 2, 'level': 2, 'rotate': 6, 'align': 8, 'stepheight_level': 3, 'zoom': 2}.get(name, 1)
        if not E.sym and name in ('rotate', 'align'):
            n = E.int('n', lo=16, hi=40); m = E.int('m', lo=16, hi=40)
            h = E.array('h', [n, m]); sx, sy = steps(E); t = Surface(own(h), sx, sy)
        else: t, h, sx, sy = surface(E, ny=lo, nx=lo, nan=not full)
        st = (sx, sy)
    else:
        t, h, s = profile(E, nan=not full, n={'detrend': 4, 'level': 3, 'zoom': 2}.get(name, 1)); st = (s,)
    if not full and name not in ('crop', 'zoom'): E.req(h[~E.np.isnan(h)].size > 0)
    if name == 'stepheight_level' and not E.sym: E.req(E.np.max(h) - E.np.min(h) > 1e-3)
    if not E.sym and name in ('level', 'detrend'): E.req(np.isfinite(h).sum() > 3)
    ap = crop_op(E, t, h) if name == 'crop' else surface_ops(E, t, name)
    return t, h, st, ap

def step_of(t): return (t.step_x, t.step_y) if isinstance(t, Surface) else (t.step,)
def dims_of(t): return (t.width_um, t.height_um) if isinstance(t, Surface) else (t.length_um,)

def ens_dims(E, label, t):
    """physical dimensions agree with shape and step"""
    if isinstance(t, Surface):
        ny, nx = t.data.shape
        E.ens_eq(label + ' width', t.width_um, (nx - 1) * t.step_x)
        E.ens_eq(label + ' height', t.height_um, (ny - 1) * t.step_y)
        E.ens_eq(label + ' size.y', t.size.y, ny); E.ens_eq(label + ' size.x', t.size.x, nx)
        E.ens_eq(label + ' size[0]', t.size[0], ny); E.ens_eq(label + ' size[1]', t.size[1], nx)
    else:
        n = t.data.shape[0]
        E.ens_eq(label + ' length', t.length_um, (n - 1) * t.step)
        E.ens_eq(label + ' size', t.size, n)

# ---- heights of any magnitude: quantities homogeneous in the heights, scaled by powers of two (exact on binary floats, so
#      the comparison is tight where absolute tolerances of the other bounded runs would hide a constant in the code)
def magnitudes(E, kind, queries, h=None, nan=False, tol=1e-9, lo=6, hi=24, steps_too=False):
    """queries: name -> (function of the topography, degree in the heights); scaled heights scale the answer"""
    r = E.rng
    sh = [int(r.integers(lo, hi)) for _ in range(2 if kind == 'surface' else 1)]
    h = E.array('h', sh, values=h, nan=nan); E.req(np.isfinite(h).any())
    k = E.choose('binary exponent', [-60, -45, -33, -24, -17, -10, 10, 24, 40]); f = 2.0 ** k; g = f if steps_too else 1.0
    st = [float(r.choice(STEPS)) for _ in sh]
    mk = lambda d, c: Surface(d, st[0] * c, st[1] * c) if kind == 'surface' else Profile(d, st[0] * c)
    for name, (q, deg) in queries.items():
        def ask(t):
            try: return q(t)
            except (ValueError, IndexError, ZeroDivisionError) as ex: return type(ex).__name__
        import warnings
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore'); a, b = ask(mk(h.copy(), 1.0)), ask(mk(h * f, g))
        E.ens(name + ' answers alike', isinstance(a, str) == isinstance(b, str) and (not isinstance(a, str) or a == b), f'{a!r:.200} and, heights times 2**{k}, {b!r:.200}')
        if isinstance(a, str): continue
        if hasattr(a, 'data') and not isinstance(a, (np.ndarray, np.generic)): a, b = a.data, b.data
        a = np.asarray(a, float); b = np.asarray(b, float) / f ** deg
        with np.errstate(all='ignore'): sc = np.nanmax(np.abs(a[np.isfinite(a)]), initial=0)
        if not np.isfinite(sc): sc = 0
        ok = a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)) and bool(np.all((np.abs(a - b) <= tol * sc + tol * 1e-3 * (np.abs(h).max() ** deg)) | np.isnan(a) | (a == b)))
        E.ens(name, ok, f'{a!r:.200} but, heights times 2**{k}, {b!r:.200} times that to the {deg}')
MAGNITUDES = 'seeded height arrays of 6 to 24 points per axis times 2**-60 to 2**40'
def magnitude_contract(prop, functions, queries, kinds=('surface', 'profile'), **kw):
    from dv.contract import contract
    def f(E):
        kind = E.choose('kind', list(kinds)); magnitudes(E, kind, queries[kind], **kw)
    f.__doc__ = 'scaling the heights scales every value by its power of the factor, however small or large the heights: ' + ', '.join(queries[kinds[0]])
    contract(prop, 'heights of any magnitude', functions, sym=False, bounded=MAGNITUDES, samples=(60, 600))(f)

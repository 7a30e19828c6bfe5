from dv.contract import contract
from .common import *
from surfalize.fourier import FourierTransform
F = 'surfalize/fourier.py:FourierTransform.'
S = 'surfalize/surface.py:Surface.'

def fsurface(E, ny=2, nx=2):
    """fully measured surface with at least two rows and columns; bounded runs use textures"""
    if E.sym: return surface(E, ny=ny, nx=nx)
    n, m = E.int('ny', lo=2, hi=30), E.int('nx', lo=2, hi=30)
    def tex(r, sh):
        y, x = np.mgrid[:sh[0], :sh[1]]; k = r.integers(5)
        a = 2 * np.pi * (x * r.integers(-4, 5) / sh[1] + y * r.integers(-4, 5) / sh[0])
        if k == 0: return np.sin(a + r.normal())
        if k == 1: return np.sin(2 * np.pi * x * r.integers(1, 4) / sh[1]) + .01 * r.normal(size=sh)
        if k == 2: return np.sin(2 * np.pi * y * r.integers(1, 4) / sh[0]) + .01 * r.normal(size=sh) + 30
        if k == 3: return np.sin(2 * np.pi * (x * r.uniform(-.3, .3) + y * r.uniform(-.3, .3))) + .1 * r.normal(size=sh)
        return r.normal(size=sh)
    h = E.array('h', [n, m], values=tex); sx, sy = steps(E)
    return Surface(own(h), sx, sy), h, sx, sy

def amplitudes(E, h):
    """Fourier amplitudes of the mean-free heights, zero frequency at (ny//2, nx//2)"""
    return E.np.fft.fftshift(E.np.abs(E.np.fft.fft2(h - h.mean())))

def via(E): return E.sym or E.choose('via', [0, 1])     # the proved path goes through the Surface method into the transform

def freqs(E, h, sx, sy):
    """frequency of the entry (i, j) as (fx, fy)"""
    ny, nx = h.shape
    wx, wy = sx * (nx - 1), sy * (ny - 1)
    if E.sym:
        fx, fy = (E.np.fft.fftshift(E.np.fft.fftfreq(n, d=w / n)) for n, w in ((nx, wx), (ny, wy)))
        return lambda i, j: (E.at(fx, (j,)), E.at(fy, (i,)))
    return lambda i, j: ((j - nx // 2) / wx, (i - ny // 2) / wy)

def candidates(amp):
    """all ordered pairs of entries that may be called the two largest (ties within rounding)"""
    o = np.argsort(amp.ravel())[::-1]; a = amp.ravel(); tol = 1e-9 * a[o[0]] + 1e-12
    c2 = [k for k in o if a[k] >= a[o[1]] - tol]
    if len(c2) > 6 or a[o[0]] < 1e-9: return None
    c1 = [k for k in o if a[k] >= a[o[0]] - tol]
    return [(np.unravel_index(p, amp.shape), np.unravel_index(q, amp.shape)) for p in c1 for q in c2 if p != q]

def peak_pairs(E, h, sx, sy):
    """pairs of entries the specification allows as the two largest amplitudes; proved for the ghost pair"""
    amp = amplitudes(E, h)
    if E.sym:
        p, q = E.rank_positions(0, 1)
        for n, z in (('first', p), ('second', q)): E.lemma(f'{n} entry inside', E.both(z[0] >= 0, z[0] < h.shape[0], z[1] >= 0, z[1] < h.shape[1]))
        E.ens('two entries', E.neg(E.both(p[0] == q[0], p[1] == q[1])))
        E.ens('largest', E.forall(amp, lambda i, j: E.at(amp, (i, j)) <= E.at(amp, p)))
        E.ens('second largest', E.forall(amp, lambda i, j: E.either(E.both(i == p[0], j == p[1]), E.at(amp, (i, j)) <= E.at(amp, q))))
        return [(p, q)]
    c = candidates(amp)
    E.req(c is not None)
    return c

def one_of(E, label, ok, detail=None):
    """one of the allowed results"""
    if E.sym: E.ens(label, ok[0])
    else: E.ens(label, any(ok), detail)

def near(E, a, b):
    if E.sym: return a == b
    return a == b or abs(a - b) <= 1e-8 * max(abs(a), abs(b))

@contract('P22', 'period', [F + 'period', F + '_get_peak_dx_dy', S + 'period'])
def period(E):
    """twice the reciprocal distance between the two largest Fourier amplitudes of the mean-free heights"""
    s, h, sx, sy = fsurface(E)
    r = s.period() if via(E) else FourierTransform(s).period()
    f = freqs(E, h, sx, sy); ok = []
    for p, q in peak_pairs(E, h, sx, sy):
        (ax, ay), (bx, by) = f(*p), f(*q)
        ok.append(near(E, r, 2 / E.np.hypot(ax - bx, ay - by)))
    one_of(E, 'period', ok, r)

@contract('P22', 'period x y', [F + 'period_x_y', F + '_get_peak_dx_dy', S + 'period_x_y'], timeout=110)
def period_xy(E):
    """the distance components per axis, infinite where the component is zero"""
    s, h, sx, sy = fsurface(E)
    px, py = s.period_x_y() if via(E) else FourierTransform(s).period_x_y()
    f = freqs(E, h, sx, sy); ok = []
    for p, q in peak_pairs(E, h, sx, sy):
        (ax, ay), (bx, by) = f(*p), f(*q)
        dx, dy = abs(ax - bx), abs(ay - by)
        if E.sym:
            E.nonzero(h.shape[0] - 1); E.nonzero(h.shape[1] - 1)
            for n, r, d, i in (('x', px, dx, 1), ('y', py, dy, 0)):
                if isinstance(r, float): E.ens(f'infinite {n} period', r == np.inf); E.ens(f'no {n} component', p[i] == q[i])
                else: E.ens(f'{n} component', E.neg(p[i] == q[i])); E.ens_eq(f'{n} period', r, 2 / d)
        else: ok.append(near(E, px, 2 / dx if dx else np.inf) and near(E, py, 2 / dy if dy else np.inf))
    if not E.sym: one_of(E, 'periods', ok, (px, py))

@contract('P22', 'orientation', [F + 'orientation', F + '_get_peak_dx_dy', S + 'orientation'], timeout=110)
def orientation(E):
    """arctangent of the ratio of the components in degrees; 90 without an x component, else 0 without a y component"""
    s, h, sx, sy = fsurface(E)
    r = s.orientation('fft') if via(E) else FourierTransform(s).orientation()
    f = freqs(E, h, sx, sy); ok = []
    for p, q in peak_pairs(E, h, sx, sy):
        (ax, ay), (bx, by) = f(*p), f(*q)
        if E.cond(p[1] == q[1]): ok.append(near(E, r, 90))
        elif E.cond(p[0] == q[0]): ok.append(near(E, r, 0))
        else:
            # signs: rows run downwards, so a positive angle turns the texture counter-clockwise
            t = -(ay - by) / (ax - bx)
            if E.sym: E.nonzero(p[1] - q[1]); E.nonzero(h.shape[0] - 1); E.nonzero(h.shape[1] - 1); ok.append(r == E.np.rad2deg(E.np.arctan(t)))
            else: ok.append(near(E, r, np.rad2deg(np.arctan(t))))
    one_of(E, 'angle', ok, r)

@contract('P22', 'dominant wavelength', [F + 'dominant_wavelength', S + 'Ssw'])
def dominant(E):
    """reciprocal radial frequency of the largest amplitude, infinite at zero frequency"""
    s, h, sx, sy = fsurface(E)
    r = s.Ssw() if via(E) else FourierTransform(s).dominant_wavelength()
    amp = amplitudes(E, h); f = freqs(E, h, sx, sy)
    if E.sym:
        p = E.extremum_positions()
        E.ens('largest', E.forall(amp, lambda i, j: E.at(amp, (i, j)) <= E.at(amp, p)))
        fx, fy = f(*p); rad = E.np.hypot(fx, fy)
        if isinstance(r, float): E.ens('infinite', r == np.inf); E.ens('zero frequency', rad == 0)
        else: E.ens('not at zero frequency', E.neg(rad == 0)); E.ens_eq('wavelength', r, 1 / rad)
    else:
        E.req(amp.max() > 1e-9)
        ok = []
        for i, j in np.argwhere(amp >= amp.max() * (1 - 1e-9)):
            fx, fy = f(i, j); rad = np.hypot(fx, fy); ok.append(near(E, r, 1 / rad if rad else np.inf))
        one_of(E, 'wavelength', ok, r)

def angle_bins(E, h, sx, sy, step, n):
    """bin of every (unshifted) frequency"""
    ny, nx = h.shape
    fy, fx = E.np.meshgrid(E.np.fft.fftfreq(ny, d=sy * (ny - 1) / ny), E.np.fft.fftfreq(nx, d=sx * (nx - 1) / nx), indexing='ij')
    return E.np.rad2deg(E.np.arctan2(fy, fx)) % 180.0

@contract('P22', 'angular power spectrum', [F + 'angular_power_spectrum', F + '_angular_spectrum'])
def aps(E):
    """every squared amplitude is counted in exactly the one bin [k*step, (k+1)*step) of [0, 180) its direction falls into"""
    s, h, sx, sy = fsurface(E)
    step = E.choose('step', [1, 0.5, 10, 45, 60, 180, 7, 50]) if E.choose('arg', [0, 1]) else 1
    ft = FourierTransform(s)
    a, sp = ft.angular_power_spectrum(angle_step=step) if step != 1 else ft.angular_power_spectrum()
    n = -(-180 // step)
    n = int(n)
    E.ens_shape('bins', a, [n]); E.ens_shape('power', sp, [n])
    if E.sym and isinstance(a, np.ndarray): E.ens('start of the bins', bool((a == np.arange(n) * step).all()))
    else:
      for k, in E.each(a): E.ens_eq('start of the bin', E.at(a, (k,)), k * step)
    power = E.np.abs(E.np.fft.fft2(h - h.mean())) ** 2
    th = angle_bins(E, h, sx, sy, step, n)
    if E.sym:
        for k, in E.each(sp):
            E.ens_eq('power of the bin', E.at(sp, (k,)), E.sum(h.shape, lambda i, j: E.ite(E.both(k * step <= E.at(th, (i, j)), E.at(th, (i, j)) < (k + 1) * step), E.at(power, (i, j)), 0)))
    else:
        b = np.minimum((th / step).astype(int), n - 1)
        ref = np.zeros(n)
        for i, j in np.ndindex(*h.shape): ref[b[i, j]] += power[i, j]
        E.ens_arr('power of the bin', sp, ref)
        E.ens_eq('total power', sp.sum(), power.sum())

@contract('P22', 'Std', [F + 'Std', S + 'Std'])
def std(E):
    """angle of the largest bin of the angular power spectrum of the requested width"""
    s, h, sx, sy = fsurface(E)
    step = E.choose('step', [None, 1, 10, 45, 60, 7] if not E.sym else [None, 1, 5])
    kw = {} if step is None else dict(angle_step=step)
    r = s.Std(**kw) if via(E) else FourierTransform(s).Std(**kw)
    a, sp = FourierTransform(Surface(own(h), sx, sy)).angular_power_spectrum(step or 0.5)
    if E.sym:
        k = E.extremum_position()
        E.ens_eq('angle', r, E.at(a, (k,)))
        E.ens('largest bin', E.forall(sp, lambda i: E.at(sp, (i,)) <= E.at(sp, (k,))))
    else:
        E.req(sp.max() > 1e-9)
        one_of(E, 'angle', [near(E, r, x) for x in a[sp >= sp.max() * (1 - 1e-9)]], r)

@contract('P22', 'height offset', [F + 'period', F + 'orientation', F + 'period_x_y', F + 'dominant_wavelength', F + 'Std', F + 'angular_power_spectrum'], timeout=110)
def offset(E):
    """adding a constant height changes none of the results"""
    s, h, sx, sy = fsurface(E)
    c = E.real('c', conc=[.5, -3, 20])
    t = Surface(h + c, sx, sy)
    what = E.choose('what', ['period', 'period_x_y', 'orientation', 'dominant_wavelength', 'Std', 'angular_power_spectrum'])
    if not E.sym:
        E.req(len({frozenset(map(tuple, np.array(c).tolist())) for c in candidates(amplitudes(E, h)) or ()}) == 1)      # no tie between different pairs of peaks
        E.req(what != 'Std')
    a, b = getattr(FourierTransform(s), what)(), getattr(FourierTransform(t), what)()
    if not isinstance(a, tuple): a, b = (a,), (b,)
    for k, (x, y) in enumerate(zip(a, b)): E.ens_eq(f'{what}[{k}]', x, y, tol=1e-5, atol=1e-6)

@contract('P22', 'missing points refused', [F + '__init__'])
def refused(E):
    """no spectrum of a surface with missing points"""
    s, h, sx, sy = surface(E, nan=True)
    E.req(E.has_nan(h))
    E.raises('refused', ValueError, FourierTransform, s)

_q = {n: (lambda t, n=n: getattr(FourierTransform(t), n)(), 0) for n in ('period', 'period_x_y', 'orientation', 'dominant_wavelength', 'Std')}
_q['angular power'] = (lambda t: FourierTransform(t).angular_power_spectrum()[1], 2)
magnitude_contract('P22', [F + n for n in ('_get_peak_dx_dy', 'period', 'orientation', 'dominant_wavelength', '_angular_spectrum')], dict(surface=_q), kinds=('surface',))

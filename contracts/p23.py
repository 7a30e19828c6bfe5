from dv.contract import contract
from .common import *
import surfalize.mathutils as mu
M = 'surfalize/mathutils.py:'
S = 'surfalize/surface.py:Surface.'

def steps_surface(E, small=False):
    """non-constant, fully measured surface: (surface, heights, step_x, step_y, threshold)"""
    s, h, sx, sy = surface(E, ny=2 if not small else 3, nx=2 if not small else 3)
    if not E.sym and E.int('two_level', lo=0, hi=1):
        m = E.array('mask', list(h.shape), kind='b')
        h = np.where(m, h + abs(h).max() * 4 + 5, h); s = Surface(own(h), sx, sy)
    thr = mu.otsu_threshold(h)
    up, lo = h > thr, ~(h > thr)
    E.req(E.both(h[up].size >= 1, h[lo].size >= 1))
    return s, h, sx, sy, thr, up, lo

def no_flip(E, h, thr, up, lo):
    """lemma: the mean of the points above the threshold is not below the mean of the others"""
    if not E.sym: return
    n, m = h[up].size, h[lo].size
    E.lemma_sum_le('upper points above the threshold', E.np.full(h.shape, thr)[up], h[up])
    E.lemma_sum_le('lower points at most the threshold', h[lo], E.np.full(h.shape, thr)[lo])
    E.lemma('upper mean', h[up].mean() >= thr); E.lemma('lower mean', h[lo].mean() <= thr)

@contract('P23', 'step height', [S + 'stepheight', S + '_stepheight_get_mask', S + '_stepheight_get_upper_lower_median'])
def stepheight(E):
    """median of the points above the threshold minus median of the others"""
    s, h, sx, sy, thr, up, lo = steps_surface(E)
    no_flip(E, h, thr, up, lo)
    E.ens_eq('step height', s.stepheight(), E.np.median(h[up]) - E.np.median(h[lo]))

@contract('P23', 'cavity volume', [S + 'cavity_volume'])
def cavity(E):
    """summed depth below the upper median times the area per point over all points deeper than the fraction of the step"""
    s, h, sx, sy, thr, up, lo = steps_surface(E)
    no_flip(E, h, thr, up, lo)
    if E.choose('arg', [0, 1]): f = E.real('threshold', conc=[0, .1, .25, .5, .75, .9, 1]); v = s.cavity_volume(f) if E.choose('kw', [0, 1]) else s.cavity_volume(threshold=f)
    else: f = 0.5; v = s.cavity_volume()
    mu_, ml = E.np.median(h[up]), E.np.median(h[lo])
    deep = h < mu_ - f * (mu_ - ml)
    E.ens_eq('volume', v, E.np.sum((mu_ - h)[deep]) * (sx * sy))

@contract('P23', 'otsu threshold', [M + 'otsu_threshold'])
def otsu(E):
    """the threshold is a class centre at which the between-class variance is not smaller than at any other class"""
    nb = E.choose('nbins', [None, 64, 29] if E.sym else [None, 64, 29, 5, 2])
    d = E.choose('dim', [1, 2])
    h = heights(E, nan=False) if d == 2 else E.array('v', [('n', 1)])
    t = mu.otsu_threshold(h) if nb is None else mu.otsu_threshold(h, nb)
    nb = nb or 256
    v = h.ravel()
    c, edges = E.np.histogram(v[E.np.isfinite(v)], bins=nb)
    cr = c[::-1]; mid = (edges[:-1] + edges[1:]) / 2; mr = mid[::-1]
    n = nb - 1
    def V(k):
        """between-class variance of classes 0..k and k+1..nb-1"""
        if E.sym:
            w1 = E.sum([k + 1], lambda i: E.at(c, (i,))); w2 = E.sum([n - k], lambda i: E.at(cr, (i,)))
            s1 = E.sum([k + 1], lambda i: E.at(c, (i,)) * E.at(mid, (i,))); s2 = E.sum([n - k], lambda i: E.at(cr, (i,)) * E.at(mr, (i,)))
        else: w1, w2, s1, s2 = c[:k + 1].sum(), c[k + 1:].sum(), (c * mid)[:k + 1].sum(), (c * mid)[k + 1:].sum()
        if not E.sym and (w1 == 0 or w2 == 0): return 0
        return w1 * w2 * (s1 / w1 - s2 / w2) ** 2
    if E.sym:
        k = E.extremum_position()
        E.ens('a class', E.both(k >= 0, k < n)); E.ens_eq('centre of the class', t, E.at(mid, (k,)))
        j, = E.arbitrary(mid[:-1])
        E.ens('no other class has a larger between-class variance', V(j) <= V(k))
    else:
        if (h == h.flat[0]).all(): raise Discard_()
        k = int(np.argmin(np.abs(mid - t))); vs = [V(j) for j in range(n)]
        E.ens_eq('centre of a class', t, mid[k]); E.ens('a proper class', k < n)
        E.ens('no other class has a larger between-class variance', max(vs) <= vs[k] * (1 + 1e-9) + 1e-12, (k, vs[k], max(vs)))

def Discard_():
    from dv.env import Discard
    return Discard()

@contract('P23', 'step height levelling', [S + 'stepheight_level', S + '_stepheight_get_mask'])
def sh_level(E):
    """subtracts the zero-mean least-squares plane fitted to the upper points only"""
    s, h, sx, sy, thr, up, lo = steps_surface(E, True)
    no_flip(E, h, thr, up, lo)
    ny, nx = h.shape
    if E.sym: E.nonzero(h[up].size); E.nonzero(ny); E.nonzero(nx)
    ip = E.choose('inplace', [False, True])
    r = s.stepheight_level(inplace=ip)
    r = r.data if r is not s else s.data
    E.ens_shape('size', r, h.shape)
    tr = h - r
    if E.sym:
        E.ens_polynomial('plane', tr, 1)
        E.ens_eq('zero mean', E.np.sum(tr), 0)
        k = E.np.mean(r[up])
        y, x = E.np.meshgrid(E.np.arange(ny), E.np.arange(nx), indexing='ij')
        d = r[up] - k
        E.ens_zero_lsq('upper residual against x', E.np.sum(d * x[up])); E.ens_zero_lsq('upper residual against y', E.np.sum(d * y[up]))
    else:
        y, x = np.mgrid[:ny, :nx]
        sc = abs(h).max() + 1
        A = np.column_stack([x.ravel(), y.ravel(), np.ones(x.size)])
        co = np.linalg.lstsq(A, tr.ravel(), rcond=None)[0]
        E.ens_arr('plane', A @ co, tr.ravel(), atol=1e-8 * sc); E.ens_eq('zero mean', tr.mean(), 0, atol=1e-9 * sc)
        d = r[up] - r[up].mean()
        E.ens_eq('upper residual against x', (d * x[up]).sum(), 0, atol=1e-8 * sc * x.size * nx); E.ens_eq('upper residual against y', (d * y[up]).sum(), 0, atol=1e-8 * sc * x.size * ny)

class Sub(Surface): pass

@contract('P23', 'aspect ratio', [S + 'aspect_ratio'])
def aspect(E):
    """the (mean) depth over the period; the depth and the period by their own contracts"""
    s, h, sx, sy = surface(E)
    d, sd, p = E.real('depth', lo=0), E.real('std', lo=0), E.real('period', gt=0)
    t = Sub(h.copy(), sx, sy)
    t.depth = lambda *a, **k: (d, sd); t.period = lambda: p
    E.ens_eq('aspect ratio', t.aspect_ratio(), d / p)

@contract('P23', 'homogeneity refused', [S + 'homogeneity'])
def hom_bad(E):
    """parameters that may be signed or need several periods are refused"""
    s, h, sx, sy = surface(E)
    bad = E.choose('bad', ['Ssk', 'depth', 'homogeneity', 'orientation', 'aspect_ratio', 'period'])
    ps = E.choose('list', [(bad,), ('Sa', bad), (bad, 'Sku'), ['Sq', bad, 'Sdr']])
    E.raises('refused', ValueError, s.homogeneity, ps, E.real('period', gt=1))

def gini_ref(v):
    """Gini coefficient as half the relative mean absolute difference"""
    n = len(v)
    return abs(v[:, None] - v[None, :]).sum() / (2 * n * n * v.mean())

@contract('P23', 'homogeneity', [S + 'homogeneity'], sym=False, samples=(60, 600), bounded='surfaces up to 40 x 40 points, cells of 3 to 12 points')
def hom(E):
    """mean over the parameters of one minus the Gini coefficient over all complete square cells one period wide"""
    ny, nx = E.int('ny', lo=12, hi=40), E.int('nx', lo=12, hi=40)
    h = E.array('h', [ny, nx], values=lambda r, sh: r.normal(0, 1, sh) * r.uniform(.2, 3) + (np.linspace(0, 1, sh[1])[None] * r.normal() * 3) ** 2)
    sx, sy = steps(E)
    if E.choose('square', [0, 1, 1]): sy = sx
    s = Surface(own(h), sx, sy)
    p = E.real('period', conc=lambda r: float(r.uniform(3, 6) * max(sx, sy)))
    ps = E.choose('parameters', [None, ('Sa',), ('Sq', 'Sz'), ('Sdr', 'Sdq', 'Sku'), ('Sp',), ['Sa', 'Sv']])
    cx, cy = int(p / sx), int(p / sy)
    E.req(cx >= 3 and cy >= 3 and cx <= nx and cy <= ny)
    how = E.choose('how', ['given', 'own'])
    kw = {} if ps is None else dict(parameters=ps)
    if how == 'given': v = s.homogeneity(period=p, **kw)
    else:
        s = Sub(h.copy(), sx, sy); s.period = lambda: p; v = s.homogeneity(**kw)
    ps = ps or ('Sa', 'Sku', 'Sdr')
    gs = []
    for q in ps:
        vals = np.array([getattr(Surface(h[i * cy:(i + 1) * cy, j * cx:(j + 1) * cx], sx, sy), q)() for i in range(ny // cy) for j in range(nx // cx)]).round(8)
        gs.append(1 - gini_ref(vals))
    E.ens_eq('homogeneity', v, np.mean(gs), atol=6e-5)

ask = lambda n, *a, **k: (lambda t: getattr(t, n)(*a, **k))
_q = {'stepheight': (ask('stepheight'), 1), 'cavity_volume': (ask('cavity_volume'), 1), 'stepheight_level': (ask('stepheight_level'), 1)}
magnitude_contract('P23', [S + n for n in ('stepheight', 'cavity_volume', 'stepheight_level')], dict(surface=_q), kinds=('surface',), h=lambda r, sh: np.where(np.arange(sh[1]) < r.integers(2, sh[1] - 1), 0.0, 5.0) + r.normal(size=sh) * .2)

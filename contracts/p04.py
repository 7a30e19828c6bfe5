from dv.contract import contract
from .common import *
from surfalize.abbottfirestone import AbbottFirestoneCurve
from surfalize import mathutils
F = 'surfalize/abbottfirestone.py:AbbottFirestoneCurve.'
S = 'surfalize/surface.py:Surface.'
WIDTH = 40

def data(E, name='h'):
    """heights with plateaus, outliers, skewness and few levels in the bounded runs"""
    if E.sym: return heights(E, name)
    n, m = E.int(name + '_ny', lo=1, hi=40), E.int(name + '_nx', lo=1, hi=40)
    def val(r, sh):
        k = r.integers(8)
        if k == 0: return r.normal(size=sh)
        if k == 1: return r.integers(0, r.integers(2, 6), size=sh).astype(float)
        if k == 2: return np.minimum(r.normal(size=sh), r.uniform(-1, 1))
        if k == 3: return r.random(sh) ** 3 * r.choice([-1, 1]) + r.choice([0, 1e3])
        if k == 7: # two plateaus, each wider than the window
            v = np.sort(r.uniform(-2, 2, int(np.prod(sh)))); a = v.size * 45 // 100; v[:a] = v[0] - .5; v[v.size - a:] = v[-1] + .25; return r.permutation(v).reshape(sh)
        if k == 4: return np.full(sh, r.normal())
        if k == 5: return np.where(r.random(sh) < .05, 50., r.normal(size=sh))
        return np.sort(r.normal(size=sh).ravel()).reshape(sh)
    return E.array(name, [n, m], values=val)

def curve(E, nbins=None, kind=None):
    """(curve object, heights, number of samples)"""
    kind = kind or ('surface' if E.sym else E.choose('kind', ['surface', 'profile']))
    if nbins is None: nbins = E.int('nbins', lo=4, conc=lambda r: int(r.choice([4, 5, 7, 12, 50, 51, 98, 300])))
    if kind == 'profile':
        h = E.array('h', [('h_n', 1)]) if E.sym else data(E).ravel()
        t = Profile(own(h), 1., 1. * (size1(E, h) - 1))
    else:
        h = data(E); t = Surface(own(h), 1., 1.)
    return t, h, nbins

def spec(E, h, N):
    """(material ratios, heights of the curve): the height quantiles at N evenly spaced ratios"""
    mr = E.np.linspace(0, 100, N)
    return mr, E.np.quantile(h, 1 - mr / 100)

def conc_quantiles(h, N):
    s = np.sort(np.asarray(h).ravel()); p = (1 - np.arange(N) / (N - 1)) * (s.size - 1)
    lo = np.clip(np.floor(p + 1e-12).astype(int), 0, s.size - 1); hi = np.minimum(lo + 1, s.size - 1)
    return s[lo] + (p - lo) * (s[hi] - s[lo])

def secant(E, mr, H, k):
    return (E.np.interp(E.at(mr, (k,)) + WIDTH, mr, H) - E.at(H, (k,))) / WIDTH

def invariant(E, mr, H, N, sec):
    """the flattest window so far, among all starts below 60 %"""
    def inv(V):
        i, f, m = V['istart'], V['istart_final'], V['slope_min']
        for k in (0, i, i - 1, f): sec.define(k)
        return [('position', E.both(i >= 1, i <= N, f >= 0, f < i)), ('starts so far', E.forall_int(0, i, lambda k: E.at(mr, (k,)) <= 100 - WIDTH)),
                ('secant of the chosen start', m == sec(f)), ('no flatter window', E.forall_int(0, i, lambda k: sec(k) <= m)),
                ('first of the flattest', E.forall_int(0, f, lambda k: sec(k) < m))]
    return inv

def build(E, t, h, N, make, core=True):
    """construct the curve under the loop contract: (curve, window start or None); core: the core line is asked for"""
    if not E.sym: return make(), None
    mr, H = spec(E, h, N)
    if not core:
        def inv(V):
            i, f = V['istart'], V['istart_final']; E.index(i); E.index(i - 1)
            return [('position', E.both(i >= 1, i <= N, f >= 0, f < i)), ('last start', E.at(mr, (i - 1,)) <= 100 - WIDTH)]
        with E.loop(AbbottFirestoneCurve, '_calculate_curve', inv): c = make()
        return c, None
    sec = E.ghost('secant', lambda k: secant(E, mr, H, k))
    with E.loop(AbbottFirestoneCurve, '_calculate_curve', invariant(E, mr, H, N, sec)) as L: c = make()
    return c, dict(L.fresh, sec=sec)

def core_line(E, h, N, L):
    """allowed (slope, intercept) of the least-squares line in the first flattest window"""
    if E.sym:
        mr, H = spec(E, h, N); f = L['istart_final']; end = L['istart']; sec = L['sec']
        # ghost state of the loop: f is the first start of the largest secant among all starts up to 60 %
        E.ens('only starts up to 60 %', E.forall_int(0, end, lambda k: E.at(mr, (k,)) <= 100 - WIDTH))
        E.ens('all starts up to 60 %', E.at(mr, (end,)) > 100 - WIDTH)          # the ratios ascend ('sampled curve')
        E.ens('flattest window', E.forall_int(0, end, lambda k: sec(k) <= sec(f)))
        E.ens('first flattest window', E.forall_int(0, f, lambda k: sec(k) < sec(f)))
        last = E.np.searchsorted(mr, E.at(mr, (f,)) + WIDTH, side='right')
        a, b = E.np.polyfit(mr[f:last], H[f:last], 1)
        return [(a, b)]
    mr = np.linspace(0, 100, N); H = conc_quantiles(h, N)
    starts = np.flatnonzero(mr <= 60 + 1e-9)
    sec = (np.interp(mr[starts] + WIDTH, mr, H) - H[starts]) / WIDTH
    tol = 1e-9 * (1 + np.abs(H).max())
    out = []
    cand = starts[sec >= sec.max() - tol][:400]
    if (sec == 0).any(): cand = [k for k in cand if k <= starts[sec == 0][0] + 1]      # exactly flat: the first window
    for k in cand:
        w = (mr >= mr[k] - 1e-9) & (mr <= mr[k] + WIDTH + 1e-9)
        x, y = mr[w], H[w]; xm, ym = x.mean(), y.mean()
        a = ((x - xm) * (y - ym)).sum() / ((x - xm) ** 2).sum()
        out.append((a, ym - a * xm))
    return out

def close(a, b, h):
    s = 1e-6 * (np.abs(h).max() + 1e-9)
    return abs(a - b) <= s

def crossing(E, mr, H, N, c, r):
    """r is a ratio at which the curve crosses height c (0 above, 100 below the curve)"""
    if E.sym:
        if E.cond(c >= E.at(H, (0,))): return r == 0
        if E.cond(c < E.at(H, (N - 1,))): return r == 100
        k = N - 2 - E.interval(); E.index(k, ); E.index(k + 1)
        a, b, x, y = E.at(H, (k,)), E.at(H, (k + 1,)), E.at(mr, (k,)), E.at(mr, (k + 1,))
        E.lemma('interval', E.both(k >= 0, k <= N - 2, b <= c, c < a))
        E.lemma('ratios of the interval', E.both(0 <= x, x <= y, y <= 100))
        E.nonzero(a - b); E.nonzero(N - 1)
        return r == y + (c - b) * (x - y) / (a - b)
    i = np.flatnonzero((H[1:] <= c + 1e-9 * (1 + abs(c))) & (c <= H[:-1] + 1e-9 * (1 + abs(c))))
    tol = 1e-6
    if c >= H[0] - 1e-9 * (1 + abs(c)) and r <= tol + 100 * (H >= c - 1e-8 * (1 + abs(c))).mean() + 100 / (N - 1): return True
    if c <= H[-1] + 1e-9 * (1 + abs(c)) and r >= 100 - tol - 100 * (H <= c + 1e-8 * (1 + abs(c))).mean() - 100 / (N - 1): return True
    for k in i:
        if mr[k] - tol <= r <= mr[k + 1] + tol:
            v = H[k] + (H[k + 1] - H[k]) * (r - mr[k]) / (mr[k + 1] - mr[k])
            if abs(v - c) <= 1e-6 * (1 + abs(c)): return True
    return False

@contract('P04', 'sampled curve', [F + '_get_material_ratio_curve', F + '__init__'], timeout=100)
def sampled(E):
    """height quantiles at evenly spaced ratios, from the maximum at 0 % to the minimum at 100 %, never increasing"""
    t, h, N = curve(E, kind=E.choose('kind', ['surface', 'profile']))
    c, _ = build(E, t, h, N, lambda: AbbottFirestoneCurve(t, nbins=N))
    H, mr = c._get_material_ratio_curve()
    if E.sym: E.ens('the samples are kept', c._height is H and c._material_ratio is mr or E.forall(H, lambda i: E.both(E.at(H, (i,)) == E.at(c._height, (i,)), E.at(mr, (i,)) == E.at(c._material_ratio, (i,)))))
    E.ens_shape('heights', H, [N]); E.ens_shape('ratios', mr, [N])
    for k, in E.each(mr):
        E.ens_eq('evenly spaced ratio', E.at(mr, (k,)), 100 * k / (N - 1), atol=1e-9)
        if E.sym: E.ens_eq('height quantile', E.at(H, (k,)), E.np.quantile(h, 1 - k / (N - 1)))
    if not E.sym: E.ens_arr('height quantile', H, conc_quantiles(h, N), atol=1e-9)
    E.ens_eq('maximum at 0 %', E.at(H, (0,)), E.np.max(h)); E.ens_eq('minimum at 100 %', E.at(H, (N - 1,)), E.np.min(h))
    if E.sym:
        for k in E.each_int('k', 0, N - 1):
            E.index(k + 1)
            E.nonzero(N - 1); i = 1 / (N - 1)
            E.lemma('step', i > 0); E.lemma('unit', N * i - i == 1); E.lemma('below 1', (N - 2 - k) * i >= 0); E.lemma('above 0', k * i >= 0)
            E.lemma('last ratio', (k + 1) * i <= 1)
            E.lemma('ratios ascend', E.both(0 <= 1 - (k + 1) / (N - 1), 1 - (k + 1) / (N - 1) <= 1 - k / (N - 1), 1 - k / (N - 1) <= 1))
            E.ens('never increases', E.at(H, (k + 1,)) <= E.at(H, (k,)))
    else: E.ens('never increases', bool((np.diff(H) <= 1e-12 * np.abs(H[1:])).all()))

@contract('P04', 'Smc', [F + 'mc', 'surfalize/mathutils.py:interp1d'], timeout=80)
def smc(E):
    """linear interpolation of the sampled curve"""
    t, h, N = curve(E)
    p = E.real('p', lo=0, hi=100, conc=[0, 100, 2.5, 10, 50, 80, 99.9, 33.3])
    c, _ = build(E, t, h, N, lambda: AbbottFirestoneCurve(t, nbins=N))
    r = c.mc(p)
    if E.sym:
        mr, H = spec(E, h, N)
        if E.cond(p == 100): E.ens_eq('last sample', r, E.at(H, (N - 1,))); return
        k = E.interval()
        x, y = E.at(mr, (k,)), E.at(mr, (k + 1,))
        E.ens('neighbouring samples', E.both(k >= 0, k <= N - 2, x <= p, p < y))
        E.nonzero(N - 1)
        E.ens_eq('between the neighbouring samples', r, E.at(H, (k,)) + (p - x) / (100 / (N - 1)) * (E.at(H, (k + 1,)) - E.at(H, (k,))))
    else: E.ens_eq('interpolated height', r, np.interp(p, np.linspace(0, 100, N), conc_quantiles(h, N)), atol=1e-9)

@contract('P04', 'Smc never rises', [F + 'mc', 'surfalize/mathutils.py:interp1d'], timeout=100)
def smc_order(E):
    """a larger ratio never has a greater height"""
    t, h, N = curve(E)
    p = E.real('p', lo=0, hi=100, conc=[0, 2.5, 10, 50, 80, 33.3]); q = E.real('q', lo=0, hi=100, conc=[100, 10, 80, 50.1, 99.9, 90])
    E.req(p < q)
    c, _ = build(E, t, h, N, lambda: AbbottFirestoneCurve(t, nbins=N), core=False)
    x = c.mc(p)
    if not E.sym: E.ens('order', x >= c.mc(q) - 1e-9 * (1 + abs(x)), (x, c.mc(q))); return
    k = E.interval(); y = c.mc(q)
    mr, H = spec(E, h, N)
    m, v = (lambda i: E.at(mr, (i,))), (lambda i: E.at(H, (i,)))
    E.nonzero(N - 1)
    E.lemma('above the next sample', E.both(k >= 0, k <= N - 2, v(k + 1) <= x, x <= v(k)))
    if E.cond(q == 100): E.lemma('last', y == v(N - 1)); E.lemma('samples', v(N - 1) <= v(k + 1)); E.ens('order', y <= x); return
    j = E.interval()
    E.lemma('below the sample', E.both(j >= 0, j <= N - 2, v(j + 1) <= y, y <= v(j)))
    if E.cond(j < k): E.ens('the other way round', E.neg(m(j + 1) <= m(k))); return
    if E.cond(j > k): E.lemma('samples', v(j) <= v(k + 1)); E.ens('order', y <= x); return
    d = (v(k + 1) - v(k)) * (N - 1) / 100
    E.lemma('same interval', j == k)
    E.lemma('steepness', d <= 0)
    E.lemma('first height', x == v(k) + (p - m(k)) * d); E.lemma('second height', y == v(k) + (q - m(k)) * d)
    E.lemma('drop', (q - p) * d <= 0)
    E.ens('order in one interval', y <= x)

@contract('P04', 'Smr', [F + 'mr', F + '_calculate_curve'], timeout=100)
def smr(E):
    """ratio at which the curve crosses the height, between 0 and 100"""
    t, h, N = curve(E)
    x = E.real('c', conc=lambda r: float(r.normal() * r.choice([1, 3, 30])))
    if not E.sym and E.choose('at', [0, 1]): x = float(np.quantile(h, [.3])[0] + E.choose('off', [0, .25, -.5]))
    c, _ = build(E, t, h, N, lambda: AbbottFirestoneCurve(t, nbins=N))
    r = c.mr(x)
    mr, H = spec(E, h, N) if E.sym else (np.linspace(0, 100, N), conc_quantiles(h, N))
    E.ens('crossing', crossing(E, mr, H, N, x, r), (x, r))
    E.ens('between 0 and 100', E.both(r >= 0, r <= 100), r)

@contract('P04', 'core line', [F + '_calculate_curve', F + 'k', F + 'mr1', F + 'mr2'], timeout=100)
def line(E):
    """least-squares line through the first 40 % window with the flattest secant; Sk its drop, Smr1 / Smr2 the crossings of its ends"""
    t, h, N = curve(E)
    c, L = build(E, t, h, N, lambda: AbbottFirestoneCurve(t, nbins=N))
    sk = c.k()
    mr, H = spec(E, h, N) if E.sym else (np.linspace(0, 100, N), conc_quantiles(h, N))
    if E.sym:
        (a, b), = core_line(E, h, N, L)
        E.ens_eq('Sk', sk, b - (100 * a + b))
        E.ens_eq('Smr1', c.mr1(), c.mr(b))          # what mr returns is the contract 'Smr'
        E.ens_eq('Smr2', c.mr2(), c.mr(100 * a + b))
    else:
        m1, m2 = c.mr1(), c.mr2()
        E.ens('Sk', any(close(sk, -100 * a, h) for a, b in core_line(E, h, N, L)), sk)
        E.ens('Smr1', any(close(sk, -100 * a, h) and crossing(E, mr, H, N, c._yupper, m1) and close(c._yupper, b, h) for a, b in core_line(E, h, N, L)), m1)
        E.ens('Smr2', any(close(sk, -100 * a, h) and crossing(E, mr, H, N, c._ylower, m2) and close(c._ylower, 100 * a + b, h) for a, b in core_line(E, h, N, L)), m2)

def small_curve(t):
    if 'curve301' not in t.__dict__: t.curve301 = AbbottFirestoneCurve(t, nbins=301)
    return t.curve301
ask = lambda n, *a, **k: (lambda t: getattr(small_curve(t), n)(*a, **k))
_q = {'k': (ask('k'), 1), 'mr1': (ask('mr1'), 0), 'mr2': (ask('mr2'), 0), 'mc(37)': (ask('mc', 37), 1), 'mr(mean)': (lambda t: small_curve(t).mr(t.data.mean()), 0), 'upper': (lambda t: small_curve(t)._yupper, 1)}
magnitude_contract('P04', [F + '_calculate_curve', F + 'k', F + 'mr', F + 'mc'], dict(surface=_q, profile=_q), lo=5, hi=40)

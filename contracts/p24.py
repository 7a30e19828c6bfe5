from dv.contract import contract
from .common import *
import surfalize.mathutils as mu
M = 'surfalize/mathutils.py:'

def vec(E, name='v', n=1):
    return E.array(name, [('n_' + name, n)])

@contract('P24', 'argclosest', [M + 'argclosest'])
def argc(E):
    """position at which no other entry is closer, the first such one"""
    v = vec(E); x = E.real('x', conc=lambda r: float(r.choice([r.normal(), r.integers(-3, 4), r.integers(-6, 7) / 2])))
    k = mu.argclosest(x, v)
    E.ens('inside', E.both(k >= 0, k < v.shape[0]))
    E.ens('no entry closer', E.forall(v, lambda i: abs(E.at(v, (k,)) - x) <= abs(E.at(v, (i,)) - x)))
    E.ens('first such entry', E.forall(v, lambda i: E.implies(i < k, abs(E.at(v, (k,)) - x) < abs(E.at(v, (i,)) - x))))

@contract('P24', 'closest', [M + 'closest'])
def clos(E):
    """an entry at minimal distance"""
    v = vec(E) if E.choose('dim', [1, 2]) == 1 else heights(E)
    x = E.real('x', conc=lambda r: float(r.choice([r.normal(), r.integers(-3, 4), r.integers(-6, 7) / 2])))
    c = mu.closest(x, v)
    E.ens('no entry closer', E.forall(v, lambda *i: abs(c - x) <= abs(E.at(v, i) - x)))
    if not E.sym: E.ens('an entry', bool((v == c).any()))

def data(E, n=1):
    x = vec(E, 'x', n); y = E.array('y', [x.shape[0] if E.sym else int(x.shape[0])])
    if not E.sym:
        x = np.random.default_rng(len(x)).permutation(np.cumsum(np.abs(x) % 3 + .25)) if not E.values_given else x
        x = E._put('x', x)
    E.req_all2(x, lambda i, j: E.either(i == j, E.neg(E.at(x, (i,)) == E.at(x, (j,)))))
    return x, y

@contract('P24', 'interp1d through the points', [M + 'interp1d'])
def through(E):
    """passes through every data point, whatever the input order (distinct abscissae)"""
    x, y = data(E)
    f = mu.interp1d(x, y)
    for i, in E.each(x):
        if E.sym: E.sorted_position(i)
        E.ens_eq('value at a data point', f(E.at(x, (i,))), E.at(y, (i,)))

@contract('P24', 'interp1d linear in between', [M + 'interp1d'])
def between(E):
    """between two neighbouring abscissae the interpolant is the straight line through both points"""
    x, y = data(E, 2)
    f = mu.interp1d(x, y)
    if E.sym:
        q = E.real('q')
        v = f(q)
        (i,), (j,) = E.arbitrary(x), E.arbitrary(x)
        (si, ei, en), (sj, ej, _) = E.sorted_position(i), E.sorted_position(j)
        a, b = E.at(x, (i,)), E.at(x, (j,))
        E.req(a < b)
        E.req_all(x, lambda m: E.neg(E.both(a < E.at(x, (m,)), E.at(x, (m,)) < b)))
        E.req(E.both(q >= a, q < b))
        E.lemma('neighbours', sj == si + 1)
        E.lemma_eq('interval', E.interval(), si)
        E.lemma_eq('entry at the position', ei, i); E.lemma_eq('entry at the next position', en, j)
        E.ens_eq('linear', v, E.at(y, (i,)) + (q - a) * ((E.at(y, (j,)) - E.at(y, (i,))) / (b - a)))
    else:
        o = np.argsort(x); t = E.real('t', lo=0, hi=1)
        for i, j in zip(o, o[1:]):
            q = x[i] + t * (x[j] - x[i])
            E.ens_eq('linear', f(q), y[i] + (q - x[i]) / (x[j] - x[i]) * (y[j] - y[i]))
        E.ens_arr('vectorised', f(np.sort(x)), y[o])

@contract('P24', 'interp1d sorted input', [M + 'interp1d'])
def presorted(E):
    """with sorted input declared as such the same interpolant results"""
    x, y = data(E)
    if not E.sym: x = np.sort(x)
    else: E.req_all2(x, lambda i, j: E.either(i >= j, E.at(x, (i,)) < E.at(x, (j,))))
    f = mu.interp1d(x, y, assume_sorted=True)
    for i, in E.each(x): E.ens_eq('value at a data point', f(E.at(x, (i,))), E.at(y, (i,)))

def sinusoid(E):
    a = E.real('a', lo=0, conc=[0, 1, .3, 5]); p = E.real('p', gt=0, conc=[1, 2.5, 17, .2, 3.3]); x0 = E.real('x0', conc=lambda r: float(r.choice([0, 1, -3, r.normal() * 20]))); y0 = E.real('y0')
    return a, p, x0, y0, mu.Sinusoid(a, p, x0, y0)

@contract('P24', 'first extremum', [M + 'Sinusoid.first_extremum', M + 'Sinusoid.__call__', M + '_sinusoid'])
def extr(E):
    """0 <= position < half a period, and the sinusoid takes an extreme value there"""
    a, p, x0, y0, s = sinusoid(E)
    r = s.first_extremum()
    tol = 0 if E.sym else 1e-9 * (p + abs(x0))
    E.ens('at or after zero', r >= -tol); E.ens('less than half a period', r < p / 2 + tol)
    d = (s(r) - y0)
    E.ens_eq('extreme value', d * d, a * a)

@contract('P24', 'first peak', [M + 'Sinusoid.first_peak', M + 'Sinusoid.__call__', M + '_sinusoid'])
def peak(E):
    """0 <= position < one period, and the sinusoid takes its maximum there"""
    a, p, x0, y0, s = sinusoid(E)
    r = s.first_peak()
    tol = 0 if E.sym else 1e-9 * (p + abs(x0))
    E.ens('at or after zero', r >= -tol); E.ens('less than a period', r < p + tol)
    E.ens_eq('maximum', s(r), y0 + a)

@contract('P24', 'from_fit', [M + 'Sinusoid.from_fit', M + '_sinusoid'], samples=(40, 400))
def fit(E):
    """reported with non-negative amplitude; the same curve as the raw fit; unsuccessful fits raise FittingError"""
    from surfalize.exceptions import FittingError
    if E.sym:
        x = vec(E, 'x', 4); y = E.array('y', [x.shape[0]])
        p0 = [E.real(f'p0_{k}') for k in range(4)]
    else:
        n = E.int('n', lo=20, hi=80); r = np.random.default_rng(E.int('seed', lo=0, hi=10**6)); x = np.arange(n, dtype=float)
        A, p, x0, y0 = r.choice([-1, 1]) * (.2 + r.random()), float(r.uniform(5, 15)), float(r.normal() * 3), float(r.normal())
        y = mu._sinusoid(x, A, p, x0, y0) + r.normal(0, .05, n)
        p0 = [A * r.choice([1, -1]), p * 1.02, x0, y0]
    try: raw = mu.curve_fit(mu._sinusoid, x, y, p0=p0)[0]
    except RuntimeError:
        E.raises('unsuccessful', FittingError, mu.Sinusoid.from_fit, x, y, p0=p0); return
    if E.sym: E.req(E.neg(raw[1] == 0)); E.e.path_nonzero(raw[1])
    s = mu.Sinusoid.from_fit(x, y, p0=p0)
    E.ens('amplitude', s.amplitude >= 0)
    q = E.real('q')
    E.ens_eq('same curve', s(q), mu._sinusoid(q, raw[0], raw[1], raw[2], raw[3]))
    E.ens_eq('period', s.period, raw[1]); E.ens_eq('offset', s.y0, raw[3])

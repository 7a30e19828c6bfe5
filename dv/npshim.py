"""The numpy / scipy surface used by the repository, on symbolic values.

Every function here is an *assumed contract* on the dependency (the verifier does not check numpy's own code).
Anything not listed raises Unsupported when it meets a symbolic value and otherwise runs the real function."""
import builtins, inspect, math
from . import core
from .core import *
from .core import _np
from . import arr as A
from .arr import SArr, as_arr, bmap, umap, I_, has_sym, functional, fun_array
import z3

np = _np

def active(): return core.ENG is not None

class SMat:
    """matrix with an explicit list of (possibly selected) columns"""
    def __init__(self, cols): self.cols = cols
    @property
    def shape(self): return (self.cols[0].shape[0], len(self.cols))
    ndim = 2
    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2 and isinstance(key[0], slice) and key[0] == slice(None) and isinstance(key[1], int):
            return self.cols[key[1]]
        if isinstance(key, SArr): return SMat([c[key] for c in self.cols])
        raise Unsupported('indexing of a column matrix')
    @property
    def T(self): return SMatT(self)
    def __matmul__(self, v): return matvec(self, v)
    def dot(self, v): return matvec(self, v)
class SMatT:
    def __init__(self, m): self.m = m
    @property
    def T(self): return self.m

def recol(c, like):
    """constant column re-expressed over the domain of another column"""
    if c.isflat and not like.isflat: return recol_t(c, like)
    g = c.getter()
    e = eng()
    with e.binder(len(c.dims)) as bv:
        v = lift(g(bv))
        if mentions(v.t, {b.get_id() for b in bv}): raise Unsupported('column of another domain')
    if not A.same_dim(I_(c.shape[0]), I_(like.shape[0])) if like.guard is None else False:
        raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    if like.guard is not None:
        n, m = lift(c.shape[0]), lift(like.shape[0])
        if not e.branch(compare('==', toreal(n.t), toreal(m.t))): raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    return SArr.new(like.dims, lambda i: v, c.kind, guard=like.guard, flat=like.isflat)
def recol_t(c, like): raise Unsupported('column of another domain')

def matvec(m, v):
    v = as_arr(v)
    if numval(v.dims[0]) is None:
        if not A.same_dim(v.dims[0], z3.IntVal(len(m.cols))): raise ValueError('shapes not aligned')
    elif numval(v.dims[0]) != len(m.cols): raise ValueError('shapes not aligned')
    r = 0
    for k, c in enumerate(m.cols): r = c * v[k] + r
    return r

def column_stack(tup, **k):
    cols = []
    for a in tup:
        if isinstance(a, SMat): cols += a.cols
        else:
            a = as_arr(a)
            if a.nd() == 1: cols.append(a)
            else:
                n = numval(a.dims[1])
                if n is None: raise Unsupported('column_stack')
                cols += [a[:, j] for j in range(n)]
    sel = [c for c in cols if c.isflat]
    if sel:
        like = sel[0]
        cols = [c if c.isflat else recol(c, like) for c in cols]
    return SMat(cols)

def stack_any(tup, axis=0):
    tup = list(tup) if not isinstance(tup, SArr) else [x for x in tup]
    if axis == 0: return A.stack(tup)
    if axis in (1, -1) and all(as_arr(t).nd() == 1 for t in tup): return A.stack(tup).T if not any(as_arr(t).isflat for t in tup) else column_stack(tup)
    raise Unsupported('stack axis')

def concatenate(tup, axis=0):
    tup = [as_arr(t) for t in tup]
    if axis != 0 or any(t.isflat for t in tup): raise Unsupported('concatenate')
    n = len(tup[0].dims)
    gs = [t.getter() for t in tup]
    offs = [z3.IntVal(0)]
    for t in tup:
        for a, b in zip(t.dims[1:], tup[0].dims[1:]):
            if not A.same_dim(a, b): raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
        offs.append(arith('+', offs[-1], t.dims[0]))
    kd = 'f' if any(t.kind == 'f' for t in tup) else tup[0].kind
    def fn(i):
        r = gs[-1]((arith('-', i[0], offs[-2]),) + tuple(i[1:]))
        for k in range(len(tup) - 2, -1, -1):
            r = A.sel(compare('<', i[0], offs[k + 1]), gs[k]((arith('-', i[0], offs[k]),) + tuple(i[1:])), r)
        return r
    return SArr.new([offs[-1]] + list(tup[0].dims[1:]), fn, kd)

def shape_of(s):
    if isinstance(s, SArr): return [I_(x) for x in s]
    if isinstance(s, (tuple, list)): return [I_(x) for x in s]
    return [I_(s)]

def full(shape, v, dtype=None):
    v = v if isinstance(v, (SNum, SBool)) else (SBool(bool(v)) if A.isb(v) else lift(v))
    kd = A.kind_of(v)
    if dtype is not None:
        kd = {'u': 'i'}.get(_np.dtype(A.pytype(dtype)).kind, _np.dtype(A.pytype(dtype)).kind)
        if kd == 'f': v = SNum(toreal(lift(v).t), lift(v).nan)
        elif kd == 'i': v = A.trunc(v)
        elif kd == 'b': v = SBool(bterm(v))
        else: raise Unsupported('dtype')
    return SArr.new(shape_of(shape), lambda i: v, kd, dtype=A.pytype(dtype) if dtype is not None else None)

def zeros(shape, dtype=float, **k): return full(shape, 0, dtype or float)
def ones(shape, dtype=float, **k): return full(shape, 1, dtype or float)
def empty(shape, dtype=float, **k):
    u = eng().fresh('empty', R)
    return full(shape, SNum(u), dtype or float)
def like(a, v, dtype=None):
    a = as_arr(a)
    kd = a.kind if dtype is None else {'u': 'i'}.get(_np.dtype(A.pytype(dtype)).kind, _np.dtype(A.pytype(dtype)).kind)
    vv = {'f': SNum(realval(v)) if isinstance(v, int) else lift(v), 'i': lift(v), 'b': SBool(bool(v)) if isinstance(v, int) else v}[kd]
    return SArr.new(a.dims, lambda i: vv, kd, guard=a.guard, flat=a.isflat)

def arange(*a, dtype=None):
    if len(a) == 1: st, n, step = 0, a[0], 1
    elif len(a) == 2: st, n, step = a[0], a[1], 1
    else: st, n, step = a
    st, n, step = lift(st), lift(n), lift(step)
    e = eng()
    if st.isint and n.isint and step.isint:
        sv = numval(step.t)
        if sv is None or sv <= 0: raise Unsupported('arange step')
        ln = A.ceildiv(arith('-', n.t, st.t), sv) if sv != 1 else arith('-', n.t, st.t)
        if e.branch(compare('<', ln, z3.IntVal(0))): ln = z3.IntVal(0)
        return SArr.new([ln], lambda i: SNum(arith('+', arith('*', i[0], step.t), st.t)), 'f' if dtype in (float,) else 'i')
    if e.branch(compare('<=', toreal(step.t), z3.RealVal(0))): raise Unsupported('arange step')
    ln = arith('/', arith('-', toreal(n.t), toreal(st.t)), toreal(step.t))
    cl = -z3.ToInt(-ln) if numval(ln) is None else z3.IntVal(math.ceil(numval(ln)))
    if e.branch(compare('<', cl, z3.IntVal(0))): cl = z3.IntVal(0)
    return SArr.new([cl], lambda i: SNum(arith('+', arith('*', toreal(i[0]), toreal(step.t)), toreal(st.t))), 'f')

def linspace(a, b, n=50, endpoint=True, **k):
    if k: raise Unsupported('linspace options')
    a, b = lift(a), lift(b); nt = I_(n)
    e = eng()
    if e.branch(compare('<', nt, z3.IntVal(0))): raise ValueError('Number of samples must be non-negative.')
    div = arith('-', nt, z3.IntVal(1)) if endpoint else nt
    av, bv = toreal(a.t), toreal(b.t)
    if endpoint and e.branch(compare('<=', div, z3.IntVal(0))):
        return SArr.new([nt], lambda i: SNum(av, a.nan), 'f')
    def fn(i):
        if endpoint and not Poly.of(toreal(arith('-', i[0], div))): return SNum(bv, Or(a.nan, b.nan))
        t = arith('+', arith('/', arith('*', toreal(i[0]), arith('-', bv, av)), toreal(div)), av)
        return SNum(t, Or(a.nan, b.nan))
    return SArr.new([nt], fn, 'f')

def meshgrid(*xs, indexing='xy', **k):
    if k or len(xs) != 2: raise Unsupported('meshgrid')
    x, y = as_arr(xs[0]), as_arr(xs[1])
    fx, fy = x.getter(), y.getter()
    if indexing == 'xy':
        d = (y.dims[0], x.dims[0])
        return [SArr.new(d, lambda i: fx((i[1],)), x.kind), SArr.new(d, lambda i: fy((i[0],)), y.kind)]
    d = (x.dims[0], y.dims[0])
    return [SArr.new(d, lambda i: fx((i[0],)), x.kind), SArr.new(d, lambda i: fy((i[1],)), y.kind)]

class _Mgrid:
    def __getitem__(self, key):
        if not (isinstance(key, tuple) and has_sym(list(key))): return _np.mgrid[key]
        if any(k.start not in (None, 0) or k.step not in (None, 1) for k in key): raise Unsupported('mgrid')
        d = tuple(I_(k.stop) for k in key)
        return tuple(SArr.new(d, (lambda i, k=k: SNum(i[k])), 'i') for k in range(len(d)))

def where(c, *xy):
    if not xy: return A.nonzero(c)
    x, y = xy
    kd = 'f' if 'f' in (A.kind_of(x), A.kind_of(y)) else A.kind_of(x)
    def f(c, a, b):
        if kd == 'f': a, b = lift(a), lift(b)
        r = A.sel(bterm(c), a, b)
        return SNum(toreal(r.t), r.nan) if kd == 'f' else r
    return bmap(f, kd, c, x, y)

def diff(a, n=1, axis=-1, **k):
    if n != 1 or k: raise Unsupported('diff options')
    a = as_arr(a)
    if a.isflat and (a.guard is not None or len(a.dims) > 1): raise Unsupported('diff of selection')
    ax = axis if axis >= 0 else len(a.dims) + axis
    g = a.getter()
    d = list(a.dims)
    e = eng()
    if e.branch(compare('>=', d[ax], z3.IntVal(1))): d[ax] = arith('-', d[ax], z3.IntVal(1))
    def fn(i):
        j = list(i); j[ax] = arith('+', i[ax], z3.IntVal(1))
        return lift(g(tuple(j))) - lift(g(tuple(i)))
    return SArr.new(d, fn, a.kind)

def flip(a, axis=None):
    a = as_arr(a)
    if a.isflat and len(a.dims) > 1: raise Unsupported('flip')
    if isinstance(axis, (tuple, list)): axs = axis
    else: axs = range(len(a.dims)) if axis is None else [axis]
    axs = [x % len(a.dims) for x in axs]
    return a[tuple(slice(None, None, -1) if k in axs else slice(None) for k in range(len(a.dims)))]

def gather_sym(name, fn_scalar):
    def f(x, *a, **k):
        if k.pop('where', None) is not None: raise Unsupported('where=')
        return umap(fn_scalar, x, 'f') if isinstance(x, (SArr, list, tuple, _np.ndarray)) else fn_scalar(lift(x))
    return f

def _half_turns(t):
    """(rest, number of half turns as Int term or int, remaining rational number of half turns in [0,1)) of an angle"""
    p = Poly.of(t)
    pid = z3.Const('PI', R).get_id()
    rest = {}; c = Frac(0); n = z3.IntVal(0)
    for m, k in p.items():
        d = dict(m)
        if d.get(pid) != 1: rest[m] = k; continue
        q = tuple((a, x) for a, x in m if a != pid)
        if not q: c += k; continue
        it = as_int(Poly.term({q: k}))
        if it is None: rest[m] = k
        else: n = arith('+', n, it)
    w = math.floor(c)
    return rest, arith('+', n, z3.IntVal(w)), c - w
def _trig(name, t, nan):
    rest, n, c = _half_turns(t)
    nv = numval(n)
    if nv == 0 and c == 0 and not (rest and rest[min(rest)] < 0): return None
    if c == Frac(1, 2):
        # sin(x + pi/2) = cos x, cos(x + pi/2) = -sin x
        f, sg = ('cos', 1) if name == 'sin' else ('sin', -1)
        base = rest
    else:
        f, sg = name, 1
        base = rest if c == 0 else Poly.add(rest, Poly.mul({(): c}, Poly.of(pi().t)))
    if base and base[min(base)] < 0:
        base = {m: -k for m, k in base.items()}
        if f == 'sin': sg = -sg
    v = sfun(f)(SNum(Poly.term(base)))
    s = If(n % 2 == 0, realval(sg), realval(-sg)) if nv is None else realval(sg if nv % 2 == 0 else -sg)
    eng().assumed.add('sin, cos: parity and half-turn identities')
    return SNum(arith('*', s, v.t), nan)

def sfun(name):
    def s(x):
        x = lift(x); e = eng()
        t = e.canon(toreal(x.t))
        if name in ('sin', 'cos') and numval(t) is None:
            r = _trig(name, t, x.nan)
            if r is not None: return r
        v = numval(t)
        if v == 0 and name in ('sin', 'tan', 'arctan', 'arcsin', 'sinh', 'tanh'): return SNum(z3.RealVal(0), x.nan)
        if v == 0 and name in ('cos', 'exp', 'cosh'): return SNum(z3.RealVal(1), x.nan)
        if v == 1 and name == 'log': return SNum(z3.RealVal(0), x.nan)
        r = e.uf(name, t)
        if name == 'log' and v is not None and v > 1: e.axiom(('log', t.get_id()), lambda: r > 0)
        if name in ('sin', 'cos'):
            e.axiom((name, t.get_id()), lambda: And(r >= -1, r <= 1))
            c, sn = e.uf('cos', t), e.uf('sin', t)
            e.axiom(('sc', t.get_id()), lambda: c * c + sn * sn == 1)
        if name == 'exp': e.axiom((name, t.get_id()), lambda: r > 0)
        if name in ('arctan', 'arcsin'):
            e.axiom((name, t.get_id()), lambda: And(r * 2 <= pi().t, -r * 2 <= pi().t, Implies(t > 0, r > 0), Implies(t < 0, r < 0)))
        e.assumed.add(f'{name}: uninterpreted function with range axioms')
        return SNum(r, x.nan)
    return s

def sfun2(name):
    def s(x, y):
        x, y = lift(x), lift(y); e = eng()
        r = e.uf(name, e.canon(toreal(x.t)), e.canon(toreal(y.t)))
        if name == 'arctan2':
            if not (e._bvids and mentions(r, e._bvids)): e.axiom(('arctan2', r.get_id()), lambda: And(r <= pi().t, r >= -pi().t))
            e.assumed.add('arctan2: uninterpreted function with range axioms')
        return SNum(r, Or(x.nan, y.nan))
    return s

def pi():
    e = eng()
    p = z3.Const('PI', R)
    e.axiom('PI', lambda: And(p > realval(Frac(314159, 100000)), p < realval(Frac(314160, 100000))))
    return SNum(p)

def ew2(f, kind='f'):
    def g(x, y, **k):
        if any(isinstance(z, (SArr, list, tuple, _np.ndarray)) for z in (x, y)):
            kd = kind(x, y) if callable(kind) else kind
            return bmap(f, kd, x, y)
        return f(x if isinstance(x, SBool) else lift(x), y if isinstance(y, SBool) else lift(y))
    return g

def hypot1(x, y):
    x, y = lift(x), lift(y)
    return ssqrt(SNum(arith('+', arith('*', toreal(x.t), toreal(x.t)), arith('*', toreal(y.t), toreal(y.t))), Or(x.nan, y.nan)))

def sign1(x):
    x = lift(x)
    z = z3.IntVal(0) if x.isint else z3.RealVal(0)
    mk = z3.IntVal if x.isint else z3.RealVal
    return SNum(If(x.t > z, mk(1), If(x.t < z, mk(-1), mk(0))), x.nan)

def isnan1(x): return SBool(lift(x).nan)

def median_like(a, skipnan):
    if isinstance(a, (SNum,)): return a
    a = as_arr(a)
    f = a.getter(); g = a.guard
    if skipnan: g = A.nn_guard(g, f)
    b = SArr.new(a.dims, f if not skipnan else (lambda i: SNum(lift(f(i)).t)), a.kind, guard=g)
    e = eng()
    ne = A.sexists(a.dims, g, lambda i: TRUE)
    ts, ent, par, new = functional('median', [b])
    mn, mx = A.sext(a.dims, g, b.getter(), 'min'), A.sext(a.dims, g, b.getter(), 'max')
    if new: e.inst.append(Implies(ne, And(ts[0] >= toreal(mn.t), ts[0] <= toreal(mx.t))))
    e.assumed.add('median: assumed contract (function of the measured values, between their minimum and maximum)')
    nan = FALSE if not e.under_binder() and e.quick(ne) else Not(ne)
    if not skipnan: nan = Or(nan, A.sexists(a.dims, a.guard, lambda i: lift(f(i)).nan))
    return SNum(ts[0], nan if not is_true(ne) else (FALSE if is_false(simp_(nan)) else nan))
def simp_(t): return z3.simplify(t)

def sort(a, axis=-1, **k):
    a = as_arr(a)
    if a.nd() != 1: raise Unsupported('sort of 2-D')
    e = eng()
    if not A.nan_free(a): raise Unsupported('sort with missing values')
    n = a.size
    nt = I_int(n)
    r, ent, new = fun_array('sorted', [a], (), [nt], 'f' if a.kind == 'f' else 'i')
    f = r.getter()
    if new:
        e.forall((1, 1), lambda i, j: Implies(And(i[0] >= 0, i[0] <= j[0], j[0] < nt), lift(f(i)).t <= lift(f(j)).t))
        dims, g, h = a.dims, a.guard, a.getter()
        # every sorted value is a value of the array (position function)
        ps = [z3.Function(f'spos!{ent["n"]}_{k}', I, I) for k in range(len(dims))]
        def member(i):
            w = tuple(p(i[0]) for p in ps)
            return Implies(And(i[0] >= 0, i[0] < nt), And(A.in_range(w, dims), TRUE if g is None else g(w), compare('==', lift(h(w)).t, lift(f(i)).t)))
        e.forall(1, member)
        e.assumed.add('sort: ascending permutation of the values')
    return r

def I_int(n):
    """Int term for a count"""
    if isinstance(n, int): return z3.IntVal(n)
    if n.isint: return n.t
    e = eng()
    t = z3.ToInt(n.t)
    e.axiom(('cnt', n.t.get_id()), lambda: z3.ToReal(t) == n.t)
    return t

def cumsum(a, axis=None, **k):
    a = as_arr(a)
    if a.isflat: raise Unsupported('cumsum of a selection')
    g = a.getter()
    if len(a.dims) == 1:
        return SArr.new(a.dims, lambda i: A.ssum((arith('+', i[0], z3.IntVal(1)),), None, g), a.kind if a.kind != 'b' else 'i')
    if axis is None: raise Unsupported('cumsum')
    axis %= len(a.dims)
    return SArr.new(a.dims, lambda i: A.ssum((arith('+', i[axis], z3.IntVal(1)),), None, lambda j: g(tuple(i[:axis]) + tuple(j) + tuple(i[axis + 1:]))), a.kind)

def array_equal(a, b, equal_nan=False):
    a, b = as_arr(a), as_arr(b)
    if a.nd() != b.nd(): return False
    if a.isflat or b.isflat: 
        if not (a.isflat and b.isflat): raise Unsupported('array_equal of selection')
    for x, y in zip(a.dims, b.dims):
        if not A.same_dim(x, y): return False
    if equal_nan and a.kind == 'f' and b.kind == 'f': return A.red_all((a == b) | _bothnan(a, b))
    return A.red_all(a == b)
def _bothnan(a, b): return SYM['isnan'](a) & SYM['isnan'](b)

def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = abs(a - b) <= atol + rtol * abs(b)          # a missing value is close to nothing
    return r | _bothnan(a, b) if equal_nan else r
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False): return A.red_all(isclose(as_arr(a), as_arr(b), rtol, atol, equal_nan))
def math_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0): return abs(a - b) <= smax(lift(rel_tol) * smax(lift(abs(a)), lift(abs(b))), lift(abs_tol))

def array_split(a, n, axis=0):
    a = as_arr(a)
    v = n if isinstance(n, int) else numval(n.t) if isinstance(n, SNum) else None
    e = eng()
    if v is None: raise Unsupported('array_split with a symbolic number of sections')
    if v <= 0: raise ValueError('number sections must be larger than 0.')
    if a.isflat: raise Unsupported('array_split of a selection')
    d = a.dims[0]
    q, r = (d / v, d % v) if numval(d) is None else (z3.IntVal(numval(d) // v), z3.IntVal(numval(d) % v))
    out = []; g = a.getter(); st = z3.IntVal(0)
    for k in range(v):
        # first r sections have one extra
        ln = arith('+', q, If(compare('<', z3.IntVal(k), r), z3.IntVal(1), z3.IntVal(0)))
        en = arith('+', arith('*', z3.IntVal(k + 1), q), If(compare('<', z3.IntVal(k + 1), r), z3.IntVal(k + 1), r))
        s0 = st
        out.append(SArr.new([arith('-', en, s0)], lambda i, s0=s0: g((arith('+', s0, i[0]),)), a.kind))
        st = en
    return out

def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = as_arr(y)
    if y.nd() != 1 or y.guard is not None: raise Unsupported('trapezoid')
    g = y.getter()
    n = arith('-', y.dims[0], z3.IntVal(1))
    if x is None:
        h = lambda i: lift(dx)
    else:
        x = as_arr(x); f = x.getter()
        if not A.same_dim(x.dims[0], y.dims[0]): raise ValueError('operands could not be broadcast together')
        h = lambda i: lift(f((arith('+', i[0], z3.IntVal(1)),))) - lift(f(i))
    if eng().branch(compare('<=', n, z3.IntVal(0))): return SNum(z3.RealVal(0))
    return A.ssum((n,), None, lambda i: h(i) * (lift(g((arith('+', i[0], z3.IntVal(1)),))) + lift(g(i))) / 2)

def lstsq(Am, z, rcond=None, **k):
    """least squares: coefficient vector satisfying the normal equations"""
    if rcond not in (None, -1) or k.get('cond') is not None: raise Unsupported('least squares with a cutoff of small singular values')
    if not isinstance(Am, SMat):
        Am = as_arr(Am)
        n = numval(Am.dims[1])
        if n is None: raise Unsupported('lstsq')
        Am = SMat([Am[:, j] for j in range(n)])
    z = as_arr(z)
    cols = Am.cols
    cols = [c if c.isflat == z.isflat and (c.guard is None) == (z.guard is None) and len(c.dims) == len(z.dims) else recol(c, z) for c in cols]
    ts, ent, par, new = functional('lstsq', [*cols, z], (), len(cols))
    e = eng()
    if new:
        model = 0
        for c, t in zip(cols, ts): model = c * SNum(t) + model
        res = z - model
        eqs = []
        for c in cols:
            s = A.red_sum(c * res)
            e.inst.append(Implies(Not(s.nan), s.t == 0))
            eqs.append(s.t if is_false(s.nan) else None)
        e.lsq.append((cols, eqs))
        e.assumed.add('lstsq / polyfit: solution satisfies the normal equations')
    coef = as_arr([SNum(t) for t in ts])
    return coef, None, None, None

def polyfit_asc(x, y, deg):
    x, y = as_arr(x), as_arr(y)
    if not isinstance(deg, int): raise Unsupported('symbolic degree')
    cols = []; c = None
    for k in range(deg + 1):
        c = x * 0 + 1 if c is None else c * x
        cols.append(c)
    return lstsq(SMat(cols), y)[0]

def polyval_asc(x, c, **k):
    r = 0
    n = numval(as_arr(c).dims[0])
    if n is None: raise Unsupported('polyval')
    for k in range(n - 1, -1, -1): r = as_arr(c)[k] + x * r if not (isinstance(r, int)) else x * 0 + as_arr(c)[k]
    return r

def polyfit_desc(x, y, deg, **k):
    if k: raise Unsupported('polyfit options')
    c = polyfit_asc(x, y, deg)
    return c[::-1]

def polyval_desc(p, x):
    return polyval_asc(x, as_arr(p)[::-1])

def unravel_index(k, shape):
    if isinstance(k, A.FlatIndex):
        sh = [I_(s) for s in shape]
        if len(sh) == len(k.idx) and all(A.same_dim(a, b) for a, b in zip(sh, k.fdims)): return tuple(SNum(i) for i in k.idx)
    if isinstance(k, SNum):
        return tuple(SNum(t) for t in A.unravel(k.t, [I_(s) for s in shape]))
    if isinstance(k, SArr):
        f = k.getter()
        return tuple(SArr.new(k.dims, (lambda i, q=q: unravel_index(f(i), shape)[q]), 'i', guard=k.guard, flat=k.isflat) for q in range(len(shape)))
    raise Unsupported('unravel_index')

def quantile(a, q, **k):
    """quantiles as a function of the value array and the ratio: monotone, between min and max, q=0 min, q=1 max"""
    if k: raise Unsupported('quantile options')
    a = as_arr(a)
    if not A.nan_free(a): raise Unsupported('quantile with missing values')
    e = eng()
    ts, ent, par, new = functional('quantile', [a], (), 0)
    if par: raise Unsupported('quantile under binder')
    if 'Q' not in ent['arrs']:
        Q = ent['arrs']['Q'] = z3.Function(f'quantileQ!{ent["n"]}', R, R)
    Q = ent['arrs']['Q']
    mn, mx = A.red_ext(a, 'min'), A.red_ext(a, 'max')
    if new:
        e.inst += [Q(z3.RealVal(0)) == toreal(mn.t), Q(z3.RealVal(1)) == toreal(mx.t)]
        ent['qpts'] = []
        e.assumed.add('quantile: non-decreasing in the ratio, minimum at 0, maximum at 1')
    def one(v):
        v = lift(v); t = e.canon(toreal(v.t)); r = Q(t)
        if not (e._bvids and mentions(t, e._bvids)) and not any(t.eq(o) for o in ent['qpts']):
            for o in ent['qpts'] + [z3.RealVal(0), z3.RealVal(1)]:
                e.inst.append(And(Implies(And(t >= 0, t <= o, o <= 1), Q(t) <= Q(o)), Implies(And(o >= 0, o <= t, t <= 1), Q(o) <= Q(t))))
            ent['qpts'].append(t)
        return SNum(r, v.nan)
    return umap(one, q, 'f') if isinstance(q, (SArr, list, tuple, _np.ndarray)) else one(q)

def interp(x, xp, fp, left=None, right=None, period=None):
    """piecewise linear interpolation on an ascending grid (ghost: the interval index)"""
    if left is not None or right is not None or period is not None: raise Unsupported('interp options')
    xp, fp = as_arr(xp), as_arr(fp)
    if xp.isflat or fp.isflat or xp.nd() != 1: raise Unsupported('interp')
    if not A.same_dim(xp.dims[0], fp.dims[0]): raise ValueError('fp and xp are not of the same length.')
    e = eng(); n = xp.dims[0]
    if e.branch(n <= 0): raise ValueError('array of sample points is empty')
    if not (A.nan_free(xp) and A.nan_free(fp)): raise Unsupported('interp with missing values')
    f, g = xp.getter(), fp.getter()
    X = lambda k: toreal(lift(f((k,))).t); Y = lambda k: toreal(lift(g((k,))).t)
    one_ = z3.IntVal(1); last = arith('-', n, one_)
    e.assumed.add('interp: linear between the neighbouring grid points (assumes an ascending grid)')
    def one(v):
        v = lift(v); t = e.canon(toreal(v.t))
        ts, ent, par, new = functional('interp', [xp, fp], [SNum(t)], 1)
        if e._bvids and mentions(t, e._bvids): return SNum(ts[0], v.nan)
        js, ent2, par2, new2 = functional('interp_interval', [xp], [SNum(t)], 1, I)
        r, j = ts[0], js[0]; e.last_interval = j
        if new2:
            e._idxsyms[j.get_id()] = j
            j1 = arith('+', j, one_)
            e.add_index((j,)); e.add_index((j1,)); e.add_index((z3.IntVal(0),)); e.add_index((last,))
            e.inst.append(And(j >= 0, j <= last, Implies(And(t >= X(z3.IntVal(0)), t < X(last)), And(j < last, X(j) <= t, t < X(j1)))))
        if new:
            j1 = arith('+', j, one_)
            slope = (Y(j1) - Y(j)) / (X(j1) - X(j))
            e.inst.append(And(Implies(t < X(z3.IntVal(0)), r == Y(z3.IntVal(0))), Implies(t >= X(last), r == Y(last)),
                              Implies(And(t >= X(z3.IntVal(0)), t < X(last)), r == Y(j) + (t - X(j)) * slope)))
            # consequence: between the two values
            e.inst.append(Implies(And(t >= X(z3.IntVal(0)), t < X(last)), And(r >= If(Y(j) <= Y(j1), Y(j), Y(j1)), r <= If(Y(j) <= Y(j1), Y(j1), Y(j)))))
        return SNum(r, v.nan)
    return umap(one, x, 'f') if isinstance(x, (SArr, list, tuple, _np.ndarray)) else one(x)

class Vectorize:
    """np.vectorize: elementwise application"""
    def __init__(self, f, *a, **k):
        if a or k: self._r = _np.vectorize(f, *a, **k); self.f = None
        else: self.f = f; self._r = None
    def __call__(self, *a, **k):
        if self.f is not None and active() and not k:
            if len(a) == 1:
                if isinstance(a[0], (SArr, _np.ndarray, list, tuple)): return umap(lambda v: lift(self.f(v)), a[0], 'f')
                return self.f(a[0])
            raise Unsupported('vectorize of several arguments')
        return (self._r or _np.vectorize(self.f))(*a, **k)

def curve_fit(f, xdata, ydata, p0=None, **k):
    """either fails (RuntimeError) or returns one parameter per model argument, a function of the data and the start values"""
    if k: raise Unsupported('curve_fit options')
    import inspect
    n = len(inspect.signature(f).parameters) - 1
    e = eng()
    x, y = as_arr(xdata), as_arr(ydata)
    ts, ent, par, new = functional('curve_fit', [x, y], [lift(v) for v in (p0 if p0 is not None else [])], n + 1, extra=(f.__name__,))
    e.assumed.add('curve_fit: raises RuntimeError or returns parameters, a function of data and start values')
    if e.branch(ts[n] > 0): raise RuntimeError('Optimal parameters not found')
    return as_arr([SNum(t) for t in ts[:n]]), None

def searchsorted(a, v, side='left', sorter=None):
    a = as_arr(a)
    if sorter is not None or a.isflat: raise Unsupported('searchsorted')
    e = eng(); g = a.getter(); n = a.dims[0]
    if isinstance(v, (SArr, list, _np.ndarray)): raise Unsupported('searchsorted of arrays')
    v = lift(v); t = e.canon(toreal(v.t))
    ts, ent, par, new = functional('ss_' + side, [a], [SNum(t)], 1, I)
    r = ts[0]
    if new:
        e._idxsyms[r.get_id()] = r
        e.inst.append(And(r >= 0, r <= n))
        op = (lambda x: x < t) if side == 'left' else (lambda x: x <= t)
        srt = lambda i: toreal(lift(g(i)).t)
        e.add_index((r,)); e.add_index((arith('-', r, z3.IntVal(1)),))
        # for an ascending array: everything before r is below, everything from r on is not
        e.forall(1, lambda i: Implies(And(i[0] >= 0, i[0] < n), And(Implies(i[0] < r, op(srt(i))), Implies(i[0] >= r, Not(op(srt(i)))))))
        e.assumed.add('searchsorted: insertion position (assumes an ascending array)')
    return SNum(r)

def opaque(name, out=None):
    """array functional with no further contract: result is a function of the array arguments"""
    def f(*args, **kw):
        arrs = [as_arr(a) for a in args if isinstance(a, (SArr, _np.ndarray))]
        pars = [a for a in args if isinstance(a, (SNum, int, float)) and not isinstance(a, bool)]
        ex = tuple(str(a) for a in args if isinstance(a, (str, bool))) + tuple((k, str(v)) for k, v in sorted(kw.items()) if not has_sym(v))
        pars += [v for k, v in sorted(kw.items()) if isinstance(v, SNum)]
        if any(isinstance(v, (SArr,)) or (isinstance(v, (list, tuple)) and has_sym(v)) for v in kw.values()): raise Unsupported(f'{name}: symbolic keyword array')
        dims = arrs[0].dims if out is None else out(arrs, args, kw)
        return fun_array(name, arrs, pars, dims, 'f', ex)[0]
    return f

class CArr:
    """complex array given by opaque real functionals: abs, real, imag"""
    def __init__(self, name, arrs, dims, extra=()): self.name, self.arrs, self.dims, self.extra, self.post = name, arrs, dims, extra, ()
    @property
    def shape(self): return tuple(A.pyint(d) for d in self.dims)
    def part(self, p):
        r = fun_array(f'{self.name}_{p}', self.arrs, (), self.dims, 'f', self.extra)[0]
        for f in self.post: r = f(r)
        return r
    def abs(self):
        r, ent, new = fun_array(f'{self.name}_abs', self.arrs, (), self.dims, 'f', self.extra)
        f = r.getter()
        if new: eng().forall(len(self.dims), lambda i: lift(f(i)).t >= 0)
        for g in self.post: r = g(r)
        return r
    __abs__ = abs
    @property
    def real(self): return self.part('real')
    @property
    def imag(self): return self.part('imag')

# ---------------------------------------------------------------------------------------------- dispatch table
def _anysym(args, kw):
    return any(has_sym(a) or isinstance(a, (SMat, SMatT, CArr)) for a in args) or has_sym(kw) or any(isinstance(a, (SMat, CArr)) for a in kw.values()) or any(isinstance(a, (list, tuple)) and any(isinstance(b, SMat) for b in a) for a in args)

def _abs(x):
    if isinstance(x, CArr): return x.abs()
    return abs(x) if isinstance(x, (SArr, SNum)) else umap(lambda v: abs(lift(v)), x, A.kind_of(x))
def _skip(red):
    return lambda a, axis=None, **k: red(a, axis, skipnan=True, **k)
def _minmax(which):
    def f(a, axis=None, **k):
        if k: raise Unsupported('min/max options')
        if isinstance(a, SNum): return a
        return A.red_ext(a, which, axis)
    return f
def _sq(f):
    return lambda x, **k: f(x)
def _reduce(f):
    def g(a, axis=None, **k):
        k.pop('dtype', None)
        if k: raise Unsupported('reduction options')
        return f(as_arr(a), axis)
    return g
def _std(skip, sq):
    def g(a, axis=None, ddof=0, **k):
        if k: raise Unsupported('std options')
        r = A.red_var(as_arr(a), axis, ddof, skipnan=skip)
        return A.ssqrt_(r) if sq else r
    return g
def _array(x, dtype=None, copy=True, **k):
    if isinstance(x, SMat): return x
    if isinstance(x, (list, tuple)) and any(isinstance(y, CArr) for y in x): raise Unsupported('array of complex arrays')
    r = as_arr(x)
    if dtype is not None: r = r.astype(dtype)
    return r.copy() if copy or copy is None and r is x else r
def _asarray(x, dtype=None, **k):
    r = as_arr(x) if not isinstance(x, SMat) else x
    return r if dtype is None else (r if _np.dtype(A.pytype(dtype)).kind == getattr(r, 'kind', None) else r.astype(dtype))
def _argminmax(which, skip=False):
    def f(a, axis=None, **k):
        if axis is not None and as_arr(a).nd() > 1: raise Unsupported('argmin axis')
        return A.red_arg(as_arr(a), which)
    return f
def _nd(x): return x.ndim if isinstance(x, (SArr, SMat)) else (0 if isinstance(x, SNum) else _np.ndim(x))
def _outer(a, b):
    a, b = as_arr(a), as_arr(b)
    f, g = a.getter(), b.getter()
    if a.isflat or b.isflat: raise Unsupported('outer')
    return SArr.new(a.dims + b.dims, lambda i: lift(f(i[:1])) * lift(g(i[1:])), 'f' if 'f' in (a.kind, b.kind) else 'i')
def _norm(x, ord=None, axis=None, **k):
    if ord is not None or k: raise Unsupported('norm options')
    return A.ssqrt_(A.red_sum(as_arr(x) ** 2, axis))
def _power(x, y): return x ** y if isinstance(x, (SArr, SNum)) else as_arr(x) ** y
def _bin(op):
    def f(x, y, **k):
        if k: raise Unsupported('ufunc options')
        x = x if isinstance(x, (SArr, SNum)) else (as_arr(x) if isinstance(x, (list, tuple, _np.ndarray)) else lift(x))
        r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '//': lambda: x // y, '%': lambda: x % y, '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
        return r
    return f
def _ptp(a, axis=None): return A.red_ext(as_arr(a), 'max', axis) - A.red_ext(as_arr(a), 'min', axis)
def _count_nonzero(a, axis=None):
    if axis is not None: raise Unsupported('count_nonzero axis')
    a = as_arr(a); f = a.getter()
    g = a.guard
    return A.scount(a.dims, A.memo(lambda i: And(TRUE if g is None else g(i), bterm(f(i)))))
def _average(a, axis=None, weights=None, **k):
    if weights is None: return A.red_mean(as_arr(a), axis)
    return A.red_sum(as_arr(a) * weights, axis) / A.red_sum(as_arr(weights), axis)
def _clip(a, lo, hi, **k):
    return as_arr(a).clip(lo, hi) if isinstance(a, (SArr, list, _np.ndarray)) else smin(smax(lift(a), lift(lo)), lift(hi))
def _logic(f):
    def g(x, y=None):
        if y is None: return umap(f, x, 'b')
        return bmap(f, 'b', x, y) if isinstance(x, SArr) or isinstance(y, SArr) else f(x, y)
    return g
def _round(x, decimals=0, **k):
    return x.round(decimals) if isinstance(x, SArr) else sround(lift(x), decimals)
def _gradient(*a, **k): raise Unsupported('gradient')
def ascending(a):
    """are neighbouring elements provably strictly ascending"""
    e = eng()
    if a.guard is not None or e.under_binder(): return False
    f = a.getter()
    with e.binder(1) as bv:
        x, y = lift(f(bv)), lift(f((arith('+', bv[0], z3.IntVal(1)),)))
        if not (is_false(x.nan) and is_false(y.nan)): return False
        g = compare('<', x.t, y.t)
    return e.pointwise([arith('-', a.dims[0], z3.IntVal(1))], bv, g, timeout=700)
def _argsort(a, **k):
    a = as_arr(a)
    if a.isflat and a.guard is None: return _argsort_flat(a)
    if a.nd() != 1 or a.isflat: raise Unsupported('argsort')
    if ascending(a):
        eng().lemmas.add('a strictly ascending array is sorted by the identity')
        return arange(SNum(a.dims[0]))
    r, ent, new = fun_array('argsort', [a], (), a.dims, 'i')
    f, h, n = r.getter(), a.getter(), a.dims[0]
    if new:
        e = eng()
        def rng(i):
            v = lift(f(i)).t
            if not e.under_binder() and not (z3.is_app(i[0]) and i[0].num_args() == 1 and i[0].decl().eq(v.decl())): e.add_index((v,))
            return Implies(And(i[0] >= 0, i[0] < n), And(v >= 0, v < n))
        e.forall(1, rng)
        e.forall((1, 1), lambda i, j: Implies(And(i[0] >= 0, i[0] < j[0], j[0] < n), And(toreal(lift(h((lift(f(i)).t,))).t) <= toreal(lift(h((lift(f(j)).t,))).t), lift(f(i)).t != lift(f(j)).t)))
        iv = z3.Function(f'argsort_inv!{ent["n"]}', I, I); ent['inv'] = iv
        e.forall(1, lambda i: Implies(And(i[0] >= 0, i[0] < n), And(iv(i[0]) >= 0, iv(i[0]) < n, lift(f((iv(i[0]),))).t == i[0], iv(lift(f(i)).t) == i[0])))
        e.assumed.add('argsort: permutation that sorts ascending')
    eng().last_argsort = ent['inv'], f
    return r

def canon(i): return z3.simplify(i, som=True, sort_sums=True)

def _argsort_flat(a):
    """argsort of a flattened array: positions are kept as index tuples"""
    e = eng(); D = a.dims; nd = len(D)
    ts, ent, par, new = A.functional('argsortflat', [a], (), 0)
    n = A.iprod(D); h = a.getter()
    if 'pos' not in ent['arrs']:
        ent['arrs']['pos'] = [z3.Function(f'argsort{k}!{ent["n"]}', I, I) for k in range(nd)]
        ent['arrs']['inv'] = z3.Function(f'argsort_rank!{ent["n"]}', *[I] * nd, I)
    if par: raise Unsupported('argsort under a binder')
    pos, inv = ent['arrs']['pos'], ent['arrs']['inv']
    at = lambda i: tuple(p(canon(i)) for p in pos)
    val = lambda i: toreal(lift(h(i)).t)
    if new:
        e.triggers.update(p.name() for p in pos)
        def rng(i):
            if not e.under_binder() and not (z3.is_app(i[0]) and i[0].num_args() == nd): e.add_index(at(i[0]))
            return Implies(And(i[0] >= 0, i[0] < n), And(A.in_range(at(i[0]), D), inv(*at(i[0])) == i[0]))
        e.forall(1, rng)
        # consequences of 'permutation that sorts ascending' for the two highest ranks
        t0, t1 = at(canon(n - 1)), at(canon(n - 2))
        e.forall(nd, lambda p: Implies(And(A.in_range(p, D), n >= 2), And(A.in_range(t0, D), A.in_range(t1, D), Or(*[x != y for x, y in zip(t0, t1)]), val(p) <= val(t0), Or(And(*[x == y for x, y in zip(p, t0)]), val(p) <= val(t1)))))
        e.assumed.add('argsort: permutation that sorts ascending')
    e.last_argsort_flat = (at, inv, n)
    return SArr.new([n], lambda i: A.FlatIndex(at(i[0]), D), 'i')

def bincount(x, weights=None, minlength=0):
    """entry b: sum of the weights of the points whose bin is b; needs all bins in [0, minlength)"""
    x = as_arr(x); f = x.getter(); e = eng(); D = x.dims; n = I_(minlength)
    if x.guard is not None: raise Unsupported('bincount of a selection')
    if not e.branch(A.all_over(D, None, lambda i: lift(f(i)).t >= 0)): raise ValueError("'list' argument must have no negative elements")
    if not e.branch(A.all_over(D, None, lambda i: lift(f(i)).t < n)): raise Unsupported('bincount beyond minlength')
    w = as_arr(weights) if weights is not None else full(x.shape, 1)
    if len(w.dims) != len(D) or not all(A.same_dim(a, b) for a, b in zip(w.dims, D)): raise ValueError("The weights and list don't have the same length.")
    g = w.getter()
    return SArr.new([n], lambda b: A.ssum(D, None, lambda i: SNum(If(lift(f(i)).t == b[0], toreal(lift(g(i)).t), z3.RealVal(0)))), 'f')

SYM = dict(
    bincount=bincount,
    histogram=lambda a, bins=10, **k: histogram(a, bins, **k),
    abs=_sq(_abs), absolute=_sq(_abs), fabs=_sq(_abs),
    sum=_reduce(A.red_sum), nansum=lambda a, axis=None, **k: A.red_sum(a, axis, skipnan=True),
    mean=_reduce(A.red_mean), nanmean=_skip(A.red_mean), average=_average,
    std=_std(False, True), nanstd=_std(True, True), var=_std(False, False), nanvar=_std(True, False),
    min=_minmax('min'), amin=_minmax('min'), max=_minmax('max'), amax=_minmax('max'),
    nanmin=_skip(lambda a, ax, **k: A.red_ext(a, 'min', ax, **k)), nanmax=_skip(lambda a, ax, **k: A.red_ext(a, 'max', ax, **k)),
    median=lambda a, axis=None, **k: median_like(a, False) if axis is None else _uns('median axis'), nanmedian=lambda a, axis=None, **k: median_like(a, True) if axis is None else _uns('median axis'),
    any=lambda a, axis=None, **k: A.red_any(a, axis), all=lambda a, axis=None, **k: A.red_all(a, axis),
    sqrt=_sq(lambda x: umap(ssqrt, x, 'f')), square=_sq(lambda x: x * x),
    sin=gather_sym('sin', sfun('sin')), cos=gather_sym('cos', sfun('cos')), tan=gather_sym('tan', sfun('tan')),
    arctan=gather_sym('arctan', sfun('arctan')), arcsin=gather_sym('arcsin', sfun('arcsin')), arccos=gather_sym('arccos', sfun('arccos')),
    exp=gather_sym('exp', sfun('exp')), log=gather_sym('log', sfun('log')), log10=gather_sym('log10', sfun('log10')), log2=gather_sym('log2', sfun('log2')),
    arctan2=ew2(sfun2('arctan2')), hypot=ew2(hypot1),
    floor=_sq(lambda x: umap(sfloor, x, 'f')), ceil=_sq(lambda x: umap(lambda v: -sfloor(-lift(v)), x, 'f')),
    trunc=_sq(lambda x: umap(lambda v: SNum(toreal(A.trunc(v).t), lift(v).nan), x, 'f')), rint=_sq(lambda x: umap(lambda v: sround(v, 0), x, 'f')),
    round=_round, around=_round, sign=_sq(lambda x: umap(sign1, x, A.kind_of(x))),
    isnan=_sq(lambda x: umap(isnan1, x, 'b')), isfinite=_sq(lambda x: umap(lambda v: ~isnan1(v), x, 'b')), isinf=_sq(lambda x: umap(lambda v: SBool(FALSE), x, 'b')),
    deg2rad=_sq(lambda x: x * pi() / 180), radians=_sq(lambda x: x * pi() / 180), rad2deg=_sq(lambda x: x * 180 / pi()), degrees=_sq(lambda x: x * 180 / pi()),
    maximum=ew2(smax, lambda x, y: 'f' if 'f' in (A.kind_of(x), A.kind_of(y)) else 'i'), minimum=ew2(smin, lambda x, y: 'f' if 'f' in (A.kind_of(x), A.kind_of(y)) else 'i'),
    fmax=ew2(lambda a, b: _uns('fmax')), clip=_clip, power=_power, float_power=_power,
    add=_bin('+'), subtract=_bin('-'), multiply=_bin('*'), divide=_bin('/'), true_divide=_bin('/'), floor_divide=_bin('//'), mod=_bin('%'), remainder=_bin('%'),
    less=_bin('<'), less_equal=_bin('<='), greater=_bin('>'), greater_equal=_bin('>='), equal=_bin('=='), not_equal=_bin('!='), negative=_sq(lambda x: -x),
    logical_and=_logic(lambda x, y: SBool(And(bterm(x), bterm(y)))), logical_or=_logic(lambda x, y: SBool(Or(bterm(x), bterm(y)))), logical_not=_logic(lambda x: SBool(Not(bterm(x)))),
    bitwise_and=lambda x, y: x & y, bitwise_or=lambda x, y: x | y, invert=lambda x: ~x,
    where=where, diff=diff, flip=flip, flipud=lambda a: flip(a, 0), fliplr=lambda a: flip(a, 1),
    array=_array, asarray=_asarray, ascontiguousarray=_asarray, asanyarray=_asarray, copy=lambda a, **k: as_arr(a).copy(), asfarray=_asarray,
    ravel=lambda a, **k: as_arr(a).ravel(), reshape=lambda a, s, **k: as_arr(a).reshape(s), transpose=lambda a, *k: as_arr(a).T, squeeze=lambda a: as_arr(a).squeeze(),
    zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=lambda a, dtype=None, **k: like(a, 0, dtype), ones_like=lambda a, dtype=None, **k: like(a, 1, dtype),
    full_like=lambda a, v, dtype=None, **k: like(a, v, dtype) if dtype is None and as_arr(a).kind == A.kind_of(v) or isinstance(v, int) else full(as_arr(a).shape, v, dtype or as_arr(a).dtype), empty_like=lambda a, **k: empty(as_arr(a).shape),
    arange=arange, linspace=linspace, meshgrid=meshgrid, column_stack=column_stack, stack=stack_any, vstack=lambda t: stack_any(t) if all(as_arr(x).nd() == 1 for x in t) else concatenate(t), concatenate=concatenate, hstack=lambda t: concatenate(t) if all(as_arr(x).nd() == 1 for x in t) else _uns('hstack'),
    interp=interp, sort=sort, argsort=_argsort, cumsum=cumsum, argmin=_argminmax('min'), argmax=_argminmax('max'), nanargmin=_argminmax('min'), nanargmax=_argminmax('max'),
    array_equal=array_equal, allclose=allclose, isclose=isclose, array_split=array_split, trapezoid=trapezoid, trapz=trapezoid,
    dot=A.dot, matmul=lambda a, b: matvec(a, b) if isinstance(a, SMat) else A.dot(a, b), outer=_outer, polyfit=polyfit_desc, polyval=polyval_desc, unravel_index=unravel_index,
    quantile=quantile, percentile=lambda a, q, **k: quantile(a, q / 100 if not isinstance(q, (list, tuple)) else [x / 100 for x in q], **k), searchsorted=searchsorted,
    nonzero=lambda a: A.nonzero(a), flatnonzero=lambda a: A.nonzero(as_arr(a).ravel())[0], ptp=_ptp, count_nonzero=_count_nonzero, ndim=_nd, shape=lambda a: a.shape, size=lambda a: as_arr(a).size,
    isscalar=lambda x: isinstance(x, SNum), atleast_1d=lambda x: as_arr(x) if as_arr(x).nd() else as_arr([x]),
    float64=lambda x: SNum(toreal(lift(x).t), lift(x).nan) if not isinstance(x, SArr) else x.astype(float), float32=lambda x: SNum(toreal(lift(x).t), lift(x).nan) if not isinstance(x, SArr) else x.astype(float),
    int64=lambda x: sint(x) if not isinstance(x, SArr) else x.astype(int),
    iscomplexobj=lambda x: isinstance(x, CArr), real=lambda x: x.real, imag=lambda x: x.imag,
)
SYM['frombuffer'] = lambda *a, **k: gio.frombuffer(*a, **k)
SYM['nan_to_num'] = lambda a, nan=0.0, **k: umap(lambda v: A.sel(lift(v).nan, lift(float(nan)), SNum(lift(v).t)), a, 'f')
ALWAYS = {'frombuffer', 'sqrt', 'log', 'sin', 'cos', 'tan', 'exp', 'arctan', 'deg2rad', 'rad2deg'}   # exact also on literals
def _uns(m): raise Unsupported(m)
def poly_(name): return {'polyfit': lambda x, y, deg, **k: polyfit_asc(x, y, deg) if not k else _uns('polyfit options'), 'polyval': polyval_asc}[name]
def sum_pylist(*a): raise Unsupported('sum')

def fft_(name):
    def f(a, *r, **k):
        if r or k: raise Unsupported('fft options')
        if isinstance(a, CArr):
            if a.post: raise Unsupported('transform of a shifted transform')
            return CArr(f'{name}({a.name})', a.arrs, a.dims, a.extra)
        a = as_arr(a)
        return CArr(name, [a], a.dims)
    return f
def fftfreq(n, d=1.0):
    n, d = lift(n), lift(d)
    nt = n.t
    def fn(i):
        k = i[0]
        h = (nt + 1) / 2 if numval(nt) is None else z3.IntVal((numval(nt) + 1) // 2)
        kk = If(compare('<', k, h), k, arith('-', k, nt))
        return SNum(arith('/', toreal(kk), arith('*', toreal(nt), toreal(d.t))))
    return SArr.new([nt], fn, 'f')
def fftshift(a, axes=None):
    if isinstance(a, CArr):
        r = CArr(a.name, a.arrs, a.dims, a.extra); r.post = a.post + ((lambda x: fftshift(x, axes)),)
        return r
    a = as_arr(a); f = a.getter(); D = a.dims
    ax = range(len(D)) if axes is None else ([axes] if isinstance(axes, int) else list(axes))
    ax = [x % len(D) for x in ax]
    def fn(i):
        j = list(i)
        for x in ax:
            h = arith('-', D[x], D[x] / 2) if numval(D[x]) is None else z3.IntVal(numval(D[x]) - numval(D[x]) // 2)
            s = arith('+', i[x], h)
            j[x] = If(compare('>=', s, D[x]), arith('-', s, D[x]), s)
        return f(tuple(j))
    return SArr.new(D, fn, a.kind)

class _Sub:
    """submodule namespace (np.linalg, np.fft, scipy.ndimage, ...)"""
    def __init__(self, real, table): self.__dict__['_real'] = real; self.__dict__['_table'] = table
    def __getattr__(self, n):
        real = getattr(self._real, n)
        if n in self._table:
            return dispatch(n, real, self._table[n])
        if isinstance(real, type(math)): return _Sub(real, {})
        if callable(real) and not isinstance(real, type): return guard_real(n, real)
        return real

def _long(a):
    try: return (a[1] - a[0] if len(a) > 1 else a[0]) / (a[2] if len(a) > 2 else 1) > 24
    except Exception: return False
def dispatch(name, real, sym):
    def f(*a, **k):
        if active() and (name == 'arange' and _long(a) or _anysym(a, k) or name in ALWAYS):
            try: return sym(*a, **k)
            except TypeError:
                try: inspect.signature(sym).bind(*a, **k)
                except TypeError: raise Unsupported(f'{name} with these arguments') from None      # beyond the contract of the library function
                raise
        a = tuple(A.pytype(x) for x in a); k = {q: A.pytype(v) for q, v in k.items()}
        return real(*a, **k)
    f.__name__ = name; f._real = real
    return f
def guard_real(name, real):
    def f(*a, **k):
        if active() and _anysym(a, k): raise Unsupported(f'no contract for {name} on symbolic values')
        a = tuple(A.pytype(x) for x in a); k = {q: A.pytype(v) for q, v in k.items()}
        return real(*a, **k)
    f.__name__ = name; f._real = real
    return f

class _NdMeta(type):
    def __instancecheck__(c, x): return isinstance(x, (SArr, _np.ndarray))
    def __subclasscheck__(c, x): return issubclass(x, (SArr, _np.ndarray))
class NdArray(metaclass=_NdMeta): pass

def ndi_gauss(a, sigma, *r, **k):
    a = as_arr(a)
    if r: raise Unsupported('gaussian_filter options')
    mode = k.pop('mode', 'reflect'); trunc = k.pop('truncate', 4.0); order = k.pop('order', 0); cval = k.pop('cval', 0.0)
    if k: raise Unsupported('gaussian_filter options')
    n = len(a.dims)
    if isinstance(sigma, SArr): sigma = [sigma[j] for j in range(n)]
    sg = list(sigma) if isinstance(sigma, (list, tuple)) else [sigma] * n
    if len(sg) != n: raise RuntimeError('sequence argument must have length equal to input rank')
    return fun_array('gaussian_filter', [a], sg, a.dims, 'f', (str(mode), float(trunc), str(order), float(cval)))[0]
def ndi_mapc(a, coords, **k):
    a = as_arr(a)
    cs = [as_arr(c) for c in (coords if isinstance(coords, (list, tuple)) else [coords[i] for i in range(len(a.dims))])]
    ex = tuple(sorted((x, str(v)) for x, v in k.items()))
    # elementwise in the coordinates
    gs = [c.getter() for c in cs]
    e = eng()
    ts, ent, par, new = functional('map_coordinates', [a], (), 0, extra=ex)
    if 'F' not in ent['arrs']: ent['arrs']['F'] = z3.Function(f'map_coordinatesF!{ent["n"]}', *[I for _ in par], *[R for _ in cs], R)
    F = ent['arrs']['F']
    f = a.getter()
    order = k.get('order', 3)
    e.assumed.add('map_coordinates: function of the coordinates, exact at grid points')
    def fn(i):
        c = [e.canon(toreal(lift(g(i)).t)) for g in gs]
        n = [as_int(x) for x in c]
        if all(x is not None for x in n) and not e.under_binder() and e.quick(A.in_range(tuple(n), a.dims)): return f(tuple(n))
        return SNum(F(*par, *c))
    r = SArr.new(cs[0].dims, fn, 'f')
    return r
def ndi_rotate(a, angle, axes=(1, 0), reshape=True, **k):
    """scipy.ndimage.rotate: array of unspecified positive size, function of the array and the angle"""
    a = as_arr(a)
    if a.nd() != 2 or not reshape: raise Unsupported('rotate options')
    e = eng()
    ex = (tuple(axes), *sorted((x, str(v)) for x, v in k.items()))
    ts, ent, par, new = functional('rotated_size', [a], [lift(angle)], 2, I, ex)
    if new: e.inst += [ts[0] >= 1, ts[1] >= 1]
    e.assumed.add('ndimage.rotate: array of positive size, function of the array and the angle')
    return fun_array('rotated', [a], [lift(angle)], tuple(ts), 'f', ex)[0]

def histogram(a, bins=10, **k):
    """counts and edges: functions of the value set; counts are non-negative, edges ascend"""
    a = as_arr(a)
    if k or not isinstance(bins, int): raise Unsupported('histogram options')
    e = eng()
    n = z3.IntVal(bins); m = z3.IntVal(bins + 1)
    c, ce, new = fun_array('hist_counts', [a], (), (n,), 'i', (bins,))
    d, de, new2 = fun_array('hist_edges', [a], (), (m,), 'f', (bins,))
    f, g = c.getter(), d.getter()
    if new: e.forall(1, lambda i: Implies(And(i[0] >= 0, i[0] < n), lift(f(i)).t >= 0))
    if new2: e.forall((1, 1), lambda i, j: Implies(And(i[0] >= 0, i[0] < j[0], j[0] < m), lift(g(i)).t < lift(g(j)).t))
    e.assumed.add('histogram: non-negative counts and ascending edges, functions of the values')
    return c, d

NDI = dict(rotate=ndi_rotate, gaussian_filter=ndi_gauss, map_coordinates=ndi_mapc)

class NPShim:
    ndarray = NdArray
    def __init__(self): pass
    @property
    def pi(self): return pi() if active() else _np.pi
    @property
    def mgrid(self): return _Mgrid()
    @property
    def linalg(self): return _Sub(_np.linalg, dict(lstsq=lstsq, norm=_norm))
    @property
    def fft(self): return _Sub(_np.fft, dict(fft=fft_('fft'), fft2=fft_('fft2'), fftfreq=fftfreq, fftshift=fftshift))
    @property
    def polynomial(self): return _Poly()
    def __getattr__(self, n):
        real = getattr(_np, n)
        if n == 'vectorize': return Vectorize
        if n in ('dtype', 'iinfo', 'finfo'): return _TypeShim(real, real)
        if n in SYM:
            if isinstance(real, type): return _TypeShim(real, SYM[n])
            return dispatch(n, real, SYM[n])
        if isinstance(real, type(math)): return _Sub(real, {})
        if callable(real) and not isinstance(real, type): return guard_real(n, real)
        return real
class _Poly:
    @property
    def polynomial(self): return _Sub(_np.polynomial.polynomial, dict(polyfit=poly_('polyfit'), polyval=poly_('polyval')))
    def __getattr__(self, n): return getattr(_np.polynomial, n)
class _TSM(type):
    def __instancecheck__(c, x): return isinstance(x, c._py)
class _TypeShimC: pass
def _TypeShim(real, sym):
    class T(metaclass=_TSM):
        _py = real
        def __new__(cls, *a, **k):
            if active() and _anysym(a, k): return sym(*a, **k)
            return real(*[A.pytype(x) for x in a], **k)
    T.__name__ = real.__name__
    return T

NP = NPShim()

def _ufunc(self, ufunc, method, *inputs, **kw):
    if method != '__call__' or kw.get('out') is not None: return _uns(f'ufunc {ufunc.__name__}.{method}')
    n = ufunc.__name__
    if n not in SYM: raise Unsupported(f'ufunc {n}')
    return SYM[n](*inputs, **kw)
def _func(self, func, types, args, kw):
    n = func.__name__
    if n not in SYM: raise Unsupported(f'no contract for numpy.{n}')
    return SYM[n](*args, **kw)
SArr.__array_ufunc__ = _ufunc; SArr.__array_function__ = _func
SNum.__array_ufunc__ = _ufunc; SNum.__array_function__ = _func
SBool.__array_ufunc__ = _ufunc; SBool.__array_function__ = _func
def _no_array(self, *a, **k): raise Unsupported('conversion of a symbolic value to a real array')
SArr.__array__ = _no_array; SNum.__array__ = _no_array

# ---------------------------------------------------------------------------------------------- builtins
class _BM(type):
    def __instancecheck__(c, x): return c._chk(x)
    def __call__(c, *a, **k): return c._mk(*a, **k)
    def __subclasscheck__(c, x): return issubclass(x, c._py)
    def __eq__(c, o): return o is c or o is c._py
    def __hash__(c): return hash(c._py)
class PInt(metaclass=_BM):
    _py = int
    _chk = staticmethod(lambda x: isinstance(x, int) or isinstance(x, SNum) and x.isint and getattr(x, '_pyk', 1))
    @staticmethod
    def _mk(*a, **k):
        if a and isinstance(a[0], (SNum, SBool, SArr)): return sint(a[0])
        if a and getattr(a[0], 'num', None) is not None and hasattr(a[0], 'pad'):
            if not a[0].num.isint: raise ValueError('invalid literal for int()')
            return a[0].num
        return int(*a, **k)
class PFloat(metaclass=_BM):
    _py = float
    _chk = staticmethod(lambda x: isinstance(x, float) or isinstance(x, SNum) and not x.isint)
    @staticmethod
    def _mk(*a, **k):
        if a and isinstance(a[0], (SNum, SBool)):
            v = lift(a[0]); return SNum(toreal(v.t), v.nan)
        if a and isinstance(a[0], SArr): return lift(a[0].item())
        if a and getattr(a[0], 'num', None) is not None and hasattr(a[0], 'pad'): return SNum(toreal(a[0].num.t), a[0].num.nan)
        return float(*a, **k)
class PBool(metaclass=_BM):
    _py = bool
    _chk = staticmethod(lambda x: isinstance(x, (bool, SBool)))
    @staticmethod
    def _mk(*a):
        return bool(*a)
def plen(x):
    if isinstance(x, SArr): return x.__slen__()
    if isinstance(x, SMat): return x.shape[0]
    if hasattr(x, '__slen__'): return x.__slen__()
    return len(x)
def prange(*a):
    if has_sym(list(a)):
        if all(not isinstance(x, SNum) or numval(x.t) is not None for x in a): return range(*[int(x) for x in a])
        raise Unsupported('loop over a symbolic range needs a loop contract')
    return range(*a)
def phash(x):
    if has_sym(x if not isinstance(x, tuple) else list(x)): return SymHash(x)
    return hash(x)
class SymHash:
    def __init__(self, x): self.x = x
    def __eq__(self, o):
        if not isinstance(o, SymHash): raise Unsupported('comparison of a hash with a number')
        return SBool(_hash_eq(self.x, o.x))
    __hash__ = None
def _hash_eq(x, y):
    """sufficient condition for equal hashes: structurally equal keys"""
    if isinstance(x, (tuple, list)) and type(x) is type(y) and len(x) == len(y): return And(*[_hash_eq(p, q) for p, q in zip(x, y)])
    if isinstance(x, (SNum, int, float)) and isinstance(y, (SNum, int, float)): return bterm(lift(x) == lift(y))
    if isinstance(x, (str, bytes, type(None), type)) : return z3.BoolVal(x == y)
    raise Unsupported('hash of ' + type(x).__name__)
def pround(x, n=None):
    if isinstance(x, (SNum, SArr)): return sround(x, n) if isinstance(x, SNum) else x.round(n or 0)
    return round(x, n) if n is not None else round(x)
def pabs(x): return abs(x)
def psum(x, start=0):
    if isinstance(x, SArr) and x.isflat | (x.nd() == 1): return A.red_sum(x)
    return sum(x, start)
from . import gio
BUILTINS = dict(open=gio.popen, str=gio.PStr, int=PInt, float=PFloat, len=plen, range=prange, hash=phash, round=pround, sum=psum)
A_pyt = {PInt: int, PFloat: float, PBool: bool}
def _pt(t):
    try: return A_pyt.get(t, t)
    except TypeError: return t
A.pytype = lambda t: getattr(t, '_py', t) if isinstance(t, type) else t

MATH_SYM = dict(floor=lambda x: sint(SYM['floor'](x)), ceil=lambda x: sint(SYM['ceil'](x)), isclose=math_isclose, atan=SYM['arctan'], fabs=lambda x: abs(x), pow=lambda x, y: x ** y,
                **{n: SYM[n] for n in ('sqrt', 'log', 'exp', 'sin', 'cos', 'tan', 'hypot', 'isnan', 'radians', 'degrees') if n in SYM})
class MathShim:
    @property
    def pi(self): return pi() if active() else math.pi
    def __getattr__(self, n):
        real = getattr(math, n)
        if not callable(real): return real
        s = MATH_SYM.get(n)
        return (lambda *a, **k: s(*a, **k) if active() and _anysym(a, k) else real(*a, **k)) if s else guard_real('math.' + n, real)
MATH = MathShim()

import sys as _sys
class patched:
    """replace numpy / scipy entry points and number builtins in every loaded surfalize module, by identity"""
    def __init__(self, extra=None): self.extra = extra or {}
    def __enter__(self):
        import scipy.ndimage, scipy.linalg, scipy.signal, scipy.interpolate, scipy.optimize, scipy
        ndi = _Sub(scipy.ndimage, NDI)
        table = {id(_np): NP, id(scipy.ndimage): ndi, id(scipy.linalg.lstsq): dispatch('lstsq', scipy.linalg.lstsq, lstsq),
                 id(scipy.signal.fftconvolve): dispatch('fftconvolve', scipy.signal.fftconvolve, _fftconvolve),
                 id(scipy.interpolate.griddata): dispatch('griddata', scipy.interpolate.griddata, griddata),
                 id(scipy.ndimage.gaussian_filter): dispatch('gaussian_filter', scipy.ndimage.gaussian_filter, ndi_gauss),
                 id(scipy.optimize.curve_fit): dispatch('curve_fit', scipy.optimize.curve_fit, curve_fit), id(scipy.signal.find_peaks): guard_real('find_peaks', scipy.signal.find_peaks)}
        table.update(gio.table())
        table[id(math)] = MATH; table.update({id(getattr(math, n)): getattr(MATH, n) for n in MATH_SYM})
        for n in SYM:
            f = getattr(_np, n, None)
            if callable(f) and id(f) not in table: table[id(f)] = getattr(NP, n)
        if hasattr(_np, 'trapezoid'): table[id(_np.trapezoid)] = dispatch('trapezoid', _np.trapezoid, trapezoid)
        self.saved = []
        for name, m in list(_sys.modules.items()):
            if m is None or not (name == 'surfalize' or name.startswith('surfalize.')): continue
            d = m.__dict__
            for k, v in list(d.items()):
                r = table.get(id(v))
                if r is not None:
                    self.saved.append((d, k, v)); d[k] = r
            for k, v in BUILTINS.items():
                if k not in d:
                    self.saved.append((d, k, None)); d[k] = v
        return self
    def __exit__(self, *a):
        for d, k, v in reversed(self.saved):
            if v is None: d.pop(k, None)
            else: d[k] = v

def _fftconvolve(a, b, mode='full', **k):
    """2-D linear convolution, used for the autocorrelation: assumed contract per element"""
    a, b = as_arr(a), as_arr(b)
    if k or mode != 'full' or len(a.dims) != 2: raise Unsupported('fftconvolve mode')
    fa, fb = a.getter(), b.getter()
    D, E_ = a.dims, b.dims
    dims = tuple(arith('-', arith('+', x, y), z3.IntVal(1)) for x, y in zip(D, E_))
    def fn(i):
        def inside(p): return And(*[And(i[k] - p[k] >= 0, i[k] - p[k] < E_[k]) for k in range(2)])
        def body(p):
            q = tuple(arith('-', i[k], p[k]) for k in range(2))
            v = lift(fa(p)) * lift(fb(q))
            return SNum(If(inside(p), toreal(v.t), z3.RealVal(0)), v.nan)
        return A.ssum(D, None, body)
    eng().assumed.add('fftconvolve: linear convolution sum')
    return SArr.new(dims, fn, 'f')

def griddata(points, values, xi, method='linear', **k):
    """assumed contract of nearest interpolation: each result is the value of an input point; exact at the input points"""
    values = as_arr(values)
    e = eng()
    cols = points.cols if isinstance(points, SMat) else None
    if isinstance(points, SArr): cols = [points]
    if isinstance(points, tuple): cols = [as_arr(p) for p in points]
    if cols is None or k: raise Unsupported('griddata')
    xs = [as_arr(x) for x in (xi if isinstance(xi, (tuple, list)) else [xi])]
    out = xs[0].dims; kd = 'f'
    r, ent, new = fun_array('griddata_' + str(method), [*cols, values], (), out, 'f', (str(method),))
    # result depends on the query coordinates as well: only sound when they are recorded
    xg = [x.getter() for x in xs]
    with e.binder(len(out)) as bv: key = tuple(e.canon(toreal(lift(g(bv)).t)).get_id() for g in xg)
    if ent.setdefault('xi', key) != key: raise Unsupported('griddata on two query grids')
    f = r.getter(); vg = values.getter(); g = values.guard; D = values.dims; cg = [c.getter() for c in cols]
    if method == 'nearest':
        if e.branch(Not(A.sexists(D, g, lambda i: TRUE))): raise ValueError('No points given')
        srcs = [z3.Function(f'gd_src!{ent["n"]}_{k}', *[I for _ in out], I) for k in range(len(D))]
        if new:
            dist = lambda o, p: sum([(lambda d: d * d)(toreal(lift(a(o)).t) - toreal(lift(c(p)).t)) for a, c in zip(xg, cg)], z3.RealVal(0))
            def src(o):
                p = tuple(s(*o) for s in srcs)
                return Implies(A.in_range(o, out), And(A.in_range(p, D), TRUE if g is None else g(p), toreal(lift(f(o)).t) == toreal(lift(vg(p)).t)))
            e.forall(len(out), src)
            ent['near'] = True
            # no measured point is nearer than the chosen one
            def nearer(o, p):
                s = tuple(x(*o) for x in srcs)
                return Implies(And(A.in_range(o, out), A.in_range(p, D), TRUE if g is None else g(p)), dist(o, s) <= dist(o, p))
            e.forall((len(out), len(D)), nearer)
            e.assumed.add('griddata(nearest): value of a data point at minimal distance')
        e.gd = (srcs, ent)
    else:
        if new:
            def exact(o, p):
                same = And(*[toreal(lift(a(o)).t) == toreal(lift(c(p)).t) for a, c in zip(xg, cg)])
                r_, v_ = lift(f(o)), lift(vg(p))
                return Implies(And(A.in_range(o, out), A.in_range(p, D), TRUE if g is None else g(p), same), And(toreal(r_.t) == toreal(v_.t), r_.nan == v_.nan))
            e.forall((len(out), len(D)), exact)
        e.assumed.add('griddata (linear, cubic): interpolates, that is, takes the value of every data point at that point')
    return r

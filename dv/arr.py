"""Symbolic numpy arrays: unbounded symbolic shape, element function over symbolic indices, views on shared storage."""
import itertools
from . import core
from .core import *
from .core import _pick, _np
import z3

def I_(x):
    """z3 Int term of an integer-like"""
    if isinstance(x, (bool, _np.bool_)): return z3.IntVal(int(x))
    if isinstance(x, (int, _np.integer)): return z3.IntVal(int(x))
    if isinstance(x, SNum):
        if x.isint: return x.t
        raise TypeError("'float' object cannot be interpreted as an integer")
    if z3.is_expr(x): return x
    if isinstance(x, SArr) and x.nd() == 0: return I_(x.item())
    raise TypeError(f'{type(x).__name__} cannot be interpreted as an integer')

def pyint(t):
    v = numval(t)
    return v if v is not None else SNum(t)

def simp(t):
    return z3.simplify(t)

def dim_eq(a, b):
    if a.eq(b): return True
    x, y = numval(a), numval(b)
    if x is not None and y is not None: return x == y
    d = simp(a - b)
    v = numval(d)
    if v is not None: return v == 0
    return None

def same_dim(a, b):
    r = dim_eq(a, b)
    if r is not None: return r
    return eng().branch(a == b)

def in_range(idx, dims):
    return And(*[And(compare('>=', i, z3.IntVal(0)), compare('<', i, d)) for i, d in zip(idx, dims)])

def iprod(dims):
    r = z3.IntVal(1)
    for d in dims: r = arith('*', r, d)
    return r

class Buf:
    __slots__ = ('fn', 'dims', 'kind', 'writeable', 'dtype')
    def __init__(self, dims, fn, kind, writeable=True, dtype=None):
        self.dims = tuple(dims); self.kind = kind; self.writeable = writeable
        self.fn = memo(fn)
        self.dtype = _np.dtype(dtype) if dtype is not None else _np.dtype({'f': 'float64', 'i': 'int64', 'b': 'bool', 'c': 'complex128'}[kind])

def memo(fn):
    cache = {}
    def g(idx):
        k = tuple(i.get_id() for i in idx)
        h = cache.get(k)
        if h is not None and all(a.eq(b) for a, b in zip(h[0], idx)): return h[1]
        v = fn(idx)
        cache[k] = (idx, v)
        return v
    return g

class SArr(SArrBase):
    """view of a Buf.  axes: per buffer axis ('fix', t) or ('sl', view_axis, start, step).
    guard: None, or predicate over the iteration index selecting the elements of a flattened (1-D) array.
    flat: the visible array is the C-order flattening of the iteration domain."""
    __array_ufunc__ = None
    __array_priority__ = 2000
    def __init__(self, buf, dims=None, axes=None, guard=None, flat=False, ro=False):
        self.buf = buf
        self.dims = tuple(dims) if dims is not None else buf.dims
        self.axes = axes if axes is not None else [('sl', k, None, 1) for k in range(len(buf.dims))]
        self.guard = guard; self.isflat = flat or guard is not None; self.ro = ro
    # ---- construction
    @classmethod
    def new(cls, dims, fn, kind='f', guard=None, flat=False, dtype=None):
        return cls(Buf([I_(d) for d in dims], fn, kind, dtype=dtype), guard=guard, flat=flat)
    @property
    def kind(self): return self.buf.kind
    @property
    def dtype(self): return self.buf.dtype
    def nd(self): return 1 if self.isflat else len(self.dims)
    def plain(self): return not self.isflat
    def getter(self):
        """snapshot of the current element function over the iteration domain"""
        f = self.buf.fn
        ident = all(a[0] == 'sl' and a[1] == k and a[2] is None and a[3] == 1 for k, a in enumerate(self.axes))
        if ident and len(self.axes) == len(self.dims): return f
        axes = list(self.axes)
        def g(idx):
            return f(tuple(self._b(a, idx) for a in axes))
        return g
    @staticmethod
    def _b(a, idx):
        if a[0] == 'fix': return a[1]
        _, k, st, step = a
        r = idx[k]
        if not isinstance(step, int): r = arith('*', r, step)
        elif step != 1: r = arith('*', r, z3.IntVal(step))
        if st is not None: r = arith('+', r, st)
        return r
    def elem(self, idx): return self.getter()(tuple(idx))
    def gterm(self, idx): return TRUE if self.guard is None else self.guard(tuple(idx))
    # ---- attributes
    @property
    def shape(self):
        if self.isflat: return (self.size,)
        return tuple(pyint(d) for d in self.dims)
    @property
    def ndim(self): return self.nd()
    @property
    def size(self):
        if self.guard is None: return pyint(iprod(self.dims))
        return count(self)
    def __slen__(self):
        if self.nd() == 0: raise TypeError('len() of unsized object')
        return self.shape[0]
    def __len__(self):
        n = self.__slen__()
        if isinstance(n, int): return n
        raise Unsupported('len() of symbolic array outside patched module')
    def __iter__(self):
        if self.isflat or numval(self.dims[0]) is None: raise Unsupported('iteration over an array of symbolic length')
        for k in range(numval(self.dims[0])): yield self[k]
    @property
    def T(self):
        if self.isflat or len(self.dims) == 1: return self
        n = len(self.dims)
        return SArr(self.buf, self.dims[::-1], [a if a[0] == 'fix' else ('sl', n - 1 - a[1], a[2], a[3]) for a in self.axes], ro=self.ro)
    def transpose(self, *a):
        if a and a not in ((1, 0), ((1, 0),)): raise Unsupported('transpose with axes')
        return self.T
    class _Flags:
        def __init__(s, a): s.a = a
        @property
        def writeable(s): return s.a.buf.writeable and not s.a.ro
        @writeable.setter
        def writeable(s, v):
            if v and not s.a.buf.writeable: raise ValueError('cannot set WRITEABLE flag to True of this array')
            s.a.ro = not v
        def __getitem__(s, k): return getattr(s, k.lower())
        def __setitem__(s, k, v): setattr(s, k.lower(), v)
    @property
    def flags(self): return SArr._Flags(self)
    def setflags(self, write=None):
        if write is not None: self.flags.writeable = write
    def view(self, *a): return SArr(self.buf, self.dims, self.axes, self.guard, self.isflat, self.ro)
    def copy(self, *a, **k): return SArr.new(self.dims, self.getter(), self.kind, self.guard, self.isflat, self.dtype)
    __copy__ = copy
    def __deepcopy__(self, m): return self.copy()
    def ravel(self, *a):
        r = self.view(); r.isflat = True if len(self.dims) != 1 else self.isflat
        return r
    def flatten(self, *a):
        r = self.copy(); r.isflat = True if len(self.dims) != 1 else self.isflat
        return r
    flat_ = ravel
    def item(self, *a):
        if not a and len(self.dims) == 0: return self.elem(())
        raise Unsupported('item()')
    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)): shape = tuple(shape[0])
        if self.guard is not None: raise Unsupported('reshape of a masked selection')
        if len(shape) == 1 and isinstance(shape[0], int) and shape[0] == -1: return self.ravel()
        sh = [I_(s) for s in shape]
        if len(sh) == len(self.dims) and all(same_dim(a, b) for a, b in zip(sh, self.dims)):
            r = self.view(); r.isflat = False
            return r
        # insertion / removal of unit axes
        a = [d for d in sh if numval(d) != 1]; b = [d for d in self.dims if numval(d) != 1]
        if len(a) == len(b) and all(same_dim(x, y) for x, y in zip(a, b)):
            f = self.getter(); keep = [numval(d) != 1 for d in sh]; mk = [numval(d) != 1 for d in self.dims]
            def g(idx):
                it = iter([i for i, k in zip(idx, keep) if k])
                return f(tuple(next(it) if k else z3.IntVal(0) for k in mk))
            return SArr.new(sh, g, self.kind)
        if len(sh) == 1: # flattening with known size
            if same_dim(sh[0], iprod(self.dims)): return self.ravel()
            raise ValueError('cannot reshape array')
        if len(self.dims) == 1 and len(sh) == 2 and not self.isflat:
            f = self.getter()
            if not same_dim(self.dims[0], iprod(sh)): raise ValueError('cannot reshape array')
            return SArr.new(sh, lambda ix: f((arith('+', arith('*', ix[0], sh[1]), ix[1]),)), self.kind)
        raise Unsupported('reshape')
    def astype(self, t, **k):
        kd = _np.dtype(pytype(t)).kind
        f = self.getter()
        if kd == 'f':
            return SArr.new(self.dims, lambda i: (lambda v: SNum(toreal(v.t), v.nan))(lift(f(i))), 'f', self.guard, self.isflat, dtype=pytype(t))
        if kd in 'iu':
            if self.kind == 'f' and getattr(core.ENG, 'narrow', None) is not None: core.ENG.narrow.append((_np.dtype(pytype(t)), self.copy()))
            if self.kind == 'f': return SArr.new(self.dims, lambda i: trunc(f(i)), 'i', self.guard, self.isflat, dtype=pytype(t))
            return SArr.new(self.dims, lambda i: lift(f(i)), 'i', self.guard, self.isflat, dtype=pytype(t))
        if kd == 'b':
            return SArr.new(self.dims, lambda i: SBool(bterm(f(i))), 'b', self.guard, self.isflat)
        raise Unsupported(f'astype {t}')
    def tolist(self): return [x.tolist() if isinstance(x, SArr) else x for x in self]
    def squeeze(self, *a):
        sh = [d for d in self.dims if numval(d) != 1]
        return self.reshape(*[pyint(d) for d in sh])
    # ---- reductions
    def sum(self, axis=None, **k): return red_sum(self, axis, **k)
    def mean(self, axis=None, **k): return red_mean(self, axis, **k)
    def min(self, axis=None, **k): return red_ext(self, 'min', axis)
    def max(self, axis=None, **k): return red_ext(self, 'max', axis)
    def std(self, axis=None, ddof=0, **k): return ssqrt_(red_var(self, axis, ddof))
    def var(self, axis=None, ddof=0, **k): return red_var(self, axis, ddof)
    def any(self, axis=None): return red_any(self, axis)
    def all(self, axis=None): return red_all(self, axis)
    def round(self, n=0): return umap(lambda v: sround(v, n) if n is not None else v, self, 'f' if self.kind == 'f' else 'i')
    def argmin(self, axis=None): return red_arg(self, 'min')
    def argmax(self, axis=None): return red_arg(self, 'max')
    def clip(self, lo, hi): return bmap(lambda v, l, h: smin(smax(v, l), h), self.kind, self, lo, hi)
    def dot(self, o): return dot(self, o)
    def nonzero(self): return nonzero(self)
    def sort(self): raise Unsupported('in-place sort')
    def fill(self, v): self[...] = v
    # ---- elementwise
    def _bin(s, o, op, rev=False):
        if isinstance(o, (str, type(None), dict)) or (isinstance(o, (tuple,)) and False): return NotImplemented
        if not isinstance(o, (SArr, SNum, SBool, int, float, _np.generic, _np.ndarray, list, tuple, Frac)): return NotImplemented
        a, b = (o, s) if rev else (s, o)
        k = rkind(op, a, b)
        def f(x, y):
            x, y = lift(x), lift(y)
            r = x._bin(y, op)
            if k == 'f' and r.isint: r = SNum(toreal(r.t), r.nan)
            return r
        return bmap(f, k, a, b)
    def __add__(s, o): return s._bin(o, '+') if s.kind != 'b' or not isb(o) else bmap(lambda x, y: x | y, 'b', s, o)
    def __radd__(s, o): return s._bin(o, '+', True)
    def __sub__(s, o): return s._bin(o, '-')
    def __rsub__(s, o): return s._bin(o, '-', True)
    def __mul__(s, o): return s._bin(o, '*') if s.kind != 'b' or not isb(o) else bmap(lambda x, y: x & y, 'b', s, o)
    def __rmul__(s, o): return s._bin(o, '*', True)
    def __truediv__(s, o): return s._bin(o, '/')
    def __rtruediv__(s, o): return s._bin(o, '/', True)
    def __floordiv__(s, o): return s._bin(o, '//')
    def __rfloordiv__(s, o): return s._bin(o, '//', True)
    def __mod__(s, o): return s._bin(o, '%')
    def __rmod__(s, o): return s._bin(o, '%', True)
    def __pow__(s, o): return s._bin(o, '**')
    def __rpow__(s, o): return s._bin(o, '**', True)
    def _ip(s, r):
        if r is NotImplemented: return r
        if s.kind in 'ib' and r.kind == 'f': raise TypeError('cannot cast ufunc output to integer array')
        s[...] = r
        return s
    def __iadd__(s, o): return s._ip(s + o)
    def __isub__(s, o): return s._ip(s - o)
    def __imul__(s, o): return s._ip(s * o)
    def __itruediv__(s, o): return s._ip(s / o)
    def __ifloordiv__(s, o): return s._ip(s // o)
    def __ipow__(s, o): return s._ip(s ** o)
    def __neg__(s): return umap(lambda v: -lift(v), s, s.kind)
    def __pos__(s): return s.copy()
    def __abs__(s): return umap(lambda v: abs(lift(v)), s, s.kind)
    def __invert__(s):
        if s.kind != 'b': raise Unsupported('bitwise not')
        return umap(lambda v: ~v, s, 'b')
    def _log(s, o, f):
        if s.kind != 'b' or not isb(o): raise Unsupported('bitwise operation on integers')
        return bmap(f, 'b', s, o)
    def __and__(s, o): return s._log(o, lambda x, y: SBool(And(bterm(x), bterm(y))))
    __rand__ = __and__
    def __or__(s, o): return s._log(o, lambda x, y: SBool(Or(bterm(x), bterm(y))))
    __ror__ = __or__
    def __iand__(s, o): s[...] = s & o; return s
    def __ior__(s, o): s[...] = s | o; return s
    def _cmp(s, o, op):
        if o is None or isinstance(o, str): return NotImplemented
        if not isinstance(o, (SArr, SNum, SBool, int, float, _np.generic, _np.ndarray, list, tuple, Frac)): return NotImplemented
        def f(x, y):
            x, y = lift(x), lift(y)
            return x._cmp(y, op)
        return bmap(f, 'b', s, o, inf=op)
    def __lt__(s, o): return s._cmp(o, '<')
    def __le__(s, o): return s._cmp(o, '<=')
    def __gt__(s, o): return s._cmp(o, '>')
    def __ge__(s, o): return s._cmp(o, '>=')
    def __eq__(s, o): return s._cmp(o, '==')
    def __ne__(s, o):
        r = s._cmp(o, '==')
        return r if r is NotImplemented else umap(lambda v: ~v, r, 'b')
    __hash__ = None
    def __matmul__(s, o): return dot(s, o)
    def __bool__(s):
        if len(s.dims) == 0: return bool(s.item())
        if all(numval(d) == 1 for d in s.dims): return bool(s.elem(tuple(z3.IntVal(0) for _ in s.dims)))
        if not core.ENG: raise Unsupported('bool of array')
        one = And(*[d == 1 for d in s.dims])
        if eng().branch(one): return bool(s.elem(tuple(z3.IntVal(0) for _ in s.dims)))
        raise ValueError('The truth value of an array with more than one element is ambiguous')
    def __repr__(s): return f'SArr{tuple(str(d) for d in s.dims)}{"*" if s.isflat else ""}:{s.kind}'
    def __format__(s, f): return repr(s)
    # ---- indexing
    def _norm(self, key):
        """key -> list of per visible axis entries"""
        if not isinstance(key, tuple): key = (key,)
        n = len(self.dims)
        if any(k is Ellipsis for k in key):
            p = [k is Ellipsis for k in key].index(True)
            cnt = len([k for k in key if k is not Ellipsis and k is not None])
            key = key[:p] + (slice(None),) * (n - cnt) + key[p + 1:]
        return key
    def _slice(self, sl, d):
        """(start, step, length) terms for a slice of an axis of length d"""
        step = sl.step
        if step is None: step = 1
        if isinstance(step, SNum):
            v = numval(step.t)
            if v is not None: step = int(v)
        z = z3.IntVal(0)
        e = eng()
        if e.opaque_slices and step == 1 and any(isinstance(x, SNum) and numval(x.t) is None for x in (sl.start, sl.stop)):
            # any start and length within the axis, functions of the bounds: a sound generalisation without case splits
            st, sp = [e.canon(toreal(z if x is None and k == 0 else d if x is None else I_(x))) for k, x in enumerate((sl.start, sl.stop))]
            f, g = [z3.Function(nm, R, R, I, I) for nm in ('slice_start', 'slice_length')]
            s0 = f(st, sp, d); n = g(st, sp, d)
            if e.under_binder(): raise Unsupported('opaque slice under a binder')
            e.inst += [s0 >= 0, n >= 0, s0 + n <= d]
            return s0, 1, n
        def clampidx(x, lo, hi):
            t = I_(x)
            v = numval(t)
            if v is not None and v < 0: t = arith('+', d, t); neg = False
            elif v is None:
                if e.branch(compare('<', t, z)): t = t + d
            # clip to [lo, hi]
            if e.branch(compare('<', t, lo)): return lo
            if e.branch(compare('>', t, hi)): return hi
            return t
        if isinstance(step, int) and step == 0: raise ValueError('slice step cannot be zero')
        if isinstance(step, int) and step < 0:
            if sl.start is None and sl.stop is None:
                s0 = arith('-', d, z3.IntVal(1))
                if step == -1: return s0, -1, d
                return s0, step, ceildiv(d, -step)
            lo = z3.IntVal(-1); hi = arith('-', d, z3.IntVal(1))
            s0 = hi if sl.start is None else clampidx(sl.start, lo, hi)
            s1 = lo if sl.stop is None else clampidx(sl.stop, lo, hi)
            if e.branch(compare('<=', s0, s1)): return z, step, z
            n = arith('-', s0, s1)
            return s0, step, (n if step == -1 else ceildiv(n, -step))
        s0 = z if sl.start is None else clampidx(sl.start, z, d)
        s1 = d if sl.stop is None else clampidx(sl.stop, z, d)
        if not (sl.start is None and sl.stop is None):
            if e.branch(compare('<', s1, s0)): return z, 1, z
        n = arith('-', s1, s0)
        n = simp(n) if numval(s0) != 0 else n
        if isinstance(step, int):
            return s0, step, (n if step == 1 else ceildiv(n, step))
        if e.branch(compare('==', step.t, z)): raise ValueError('slice step cannot be zero')
        if e.branch(compare('<', step.t, z)): raise Unsupported('symbolic negative slice step')
        return s0, step.t, (n + step.t - 1) / step.t
    def _view(self, key):
        key = self._norm(key)
        if self.isflat:
            if len(key) == 1 and isinstance(key[0], slice) and key[0] == slice(None): return self.view()
            if self.guard is None and len(self.dims) == 1: pass
            else: raise Unsupported('indexing into a flattened selection')
        axes = {k: None for k in range(len(self.dims))}
        newdims = []; amap = {}; unit = []
        k = 0
        if len([x for x in key if x is not None]) > len(self.dims): raise IndexError('too many indices for array')
        for it in key:
            if it is None:
                newdims.append(z3.IntVal(1)); continue
            d = self.dims[k]
            if isinstance(it, slice):
                s0, step, n = self._slice(it, d)
                amap[k] = ('sl', len(newdims), s0, step); newdims.append(n)
            else:
                t = I_(it)
                v = numval(t)
                e = eng()
                if v is not None:
                    if v < 0: ok = compare('>=', d, z3.IntVal(-v)); t2 = arith('+', d, t)
                    else: ok = compare('<', t, d); t2 = t
                    if not e.branch(ok): raise IndexError('index out of bounds')
                else:
                    if e.branch(compare('<', t, z3.IntVal(0))): t2 = t + d
                    else: t2 = t
                    if not e.branch(And(t2 >= 0, t2 < d)): raise IndexError('index out of bounds')
                amap[k] = ('fix', t2)
            k += 1
        while k < len(self.dims):
            amap[k] = ('sl', len(newdims), None, 1); newdims.append(self.dims[k]); k += 1
        def comp(a):
            if a[0] == 'fix': return a
            _, ax, st, step = a
            b = amap[ax]
            if b[0] == 'fix':
                return ('fix', self._b(('sl', 0, st, step), (b[1],)))
            _, nax, st2, step2 = b
            # buf = (i*step2 + st2)*step + st
            tot = step2 * step if isinstance(step, int) and isinstance(step2, int) else arith('*', I_(step2) if isinstance(step2, int) else step2, I_(step) if isinstance(step, int) else step)
            off = None
            if st2 is not None and numval(st2) != 0:
                off = arith('*', st2, I_(step) if isinstance(step, int) else step)
            if st is not None: off = st if off is None else arith('+', off, st)
            return ('sl', nax, off, tot)
        return SArr(self.buf, newdims, [comp(a) for a in self.axes], ro=self.ro)
    def __getitem__(self, key):
        if isinstance(key, _np.ndarray): key = from_real(key)
        if isinstance(key, list): key = as_arr(key)
        if isinstance(key, SArr):
            if key.kind == 'b': return self._mask(key)
            return self._fancy((key,))
        if isinstance(key, tuple) and any(isinstance(k, (SArr, _np.ndarray, list)) for k in key):
            ks = tuple(as_arr(k) if isinstance(k, (SArr, _np.ndarray, list)) else k for k in key)
            if len(ks) == 1 and ks[0].kind == 'b': return self._mask(ks[0])
            return self._fancy(ks)
        if self.isflat and not (isinstance(key, slice) and key == slice(None)) and (self.guard is not None or len(self.dims) != 1):
            return self._flat_item(key)
        v = self._view(key)
        if len(v.dims) == 0:
            idx = tuple(a[1] for a in v.axes)
            eng().add_index(idx)
            return v.elem(())
        return v
    def _flat_item(self, key):
        if isinstance(key, slice): raise Unsupported('slice of a flattened selection')
        t = I_(key)
        n = I_(self.size) if self.guard is None else None
        if n is None: raise Unsupported('indexing a masked selection')
        e = eng()
        if e.branch(compare('<', t, z3.IntVal(0))): t = arith('+', t, n)
        if not e.branch(And(compare('>=', t, z3.IntVal(0)), compare('<', t, n))): raise IndexError('index out of bounds')
        return self.elem(unravel(t, self.dims))
    def _mask(self, m):
        if m.isflat and self.isflat or (m.plain() and self.plain()):
            if len(m.dims) != len(self.dims):
                if m.plain() and len(m.dims) < len(self.dims): raise Unsupported('row masks')
                raise IndexError('boolean index did not match')
        elif self.plain() and len(self.dims) == 1 and m.isflat: raise Unsupported('mask of flattened array')
        else: raise Unsupported('mask of different layout')
        if not all(same_dim(a, b) for a, b in zip(self.dims, m.dims)): raise IndexError('boolean index did not match indexed array')
        if not same_guard(self, m): raise Unsupported('mask over a different selection')
        g, mf, f = self.guard, m.getter(), self.getter()
        guard = memo(lambda i: And(TRUE if g is None else g(i), bterm(mf(i))))
        return SArr.new(self.dims, f, self.kind, guard=guard, dtype=self.dtype)
    def _fancy(self, key):
        e = eng()
        if self.isflat and (self.guard is not None or len(self.dims) > 1): raise Unsupported('fancy indexing of a flattened selection')
        key = self._norm(key)
        key = tuple(key) + (slice(None),) * (len(self.dims) - len(key))
        arrs = [as_arr(k) for k in key if isinstance(k, SArr)]
        # all array keys broadcast together; slices must be full
        adims, ag, aflat = bc_layout(arrs)
        first = [isinstance(k, SArr) for k in key].index(True)
        if any(not isinstance(k, SArr) and not (isinstance(k, slice) and k == slice(None)) for k in key): raise Unsupported('mixed fancy indexing')
        if sum(isinstance(k, SArr) for k in key) > 1 and not all(isinstance(k, SArr) for k in key): raise Unsupported('mixed fancy indexing')
        f = self.getter(); na = len(adims); D = self.dims
        gets = [bc_get(a, adims) for a in arrs]
        # bounds
        for g, d in zip(gets, [d for d, k in zip(D, key) if isinstance(k, SArr)]):
            ok = all_over(adims, ag, lambda i: (lambda v: And(compare('>=', v, -d), compare('<', v, d)))(I_(g(i))))
            if not e.branch(ok): raise IndexError('index out of bounds')
        nonneg = {}
        for g, (k, d) in zip(gets, [(k, d) for k, (d, q) in enumerate(zip(D, key)) if isinstance(q, SArr)]):
            nonneg[d.get_id()] = nonneg.get(d.get_id(), True) and e.quick(all_over(adims, ag, lambda i: compare('>=', I_(g(i)), z3.IntVal(0))))
        def wrap(v, d):
            v = I_(v)
            x = numval(v)
            if x is not None: return arith('+', d, v) if x < 0 else v
            if nonneg.get(d.get_id()): return v
            return If(compare('<', v, z3.IntVal(0)), arith('+', v, d), v)
        if all(isinstance(k, SArr) for k in key):
            fn = lambda i: f(tuple(wrap(g(i), d) for g, d in zip(gets, D)))
            return SArr.new(adims, fn, self.kind, guard=ag, flat=aflat)
        if ag is not None or aflat and na > 1: raise Unsupported('fancy indexing with selection')
        dims = list(D[:first]) + list(adims) + list(D[first + 1:])
        def fn(i):
            pre, mid, post = i[:first], i[first:first + na], i[first + na:]
            return f(tuple(pre) + (wrap(gets[0](tuple(mid)), D[first]),) + tuple(post))
        return SArr.new(dims, fn, self.kind)
    def __setitem__(self, key, val):
        if not (self.buf.writeable and not self.ro): raise ValueError('assignment destination is read-only')
        if isinstance(val, (list, tuple, _np.ndarray)): val = as_arr(val)
        if isinstance(key, (_np.ndarray, list)): key = as_arr(key)
        if self.isflat and len(self.dims) != 1 or self.guard is not None:
            if not (isinstance(key, slice) and key == slice(None) or key is Ellipsis or isinstance(key, SArr) and key.kind == 'b'): raise Unsupported('assignment into a flattened selection')
        if isinstance(key, tuple) and len(key) == 1 and isinstance(key[0], SArr): key = key[0]
        if isinstance(key, SArr) and key.kind == 'b':
            tgt = self
            if len(key.dims) != len(self.dims) or not all(same_dim(a, b) for a, b in zip(self.dims, key.dims)): raise IndexError('boolean index did not match')
            mf = key.getter(); cond = lambda i: bterm(mf(i))
            if isinstance(val, SArr) and len(val.dims):
                if val.guard is None: raise Unsupported('masked assignment from unselected array')
                if not all(same_dim(a, b) for a, b in zip(self.dims, val.dims)): raise ValueError('NumPy boolean array indexing assignment mismatch')
                vg = val.guard
                if not eng().branch(all_over(self.dims, None, lambda i: cond(i) == vg(i))): raise Unsupported('masked assignment from a different selection')
                vf = val.getter()
            else: vf = const_get(val)
        else:
            if isinstance(key, tuple) and any(isinstance(k, SArr) for k in key) or isinstance(key, SArr):
                raise Unsupported('fancy assignment')
            tgt = self.view() if key is Ellipsis or (isinstance(key, slice) and key == slice(None)) else self._view(key)
            cond = None
            if isinstance(val, SArr) and len(val.dims):
                if val.guard is not None and not same_guard(tgt, val): raise Unsupported('assignment from selection')
                vd, _, _ = bc_layout([SArr(Buf(tgt.dims, lambda i: SNum(z3.IntVal(0)), 'i'), flat=tgt.isflat, guard=tgt.guard), val])
                vf = bc_get(val, tgt.dims)
            else: vf = const_get(val)
        kd = self.kind
        def cast(v):
            if kd == 'f':
                v = lift(v); return SNum(toreal(v.t), v.nan)
            if kd == 'i':
                v = lift(v)
                if v.isint: return v
                return trunc(v)
            if kd == 'b': return SBool(bterm(v))
            return v
        old = self.buf.fn; axes = list(tgt.axes); dims = tgt.dims; nd = len(dims)
        tg = tgt.guard
        def fn(b):
            conds = []; idx = [None] * nd
            for x, a, bd in zip(b, axes, self.buf.dims):
                if a[0] == 'fix': conds.append(compare('==', x, a[1]))
                else:
                    _, k, st, step = a
                    i = x if st is None or numval(st) == 0 else arith('-', x, st)
                    if isinstance(step, int):
                        if step == -1: i = arith('-', z3.IntVal(0), i)
                        elif step != 1:
                            if step < 0: i = -i
                            conds.append(simp(i % abs(step) == 0)); i = simp(i / abs(step))
                    else:
                        conds.append(i % step == 0); i = i / step
                    idx[k] = i
                    if not (st is None and step == 1 and dims[k].eq(bd)): conds.append(in_range((i,), (dims[k],)))
            # view axes not mapped (newaxis) have index 0
            idx = tuple(z3.IntVal(0) if i is None else i for i in idx)
            c = And(*[simp(c) for c in conds])
            if is_false(c): return old(b)
            if cond is not None: c = And(c, cond(idx))
            if tg is not None: c = And(c, tg(idx))
            if is_false(c): return old(b)
            return sel(c, cast(vf(idx)), old(b))
        self.buf.fn = memo(fn)

def sel(c, a, b):
    if isinstance(a, SBool) or isinstance(b, SBool): return SBool(If(c, bterm(a), bterm(b)))
    return sif(SBool(c), a, b)

def ceildiv(n, k):
    v = numval(n)
    if v is not None: return z3.IntVal(-(-v // k))
    return (n + (k - 1)) / k

def unravel(t, dims):
    if len(dims) == 1: return (t,)
    out = []
    for d in dims[:0:-1]:
        out.append(t % d); t = t / d
    out.append(t)
    return tuple(out[::-1])

def pytype(t):
    if hasattr(t, '_py'): return t._py
    return t

def trunc(v):
    v = lift(v)
    if v.isint: return v
    x = numval(v.t)
    if x is not None: return SNum(z3.IntVal(int(x)))
    return SNum(If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))

def isb(o):
    return isinstance(o, (SBool, bool, _np.bool_)) or getattr(o, 'kind', None) == 'b' or (isinstance(o, _np.ndarray) and o.dtype.kind == 'b')

def kind_of(x):
    if isinstance(x, SArr): return x.kind
    if isinstance(x, SNum): return 'i' if x.isint else 'f'
    if isb(x): return 'b'
    if isinstance(x, (int, _np.integer)): return 'i'
    if isinstance(x, _np.ndarray): return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'c': 'c'}[x.dtype.kind]
    if isinstance(x, (list, tuple)): return as_arr(x).kind
    return 'f'

def rkind(op, a, b):
    ka, kb = kind_of(a), kind_of(b)
    if 'c' in (ka, kb): raise Unsupported('complex arithmetic')
    if op == '/': return 'f'
    if 'f' in (ka, kb): return 'f'
    return 'i'

def from_real(a):
    a = _np.asarray(a)
    if a.dtype.kind not in 'fiub': raise Unsupported(f'array of dtype {a.dtype}')
    kd = 'i' if a.dtype.kind == 'u' else a.dtype.kind
    if a.size > 5000: raise Unsupported('large literal array')
    def fn(idx):
        vs = [numval(i) for i in idx]
        def mk(x):
            x = x.item() if hasattr(x, 'item') else x
            return SBool(bool(x)) if kd == 'b' else lift(float(x) if kd == 'f' else int(x))
        if all(v is not None for v in vs): return mk(a[tuple(vs)])
        if a.size > 200: raise Unsupported('symbolic index into large literal array')
        r = None
        for ix in _np.ndindex(*a.shape):
            v = mk(a[ix])
            r = v if r is None else sel(And(*[i == int(k) for i, k in zip(idx, ix)]), v, r)
        if r is None: raise Unsupported('empty literal array')
        return r
    return SArr.new([z3.IntVal(n) for n in a.shape], fn, kd, dtype=a.dtype)

def as_arr(x):
    if isinstance(x, SArr): return x
    if isinstance(x, _np.ndarray): return from_real(x)
    if isinstance(x, (list, tuple)):
        if not any(has_sym(y) for y in x): return from_real(_np.array(x))
        items = [as_arr(y) if isinstance(y, (list, tuple, SArr, _np.ndarray)) else y for y in x]
        if any(isinstance(y, SArr) for y in items):
            return stack(items)
        kd = 'f' if any(kind_of(y) == 'f' for y in items) else ('b' if all(kind_of(y) == 'b' for y in items) else 'i')
        items = [y if kd == 'b' else SNum(toreal(lift(y).t), lift(y).nan) if kd == 'f' else lift(y) for y in items]
        def fn(idx):
            v = numval(idx[0])
            if v is not None: return items[v]
            r = items[-1]
            for k, y in reversed(list(enumerate(items[:-1]))): r = sel(idx[0] == k, y, r)
            return r
        return SArr.new([z3.IntVal(len(items))], fn, kd)
    if isinstance(x, (SNum, SBool, int, float, bool, _np.generic, Frac)):
        v = x if isinstance(x, (SNum, SBool)) else (SBool(bool(x)) if isb(x) else lift(x))
        return SArr.new([], lambda i: v, kind_of(v))
    raise Unsupported(f'array from {type(x).__name__}')

def stack(items):
    items = [as_arr(y) for y in items]
    d0 = items[0].dims
    for y in items[1:]:
        if len(y.dims) != len(d0) or not all(same_dim(a, b) for a, b in zip(y.dims, d0)): raise ValueError('inhomogeneous shape')
    if any(y.isflat for y in items): raise Unsupported('stack of selections')
    gs = [y.getter() for y in items]
    kd = 'f' if any(y.kind == 'f' for y in items) else items[0].kind
    def fn(idx):
        v = numval(idx[0])
        if v is not None: return gs[v](tuple(idx[1:]))
        r = gs[-1](tuple(idx[1:]))
        for k, g in reversed(list(enumerate(gs[:-1]))): r = sel(idx[0] == k, g(tuple(idx[1:])), r)
        return r
    return SArr.new([z3.IntVal(len(items))] + list(d0), fn, kd)

def has_sym(x):
    if isinstance(x, (SArr, SNum, SBool)): return True
    if isinstance(x, (list, tuple)): return any(has_sym(y) for y in x)
    if isinstance(x, dict): return any(has_sym(y) for y in x.values())
    if isinstance(x, slice): return any(has_sym(y) for y in (x.start, x.stop, x.step))
    return False

def const_get(v):
    if isinstance(v, SArr): v = v.item()
    if not isinstance(v, (SNum, SBool)): v = SBool(bool(v)) if isb(v) else lift(v)
    return lambda i: v

def same_guard(a, b):
    if a.guard is b.guard: return True
    if a.guard is None or b.guard is None: return False
    e = eng()
    with e.binder(len(a.dims)) as bv:
        x, y = simp(a.guard(bv)), simp(b.guard(bv))
    if x.eq(y): return True
    return e.pointwise(a.dims, bv, x == y)

def bc_layout(arrs):
    """common iteration dims, guard and flat flag of broadcast operands"""
    sel_ = [a for a in arrs if a.isflat]
    if sel_:
        base = sel_[0]
        for a in arrs:
            if len(a.dims) == 0: continue
            if not a.isflat:
                if len(a.dims) == 1 and numval(a.dims[0]) == 1: continue
                if len(base.dims) == 1 and base.guard is None and len(a.dims) == 1:
                    if not same_dim(a.dims[0], base.dims[0]): raise ValueError('operands could not be broadcast together')
                    continue
                raise Unsupported('broadcast of a selection with a plain array')
            if len(a.dims) != len(base.dims) or not all(same_dim(x, y) for x, y in zip(a.dims, base.dims)): raise Unsupported('selections over different domains')
            if not same_guard(a, base): raise Unsupported('selections with different guards')
        return base.dims, base.guard, True
    n = max(len(a.dims) for a in arrs) if arrs else 0
    dims = []
    for k in range(n):
        cur = z3.IntVal(1)
        for a in arrs:
            j = k - (n - len(a.dims))
            if j < 0: continue
            d = a.dims[j]
            if numval(d) == 1: continue
            if numval(cur) == 1: cur = d; continue
            if dim_eq(cur, d): 
                continue
            e = eng()
            if e.branch(cur == d): continue
            if e.branch(d == 1): continue
            if e.branch(cur == 1): cur = d; continue
            raise ValueError('operands could not be broadcast together with shapes')
        dims.append(cur)
    return tuple(dims), None, False

def bc_get(a, dims):
    f = a.getter(); n = len(dims); m = len(a.dims)
    if m == 0:
        v = f(())
        return lambda i: v
    unit = []
    for j in range(m):
        d = a.dims[j]; t = dims[j + n - m]
        unit.append(numval(d) == 1 and numval(t) != 1)
        if not unit[-1] and not d.eq(t) and dim_eq(d, t) is None:
            # either equal on this path or broadcast from a symbolic 1
            if not eng().branch(d == t): unit[-1] = True
    if n == m and not any(unit): return f
    return lambda i: f(tuple(z3.IntVal(0) if u else x for u, x in zip(unit, i[n - m:])))

def bmap(fn, kind, *xs, inf=None):
    """broadcast elementwise map"""
    xs2 = []
    for x in xs:
        if inf and isinstance(x, (float, _np.floating)) and _np.isinf(x):
            xs2.append(x); continue
        xs2.append(as_arr(x))
    arrs = [x for x in xs2 if isinstance(x, SArr)]
    dims, guard, flat = bc_layout(arrs)
    gets = [bc_get(x, dims) if isinstance(x, SArr) else (lambda i, x=x: x) for x in xs2]
    if len(dims) == 0 and not flat:
        if inf and any(isinstance(x, float) for x in xs2): return lift(gets[0](()))._cmp(gets[1](()), inf)
        return fn(*[g(()) for g in gets])
    if inf and any(isinstance(x, float) for x in xs2):
        f = lambda i: lift(gets[0](i))._cmp(gets[1](i), inf) if isinstance(xs2[1], float) else lift(gets[1](i))._cmp(gets[0](i), {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '=='}[inf])
    else: f = lambda i: fn(*[g(i) for g in gets])
    return SArr.new(dims, f, kind, guard=guard, flat=flat, dtype=_np.float32 if kind == 'f' and single(xs) else None)

def single(xs):
    """single precision arrays combined with plain Python numbers stay single precision"""
    arrs = [x for x in xs if isinstance(x, (SArr, _np.ndarray)) and x.ndim]
    return bool(arrs) and all(x.dtype == _np.float32 for x in arrs) and all(type(x) in (int, float, bool) or isinstance(x, (SArr, _np.ndarray)) and x.ndim for x in xs)

def umap(fn, a, kind):
    if isinstance(a, (list, tuple, _np.ndarray)): a = as_arr(a)
    if not isinstance(a, SArr): return fn(a if isinstance(a, (SNum, SBool)) else lift(a))
    g = a.getter()
    return SArr.new(a.dims, lambda i: fn(g(i)), kind, guard=a.guard, flat=a.isflat)

def nan_free(a):
    """is no element of a missing (syntactically)"""
    with eng().binder(len(a.dims)) as bv:
        v = a.getter()(bv)
        if isinstance(v, SBool): return True
        n = simp(And(v.nan, a.gterm(bv)))
    return is_false(n)

# ---------------------------------------------------------------------------------------------- reductions
def split_axis(a, axis):
    if isinstance(axis, tuple): raise Unsupported('tuple axis')
    if isinstance(axis, SNum): axis = numval(axis.t)
    if a.isflat:
        if axis in (0, -1): return None
        raise Unsupported('axis of selection')
    if axis < 0: axis += len(a.dims)
    if not 0 <= axis < len(a.dims): raise ValueError('axis out of bounds')
    if len(a.dims) == 1: return None
    return axis

def along(a, axis, red, kind='f'):
    """reduce along one axis with red(dims, guard, fn)"""
    g = a.getter(); d = a.dims[axis]
    dims = a.dims[:axis] + a.dims[axis + 1:]
    return SArr.new(dims, lambda i: red((d,), None, lambda j: g(tuple(i[:axis]) + tuple(j) + tuple(i[axis:]))), kind)

def red_sum(a, axis=None, keepdims=False, where=None, dtype=None, skipnan=False):
    if keepdims or where is not None: raise Unsupported('sum options')
    a = as_arr(a)
    if axis is not None: axis = split_axis(a, axis)
    one = ssum
    if a.kind == 'b':
        def one(d, g, f, skipnan): return scount(d, memo(lambda i: And(TRUE if g is None else g(i), bterm(f(i)))))
    if axis is None: return one(a.dims, a.guard, a.getter(), skipnan)
    return along(a, axis, lambda d, g, f: one(d, g, f, skipnan), 'i' if a.kind == 'b' else 'f')

def red_mean(a, axis=None, keepdims=False, skipnan=False, **k):
    a = as_arr(a)
    if axis is not None: axis = split_axis(a, axis)
    if axis is None: return smean(a.dims, a.guard, a.getter(), skipnan)
    r = along(a, axis, lambda d, g, f: smean(d, g, f, skipnan))
    return r

def red_var(a, axis=None, ddof=0, skipnan=False):
    a = as_arr(a)
    if axis is not None: axis = split_axis(a, axis)
    def one(d, g, f):
        if skipnan: g = nn_guard(g, f)
        m = smean(d, g, f)
        n = scount(d, g)
        return ssum(d, g, lambda i: (lift(f(i)) - m) ** 2) / (n - ddof)
    if axis is None: return one(a.dims, a.guard, a.getter())
    return along(a, axis, one)

def ssqrt_(x):
    return umap(ssqrt, x, 'f') if isinstance(x, SArr) else ssqrt(x)

def red_ext(a, which, axis=None, skipnan=False):
    a = as_arr(a)
    if axis is not None: axis = split_axis(a, axis)
    if axis is None: return sext(a.dims, a.guard, a.getter(), which, skipnan)
    return along(a, axis, lambda d, g, f: sext(d, g, f, which, skipnan), a.kind)

def red_any(a, axis=None):
    a = as_arr(a)
    if axis is not None: axis = split_axis(a, axis)
    f = a.getter()
    if axis is None: return SBool(sexists(a.dims, a.guard, lambda i: bterm(f(i))))
    return along(a, axis, lambda d, g, f: SBool(sexists(d, g, lambda i: bterm(f(i)))), 'b')

def red_all(a, axis=None):
    a = as_arr(a)
    if axis is not None: axis = split_axis(a, axis)
    f = a.getter()
    if axis is None: return SBool(all_over(a.dims, a.guard, lambda i: bterm(f(i))))
    return along(a, axis, lambda d, g, f: SBool(all_over(d, g, lambda i: bterm(f(i)))), 'b')

def nn_guard(g, f):
    return memo(lambda i: And(TRUE if g is None else g(i), Not(lift(f(i)).nan)))

def count(a): return scount(a.dims, a.guard)

def scount(dims, guard):
    if guard is None and len(dims) == 1 and numval(dims[0]) is None and not eng().under_binder() and dims[0].num_args() > 0:
        n = eng().concretize(dims[0])
        if n is not None: return SNum(z3.IntVal(n))
    if guard is None: return SNum(iprod(dims))
    with eng().binder(len(dims)) as bv:
        g = norm_guard(guard, bv)
        if g is None: return SNum(iprod(dims))
        if is_false(g): return SNum(z3.IntVal(0))
        if all(numval(d) is not None for d in dims) and not mentions(g, {b.get_id() for b in bv}):
            return SNum(If(g, iprod(dims), z3.IntVal(0)))
        t = sum_atom(dims, g, (), bv, None)
    return SNum(t.arg(0) if z3.is_app_of(t, z3.Z3_OP_TO_REAL) else z3.ToInt(t))

def smean(dims, guard, f, skipnan=False):
    if skipnan: guard = nn_guard(guard, f)
    n = scount(dims, guard)
    e = eng()
    s = ssum(dims, guard, f)
    r = s / n
    if guard is None:
        if not all(toreal(I_(d)).get_id() in Poly._pos for d in dims) and not (len(dims) > 1 and all(e.quick(I_(d) > 0) for d in dims)) and not e.quick(toreal(n.t) > 0): r = SNum(r.t, Or(r.nan, n.t == 0))
    else:
        ne = sexists(dims, guard, lambda i: TRUE)
        if e.under_binder() or not e.quick(ne): r = SNum(r.t, Or(r.nan, Not(ne)))
    return r

def norm_guard(guard, bv):
    if guard is None: return None
    g = simp(guard(bv))
    if is_true(g): return None
    return g

def idx_syms(terms, own):
    """index symbols (bound variables, skolems, witnesses) occurring in terms, in order of first occurrence"""
    e = eng(); out = []
    ids = e._idxsyms
    seen = set(); st = list(reversed([t for t in terms if t is not None]))
    while st:
        t = st.pop(); k = t.get_id()
        if k in seen: continue
        seen.add(k)
        if t.num_args() == 0:
            if k in ids and k not in own: out.append(t)
            continue
        st.extend(reversed(t.children()))
    return out

_O = [z3.Const(f'o_{k}', I) for k in range(8)]
_P = [z3.Const(f'p_{k}', I) for k in range(12)]

def register(kind, dims, guard, bodies, bv, params=(), nout=1, sort=R, extra=()):
    """term(s) denoting kind(dims, guard, bodies, params), congruent in everything.
    returns (terms, entry, args, new, closed)"""
    e = eng()
    own = {b.get_id() for b in bv}
    terms = list(bodies) + [guard] + list(dims) + list(params)
    par = idx_syms(terms, own)
    if len(par) > len(_P): raise Unsupported('too many index symbols')
    sub = list(zip(bv, _O)) + list(zip(par, _P))
    def S(t):
        if t is None: return None
        t = z3.substitute(t, *sub) if sub else t
        return e.canon(t) if t.sort() == R else simp(t)
    ct = [S(t) for t in terms]
    key = (kind, len(dims), len(bodies), nout, tuple(t.get_id() if t is not None else None for t in ct), tuple(extra))
    ent = e.red.get(key)
    if ent is None:
        n = len(e.red)
        nb, nd = len(bodies), len(dims)
        fns = [z3.Function(f'{kind}!{n}_{k}', *[I for _ in par], sort) for k in range(nout)] if par else [z3.Const(f'{kind}!{n}_{k}', sort) for k in range(nout)]
        ent = dict(kind=kind, n=n, bodies=ct[:nb], guard=ct[nb], dims=ct[nb + 1:nb + 1 + nd], params=ct[nb + 1 + nd:], fns=fns, npar=len(par), extra=tuple(extra), keep=ct, arrs={})
        e.red[key] = ent
        for f in fns: e._by_fn[f.name() if par else f.decl().name()] = ent
    ts = [f(*par) if par else f for f in ent['fns']]
    ak = (ent['n'], tuple(x.get_id() for x in par))
    new = ak not in e.apps
    if new:
        e.apps[ak] = (ent, par, ts)
        for t in ts: e.red_by_term[t.get_id()] = (ent, par, t)
    closed = not any(x.get_id() in e._bvids for x in par)
    return ts, ent, par, new, closed

def ssum(dims, guard, f, skipnan=False):
    e = eng()
    if skipnan: guard = nn_guard(guard, f)
    if guard is None and len(dims) == 1 and numval(dims[0]) is None and not e.under_binder() and dims[0].num_args() > 0:
        n = e.concretize(dims[0])
        if n is not None: dims = (z3.IntVal(n),)
    # concrete tiny domains are expanded
    if guard is None and all(numval(d) is not None for d in dims):
        n = 1
        for d in dims: n *= numval(d)
        if n <= 16:
            r = SNum(z3.IntVal(0)); isf = False
            for ix in _np.ndindex(*[numval(d) for d in dims]):
                r = r + lift(f(tuple(z3.IntVal(int(i)) for i in ix)))
            return r
    with e.binder(len(dims)) as bv:
        v = lift(f(bv))
        g = norm_guard(guard, bv)
        nan = simp(v.nan) if g is None else simp(And(v.nan, g))
        own = {b.get_id() for b in bv}
        isint = v.isint
        p = Poly.of(toreal(under_guard(v.t, g)))
        total = []
        for m in sorted(p):
            c = p[m]
            dep = [(a, ex) for a, ex in m if mentions(Poly._atoms[a], own)]
            free = [(a, ex) for a, ex in m if not mentions(Poly._atoms[a], own)]
            t = sum_atom(dims, g, tuple(dep), bv, own)
            for a, ex in free:
                for _ in range(ex): t = arith('*', t, toreal(Poly._atoms[a]))
            total.append(arith('*', realval(c), t))
        r = z3.RealVal(0)
        for t in total: r = arith('+', r, t)
    rn = FALSE
    if not is_false(nan):
        nf = lambda i: lift(f(i)).nan
        rn = sexists(dims, guard, nf)
    return SNum(r, rn)

def under_guard(t, g):
    """simplify t knowing that g holds"""
    if g is None: return t
    sub = []
    for c in (g.children() if z3.is_and(g) else [g]):
        if z3.is_not(c): sub.append((c.arg(0), FALSE))
        else: sub.append((c, TRUE))
    n = z3.substitute(t, *sub)
    return t if n.eq(t) else simp(n)

def mono_term(m):
    t = z3.RealVal(1)
    for a, ex in m:
        for _ in range(ex): t = arith('*', t, toreal(Poly._atoms[a]))
    return t

def sum_atom(dims, g, mono, bv, own):
    e = eng()
    if not mono and g is None: return toreal(iprod(dims))
    if not mono: ts, ent, par, new, closed = register('count', dims, g, [z3.RealVal(1)], bv, sort=I)
    else: ts, ent, par, new, closed = register('S', dims, g, [mono_term(mono)], bv)
    t = toreal(ts[0])
    if new:
        e.assumed.add('finite sums: linearity, congruence, monotonicity')
        if not mono:    # count of a selection
            if closed:
                ex = sexists_t(dims, g, bv)
                e.inst.append(And(t >= 0, t <= toreal(iprod(dims)), Implies(ex, t >= 1), Implies(Not(ex), t == 0)))
        elif all(x % 2 == 0 for _, x in mono) and closed:
            e.inst.append(t >= 0)
    return t

def sexists_t(dims, gt, bv):
    """exists over a guard given as a term over bv"""
    return sexists(dims, None, lambda i: z3.substitute(gt, *zip(bv, i)) if any(not a.eq(b) for a, b in zip(bv, i)) else gt)

def sexists(dims, guard, pred):
    """Bool term: exists idx in dims with guard and pred"""
    e = eng()
    with e.binder(len(dims)) as bv:
        p = And(TRUE if guard is None else guard(bv), pred(bv))
        p = simp(p)
    if is_false(p): return FALSE
    if is_true(p):
        return And(*[compare('>=', d, z3.IntVal(1)) for d in dims])
    if not mentions(p, {b.get_id() for b in bv}):
        return And(*([compare('>=', d, z3.IntVal(1)) for d in dims] + [p]))
    ts, ent, par, new, closed = register('any', dims, None, [p], bv, sort=B)
    t = ts[0]
    if new and closed:
        w = e.witness('ew', len(dims))
        fn = lambda i: And(TRUE if guard is None else guard(i), pred(i))
        e.inst.append(Implies(t, And(in_range(w, dims), fn(w))))
        e.forall(len(dims), lambda i: Implies(And(in_range(i, dims), fn(i)), t))
    return t

def all_over(dims, guard, pred):
    return Not(sexists(dims, guard, lambda i: Not(pred(i))))

def sext(dims, guard, f, which, skipnan=False):
    e = eng()
    guard0 = guard
    if skipnan: guard = nn_guard(guard, f)
    ne = sexists(dims, guard, lambda i: TRUE)
    if not is_true(ne) and not e.under_binder():
        if not e.branch(ne):
            if skipnan:
                # all-NaN: numpy returns nan with a warning when there are elements, else raises
                if e.branch(sexists(dims, guard0, lambda i: TRUE)): return SNum(z3.RealVal(0), TRUE)
            raise ValueError('zero-size array to reduction operation')
    if guard is None and len(dims) and all(numval(d) is not None for d in dims):
        n = 1
        for d in dims: n *= numval(d)
        if n <= 12:
            r = None
            for ix in _np.ndindex(*[numval(d) for d in dims]):
                v = lift(f(tuple(z3.IntVal(int(i)) for i in ix)))
                r = v if r is None else (smin if which == 'min' else smax)(r, v)
            return r
    with e.binder(len(dims)) as bv:
        v = lift(f(bv)); g = norm_guard(guard, bv)
        own = {b.get_id() for b in bv}
        t = v.t if v.isint else e.canon(v.t)
        nan = simp(v.nan) if g is None else simp(And(v.nan, g))
        if not mentions(t, own): return SNum(v.t, v.nan)
        isint = v.isint
        off = None; scale = Frac(1)
        if not isint:
            # min(c + k*x) = c + k*min(x) for k > 0 and c + k*max(x) for k < 0 (k rational, c independent of the index)
            p = Poly.of(t)
            dep = {m: c for m, c in p.items() if any(mentions(Poly._atoms[a], own) for a, _ in m)}
            scale = dep[min(dep)]
            off = Poly.term({m: c for m, c in p.items() if m not in dep})
            t = Poly.term({m: c / scale for m, c in dep.items()})
            if scale < 0: which = {'min': 'max', 'max': 'min'}[which]
    ts, ent, par, new, closed = register({'min': 'mn', 'max': 'mx'}[which], dims, g, [t], bv, sort=I if isint else R)
    m = ts[0]
    if new and closed:
        w = e.witness(which + 'w', len(dims))
        val = (lambda i: lift(f(i)).t) if isint else (lambda i: arith('*', arith('-', toreal(lift(f(i)).t), off), realval(1 / scale)))
        gd = (lambda i: TRUE) if guard is None else guard
        cmp = '<=' if which == 'min' else '>='
        e.inst.append(Implies(ne, And(in_range(w, dims), gd(w), compare('==', val(w), m))))
        e.forall(len(dims), lambda i: Implies(And(in_range(i, dims), gd(i)), compare(cmp, m, val(i))))
    rn = FALSE
    if not is_false(nan): rn = sexists(dims, guard, lambda i: lift(f(i)).nan)
    if not isint: m = arith('+', arith('*', realval(scale), m), off)
    return SNum(m, rn)

def red_arg(a, which, skipnan=False):
    """position of the first extremum"""
    a = as_arr(a)
    e = eng()
    if a.guard is not None: raise Unsupported('argmin of a selection')
    f = a.getter(); dims = a.dims
    ne = And(*[compare('>=', d, z3.IntVal(1)) for d in dims])
    if not e.branch(ne): raise ValueError('attempt to get argmin of an empty sequence')
    if not nan_free(a): raise Unsupported('argmin with missing values')
    with e.binder(len(dims)) as bv:
        t = e.canon(toreal(lift(f(bv)).t))
    ts, ent, par, new, closed = register('arg' + which, dims, None, [t], bv, nout=len(dims), sort=I)
    if not closed: raise Unsupported('argmin under a binder')
    w = tuple(ts); e.last_arg = w
    if new:
        for x in w: e._idxsyms[x.get_id()] = x
        val = lambda i: lift(f(i)).t
        e.add_index(w)
        e.inst.append(in_range(w, dims))
        op = '<=' if which == 'min' else '>='
        st = '<' if which == 'min' else '>'
        def before(i, w):
            c = FALSE
            for k in range(len(dims)): c = Or(c, And(*([i[j] == w[j] for j in range(k)] + [i[k] < w[k]])))
            return c
        e.forall(len(dims), lambda i: Implies(in_range(i, dims), And(compare(op, val(w), val(i)), Implies(before(i, w), compare(st, val(w), val(i))))))
    if len(w) == 1: return SNum(w[0])
    return FlatIndex(w, dims)

class FlatIndex(SNum):
    """flattened index of an n-D position"""
    __slots__ = ('idx', 'fdims')
    def __init__(self, idx, dims):
        t = idx[0]
        for i, d in zip(idx[1:], dims[1:]): t = arith('+', arith('*', t, d), i)
        super().__init__(t); self.idx = idx; self.fdims = dims

# ---------------------------------------------------------------------------------------------- functionals
def functional(name, arrs, params=(), nout=1, sort=R, extra=()):
    """uninterpreted functional of whole arrays (congruent in its inputs); returns (terms, new)"""
    e = eng()
    dims = arrs[0].dims
    for a in arrs[1:]:
        if len(a.dims) != len(dims) or not all(same_dim(x, y) for x, y in zip(a.dims, dims)): raise Unsupported('functional of arrays with different domains')
    with e.binder(len(dims)) as bv:
        g = norm_guard(arrs[0].guard, bv)
        bodies = []
        for a in arrs:
            v = a.getter()(bv)
            if isinstance(v, SBool): v = v.as_num()
            bodies.append(e.canon(toreal(v.t)))
            nn = simp(And(v.nan, TRUE if g is None else g))
            if not is_false(nn) and (e._depth > 1 or not e.pointwise(dims, bv, Not(nn))): bodies.append(If(v.nan, z3.RealVal(1), z3.RealVal(0)))
        pars = [e.canon(toreal(lift(p).t)) for p in params]
    ts, ent, par, new, closed = register(name, dims, g, bodies, bv, pars, nout, sort, extra)
    if not closed: raise Unsupported(f'{name} under a binder')
    return ts, ent, par, new

def fun_array(name, arrs, params, out_dims, kind='f', extra=()):
    """array-valued functional: element k,l.. = uninterpreted function of the index"""
    e = eng()
    ts, ent, par, new = functional(name, arrs, params, 0, extra=extra)
    srt = {'f': R, 'i': I, 'b': B}[kind]
    if 'A' not in ent['arrs']:
        e.arrfns[f'{name}A!{ent["n"]}'] = ent
        ent['arrs']['A'] = z3.Function(f'{name}A!{ent["n"]}', *[I for _ in par], *[I for _ in out_dims], srt)
    fn = ent['arrs']['A']
    par = tuple(par)
    mk = (lambda i: SBool(fn(*par, *i))) if kind == 'b' else (lambda i: SNum(fn(*par, *i)))
    e.assumed.add(f'{name}: assumed contract (result is a function of its arguments)')
    return SArr.new(out_dims, mk, kind), ent, new

def dot(a, b):
    if hasattr(a, 'cols'): return a @ b
    a, b = as_arr(a), as_arr(b)
    if a.isflat or b.isflat: 
        if a.isflat and b.isflat: return red_sum(a * b)
        raise Unsupported('dot of a selection')
    fa, fb = a.getter(), b.getter()
    if len(a.dims) == 2 and len(b.dims) == 1:
        if not same_dim(a.dims[1], b.dims[0]): raise ValueError('shapes not aligned')
        return SArr.new(a.dims[:1], lambda i: ssum((a.dims[1],), None, lambda k: lift(fa((i[0], k[0]))) * lift(fb(k))), 'f')
    if len(a.dims) == 1 and len(b.dims) == 1:
        return red_sum(a * b)
    if len(a.dims) == 2 and len(b.dims) == 2:
        if not same_dim(a.dims[1], b.dims[0]): raise ValueError('shapes not aligned')
        return SArr.new((a.dims[0], b.dims[1]), lambda i: ssum((a.dims[1],), None, lambda k: lift(fa((i[0], k[0]))) * lift(fb((k[0], i[1])))), 'f')
    raise Unsupported('dot')

def nonzero(a):
    a = as_arr(a)
    if a.isflat and len(a.dims) > 1: raise Unsupported('nonzero of a flattened array')
    f = a.getter(); g = a.guard
    guard = memo(lambda i: And(TRUE if g is None else g(i), bterm(f(i))))
    return tuple(SArr.new(a.dims, (lambda i, k=k: SNum(i[k])), 'i', guard=guard) for k in range(len(a.dims)))

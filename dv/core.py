"""Symbolic values and the path engine of the deductive verifier.

A *symbolic run* executes the real repository functions in CPython on the value classes below.
Semantics used (reported as assumptions by the runner):
  * floats are mathematical reals plus a 'missing' (NaN) flag; decimal literals denote their shortest decimal;
    division by zero is an unspecified total function; infinities only as the literal np.inf;
  * integers are mathematical integers;
  * arrays have unbounded symbolic shape and an element function over symbolic indices.
"""
import sys, time, fractions, itertools, math, contextlib
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
z3.z3.Z3_DEBUG = False
import numpy as _np

Frac = fractions.Fraction
R = z3.RealSort(); I = z3.IntSort(); B = z3.BoolSort()
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

class Unsupported(Exception):
    """The verifier cannot treat this construct: the obligation is undecided, never a violation."""
def _nl(name, sort):
    f = _NL.get((name, sort.name()))
    if f is None: f = _NL[name, sort.name()] = z3.Function(f'{name}_{sort.name()}', sort, sort, sort)
    return f
_NL = {}
class PathEnd(BaseException):
    """the path ends here with all its obligations generated (second visit of a loop cut)"""
class Infeasible(BaseException):
    pass
class PathLimit(BaseException):
    pass

def frac(x):
    if isinstance(x, Frac): return x
    if isinstance(x, (int, _np.integer)): return Frac(int(x))
    return Frac(repr(float(x)))

def realval(x):
    f = frac(x)
    return z3.RatVal(f.numerator, f.denominator)

def is_true(t): return z3.is_true(t)
def is_false(t): return z3.is_false(t)

def And(*xs):
    ys = []
    for x in xs:
        if x is True or is_true(x): continue
        if x is False or is_false(x): return FALSE
        ys.append(x)
    if not ys: return TRUE
    if len(ys) == 1: return ys[0]
    return z3.And(*ys)
def Or(*xs):
    ys = []
    for x in xs:
        if x is False or is_false(x): continue
        if x is True or is_true(x): return TRUE
        ys.append(x)
    if not ys: return FALSE
    if len(ys) == 1: return ys[0]
    return z3.Or(*ys)
def Not(x):
    if is_true(x): return FALSE
    if is_false(x): return TRUE
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Implies(a, b):
    return Or(Not(a), b)
def If(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a.eq(b): return a
    if z3.is_bool(a):
        if is_true(a) and is_false(b): return c
        if is_false(a) and is_true(b): return Not(c)
    return z3.If(c, a, b)

def toreal(t):
    if z3.is_int(t):
        if z3.is_int_value(t): return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t

def numval(t):
    """python number of a constant term, else None"""
    if z3.is_int_value(t): return t.as_long()
    if z3.is_rational_value(t): return Frac(t.numerator_as_long(), t.denominator_as_long())
    return None

def arith(op, a, b):
    """folding arithmetic on z3 terms of one sort (both Int or both Real)"""
    if z3.is_int(a) != z3.is_int(b):
        a, b = toreal(a), toreal(b)
    x, y = numval(a), numval(b)
    isint = z3.is_int(a)
    mk = (lambda v: z3.IntVal(int(v))) if isint else (lambda v: realval(v))
    if op == '+':
        if x is not None and y is not None: return mk(x + y)
        if x == 0: return b
        if y == 0: return a
        return a + b
    if op == '-':
        if x is not None and y is not None: return mk(x - y)
        if y == 0: return a
        if a.eq(b): return mk(0)
        return a - b
    if op == '*':
        if x is not None and y is not None: return mk(x * y)
        if x == 0 or y == 0: return mk(0)
        if x == 1: return b
        if y == 1: return a
        return a * b
    if op == '/':
        a, b = toreal(a), toreal(b)
        if x is not None and y is not None and y != 0: return realval(frac(x) / frac(y))
        if y == 1: return a
        if y is not None and y != 0: return a * realval(1 / frac(y))
        return a / b
    raise AssertionError(op)

def compare(op, a, b):
    if z3.is_int(a) != z3.is_int(b):
        a, b = toreal(a), toreal(b)
    x, y = numval(a), numval(b)
    if x is not None and y is not None:
        return z3.BoolVal({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y}[op])
    if a.eq(b): return z3.BoolVal(op in ('<=', '>=', '=='))
    return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b}[op]()

# ---------------------------------------------------------------------------------------------- polynomial normal form
class Poly:
    """polynomials over atoms (z3 terms identified by hash-consing id) with rational coefficients.
    Division by t is multiplication by the atom inv(t) (no cancellation is assumed)."""
    _atoms = {}
    _cache = {}
    _norm = {}
    _archive = []; _keep = []
    _pos = set()
    _nonzero = {}       # atom id -> id of its inverse atom (and back) for atoms known to be non-zero on this path
    inv = z3.Function('inv', R, R)
    absf = z3.Function('abs_', R, R)
    @classmethod
    def reset(cls):
        cls._archive.append(cls._atoms); cls._archive.append(cls._keep)     # ids of atoms stay the same on every path
        cls._atoms = {}; cls._cache = {}; cls._norm = {}; cls._nonzero = {}; cls._keep = []; cls._absid = {}; cls._pos = set()
    @classmethod
    def positive(cls, t):
        cls.nonzero(t); cls._pos.add(toreal(t).get_id())
    @classmethod
    def nonzero(cls, t):
        """register a non-zero atom: t * inv(t) cancels"""
        t = toreal(t); i = cls.inv(t)
        cls._atoms[t.get_id()] = t; cls._atoms[i.get_id()] = i
        cls._nonzero[t.get_id()] = i.get_id(); cls._nonzero[i.get_id()] = t.get_id()

    @classmethod
    def atom(cls, t):
        cls._atoms[t.get_id()] = t
        return {((t.get_id(), 1),): Frac(1)}
    @staticmethod
    def add(p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v == 0: r.pop(m, None)
            else: r[m] = v
        return r
    @staticmethod
    def mulm(m, n):
        d = dict(m)
        for a, e in n:
            o = Poly._nonzero.get(a)
            if o is not None and o in d:
                k = min(e, d[o])
                if d[o] == k: del d[o]
                else: d[o] -= k
                e -= k
                if not e: continue
            d[a] = d.get(a, 0) + e
        return tuple(sorted(d.items()))
    @classmethod
    def mul(cls, p, q):
        if len(p) * len(q) > 4000: raise Unsupported('polynomial too large')
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = cls.mulm(m, n)
                ab = [(a, e) for a, e in k if e >= 2 and a in cls._absid]
                if ab:
                    # |x|**2 = x**2
                    rest = {tuple((a, (e % 2 if a in cls._absid else e)) for a, e in k if not (a in cls._absid and e % 2 == 0)): c * d}
                    for a, e in ab:
                        q = cls.of(cls._absid[a])
                        for _ in range(e // 2): rest = cls.mul(rest, cls.mul(q, q))
                    r = cls.add(r, rest)
                    continue
                v = r.get(k, 0) + c * d
                if v == 0: r.pop(k, None)
                else: r[k] = v
        return r
    @classmethod
    def of(cls, t):
        k = t.get_id()
        hit = cls._cache.get(k)
        if hit is not None and hit[0].eq(t): return hit[1]
        p = cls._of(t)
        cls._cache[k] = (t, p)
        return p
    @classmethod
    def _of(cls, t):
        v = numval(t)
        if v is not None: return {(): Frac(v)} if v != 0 else {}
        if z3.is_app(t):
            kd = t.decl().kind()
            ch = t.children()
            if kd == z3.Z3_OP_ADD:
                p = {}
                for c in ch: p = cls.add(p, cls.of(c))
                return p
            if kd == z3.Z3_OP_SUB:
                p = cls.of(ch[0])
                for c in ch[1:]: p = cls.add(p, cls.of(c), -1)
                return p
            if kd == z3.Z3_OP_UMINUS: return cls.add({}, cls.of(ch[0]), -1)
            if kd == z3.Z3_OP_MUL:
                p = {(): Frac(1)}
                for c in ch: p = cls.mul(p, cls.of(c))
                return p
            if kd == z3.Z3_OP_DIV:
                return cls.mul(cls.of(ch[0]), cls.inverse(cls.of(ch[1]), ch[1]))
            if kd == z3.Z3_OP_TO_REAL and z3.is_app(ch[0]):
                c = ch[0]; ck = c.decl().kind()
                if ck in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                    r = [z3.ToReal(x) if not z3.is_int_value(x) else z3.RealVal(x.as_long()) for x in c.children()]
                    e = {z3.Z3_OP_ADD: lambda: sum(r[1:], r[0]), z3.Z3_OP_UMINUS: lambda: -r[0],
                         z3.Z3_OP_SUB: lambda: __import__('functools').reduce(lambda a, b: a - b, r),
                         z3.Z3_OP_MUL: lambda: __import__('functools').reduce(lambda a, b: a * b, r)}[ck]()
                    return cls.of(e)
            if ch:
                n = cls.renorm(t)
                if not n.eq(t): 
                    cls._keep.append(n)
                    if z3.is_app(n) and (n.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) or numval(n) is not None): return cls.of(n)
                    t = n
            if z3.is_app(t) and t.decl().eq(cls.absf):
                x = t.arg(0); p = cls.of(x)
                if not p: return {}
                if len(p) == 1 and () in p: return {(): abs(p[()])}
                lead = p[min(p)]
                if lead < 0 or lead != 1:
                    y = cls.term({m: c / lead for m, c in p.items()})
                    a = cls.absf(y); cls._absid[a.get_id()] = y; cls._keep.append(a)
                    return {m: c * abs(lead) for m, c in cls.atom(a).items()}
                cls._absid[t.get_id()] = x
        return cls.atom(t)
    @classmethod
    def renorm(cls, t):
        """t with every child in normal form"""
        ch = t.children()
        nc = [cls.norm(c) for c in ch]
        if t.decl().kind() == z3.Z3_OP_ITE: return If(*nc)
        if all(a.eq(b) for a, b in zip(ch, nc)): return t
        return t.decl()(*nc)
    @classmethod
    def norm(cls, t):
        """normal form of any term: polynomial normal form of every real subterm"""
        k = t.get_id()
        h = cls._norm.get(k)
        if h is not None: return h[1]
        try: r = cls._normalize(t)
        except Unsupported: r = t
        cls._norm[k] = (t, r); cls._norm[r.get_id()] = (r, r)
        return r
    @classmethod
    def _normalize(cls, t):
        if not z3.is_app(t) or t.num_args() == 0: return t
        if z3.is_real(t): return cls.term(cls.of(t))
        kd = t.decl().kind()
        ch = t.children()
        if z3.is_bool(t):
            if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_real(ch[0]):
                p = cls.add(cls.of(ch[0]), cls.of(ch[1]), -1)
                if not p: return z3.BoolVal(kd in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ))
                if len(p) == 1 and () in p:
                    v = p[()]
                    return z3.BoolVal({z3.Z3_OP_LE: v <= 0, z3.Z3_OP_LT: v < 0, z3.Z3_OP_GE: v >= 0, z3.Z3_OP_GT: v > 0, z3.Z3_OP_EQ: v == 0}[kd])
                ks = [m for m in p if m != ()]
                lead = p[min(ks)]
                c = -p.get((), Frac(0)) / lead
                q = cls.term({m: x / lead for m, x in p.items() if m != ()})
                if kd == z3.Z3_OP_EQ: return q == realval(c)
                le = kd in (z3.Z3_OP_LE, z3.Z3_OP_GE); up = kd in (z3.Z3_OP_LE, z3.Z3_OP_LT)
                if lead < 0: up = not up
                if up: return q <= realval(c) if le else z3.Not(q >= realval(c))
                return q >= realval(c) if le else z3.Not(q <= realval(c))
            nc = [cls.norm(c) for c in ch]
            if kd == z3.Z3_OP_AND: return And(*nc)
            if kd == z3.Z3_OP_OR: return Or(*nc)
            if kd == z3.Z3_OP_NOT: return Not(nc[0])
            if kd == z3.Z3_OP_EQ and nc[0].eq(nc[1]): return TRUE
            if all(a.eq(b) for a, b in zip(ch, nc)): return t
            return t.decl()(*nc)
        nc = [cls.norm(c) for c in ch]
        if all(a.eq(b) for a, b in zip(ch, nc)): return t
        return t.decl()(*nc)
    @classmethod
    def inverse(cls, p, t):
        if not p: return cls.atom(cls.inv(z3.RealVal(0)))     # unspecified value
        if len(p) == 1:
            (m, c), = p.items()
            out = {(): 1 / c}
            for a, e in m:
                at = cls._atoms[a]
                # inv(inv(x)) = x
                if z3.is_app(at) and at.decl().eq(cls.inv): q = cls.of(at.arg(0))
                else: q = cls.atom(cls.inv(toreal(at)))
                for _ in range(e): out = cls.mul(out, q)
            return out
        # content: factor the leading coefficient so c*t and t share an inverse atom
        lead = p[min(p)]
        q = {m: c / lead for m, c in p.items()}
        return {m: c / lead for m, c in cls.atom(cls.inv(cls.term(q))).items()}
    @classmethod
    def term(cls, p, ground=False):
        """back to a z3 Real term (canonical order)"""
        if not p: return z3.RealVal(0)
        ts = []
        for m in sorted(p):
            t = None
            for a, e in m:
                at = toreal(cls._atoms[a])
                if z3.is_app(at) and at.decl().eq(cls.inv) : pass
                for _ in range(e): t = at if t is None else t * at
            c = p[m]
            if t is None: t = realval(c)
            elif c != 1: t = realval(c) * t
            ts.append(t)
        r = ts[0]
        for t in ts[1:]: r = r + t
        return r

def uninv(t, memo=None):
    """replace inv(x) by 1/x"""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo: return memo[k]
    if z3.is_app(t) and t.num_args():
        ch = [uninv(c, memo) for c in t.children()]
        r = (1 / ch[0]) if t.decl().eq(Poly.inv) else z3.If(ch[0] >= 0, ch[0], -ch[0]) if t.decl().eq(Poly.absf) else t.decl()(*ch) if not all(a.eq(b) for a, b in zip(ch, t.children())) else t
    else: r = t
    memo[k] = r
    return r

def mentions(t, ids, memo=None):
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in ids: return True
    if k in memo: return memo[k]
    r = any(mentions(c, ids, memo) for c in t.children())
    memo[k] = r
    return r

# ---------------------------------------------------------------------------------------------- scalars
ENG = None   # current engine (symbolic run) or None

def eng():
    if ENG is None: raise Unsupported('symbolic value used outside a symbolic run')
    return ENG

class SBool:
    __slots__ = ('t',)
    def __init__(self, t): self.t = t if not isinstance(t, bool) else z3.BoolVal(t)
    def __bool__(self): return eng().branch(self.t)
    def __and__(self, o): return SBool(And(self.t, bterm(o)))
    __rand__ = __and__
    def __or__(self, o): return SBool(Or(self.t, bterm(o)))
    __ror__ = __or__
    def __invert__(self): return SBool(Not(self.t))
    def __xor__(self, o): return SBool(z3.Xor(self.t, bterm(o)))
    def __eq__(self, o): return SBool(self.t == bterm(o))
    def __hash__(self): return hash(('SBool', self.t.get_id()))
    def __repr__(self): return f'SBool({self.t.sexpr()})'
    def __int__(self): return 1 if bool(self) else 0
    def as_num(self): return SNum(If(self.t, z3.IntVal(1), z3.IntVal(0)))

def bterm(x):
    if isinstance(x, SBool): return x.t
    if isinstance(x, (bool, _np.bool_)): return z3.BoolVal(bool(x))
    if z3.is_expr(x) and z3.is_bool(x): return x
    if isinstance(x, SNum): return Or(x.nan, Not(compare('==', x.t, z3.IntVal(0) if x.isint else z3.RealVal(0))))
    raise Unsupported(f'not a boolean: {x!r}')

class SNum:
    """symbolic int or float scalar"""
    __slots__ = ('t', 'nan', 'inf')
    __array_priority__ = 1000
    def __init__(self, t, nan=FALSE):
        self.t = t; self.nan = nan if not isinstance(nan, bool) else z3.BoolVal(nan)
    @property
    def isint(self): return z3.is_int(self.t)
    dtype = property(lambda s: _np.dtype('int64') if s.isint else _np.dtype('float64'))
    ndim = 0
    shape = ()
    size = 1
    def item(self): return self
    def copy(self): return self
    def ravel(self): raise Unsupported('ravel of scalar')
    def astype(self, t):
        k = _np.dtype(t).kind
        if k == 'f': return SNum(toreal(self.t), self.nan)
        return sint(self)
    def round(self, n=0): return sround(self, n)
    def __round__(self, n=None): return sround(self, n)
    def _bin(self, o, op, rev=False):
        if isinstance(o, SArrBase): return NotImplemented
        try: o = lift(o)
        except Unsupported: return NotImplemented
        a, b = (o, self) if rev else (self, o)
        if op in '+-*/':
            return SNum(arith(op, a.t, b.t), Or(a.nan, b.nan))
        if op == '//':
            if a.isint and b.isint:
                if numval(b.t) == 0: raise ZeroDivisionError
                return SNum(ifloordiv(a.t, b.t), Or(a.nan, b.nan))
            x, y = numval(a.t), numval(b.t)
            if x is not None and y: return SNum(realval(x // y), Or(a.nan, b.nan))
            n, d = toreal(a.t), toreal(b.t)
            q = eng().to_int(arith('/', n, d)); k = toreal(q)
            if not eng()._bvids or not mentions(k, eng()._bvids):
                # floor division: k*d <= n < k*d + d (reversed for a negative divisor)
                eng().axiom(('fdiv', k.get_id(), n.get_id(), d.get_id()), lambda: And(Implies(d > 0, And(k * d <= n, n < k * d + d)), Implies(d < 0, And(k * d >= n, n > k * d + d))))
            return SNum(k, Or(a.nan, b.nan))
        if op == '%':
            q = a._bin(b, '//')
            return a - q * b
        if op == '**': return spow(a, b)
        raise Unsupported(op)
    def __add__(s, o): return s._bin(o, '+')
    def __radd__(s, o): return s._bin(o, '+', True)
    def __sub__(s, o): return s._bin(o, '-')
    def __rsub__(s, o): return s._bin(o, '-', True)
    def __mul__(s, o): return s._bin(o, '*')
    def __rmul__(s, o): return s._bin(o, '*', True)
    def __truediv__(s, o): return s._bin(o, '/')
    def __rtruediv__(s, o): return s._bin(o, '/', True)
    def __floordiv__(s, o): return s._bin(o, '//')
    def __rfloordiv__(s, o): return s._bin(o, '//', True)
    def __mod__(s, o): return s._bin(o, '%')
    def __rmod__(s, o): return s._bin(o, '%', True)
    def __pow__(s, o): return s._bin(o, '**')
    def __rpow__(s, o): return s._bin(o, '**', True)
    def __divmod__(s, o): return (s // o, s % o)
    def __neg__(s): return SNum(arith('-', z3.IntVal(0) if s.isint else z3.RealVal(0), s.t), s.nan)
    def __pos__(s): return s
    def __abs__(s):
        z = z3.IntVal(0) if s.isint else z3.RealVal(0)
        v = numval(s.t)
        if v is not None: return SNum(z3.IntVal(abs(v)) if s.isint else realval(abs(v)), s.nan)
        if not s.isint: return SNum(Poly.absf(s.t), s.nan)
        return SNum(If(s.t >= z, s.t, -s.t), s.nan)
    def _cmp(s, o, op):
        if isinstance(o, SArrBase): return NotImplemented
        if isinstance(o, (float, _np.floating)) and math.isinf(o):
            r = {'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0, '==': False}[op]
            return SBool(And(Not(s.nan), z3.BoolVal(r)))
        if o is None or isinstance(o, str): raise TypeError(f"'{op}' not supported between number and {type(o).__name__}")
        try: o = lift(o)
        except Unsupported: return NotImplemented
        return SBool(And(Not(s.nan), Not(o.nan), compare(op, s.t, o.t)))
    def __lt__(s, o): return s._cmp(o, '<')
    def __le__(s, o): return s._cmp(o, '<=')
    def __gt__(s, o): return s._cmp(o, '>')
    def __ge__(s, o): return s._cmp(o, '>=')
    def __eq__(s, o):
        if o is None or isinstance(o, (str, tuple, list, dict)): return False
        return s._cmp(o, '==')
    def __ne__(s, o):
        r = s.__eq__(o)
        if r is NotImplemented or isinstance(r, bool): return (not r) if isinstance(r, bool) else r
        return ~r
    def __hash__(s): return hash(('SNum', s.t.get_id(), s.nan.get_id()))
    def __bool__(s): return eng().branch(bterm(s))
    def __repr__(s): return f'<{s.t.sexpr()}|{s.t.get_id()}{"" if is_false(s.nan) else "?" + s.nan.sexpr()}>'
    def __format__(s, spec): return repr(s)
    def __index__(s):
        v = numval(s.t)
        if v is not None and s.isint: return v
        raise Unsupported('symbolic integer needs a concrete value here')
    def __int__(s):
        v = numval(s.t)
        if v is not None: return int(v)
        raise Unsupported('int() of symbolic value outside patched module')
    def __float__(s):
        v = numval(s.t)
        if v is not None and is_false(s.nan): return float(v)
        raise Unsupported('float() of symbolic value outside patched module')
    def any(s): return bool(s)
    def sum(s): return s
    def min(s): return s
    def max(s): return s

class SArrBase:
    pass

def lift(x):
    if isinstance(x, SNum): return x
    if isinstance(x, SBool): return x.as_num()
    if isinstance(x, (bool, _np.bool_)): return SNum(z3.IntVal(int(x)))
    if isinstance(x, (int, _np.integer)): return SNum(z3.IntVal(int(x)))
    if isinstance(x, (float, _np.floating)):
        if math.isnan(x): return SNum(z3.RealVal(0), TRUE)
        if math.isinf(x): return SNum(INF if x > 0 else -INF)
        return SNum(realval(x))
    if isinstance(x, Frac): return SNum(realval(x))
    if isinstance(x, _np.ndarray) and x.ndim == 0: return lift(x.item())
    raise Unsupported(f'cannot lift {type(x).__name__}')
INF = z3.Const('INF', R)

def ifloordiv(a, b):
    x, y = numval(a), numval(b)
    if x is not None and y: return z3.IntVal(x // y)
    if y == 1: return a
    # python floor division; z3 div rounds so that remainder is >= 0
    if y is not None and y > 0: return a / b
    return z3.ToInt(z3.ToReal(a) / z3.ToReal(b))

def spow(a, b):
    e = numval(b.t)
    if e is not None and Frac(e).denominator == 1 and not (z3.is_rational_value(b.t) and False):
        e = int(e)
        if e == 0: return SNum(z3.RealVal(1) if not a.isint else z3.IntVal(1))
        r = a
        for _ in range(abs(e) - 1): r = r * a
        if e < 0: r = 1 / r
        if not b.isint: r = SNum(toreal(r.t), r.nan)
        return r
    if e is not None and Frac(e) == Frac(1, 2): return ssqrt(a)
    r = eng().uf('pow', toreal(a.t), toreal(b.t))
    va = numval(a.t)
    if va is not None and va > 0:
        eng().axiom(('pow>0', r.get_id(), r), lambda: r > 0)
        Poly.nonzero(r)
    return SNum(r, Or(a.nan, b.nan))

def ssqrt(a):
    a = lift(a)
    v = numval(a.t)
    if v is not None and v >= 0:
        n = Frac(v); p, q = math.isqrt(n.numerator), math.isqrt(n.denominator)
        if p * p == n.numerator and q * q == n.denominator: return SNum(realval(Frac(p, q)), a.nan)
    t = eng().canon(toreal(a.t))
    t, out = sqrt_content(t)
    v = numval(t)
    if v is not None and v == 1: return SNum(z3.RealVal(1) if out is None else out, a.nan)
    r = eng().uf('sqrt', t)
    eng().axiom(('sqrt', t.get_id()), lambda: Implies(t >= 0, And(r >= 0, r * r == t)))
    return SNum(r if out is None else arith('*', out, r), a.nan)

def sqrt_content(t):
    """t = out**2 * t' with the square factors out > 0 common to all terms of t (rational squares, even powers of inputs
    known to be positive, denominators cleared): sqrt(t) = out * sqrt(t')"""
    try: p = Poly.of(t)
    except Unsupported: return t, None
    if not p: return t, None
    pos = Poly._pos; inv = Poly._nonzero
    cands = set()
    for m in p:
        for a, e in m:
            if a in pos: cands.add(a)
            elif inv.get(a) in pos: cands.add(inv[a])
    out = {(): Frac(1)}; q = p
    for a in sorted(cands):
        ia = inv[a]
        lo = min((dict(m).get(a, 0) - dict(m).get(ia, 0)) for m in p)
        k = lo // 2          # floor: t = a**(2k) * t'
        if k == 0: continue
        f = {((ia, 2 * k),): Frac(1)} if k > 0 else {((a, -2 * k),): Frac(1)}
        q = Poly.mul(q, f)
        out = Poly.mul(out, {((a, k),): Frac(1)} if k > 0 else {((ia, -k),): Frac(1)})
    num = 0; den = 1
    for c in q.values(): num = math.gcd(num, abs(c.numerator)); den = den * c.denominator // math.gcd(den, c.denominator)
    def square(n):
        r = 1
        for d in (2, 3, 5, 7):
            while n % (d * d) == 0: n //= d * d; r *= d
        k = math.isqrt(n)
        return r * k if k * k == n else r
    s = Frac(square(num), square(den))
    if s != 1:
        q = {m: c / (s * s) for m, c in q.items()}; out = {m: c * s for m, c in out.items()}
    if out == {(): Frac(1)}: return t, None
    return Poly.term(q), Poly.term(out)

def sint(a):
    """python int(): truncation towards zero"""
    if isinstance(a, SBool): return a.as_num()
    if isinstance(a, SArrBase): a = a.item()
    if not isinstance(a, SNum): return int(a)
    if a.isint: return a
    e = eng()
    if not is_false(a.nan) and e.branch(a.nan): raise ValueError('cannot convert float NaN to integer')
    v = numval(a.t)
    if v is not None: return SNum(z3.IntVal(int(v)))
    n = as_int(a.t)
    if n is not None: return SNum(n)
    if e.opaque_slices: return SNum(z3.Function('truncated', R, I)(e.canon(a.t)))
    if not e.under_binder() and e.quick(a.t >= 0): return SNum(e.to_int(a.t))
    return SNum(If(a.t >= 0, z3.ToInt(a.t), -z3.ToInt(-a.t)))

def sfloor(a):
    a = lift(a)
    if a.isint: return SNum(toreal(a.t), a.nan)
    v = numval(a.t)
    if v is not None: return SNum(realval(math.floor(v)), a.nan)
    return SNum(toreal(eng().to_int(a.t)), a.nan)

def as_int(t):
    """Int term equal to a real term that is syntactically an integer, else None"""
    if z3.is_int(t): return t
    v = numval(t)
    if v is not None: return z3.IntVal(int(v)) if Frac(v).denominator == 1 else None
    try: p = Poly.of(t)
    except Unsupported: return None
    if len(p) > 8: return None
    r = z3.IntVal(0)
    for m in sorted(p):
        c = p[m]
        if c.denominator != 1: return None
        x = z3.IntVal(int(c))
        for a, ex in m:
            at = Poly._atoms[a]
            if z3.is_int(at): y = at
            elif z3.is_app_of(at, z3.Z3_OP_TO_REAL): y = at.arg(0)
            else: return None
            for _ in range(ex): x = arith('*', x, y)
        r = arith('+', r, x)
    return r

def sround(a, n=None):
    """round half to even"""
    a = lift(a)
    if a.isint and (n is None or n >= 0): return a
    if n is not None and n != 0:
        p = Frac(10) ** n
        r = sround(a * p, None)
        return SNum(toreal(r.t) / realval(p), a.nan)
    v = numval(a.t)
    if v is not None: r = z3.IntVal(round(Frac(v)))
    elif as_int(a.t) is not None: r = as_int(a.t)
    elif (r := eng().round_cand(a.t)) is not None: pass
    else:
        f = z3.ToInt(a.t)
        d = a.t - z3.ToReal(f)
        r = If(d > realval(Frac(1, 2)), f + 1, If(z3.And(d == realval(Frac(1, 2)), f % 2 == 1), f + 1, f))
    return SNum(r, a.nan) if n is None else SNum(toreal(r), a.nan)

def smin(a, b):
    a, b = lift(a), lift(b)
    return _pick(compare('<=', a.t, b.t), a, b)
def smax(a, b):
    a, b = lift(a), lift(b)
    return _pick(compare('>=', a.t, b.t), a, b)
def _pick(c, a, b):
    x, y = a.t, b.t
    if a.isint != b.isint: x, y = toreal(x), toreal(y)
    return SNum(If(c, x, y), Or(a.nan, b.nan))
def sif(c, a, b):
    c = bterm(c)
    if isinstance(a, (SBool, bool, _np.bool_)) and isinstance(b, (SBool, bool, _np.bool_)):
        return SBool(If(c, bterm(a), bterm(b)))
    a, b = lift(a), lift(b)
    x, y = a.t, b.t
    if a.isint != b.isint: x, y = toreal(x), toreal(y)
    return SNum(If(c, x, y), If(c, a.nan, b.nan))

# ---------------------------------------------------------------------------------------------- engine
class Obligation:
    __slots__ = ('name', 'status', 'backend', 'secs', 'model', 'detail')
    def __init__(self, name, status, backend, secs, model=None, detail=''):
        self.name, self.status, self.backend, self.secs, self.model, self.detail = name, status, backend, secs, model, detail

_sh = {}
def shash(t):
    """structural hash of a term that does not depend on the order of arguments (path replay tags)"""
    k = t.get_id(); e = _sh.get(k)
    if e is not None and e[0].eq(t): return e[1]
    if z3.is_quantifier(t): h = hash(('q', shash(t.body())))
    elif z3.is_var(t): h = hash(('v', z3.get_var_index(t)))
    else: h = hash((t.decl().name(), str(t) if t.num_args() == 0 else '', tuple(sorted(shash(c) for c in t.children()))))
    _sh[k] = (t, h)
    return h

class Engine:
    """one symbolic path at a time; `explore` enumerates the paths of a harness"""
    def __init__(self, timeout_ms=4000, max_paths=400, deadline=None, use_cvc5=True):
        self.path_inputs = []
        self.timeout = timeout_ms; self.max_paths = max_paths; self.deadline = deadline; self.use_cvc5 = use_cvc5
        self.obls = []; self.paths = 0; self.solver_s = 0.0; self.backends = {}
        self.contracts_used = set(); self.assumed = set(); self.lemmas = set()
        self.queries = 0
    # -- path state
    def reset(self, decisions, log=()):
        self.log = list(log); self.logpos = 0
        self.dec = list(decisions); self.pos = 0; self.pending = []
        self.pc = []; self.foralls = []; self.pool = {1: [], 2: [], 3: []}; self.poolids = set()
        self.ax = {}; self.inst_done = set(); self.inst = []
        self.red = {}; self.red_by_term = {}; self.arrfns = {}; self._bv = {}; self._bvids = set(); self._idxsyms = {}; self.apps = {}; self._by_fn = {}; self._depth = 0; self._cong = {}; self._wn = 0
        self.ufs = {}; self.fresh_n = itertools.count(); self.inputs = {}; self.canon_cache = {}
        self._branch_cache = {}
        self.solver = z3.Solver(); self.solver.set('timeout', 1500); self.sent_pc = self.sent_inst = 0
        self.lin = z3.Solver(); self.lin_todo = []; self.lin_memo = {}
        self.notes = []; self.narrow = None; self.strs = {}; self._enc_seen = {}; Poly.reset()
        self.in_goal = 0
        self.subst = []; self.cands = []; self.lsq = []; self.gd = None; self.last_arg = None; self.last_argsort_flat = None; self.triggers = set(); self._trig_seen = {}; self._trig_pos = (0, 0); self._int_cache = {}; self.opaque_slices = False
    def fresh(self, base, sort):
        return z3.Const(f'{base}!{next(self.fresh_n)}', sort)
    def uf(self, name, *args):
        k = (name, tuple(a.sort().name() for a in args))
        if k not in self.ufs: self.ufs[k] = z3.Function(name, *[a.sort() for a in args], R)
        return self.ufs[k](*args)
    def bvars(self, n):
        """canonical bound variables at the current binder depth"""
        lv = self._bv.setdefault(self._depth, [])
        while len(lv) < n:
            v = z3.Const(f'b{self._depth}_{len(lv)}', I); lv.append(v)
            self._bvids.add(v.get_id()); self._idxsyms[v.get_id()] = v
        return tuple(lv[:n])
    def under_binder(self): return self._depth > 0
    def skolem(self, n, base='k'):
        """fresh index constants"""
        w = tuple(z3.Const(f'{base}!{self._wn}_{k}', I) for k in range(n)); self._wn += 1
        for x in w: self._idxsyms[x.get_id()] = x
        return w
    def witness(self, base, n):
        w = self.skolem(n, base)
        self.add_index(w)
        return w
    @contextlib.contextmanager
    def binder(self, n):
        bv = self.bvars(n)
        self._depth += 1
        try: yield bv
        finally: self._depth -= 1
    def pointwise(self, dims, bv, goal, guard=None, timeout=1500):
        """is goal (a Bool term over bv) valid for every index in dims"""
        if is_true(goal): return True
        k = self.witness('pw', len(bv))
        sub = list(zip(bv, k))
        goal = z3.substitute(goal, *sub)
        self.scan(goal); self.saturate(2)
        rng = [And(x >= 0, x < d) for x, d in zip(k, dims)]
        if guard is not None: rng.append(z3.substitute(guard, *sub))
        return self.check(rng + [Not(goal)], timeout) == z3.unsat
    def rewrite(self, a, b):
        """use a proved equality a == b as a rewrite rule for everything sent to the solver"""
        for x, y in self.subst: a = z3.substitute(a, (x, y)); b = z3.substitute(b, (x, y))
        if a.eq(b): return
        self.subst.append((a, b)); self.sent_pc = self.sent_inst = 0
    def path_nonzero(self, x): Poly.nonzero(lift(x).t)
    def axiom(self, key, mk):
        if key not in self.ax:
            self.ax[key] = mk(); self.inst.append(self.ax[key])
    def fact(self, t):
        """ground fact (assumption or lemma conclusion)"""
        if not is_true(t): self.pc.append(t)
    assume_term = fact
    def forall(self, arity, fn):
        """quantified fact: fn(idx tuple) -> Bool, instantiated at every index tuple in the pool"""
        self.foralls.append((arity, fn, len(self.foralls)))
    def add_index(self, idx):
        idx = tuple(z3.IntVal(i) if isinstance(i, int) else i for i in idx)
        if len(idx) not in self.pool: return
        k = tuple(i.get_id() for i in idx)
        if k not in self.poolids:
            self.poolids.add(k); self.pool[len(idx)].append(idx)
    def scan(self, *terms):
        """index pool: arguments of the trigger functions occurring in ground terms"""
        if not self.triggers: return
        st = list(terms)
        while st:
            x = st.pop(); k = x.get_id()
            if k in self._trig_seen: continue
            self._trig_seen[k] = x
            if not z3.is_app(x): continue
            ch = x.children()
            if ch and x.decl().name() in self.triggers and not (self._bvids and any(mentions(c, self._bvids) for c in ch)): self.add_index(tuple(ch))
            st.extend(ch)
    def saturate(self, rounds=2, cap=600):
        for _ in range(rounds):
            work = []
            if self.triggers:
                self.scan(*self.pc[self._trig_pos[0]:], *self.inst[self._trig_pos[1]:])
                self._trig_pos = (len(self.pc), len(self.inst))
            for ar, fn, n in list(self.foralls):
                if isinstance(ar, tuple):
                    for p in list(self.pool.get(ar[0], ()))[:24]:
                        for q in list(self.pool.get(ar[1], ()))[:24]:
                            k = (n, tuple(i.get_id() for i in p), tuple(i.get_id() for i in q))
                            if k in self.inst_done: continue
                            self.inst_done.add(k); work.append((fn, (p, q)))
                    continue
                for idx in list(self.pool.get(ar, ())):
                    k = (n, tuple(i.get_id() for i in idx))
                    if k in self.inst_done: continue
                    self.inst_done.add(k); work.append((fn, (idx,)))
            if not work: break
            if len(self.inst) > cap * 4: break
            for fn, idx in work:
                t = fn(*idx)
                if not is_true(t): self.inst.append(t)
    def time_left(self):
        return 1e9 if self.deadline is None else self.deadline - time.monotonic()
    def hyps(self):
        return self.pc + self.inst
    def enc(self, t):
        """normal form for the solver; definitions of inv and abs_ occurrences are asserted once"""
        for a, b in self.subst: t = z3.substitute(t, (a, b))
        n = Poly.norm(t)
        st = [n]
        while st:
            x = st.pop(); k = x.get_id()
            if k in self._enc_seen: continue
            self._enc_seen[k] = x
            if z3.is_app(x) and x.num_args() == 1:
                if x.decl().eq(Poly.inv):
                    y = x.arg(0)
                    self.lin_todo.append(z3.And(z3.Implies(y > 0, x > 0), z3.Implies(y < 0, x < 0)))
                    self.solver.add(z3.And(z3.Implies(y != 0, y * x == 1), z3.Implies(y > 0, x > 0), z3.Implies(y < 0, x < 0)))
                elif x.decl().eq(Poly.absf):
                    y = x.arg(0)
                    self.lin_todo.append(z3.If(y >= 0, x == y, x == -y))
                    self.solver.add(z3.If(y >= 0, x == y, x == -y))
            st.extend(x.children())
        return n
    def _sync(self):
        for t in self.pc[self.sent_pc:] + self.inst[self.sent_inst:]:
            n = self.enc(t); self.solver.add(n); self.lin_todo.append(n)
        self.sent_pc = len(self.pc); self.sent_inst = len(self.inst)
    def abst(self, t):
        """products and quotients of unknowns replaced by uninterpreted functions (a weaker hypothesis, a linear problem)"""
        memo = self.lin_memo; st = [(t, False)]
        while st:
            x, done = st.pop(); k = x.get_id()
            if k in memo: continue
            if not z3.is_app(x) or not x.num_args(): memo[k] = (x, x); continue
            ch = x.children()
            if not done:
                st.append((x, True)); st.extend((c, False) for c in ch); continue
            nc = [memo[c.get_id()][1] for c in ch]; kind = x.decl().kind(); r = None
            if kind == z3.Z3_OP_MUL:
                co = [c for c in nc if z3.is_rational_value(c) or z3.is_int_value(c)]; at = [c for c in nc if not (z3.is_rational_value(c) or z3.is_int_value(c))]
                if len(at) > 1:
                    f = _nl('mul', x.sort()); at.sort(key=lambda c: c.get_id()); r = at[0]
                    for c in at[1:]: r = f(r, c)
                    for c in co: r = c * r
            elif kind in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_POWER) and not (z3.is_rational_value(nc[1]) or z3.is_int_value(nc[1])) or kind == z3.Z3_OP_POWER:
                r = _nl(x.decl().name(), x.sort())(*nc)
            if r is None: r = x if all(a.eq(b) for a, b in zip(ch, nc)) else x.decl()(*nc)
            memo[k] = (x, r)
        return memo[t.get_id()][1]
    def check_lin(self, ex, timeout=400):
        for t in self.lin_todo: self.lin.add(self.abst(t))
        self.lin_todo = []
        self.lin.set('timeout', timeout)
        return self.lin.check(*[self.abst(x) for x in ex])
    def check(self, extra, timeout=None):
        """z3 on hyps + extra; returns z3 result"""
        if self.time_left() < 0: return z3.unknown
        t0 = time.monotonic()
        tag = tuple(shash(x) for x in extra)
        if self.logpos < len(self.log):
            # replay of a path prefix: the same query was answered before
            tg, r, m = self.log[self.logpos]
            if tg != tag: del self.log[self.logpos:]; return self.check(extra, timeout)      # not the recorded query: answer it afresh
            self.logpos += 1; self.last_model = m
            return r
        self._sync()
        self.solver.set('timeout', int(timeout or 1500))
        ex = [self.enc(e) for e in extra]
        if self.check_lin(ex, 400 if (timeout or 0) <= 1500 else 2000) == z3.unsat: r = z3.unsat; self.last_model = None
        else:
            self.solver.push(); self.solver.add(*ex)
            r = self.solver.check()
            self.last_model = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        self.log.append((tag, r, self.last_model)); self.logpos = len(self.log)
        self.solver_s += time.monotonic() - t0; self.queries += 1
        return r
    def one_sided(self, t):
        """the only feasible side of a split when linear reasoning settles it"""
        if self.time_left() < 0: return None
        t0 = time.monotonic()
        del self.log[self.logpos:]
        self._sync(); e = self.enc(t); r = None
        if self.check_lin([Not(e)]) == z3.unsat: r = True
        elif self.check_lin([e]) == z3.unsat: r = False
        self.solver_s += time.monotonic() - t0
        return r
    def quick(self, t):
        """is t provable quickly (used only for simplification / lemma side conditions)"""
        if is_true(t): return True
        if is_false(t): return False
        self.scan(t); self.saturate(1)
        return self.check([Not(t)], 700) == z3.unsat
    def to_int(self, t):
        """floor of a real term as an Int term"""
        n = as_int(t)
        if n is not None: return n
        n = self.canon(t); k = n.get_id()
        if self.cands and not self.under_binder():
            if k not in self._int_cache:
                r = None
                for c in self.cands:
                    if self.quick(And(n >= toreal(c), n < toreal(c) + 1)): r = c; break
                self._int_cache[k] = (n, r)
            r = self._int_cache[k][1]
            if r is not None: return r
        return z3.ToInt(n)
    def round_cand(self, t):
        if not self.cands or self.under_binder(): return None
        n = self.canon(t); k = ('round', n.get_id())
        if k not in self._int_cache:
            r = None
            for c in self.cands:
                if self.quick(And(n > toreal(c) - realval(Frac(1, 2)), n < toreal(c) + realval(Frac(1, 2)))): r = c; break
            self._int_cache[k] = (n, r)
        return self._int_cache[k][1]
    def concretize(self, t, hi=12):
        """case split over the value of an Int term known to lie in 0..hi; None when it is not bounded so"""
        v = numval(t)
        if v is not None: return v
        if self.under_binder(): return None
        k = ('conc', t.get_id())
        if k not in self._int_cache: self._int_cache[k] = (t, self.quick(And(t >= 0, t <= hi)))
        if not self._int_cache[k][1]: return None
        for v in range(hi, -1, -1):
            if self.branch(t == v): return v
        raise Infeasible()
    def branch(self, t):
        if is_true(t): return True
        if is_false(t): return False
        if self._bvids and mentions(t, self._bvids): raise Unsupported('branch on a bound index')
        k = t.get_id()
        if k in self._branch_cache: return self._branch_cache[k][1]
        s = z3.simplify(uninv(t))
        if is_true(s): return True
        if is_false(s): return False
        self.scan(t)
        self.saturate(1)        # may itself split paths: before this split takes its place in the record
        if k in self._branch_cache: return self._branch_cache[k][1]
        if self.pos < len(self.dec):
            b, tag = self.dec[self.pos]
            if tag != shash(t): raise Unsupported('path replay out of step')
            for _ in range(2):
                if self.logpos < len(self.log): self.logpos += 1
        else:
            one = self.one_sided(t)
            if one is not None:
                can_t, can_f = one, not one
                self.log += [(('branch', 0), None, None)] * 2; self.logpos = len(self.log)
            else:
                ms = 150 if self.opaque_slices else None     # undecided: both ways are followed
                can_t = self.check([t], ms) != z3.unsat
                can_f = self.check([Not(t)], ms) != z3.unsat
            if can_t and can_f:
                b = True; self.pending.append((self.dec[:self.pos] + [(False, shash(t))], self.log[:self.logpos]))
            elif can_t: b = True
            elif can_f: b = False
            else: raise Infeasible()
            self.dec.append((b, shash(t)))
        self.pos += 1
        self.pc.append(t if b else Not(t))
        self._branch_cache[k] = (t, b)
        return b
    def choose(self, n):
        """harness-level case split"""
        if self.pos < len(self.dec):
            b, tag = self.dec[self.pos]
            if tag != ('choose', n): raise Unsupported('path replay out of step')
        else:
            b = 0
            for i in range(n - 1, 0, -1): self.pending.append((self.dec[:self.pos] + [(i, ('choose', n))], self.log[:self.logpos]))
            self.dec.append((b, ('choose', n)))
        self.pos += 1
        return b
    # -- canonical form of a real term modulo polynomial identity (makes UFs congruent)
    def canon(self, t):
        return Poly.norm(toreal(t))
    # -- obligations
    def record(self, *a, **k):
        o = Obligation(*a, **k); self.obls.append(o)
        self.backends[o.backend] = self.backends.get(o.backend, 0) + (o.status == 'proved')
        return o
    def prove(self, name, goal, hints=()):
        t0 = time.monotonic()
        if is_true(goal): return self.record(name, 'proved', 'simplifier', 0.0)
        if self._poly_eq(goal): return self.record(name, 'proved', 'polynomial', time.monotonic() - t0)
        self.scan(goal)
        self.saturate(2)
        t = self.timeout
        neg = [Not(goal)] + list(hints)
        r = self.check(neg, min(t, 1500))
        if r == z3.unsat: return self.record(name, 'proved', 'z3', time.monotonic() - t0)
        if self.congruence(goal):
            self.saturate(2)
            r = self.check(neg, t)
            if r == z3.unsat: return self.record(name, 'proved', 'z3', time.monotonic() - t0)
        if self.sign_lemmas(goal):
            r = self.check(neg, t)
            if r == z3.unsat: return self.record(name, 'proved', 'z3', time.monotonic() - t0)
        if self.sum_goal(goal): return self.record(name, 'proved', 'z3', time.monotonic() - t0)
        g2 = self.poly_goal(goal)
        if g2 is not None:
            r2 = self.check([Not(g2)], t)
            if r2 == z3.unsat: return self.record(name, 'proved', 'z3', time.monotonic() - t0)
        if r == z3.unknown and t > 1500:
            r = self.check(neg, t)
            if r == z3.unsat: return self.record(name, 'proved', 'z3', time.monotonic() - t0)
        if r == z3.unknown:
            if self.use_cvc5 and self.time_left() > 0:
                if self.cvc5(neg) == 'unsat':
                    return self.record(name, 'proved', 'cvc5', time.monotonic() - t0)
            m = self.small_model(neg)
            if m is None: return self.record(name, 'unknown', 'z3', time.monotonic() - t0, detail=self._show(goal))
            return self.record(name, 'refuted', 'z3', time.monotonic() - t0, model=m, detail=self._show(goal))
        model = self.last_model
        m = self.small_model(neg)
        return self.record(name, 'refuted', 'z3', time.monotonic() - t0,
                           model=m if m is not None else (self.extract(model) if model is not None else None), detail=self._show(goal))
    def poly_goal(self, goal):
        """rewrite equalities between reals into polynomial normal form (cross multiplying divisions stays with the solver)"""
        eqs = self._as_eq(goal)
        if eqs is None or not z3.is_real(toreal(eqs[0])): return None
        try: p = Poly.add(Poly.of(toreal(eqs[0])), Poly.of(toreal(eqs[1])), -1)
        except Unsupported: return None
        # multiply by the product of the inverse atoms when they are provably non-zero
        for _ in range(12):
            invs = {}
            for m in p:
                for a, ex in m:
                    at = Poly._atoms[a]
                    if z3.is_app(at) and at.decl().eq(Poly.inv): invs[a] = max(invs.get(a, 0), ex)
            if not invs: break
            a, ex = max(invs.items(), key=lambda kv: (self._size(Poly._atoms[kv[0]]), kv[0]))
            den = Poly._atoms[a].arg(0)
            if self.check([uninv(den) == 0], 1000) != z3.unsat: return None
            pd = Poly.of(den)
            q = {}
            try:
                for m, c in p.items():
                    d = dict(m); k = d.pop(a, 0)
                    t = {tuple(sorted(d.items())): c}
                    for _ in range(ex - k): t = Poly.mul(t, pd)
                    q = Poly.add(q, t)
            except Unsupported: return None
            p = q
        if not p: return TRUE
        return Poly.term(p) == 0
    def _size(self, t, memo=None):
        memo = {} if memo is None else memo
        k = t.get_id()
        if k in memo: return 0
        memo[k] = 1
        return 1 + sum(self._size(c, memo) for c in t.children())
    def _poly_eq(self, goal):
        eqs = self._as_eq(goal)
        if eqs is None: return False
        try: return not Poly.add(Poly.of(toreal(eqs[0])), Poly.of(toreal(eqs[1])), -1)
        except Unsupported: return False
    # -- congruence of reductions / functionals
    def apps_in(self, t, out=None, seen=None, ext=True):
        out = {} if out is None else out; seen = set() if seen is None else seen
        st = [t]
        while st:
            x = st.pop(); k = x.get_id()
            if k in seen: continue
            seen.add(k)
            h = self.red_by_term.get(k)
            if h is not None: out[k] = ('t', h[0], h[1], x)
            elif z3.is_app(x) and x.num_args() >= 0:
                nm = x.decl().name()
                if nm in self.arrfns:
                    ent = self.arrfns[nm]; n = ent['npar']
                    out[k] = ('a', ent, x.children()[:n], x)
                elif '!' in nm and x.num_args():
                    # application of a reduction function to non-registered arguments
                    e2 = self._by_fn.get(nm)
                    if e2 is not None: out[k] = ('t', e2, x.children(), x)
            st.extend(x.children())
        return out
    def congruence(self, goal, depth=0):
        apps = list(self.apps_in(goal).values())
        if depth == 0:
            ids = {a[3].get_id() for a in apps}
            kinds = {a[1]['kind'] for a in apps}
            extra = {}
            for h in self.pc[-60:]:
                self.apps_in(h, extra)
            apps += [a for k, a in extra.items() if k not in ids and a[1]['kind'] in kinds][:40]
        added = False
        for x, y in itertools.combinations(apps, 2):
            if x[0] != y[0] or self.time_left() < 0: continue
            ex, ey = x[1], y[1]
            if ex['kind'] != ey['kind'] or ex['extra'] != ey['extra'] or len(ex['dims']) != len(ey['dims']) or len(ex['bodies']) != len(ey['bodies']) or len(ex['fns']) != len(ey['fns']) or len(ex['params']) != len(ey['params']): continue
            k = (x[3].get_id(), y[3].get_id())
            if k in self._cong: continue
            if x[0] == 't':
                ox = [i for i, f in enumerate(ex['fns']) if f.decl().eq(x[3].decl())] if not ex['npar'] else [i for i, f in enumerate(ex['fns']) if f.eq(x[3].decl())]
                oy = [i for i, f in enumerate(ey['fns']) if f.decl().eq(y[3].decl())] if not ey['npar'] else [i for i, f in enumerate(ey['fns']) if f.eq(y[3].decl())]
                if ox != oy: continue
                eqt = x[3] == y[3]
            else:
                ax, ay = x[3].children()[ex['npar']:], y[3].children()[ey['npar']:]
                if ex is ey and all(a.eq(b) for a, b in zip(x[2], y[2])): continue
                eqt = None
            r = self.same_app(ex, x[2], ey, y[2], depth)
            self._cong[k] = (r, x, y)
            if r:
                added = True; self.lemmas.add('congruence of reductions and functionals')
                if eqt is not None: self.inst.append(eqt)
                else:
                    dx, dy = x[3].decl(), y[3].decl()
                    for aa in (ax, ay):
                        self.inst.append(dx(*x[2], *aa) == dy(*y[2], *aa))
        return added
    def same_app(self, ex, px, ey, py, depth=0):
        from .arr import _O, _P
        n = len(ex['dims'])
        k = self.skolem(n, 'cg')
        sx = list(zip(_O, k)) + list(zip(_P, px)); sy = list(zip(_O, k)) + list(zip(_P, py))
        sub = lambda t, s: z3.substitute(t, *s)
        conds = [sub(a, sx) == sub(b, sy) for a, b in zip(ex['dims'], ey['dims'])] + \
                [sub(a, sx) == sub(b, sy) for a, b in zip(ex['params'], ey['params'])]
        for c in conds:
            if not self.valid(c, depth): return False
        rng = [And(x >= 0, x < sub(d, sx)) for x, d in zip(k, ex['dims'])]
        self.add_index(k)
        gx, gy = ex['guard'], ey['guard']
        if (gx is None) != (gy is None):
            g = sub(gx, sx) if gx is not None else sub(gy, sy)
            if not self.valid(g, depth, rng): return False
        elif gx is not None:
            g = sub(gx, sx)
            if not self.valid(g == sub(gy, sy), depth, rng): return False
            rng.append(g)
        for a, b in zip(ex['bodies'], ey['bodies']):
            if not self.valid(sub(a, sx) == sub(b, sy), depth, rng): return False
        return True
    def valid(self, goal, depth=0, hyps=()):
        g = z3.simplify(goal)
        if is_true(g): return True
        if is_false(g): return False
        if self._poly_eq(goal): return True
        self.saturate(2)
        r = self.check(list(hyps) + [Not(goal)], 1500)
        if r == z3.unsat: return True
        if depth < 2 and self.congruence(goal, depth + 1):
            return self.check(list(hyps) + [Not(goal)], 1500) == z3.unsat
        return False
    def sign_lemmas(self, goal):
        """sums of pointwise non-negative (non-positive) terms are non-negative (non-positive)"""
        from .arr import _O, _P
        added = False
        for kd, ent, par, t in list(self.apps_in(goal).values()):
            if kd != 't' or ent['kind'] != 'S': continue
            key = ('sign', t.get_id())
            if key in self._cong: continue
            self._cong[key] = (True, t)
            n = len(ent['dims']); k = self.skolem(n, 'sg')
            s = list(zip(_O, k)) + list(zip(_P, par))
            b = z3.substitute(ent['bodies'][0], *s)
            rng = [And(x >= 0, x < z3.substitute(d, *s)) for x, d in zip(k, ent['dims'])]
            if ent['guard'] is not None: rng.append(z3.substitute(ent['guard'], *s))
            self.add_index(k)
            if self.valid(b >= 0, 2, rng): self.inst.append(t >= 0); added = True
            elif self.valid(b <= 0, 2, rng): self.inst.append(t <= 0); added = True
            self.lemmas.add('sums of pointwise non-negative terms are non-negative')
        return self.mean_lemmas(goal) or added
    def sum_goal(self, goal):
        """an equation that is linear in sums over the same domain holds when it holds term by term"""
        from .arr import _O, _P
        eqs = self._as_eq(goal)
        if eqs is None: return False
        try: p = Poly.add(Poly.of(toreal(eqs[0])), Poly.of(toreal(eqs[1])), -1)
        except Unsupported: return False
        groups = []
        for m, c in p.items():
            hit = [(a, ex, self.red_by_term.get(Poly._atoms[a].get_id())) for a, ex in m]
            hit = [(a, ex, h) for a, ex, h in hit if h is not None and h[0]['kind'] == 'S']
            if len(hit) != 1 or hit[0][1] != 1: return False
            a, _, (ent, par, _t) = hit[0]
            rest = {tuple((b, e) for b, e in m if b != a): c}
            D = [z3.substitute(d, *zip(_P, par)) for d in ent['dims']]
            for g in groups:
                if len(g[0]) == len(D) and all(x.eq(y) or self.valid(x == y, 2) for x, y in zip(g[0], D)) and (ent['guard'] is None) == (g[1] is None) and (ent['guard'] is None or ent['guard'].eq(g[1]) and all(x.eq(y) for x, y in zip(par, g[3]))):
                    g[2].append((rest, ent, par)); break
            else: groups.append((D, ent['guard'], [(rest, ent, par)], par))
        if not groups or any(len(g[2]) < 2 for g in groups): return False
        for D, guard, parts, par in groups:
            k = self.skolem(len(D), 'sm'); self.add_index(k)
            tot = z3.RealVal(0)
            for rest, ent, pr in parts:
                b = z3.substitute(ent['bodies'][0], *(list(zip(_O, k)) + list(zip(_P, pr))))
                tot = arith('+', tot, arith('*', Poly.term(rest), toreal(b)))
            hyp = [And(x >= 0, x < d) for x, d in zip(k, D)]
            if guard is not None: hyp.append(z3.substitute(guard, *(list(zip(_O, k)) + list(zip(_P, par)))))
            if not self.valid(tot == 0, 1, hyp): return False
        self.lemmas.add('sums over the same domain: linearity, term by term')
        return True
    def mean_lemmas(self, goal):
        """minimum <= sum/count <= maximum for reductions of the same array occurring together"""
        apps = list(self.apps_in(goal).values())
        for h in self.pc[-40:]: apps += self.apps_in(h).values()
        sums = {a[3].get_id(): a for a in apps if a[0] == 't' and a[1]['kind'] == 'S'}.values()
        exts = {a[3].get_id(): a for a in apps if a[0] == 't' and a[1]['kind'] in ('mn', 'mx')}.values()
        added = False
        for s in sums:
            for x in exts:
                key = ('mean', s[3].get_id(), x[3].get_id())
                if key in self._cong: continue
                self._cong[key] = (True, s[3], x[3])
                a, b = s[1], x[1]
                if a['guard'] is not None or b['guard'] is not None or len(a['dims']) != len(b['dims']): continue
                from .arr import _P
                da = [z3.substitute(d, *zip(_P, s[2])) for d in a['dims']]; db = [z3.substitute(d, *zip(_P, x[2])) for d in b['dims']]
                if not all(p.eq(q) for p, q in zip(da, db)): continue
                if not a['bodies'][0].eq(toreal(b['bodies'][0])) or any(not p.eq(q) for p, q in zip(s[2], x[2])): continue
                n = z3.RealVal(1)
                for d in da: n = arith('*', n, toreal(d))
                m = toreal(x[3])
                ne = And(*[d >= 1 for d in da])
                self.inst.append(Implies(ne, (m <= s[3] / n) if b['kind'] == 'mn' else (m >= s[3] / n)))
                self.lemmas.add('minimum <= mean <= maximum'); added = True
        return added
    def _show(self, goal):
        try: return goal.sexpr()[:1500]
        except Exception: return ''
    def _as_eq(self, g):
        if z3.is_eq(g) and z3.is_arith(g.arg(0)): return g.arg(0), g.arg(1)
    def small_model(self, neg):
        dims = [d for inp in self.inputs.values() for d in inp.get('dims', ()) if not isinstance(d, int) and numval(d) is None]
        for bound in (4, 9):
            r = self.check(list(neg) + [d <= bound for d in dims], 1500)
            if r == z3.sat: return self.extract(self.last_model)
        for bound in (300, 1100, 2100, 6000, 20000):        # sizes as small as the path allows
            if not dims or self.time_left() < 0: return None
            if self.check(list(neg) + [d <= bound for d in dims], 1500) == z3.sat: return self.extract(self.last_model)
        return None
    def extract(self, model):
        """input values of a counter-model, by harness input name"""
        out = {}
        def ev(t):
            v = model.eval(t, model_completion=True)
            if z3.is_bool(v): return z3.is_true(v)
            if z3.is_int_value(v): return v.as_long()
            if z3.is_rational_value(v): return float(Frac(v.numerator_as_long(), v.denominator_as_long()))
            if z3.is_algebraic_value(v): return float(v.approx(12).as_fraction())
            return 0
        for name, inp in self.inputs.items():
            if inp['kind'] == 'array':
                dims = [ev(d) if not isinstance(d, int) else d for d in inp['dims']]
                if any(d > 60 or d < 0 for d in dims): continue      # the replay generates the contents
                a = _np.zeros(dims, dtype={'f': float, 'i': int, 'b': bool}[inp['dtype']])
                for ix in _np.ndindex(*dims):
                    v, n = inp['elem'](tuple(z3.IntVal(int(i)) for i in ix))
                    a[ix] = float('nan') if (inp['dtype'] == 'f' and ev(n)) else ev(v)
                out[name] = a
            elif inp['kind'] == 'num': out[name] = ev(inp['t'])
            elif inp['kind'] == 'bool': out[name] = ev(inp['t'])
            else: out[name] = inp['value']
        return out
    def cvc5(self, neg):
        try: import cvc5
        except Exception: return 'unknown'
        t0 = time.monotonic()
        try:
            s = z3.Solver()
            for h in self.hyps(): s.add(uninv(h))
            for n in neg: s.add(uninv(n))
            txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
            tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
            slv = cvc5.Solver(tm) if tm else cvc5.Solver()
            slv.setOption('tlimit-per', str(int(self.timeout)))
            slv.setOption('nl-cov', 'false')
            p = cvc5.InputParser(slv); p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = p.getSymbolManager(); res = 'unknown'
            while True:
                c = p.nextCommand()
                if c.isNull(): break
                o = c.invoke(slv, sm).strip()
                if o in ('sat', 'unsat', 'unknown'): res = o
            return res
        except Exception:
            return 'unknown'
        finally:
            self.solver_s += time.monotonic() - t0
    # -- exploration
    def path_input(self, n0):
        """an input that takes the current, not fully decided path (for the bounded runs)"""
        if len(self.path_inputs) >= 8 or self.time_left() < 0 or n0 is not None and not any(o.status == 'unknown' for o in self.obls[n0:]): return
        try:
            m = self.small_model([])
            if m is not None: self.path_inputs.append(m)
        except (Infeasible, Unsupported, PathLimit, z3.Z3Exception, KeyError, ValueError, TypeError, AttributeError): pass
    def explore(self, harness):
        """run harness(engine) on every feasible path; returns list of (path info)"""
        global ENG
        work = [([], [])]; info = []
        while work:
            if self.paths >= self.max_paths or self.time_left() < 0:
                info.append(('limit', 'path or time limit')); break
            dec, log = work.pop()
            self.reset(dec, log); self.paths += 1
            prev, ENG = ENG, self
            n0 = len(self.obls)
            try:
                try: harness(self)
                except PathEnd: pass
                self.saturate(1)
                r = self.check([], 150 if self.opaque_slices else 600)
                info.append(('done', str(r)))
                if r == z3.unsat: del self.obls[n0:]     # path turned out infeasible
                else: self.path_input(n0)
            except Infeasible:
                del self.obls[n0:]; info.append(('infeasible', ''))
            except Unsupported as e:
                info.append(('unsupported', str(e))); self.path_input(None)
            except PathLimit:
                info.append(('limit', 'path limit'))
            finally:
                ENG = prev
            work.extend(self.pending)
        return info

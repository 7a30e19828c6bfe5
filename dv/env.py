"""Contract harness environment: the same contract text runs symbolically (proof) and concretely (replay / search)."""
import os, sys, math, warnings, itertools, json, hashlib
from . import core
from .core import *
from .core import _np
from . import arr as A
from .arr import SArr
from . import npshim
import z3

class Discard(Exception):
    """concrete sample does not satisfy the precondition"""
class ContractViolation(Exception):
    def __init__(self, label, detail): super().__init__(f'{label}: {detail}'); self.label = label; self.detail = detail

class SymEnv:
    sym = True
    def __init__(self, e, cname): self.e = e; self.cname = cname; self.np = npshim.NP; self.n = 0; self.covers = []
    ndi_gauss = staticmethod(npshim.ndi_gauss)
    def name(self, n): return n
    # ---- inputs
    def real(self, name, lo=None, hi=None, gt=None, lt=None, conc=None, **k):
        t = z3.Const(name, R)
        self.e.inputs[name] = dict(kind='num', t=t)
        if lo is not None: self.e.fact(t >= realval(lo))
        if hi is not None: self.e.fact(t <= realval(hi))
        if gt is not None: self.e.fact(t > realval(gt))
        if lt is not None: self.e.fact(t < realval(lt))
        if gt is not None and gt >= 0 or lo is not None and lo > 0: Poly.positive(t)
        elif lt is not None and lt <= 0: Poly.nonzero(t)
        return SNum(t)
    def int(self, name, lo=None, hi=None, conc=None, **k):
        t = z3.Const(name, I)
        self.e.inputs[name] = dict(kind='num', t=t)
        if lo is not None: self.e.fact(t >= lo)
        if hi is not None: self.e.fact(t <= hi)
        if lo is not None and lo > 0: Poly.positive(t)
        return SNum(t)
    def choose(self, name, options, conc=None):
        k = self.e.choose(len(options))
        self.e.inputs[name] = dict(kind='value', value=k)
        return options[k]
    def array(self, name, dims, nan=False, kind='f', values=None):
        """fresh input array; dims: list of (name, min) or ints or terms"""
        ds = []
        for d in dims:
            if isinstance(d, tuple): ds.append(self.int(d[0], lo=d[1]).t)
            else: ds.append(A.I_(d))
        s = {'f': R, 'i': I, 'b': B}[kind]
        f = z3.Function(name, *[I for _ in ds], s)
        nf = z3.Function(name + '?', *[I for _ in ds], B) if nan else None
        mk = (lambda i: SBool(f(*i))) if kind == 'b' else (lambda i: SNum(f(*i), nf(*i) if nan else FALSE))
        self.e.inputs[name] = dict(kind='array', dims=ds, dtype=kind, elem=(lambda i: (f(*i), nf(*i) if nan else FALSE)))
        return SArr.new(ds, mk, kind)
    # ---- assumptions / obligations
    def req(self, c):
        t = bterm(c) if not isinstance(c, bool) else z3.BoolVal(c)
        self.e.fact(t)
        if is_false(z3.simplify(uninv(t))): raise Infeasible()
    def req_all2(self, a, fn):
        """precondition for every pair of indices of a 1-D array"""
        n = A.as_arr(a).dims[0]
        self.e.forall((1, 1), lambda i, j: Implies(And(i[0] >= 0, i[0] < n, j[0] >= 0, j[0] < n), bterm(fn(SNum(i[0]), SNum(j[0])))))
    def req_all(self, a, fn):
        n = A.as_arr(a).dims
        self.e.forall(len(n), lambda i: Implies(A.in_range(i, n), bterm(fn(*[SNum(k) for k in i]))))
    def lbl(self, label): return f'{self.cname}/{label}'
    def ens(self, label, c, detail=None):
        t = z3.BoolVal(c) if isinstance(c, bool) else bterm(c)
        return self.e.prove(self.lbl(label), t).status == 'proved'
    def ens_eq(self, label, a, b, tol=None, atol=None):
        if isinstance(a, SArr) and a.nd() == 0: a = a.item()
        if isinstance(b, SArr) and b.nd() == 0: b = b.item()
        if isinstance(a, SArr) or isinstance(b, SArr) or isinstance(a, _np.ndarray) and a.ndim or isinstance(b, _np.ndarray) and b.ndim: return self.ens_arr(label, a, b)
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return self.ens(label, SBool(bterm(a) == bterm(b)))
        if not isinstance(a, (SNum, int, float, Frac, _np.generic)) or not isinstance(b, (SNum, int, float, Frac, _np.generic)):
            return self.ens(label, bool(a == b))
        if any(isinstance(x, (float, _np.floating)) and math.isinf(x) for x in (a, b)):
            return self.ens(label, bool(isinstance(a, (float, _np.floating)) and isinstance(b, (float, _np.floating)) and a == b))
        a, b = lift(a), lift(b)
        ok = True
        if not (is_false(a.nan) and is_false(b.nan)): ok = self.e.prove(self.lbl(label + '.missing'), a.nan == b.nan).status == 'proved'
        n = simp_or(a.nan)
        x, y = a.t, b.t
        if z3.is_int(x) != z3.is_int(y): x, y = toreal(x), toreal(y)
        g = x == y
        if is_false(a.nan) or is_false(b.nan): pass
        else:
            g1 = A.under_guard(x, simp_not(a.nan)) == A.under_guard(y, simp_not(a.nan))
            if self.e._poly_eq(g1): return (self.e.record(self.lbl(label), 'proved', 'polynomial', 0.0).status == 'proved') and ok
            g = Or(a.nan, g)
        return (self.e.prove(self.lbl(label), g).status == 'proved') and ok
    def ens_shape(self, label, a, dims):
        a = A.as_arr(a)
        ok = len(a.dims) == len(dims) and not a.isflat
        if not ok: return self.e.prove(self.lbl(label + '.shape'), FALSE)
        for k, (x, y) in enumerate(zip(a.dims, dims)):
            self.e.prove(self.lbl(f'{label}.shape{k}'), compare('==', x, A.I_(y)))
        return True
    def ens_arr(self, label, a, b, tol=None, atol=None):
        a, b = A.as_arr(a), A.as_arr(b)
        if a.isflat or b.isflat:
            if not (a.isflat and b.isflat and len(a.dims) == len(b.dims)): raise Unsupported('comparison of selections')
        elif len(a.dims) != len(b.dims):
            self.e.prove(self.lbl(label + '.shape'), FALSE); return False
        ok = True
        for k, (x, y) in enumerate(zip(a.dims, b.dims)):
            ok &= self.e.prove(self.lbl(f'{label}.shape{k}'), compare('==', x, y)).status == 'proved'
        if not ok: return False
        idx = self.idx(a, 'g')
        if a.guard is not None or b.guard is not None:
            self.e.prove(self.lbl(label + '.selection'), a.gterm(idx) == b.gterm(idx))
        n0 = len(self.e.pc)
        x, y = a.elem(idx), b.elem(idx)
        if isinstance(x, SBool) or isinstance(y, SBool): return self.ens(label, SBool(bterm(x) == bterm(y)))
        return self.ens_eq(label, x, y)
    def idx(self, a, base='g'):
        """arbitrary index of an array (in range, selected)"""
        a = A.as_arr(a)
        w = self.e.witness(base, len(a.dims))
        self.e.fact(A.in_range(w, a.dims))
        if a.guard is not None: self.e.fact(a.guard(w))
        return w
    def at(self, a, idx): return A.as_arr(a).elem(tuple(A.I_(i) for i in idx))
    def each(self, a):
        """one arbitrary index of a (tuple of SNum)"""
        yield tuple(SNum(i) for i in self.idx(a))
    def each_int(self, name, lo, hi):
        """one arbitrary integer lo <= k < hi (empty when there is none)"""
        w = self.e.witness('q', 1)[0]
        lo, hi = A.I_(lo), A.I_(hi)
        if not self.e.branch(lo < hi): return
        self.e.fact(And(w >= lo, w < hi))
        yield SNum(w)
    def hint(self, t): self.e.fact(bterm(t))
    def index(self, *i): self.e.add_index(tuple(A.I_(x) for x in i))
    def lemma(self, label, c):
        """prove, then use"""
        if self.ens(label, c): self.e.fact(bterm(c))
    def lemma_eq(self, label, a, b):
        """prove a == b, then rewrite a to b"""
        a, b = lift(a), lift(b)
        if self.e.prove(self.lbl(label), compare('==', a.t, b.t)).status == 'proved':
            self.e.fact(compare('==', a.t, b.t)); self.e.rewrite(a.t, b.t)
    def lemma_sum_le(self, label, a, b):
        """pointwise a <= b over the same domain  ==>  sum a <= sum b (obligation: the pointwise part)"""
        a, b = A.as_arr(a), A.as_arr(b)
        w = self.e.witness('sl', len(a.dims))
        x, y = lift(a.elem(w)), lift(b.elem(w))
        o = self.e.prove(self.lbl(label + '.pointwise'), Implies(And(A.in_range(w, a.dims), a.gterm(w)), toreal(x.t) <= toreal(y.t)))
        self.e.lemmas.add('monotonicity of sums')
        if o.status == 'proved':
            self.e.fact(toreal(A.red_sum(a).t) <= toreal(A.red_sum(b).t))
    def lemma_sum_part(self, label, dims, f, whole, g, shift=0, term=None):
        """f(i) = g(i + shift) on dims, shift + dims inside whole, g >= 0 there  ==>  0 <= sum f <= sum g (1-d)"""
        n, m, sh = A.I_(dims), A.I_(whole), A.I_(shift); w = self.e.witness('sp', 1)[0]; S = SNum
        val = lambda fn, i: toreal(lift(fn(S(i))).t)
        self.e.add_index((w,)); self.e.add_index((w + sh,))
        if term: term(S(w))
        ok = True
        for nm, goal in (('inside', And(n >= 0, sh >= 0, n + sh <= m)), ('terms not negative', Implies(And(w >= 0, w < m), val(g, w) >= 0)),
                         ('same terms', Implies(And(w >= 0, w < n), val(f, w) == val(g, w + sh)))):
            ok = self.e.prove(self.lbl(f'{label}: {nm}'), goal).status == 'proved' and ok
        self.e.lemmas.add('a sum over a part is not more than the sum of the whole when no term is negative')
        if ok:
            x, y = toreal(lift(self.sum([SNum(n)], f)).t), toreal(lift(self.sum([SNum(m)], g)).t)
            self.e.fact(And(x >= 0, x <= y))
    def lemma_sum_shift(self, label, dims, f, g, shift):
        """f vanishes where p - shift leaves the domain and equals g(p - shift) elsewhere, and the reverse  ==>  sum f = sum g"""
        D = [A.I_(d) for d in dims]; sh = [A.I_(t) for t in shift]
        w = self.e.witness('ss', len(D)); inr = A.in_range(w, D); S = lambda p: tuple(SNum(x) for x in p)
        ok = True
        for a, b, sg, nm in ((f, g, -1, 'from the first'), (g, f, 1, 'from the second')):
            q = tuple(arith('+' if sg > 0 else '-', x, t) for x, t in zip(w, sh))
            goal = Implies(inr, Or(toreal(lift(a(*S(w))).t) == 0, And(A.in_range(q, D), toreal(lift(a(*S(w))).t) == toreal(lift(b(*S(q))).t))))
            ok = self.e.prove(self.lbl(f'{label}: {nm}'), goal).status == 'proved' and ok
        self.e.lemmas.add('sums are unchanged by shifting the index within the support')
        if ok:
            x, y = self.sum(dims, f), self.sum(dims, g)
            self.e.fact(toreal(lift(x).t) == toreal(lift(y).t))
    def raises(self, label, exc, fn, *a, **k):
        try: r = fn(*a, **k)
        except exc as ex:
            self.e.prove(self.lbl(label), TRUE); return ex
        except (Unsupported, Infeasible, PathLimit, PathEnd): raise
        except (TypeError, AttributeError, NotImplementedError) as ex: raise Unsupported(f'{type(ex).__name__}: {ex}')
        except Exception as ex:
            self.e.prove(self.lbl(label), FALSE).detail = f'raised {type(ex).__name__}: {ex}'; return None
        o = self.e.prove(self.lbl(label), FALSE); o.detail = f'expected {exc}, returned a value'
        return None
    def cond(self, c):
        """path split on a specification condition"""
        return bool(c)
    def interval(self):
        """ghost: grid interval of the last interpolation"""
        if getattr(self.e, 'last_interval', None) is None: raise Unsupported('no interpolation on this path')
        return SNum(self.e.last_interval)
    def ghost(self, name, fn):
        """ghost function of one integer, defined by fn; the definition is unfolded only where define(k) asks for it"""
        f = z3.Function(f'{name}!{next(self.e.fresh_n)}', I, R); e = self.e
        class Ghost:
            def __call__(s, k): return SNum(f(A.I_(k)))
            def define(s, k): e.fact(f(A.I_(k)) == toreal(lift(fn(SNum(A.I_(k)))).t)); return s(k)
        return Ghost()
    def loop(self, owner, name, inv, k=0):
        from .loops import Loop
        return Loop(self, owner, name, k, inv)
    def sum(self, dims, fn): return A.ssum([A.I_(d) for d in dims], None, lambda i: fn(*[SNum(x) for x in i]))
    def forall_int(self, lo, hi, fn):
        """Bool: fn(k) for every lo <= k < hi"""
        lo, hi = A.I_(lo), A.I_(hi)
        return SBool(A.all_over([hi], None, lambda i: Implies(compare('>=', i[0], lo), bterm(fn(SNum(i[0]))))))
    def forall(self, a, fn):
        return SBool(A.all_over(a.dims, a.guard, lambda i: bterm(fn(*[SNum(x) for x in i]))))
    def exists(self, a, fn):
        return SBool(A.sexists(a.dims, a.guard, lambda i: bterm(fn(*[SNum(x) for x in i]))))
    def implies(self, a, b): return SBool(Implies(bterm(a), bterm(b)))
    def both(self, *xs): return SBool(And(*[bterm(x) for x in xs]))
    def either(self, *xs): return SBool(Or(*[bterm(x) for x in xs]))
    def neg(self, x): return SBool(Not(bterm(x)))
    def missing(self, x): return SBool(lift(x).nan)
    def watch_narrowing(self): self.e.narrow = []
    def ens_narrowing(self):
        """every conversion of real values to integer samples was in range and met no missing value"""
        for dt, a in self.e.narrow:
            ii = _np.iinfo(dt)
            for i in self.each(a):
                x = lift(self.at(a, i))
                self.ens(f'conversion to {dt}: no missing value', SBool(Not(x.nan)))
                self.ens(f'conversion to {dt}: in range', SBool(Implies(Not(x.nan), And(A.trunc(x).t >= int(ii.min), A.trunc(x).t <= int(ii.max)))))
    def ite(self, c, a, b): return sif(c, a, b)
    def has_nan(self, a): return A.red_any(npshim.SYM['isnan'](a))
    def floor(self, x): return SNum(self.e.to_int(toreal(lift(x).t)))
    def candidate(self, k): self.e.cands.append(lift(k).t)
    def cover(self, label): self.covers.append(label)
    def ens_polynomial(self, label, a, degree):
        """a is a polynomial of at most the given total degree in its grid coordinates (read off the polynomial normal form)"""
        a = A.as_arr(a)
        w = self.idx(a, 'pt')
        v = lift(a.elem(w))
        ids = {x.get_id() for x in w}
        ok = is_false(v.nan)
        for m in Poly.of(toreal(v.t)):
            deg = 0
            for at, ex in m:
                t = Poly._atoms[at]
                if not mentions(t, ids): continue
                t0 = t.arg(0) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL else t
                if t0.get_id() in ids: deg += ex
                else: ok = False
            ok = ok and deg <= degree
        if ok: return self.e.record(self.lbl(label), 'proved', 'polynomial normal form', 0.0).status == 'proved'
        raise Unsupported('trend is not visibly a polynomial of the coordinates')
    def ens_orthogonal(self, label, d, expo, degree):
        """sum over the measured points of d * (grid monomial) is zero, by a linear combination of recorded normal equations"""
        d = A.as_arr(d)
        e = self.e
        mono = SArr.new(d.dims, lambda i: SNum(toreal(_prod([i[k] for k in range(len(expo)) for _ in range(expo[k])]))), 'f')
        goal = A.red_sum(d * mono, skipnan=True)
        gp = Poly.of(toreal(goal.t))
        for cols, eqs in e.lsq:
            if any(q is None for q in eqs) or len(cols[0].dims) != len(expo): continue
            with e.binder(len(expo)) as bv:
                rows = [_coeffs(lift(c.getter()(bv)), bv) for c in cols]
            if any(r is None for r in rows): continue
            al = _combine(rows, tuple(expo))
            if al is None: continue
            p = gp
            for c, q in zip(al, eqs):
                if c: p = Poly.add(p, Poly.mul(c, Poly.of(toreal(q))), -1)
            if os.environ.get('DV_DBG'): print('ORTH', gp, '\n', p, {a: Poly._atoms[a] for m in p for a, _ in m})
            if not p: return e.record(self.lbl(label), 'proved', 'polynomial (combination of normal equations)', 0.0).status == 'proved'
        raise Unsupported(f'{label}: no combination of normal equations found')
    def ens_zero_lsq(self, label, v):
        """v == 0 by substituting the normal equations of the recorded least squares fits (each solved for its data moment)"""
        p = Poly.of(toreal(lift(v).t))
        for cols, eqs in self.e.lsq:
            for q in eqs:
                if q is None: continue
                qp = Poly.of(toreal(q))
                lone = [m for m in qp if len(m) == 1 and m[0][1] == 1 and sum(1 for n in qp if any(a == m[0][0] for a, _ in n)) == 1]
                if not lone: continue
                m = lone[0]; at = m[0][0]; rest = {n: -c / qp[m] for n, c in qp.items() if n != m}
                out = {}
                for n, c in p.items():
                    d = dict(n); k = d.pop(at, 0); t = {tuple(sorted(d.items())): c}
                    for _ in range(k): t = Poly.mul(t, rest)
                    out = Poly.add(out, t)
                p = out
        if os.environ.get('DV_DBG'): print('ZERO', p, {a: Poly._atoms[a] for m in p for a, _ in m})
        if not p: return self.e.record(self.lbl(label), 'proved', 'polynomial (normal equations substituted)', 0.0).status == 'proved'
        raise Unsupported(f'{label}: not zero by the normal equations')
    def nonzero(self, x):
        """x is known to be non-zero on this path (obligation), so that x * (1/x) cancels"""
        x = lift(x)
        if self.e.prove(self.lbl('non-zero'), compare('==', x.t, z3.IntVal(0)) == FALSE).status == 'proved': Poly.nonzero(x.t)
    def nearest_source(self, i):
        """ghost: the data point the interpolation contract chose for the query index i"""
        if self.e.gd is None: raise Unsupported('no interpolation on this path')
        srcs, ent = self.e.gd
        r = tuple(f(*[A.I_(x) for x in i]) for f in srcs)
        self.e.add_index(r)
        return tuple(SNum(x) for x in r)
    def interval(self):
        """ghost: the interval the last interpolation used"""
        return SNum(self.e.last_interval)
    def sorted_position(self, i):
        """ghost: position of entry i after the last argsort"""
        iv, f = self.e.last_argsort
        i = A.I_(i)
        p = iv(i)
        for k in (p, arith('+', p, z3.IntVal(1)), arith('-', p, z3.IntVal(1))):
            self.e.add_index((k,)); self.e.add_index((lift(f((k,))).t,))
        return SNum(p), lift(f((p,))), lift(f((arith('+', p, z3.IntVal(1)),)))
    def rank_positions(self, *ranks):
        """ghost: positions (index tuples) at the given ranks from the top of the last flattened argsort"""
        if not getattr(self.e, 'last_argsort_flat', None): raise Unsupported('no flattened argsort on this path')
        at, inv, n = self.e.last_argsort_flat
        out = []
        for k in ranks:
            r = n - (k + 1); self.e.add_index((z3.simplify(r, som=True, sort_sums=True),)); self.e.add_index(at(r))
            out.append(tuple(SNum(x) for x in at(r)))
        return out
    def extremum_position(self):
        """ghost: position the last argmin / argmax returned"""
        if not getattr(self.e, 'last_arg', None): raise Unsupported('no argmin / argmax on this path')
        return SNum(self.e.last_arg[0])
    def extremum_positions(self):
        if not getattr(self.e, 'last_arg', None): raise Unsupported('no argmin / argmax on this path')
        return tuple(SNum(x) for x in self.e.last_arg)
    def arbitrary(self, a):
        """one arbitrary index"""
        return tuple(SNum(i) for i in self.idx(a, 'q'))

def _prod(ts):
    r = z3.RealVal(1)
    for t in ts: r = arith('*', r, toreal(t))
    return r
def _coeffs(v, bv):
    """polynomial in the bound indices: {exponents: coefficient polynomial}"""
    if not is_false(v.nan): return None
    ids = {b.get_id(): k for k, b in enumerate(bv)}
    out = {}
    for m, c in Poly.of(toreal(v.t)).items():
        ex = [0] * len(bv); rest = []
        for at, x in m:
            t = Poly._atoms[at]
            if not mentions(t, set(ids)): rest.append((at, x)); continue
            t0 = t.arg(0) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL else t
            if t0.get_id() not in ids: return None
            ex[ids[t0.get_id()]] += x
        k = tuple(ex)
        out[k] = Poly.add(out.get(k, {}), {tuple(rest): c})
    return {k: p for k, p in out.items() if p}
def _invm(p):
    """inverse of a one-term coefficient whose atoms are known to be non-zero"""
    if len(p) != 1: return None
    (m, c), = p.items()
    r = {(): Frac(1) / c}
    for a, x in m:
        o = Poly._nonzero.get(a)
        if o is None:
            t = Poly._atoms[a]
            b = t.arg(0) if z3.is_app(t) and t.decl().eq(Poly.inv) else t
            if not core.ENG.quick(b != 0): return None
            Poly.nonzero(b); o = Poly._nonzero.get(a)
            if o is None: return None
        for _ in range(x): r = Poly.mul(r, {((o, 1),): Frac(1)})
    return r
def _combine(rows, target):
    """coefficients al with sum al_k * rows_k = the monomial target (elimination with invertible pivots)"""
    n = len(rows)
    work = [(dict(r), [({(): Frac(1)} if i == k else {}) for i in range(n)]) for k, r in enumerate(rows)]
    piv = {}
    lead = lambda r: max(r, key=lambda k: (sum(k), k))
    for r, a in work:
        r = dict(r)
        while r:
            k = lead(r)
            if k in piv:
                pr, pa = piv[k]; f = r[k]
                r = _radd(r, pr, f); a = [Poly.add(x, Poly.mul(f, y), -1) for x, y in zip(a, pa)]
                continue
            inv = _invm(r[k])
            if inv is None: return None
            piv[k] = ({q: Poly.mul(inv, p) for q, p in r.items()}, [Poly.mul(inv, x) for x in a])
            break
    r = {target: {(): Frac(1)}}; a = [{} for _ in range(n)]
    while r:
        k = lead(r)
        if k not in piv: return None
        pr, pa = piv[k]; f = r[k]
        r = _radd(r, pr, f); a = [Poly.add(x, Poly.mul(f, y)) for x, y in zip(a, pa)]
    return a
def _radd(r, pr, f):
    out = dict(r)
    for q, p in pr.items():
        v = Poly.add(out.get(q, {}), Poly.mul(f, p), -1)
        if v: out[q] = v
        else: out.pop(q, None)
    return out

def simp_or(t): return t
def simp_not(t): return z3.simplify(Not(t))

# ---------------------------------------------------------------------------------------------- concrete
class ConcEnv:
    sym = False
    def __init__(self, cname, rng, values=None, rtol=1e-7):
        self.cname = cname; self.rng = rng; self.np = _np; self.values = values or {}; self.used = {}; self.checked = 0; self.rtol = rtol
        self.failed = None; self.scale = None        # scale: sizes of the axes of the generated arrays (None: small)
    def _have(self, n): return n in self.values
    def _put(self, n, v): self.used[n] = v; return v
    def real(self, name, lo=None, hi=None, gt=None, lt=None, conc=None, **k):
        if self._have(name): return self._put(name, float(self.values[name]))
        r = self.rng
        if conc is not None: v = conc[r.integers(len(conc))] if isinstance(conc, (list, tuple)) else conc(r)
        else:
            a = lo if lo is not None else gt if gt is not None else (-10 if hi is None and lt is None else (hi if hi is not None else lt) - 20)
            b = hi if hi is not None else lt if lt is not None else a + 20
            v = r.uniform(a, b)
            if r.random() < .15 and lo is not None: v = lo
            elif r.random() < .15 and hi is not None: v = hi
            elif r.random() < .2: v = min(max(round(v), a), b)
            if gt is not None and v <= gt: v = gt + r.random() * 3 + 1e-3
            if lt is not None and v >= lt: v = lt - 1e-3
        return self._put(name, float(v))
    def int(self, name, lo=None, hi=None, conc=None, **k):
        if self._have(name): return self._put(name, int(self.values[name]))
        r = self.rng
        if conc is not None: v = conc[r.integers(len(conc))] if isinstance(conc, (list, tuple)) else conc(r)
        else:
            a = lo if lo is not None else (-9 if hi is None else hi - 12); b = hi if hi is not None else a + 11
            v = r.integers(a, b + 1)
        return self._put(name, int(v))
    def choose(self, name, options, conc=None):
        if self._have(name): k = int(self.values[name])
        else: k = int(self.rng.integers(len(options)))
        self._put(name, k)
        return options[k]
    def array(self, name, dims, nan=False, kind='f', values=None):
        if self._have(name):
            a = _np.array(self.values[name])
            for d, n in zip(dims, a.shape):
                if isinstance(d, tuple): self._put(d[0], int(n))
                elif int(d) != n: raise Discard()
            if any(isinstance(d, tuple) and n < d[1] for d, n in zip(dims, a.shape)): raise Discard()
            if not nan and a.dtype.kind == 'f' and _np.isnan(a).any(): raise Discard()
            return self._put(name, a.copy())
        sh = []
        for d in dims:
            if isinstance(d, tuple):
                if self._have(d[0]): n = int(self.values[d[0]])
                elif d[0] in self.used: n = self.used[d[0]]
                elif self.scale is not None:
                    n = self.scale[len(sh)] if len(dims) > 1 else max(x or 0 for x in self.scale)
                    n = max(n or int(self.rng.integers(d[1], d[1] + 3)), d[1])
                else:
                    r0 = self.rng.random()
                    n = d[1] if r0 < .12 else int(self.rng.integers(d[1], d[1] + (6 if r0 < .5 else 16 if r0 < .985 else 50)))
                self._put(d[0], n); sh.append(n)
            else: sh.append(int(d))
        a = gen_values(self.rng, sh, kind) if values is None else values(self.rng, sh)
        if nan and kind == 'f' and a.size:
            p = self.rng.choice([0, .05, .3, .7])
            m = self.rng.random(sh) < p
            if self.rng.random() < .3: m = _np.zeros(sh, bool); m.flat[self.rng.integers(m.size)] = True
            a = a.copy(); a[m] = _np.nan
        self._put(name, a.copy())
        return a
    def req(self, c):
        if not bool(c): raise Discard()
    def req_all2(self, a, fn):
        n = len(a)
        self.req(all(bool(fn(i, j)) for i in range(n) for j in range(n)))
    def req_all(self, a, fn): self.req(all(bool(fn(*i)) for i in _np.ndindex(*_np.shape(a))))
    def fail(self, label, detail):
        raise ContractViolation(label, detail)
    def ens(self, label, c, detail=None):
        self.checked += 1
        if not bool(_np.all(c)): self.fail(label, detail if detail is not None else 'postcondition is false')
        return True
    def ens_eq(self, label, a, b, tol=None, atol=None):
        self.checked += 1
        if isinstance(a, _np.ndarray) and a.ndim or isinstance(b, _np.ndarray) and b.ndim: return self.ens_arr(label, a, b, tol, atol)
        try: x, y = float(a), float(b)
        except (TypeError, ValueError):
            if not bool(a == b): self.fail(label, f'{a!r} != {b!r}')
            return True
        if math.isnan(x) and math.isnan(y): return True
        if not (x == y or abs(x - y) <= (tol or self.rtol) * max(abs(x), abs(y)) + (1e-9 if atol is None else atol)):
            self.fail(label, f'got {x!r}, specified {y!r}')
        return True
    def ens_shape(self, label, a, dims):
        self.checked += 1
        if tuple(_np.shape(a)) != tuple(int(d) for d in dims): self.fail(label + '.shape', f'{_np.shape(a)} != {tuple(dims)}')
    def ens_arr(self, label, a, b, tol=None, atol=None):
        self.checked += 1
        a, b = _np.asarray(a), _np.asarray(b)
        if a.shape != b.shape: self.fail(label + '.shape', f'{a.shape} != {b.shape}')
        if a.dtype.kind not in 'fiub' or b.dtype.kind not in 'fiub':
            if not _np.array_equal(a, b): self.fail(label, 'arrays differ')
            return True
        af, bf = a.astype(float), b.astype(float)
        if not _np.array_equal(_np.isnan(af), _np.isnan(bf)): self.fail(label + '.missing', f'missing points differ: got {a.tolist()!r:.300}, specified {b.tolist()!r:.300}')
        fin = ~_np.isnan(af)
        x, y = af[fin], bf[fin]
        if x.size:
            sc = max(_np.max(_np.abs(y[_np.isfinite(y)]), initial=0), 0)
            with _np.errstate(invalid='ignore'):
                bad = ~((x == y) | (_np.abs(x - y) <= (tol or self.rtol) * _np.abs(y) + (1e-9 * (1 + sc) if atol is None else atol)))
            if bad.any():
                k = int(_np.argmax(bad)); pos = _np.argwhere(fin)[k].tolist()
                self.fail(label, f'at {pos}: got {x[k]!r}, specified {y[k]!r}')
        return True
    def idx(self, a, base='g'): raise Discard()
    def at(self, a, idx): return a[tuple(int(i) for i in idx)]
    def each(self, a):
        for ix in _np.ndindex(*_np.shape(a)): yield ix
    def each_int(self, name, lo, hi):
        for k in range(int(lo), int(hi)): yield k
    def hint(self, t): pass
    def index(self, *i): pass
    def lemma(self, label, c): self.ens(label, c)
    def lemma_sum_le(self, label, a, b): pass
    def lemma_sum_part(self, *a, **k): pass
    def raises(self, label, exc, fn, *a, **k):
        self.checked += 1
        try: r = fn(*a, **k)
        except exc as ex: return ex
        except Exception as ex: self.fail(label, f'raised {type(ex).__name__}: {ex} instead of {exc}')
        self.fail(label, f'expected {getattr(exc, "__name__", exc)}, returned {type(r).__name__}')
    def cond(self, c): return bool(c)
    def sum(self, dims, fn): return sum(fn(*[int(x) for x in ix]) for ix in _np.ndindex(*[int(d) for d in dims]))
    def forall_int(self, lo, hi, fn): return all(bool(fn(k)) for k in range(int(lo), int(hi)))
    def forall(self, a, fn): return all(bool(fn(*ix)) for ix in _np.ndindex(*_np.shape(a)))
    def exists(self, a, fn): return any(bool(fn(*ix)) for ix in _np.ndindex(*_np.shape(a)))
    def implies(self, a, b): return (not bool(a)) or bool(b)
    def both(self, *xs): return all(bool(x) for x in xs)
    def either(self, *xs): return any(bool(x) for x in xs)
    def neg(self, x): return not bool(x)
    def missing(self, x): return math.isnan(x)
    def watch_narrowing(self): pass
    def ens_narrowing(self): pass
    def ite(self, c, a, b): return a if bool(c) else b
    def has_nan(self, a): return bool(_np.isnan(a).any())
    def floor(self, x): return int(math.floor(x))
    def candidate(self, k): pass
    def arbitrary(self, a): raise Discard()
    def cover(self, label): pass

def gen_values(r, sh, kind='f'):
    n = int(_np.prod(sh)) if len(sh) else 1
    if kind == 'b': return r.random(sh) < .5
    m = r.integers(9)
    if kind == 'i': return r.integers(-6, 7, sh)
    if m == 0: a = r.normal(0, 1, sh)
    elif m == 1: a = r.integers(-3, 4, sh).astype(float)           # ties
    elif m == 2: a = r.normal(0, 1, sh) + r.choice([50.0, -50.0])   # offset
    elif m == 3: a = _np.full(sh, r.choice([0.0, 1.5, -2.0]))       # constant
    elif m == 4: a = _np.where(r.random(sh) < .4, 5.0, 0.0) + r.normal(0, .1, sh)   # steps
    elif m == 5: a = r.exponential(1, sh)                           # skewed
    elif m == 6: a = -r.exponential(1, sh)
    elif m == 7:
        a = r.normal(0, .3, sh)
        a = a + sum(_np.arange(s).reshape([-1 if k == j else 1 for j in range(len(sh))]) * r.normal() for k, s in enumerate(sh))
    else: a = r.uniform(-1, 1, sh) * 10.0 ** r.integers(-3, 4)
    return a

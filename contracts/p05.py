import inspect
from dv.contract import contract
from .common import *
from .p04 import AbbottFirestoneCurve, small_curve, curve, build, spec, core_line, conc_quantiles, data, F, S
import surfalize.base as base

def params(E):
    """0 <= p < q <= 100"""
    p = E.real('p', lo=0, conc=lambda r: float(r.choice([0, 2.5, 10, 25, 50, 70])))
    q = E.real('q', hi=100, conc=lambda r: float(r.choice([75, 80, 90, 99, 100])))
    E.req(p < q)
    return p, q

def nearest(E, H, v, cands=None):
    """position of the curve point closest to height v: ghost of the code's choice, proved; bounded runs: every tie"""
    if E.sym:
        k = E.extremum_position()
        E.ens('closest point', E.forall(H, lambda i: E.np.abs(E.at(H, (k,)) - v) <= E.np.abs(E.at(H, (i,)) - v)))
        return k
    d = np.abs(H - v); return np.flatnonzero(d <= d.min() + 1e-9 * (1 + np.abs(H).max()))

def hill(E, mr, H, k):
    """area between the ratio axis and the curve samples before k (trapezoids over the heights)"""
    if E.sym: return E.sum([k - 1], lambda i: (E.at(H, (i,)) - E.at(H, (i + 1,))) * (E.at(mr, (i,)) + E.at(mr, (i + 1,))) / 2) if E.cond(k >= 2) else 0
    return ((H[:k][:-1] - H[:k][1:]) * (mr[:k][:-1] + mr[:k][1:]) / 2).sum()
def dale(E, mr, H, N, k):
    """area between the curve samples from k on and 100 %"""
    if E.sym: return E.sum([N - k - 1], lambda i: (E.at(H, (i + k,)) - E.at(H, (i + 1 + k,))) * (200 - E.at(mr, (i + k,)) - E.at(mr, (i + 1 + k,))) / 2) if E.cond(k < N - 1) else 0
    return ((H[k:][:-1] - H[k:][1:]) * (200 - mr[k:][:-1] - mr[k:][1:]) / 2).sum()

def made(E, core=True):
    t, h, N = curve(E)
    c, L = build(E, t, h, N, lambda: AbbottFirestoneCurve(t, nbins=N), core=core)
    mr, H = spec(E, h, N) if E.sym else (np.linspace(0, 100, N), conc_quantiles(h, N))
    return t, h, N, c, L, mr, H

def reduced(E, which):
    # that the two heights are the ends of the core line is proved in 'Spkx and Svkx' and in P04
    t, h, N, c, L, mr, H = made(E)
    v = c._yupper if which == 'hill' else c._ylower
    got = c.pk() if which == 'hill' else c.vk()
    r = c.mr(v); r = r if which == 'hill' else 100 - r
    if E.sym:
        if E.cond(r == 0): E.ens_eq('nothing protrudes', got, 0); return
        k = nearest(E, H, v)
        area = hill(E, mr, H, k) if which == 'hill' else dale(E, mr, H, N, k)
        E.ens_eq('area', got, 2 * E.np.abs(area) / r)
        return
    if abs(r) < 1e-9: E.ens_eq('nothing protrudes', got, 0); return
    ok = [abs(got * r - 2 * (hill(E, mr, H, k) if which == 'hill' else dale(E, mr, H, N, k))) <= 1e-6 * (1 + abs(got * r)) for k in nearest(E, H, v)]
    E.ens('area', any(ok), got)
    E.ens('not negative', got >= -1e-9)

@contract('P05', 'Spk', [F + 'pk'], timeout=120)
def spk(E):
    """twice the area above the core line's upper height divided by the hill ratio; zero without hills"""
    reduced(E, 'hill')

@contract('P05', 'Svk', [F + 'vk'], timeout=120)
def svk(E):
    """twice the area below the core line's lower height divided by the dale ratio; zero without dales"""
    reduced(E, 'dale')

@contract('P05', 'Spkx and Svkx', [F + 'pkx', F + 'vkx'], timeout=110)
def extremes(E):
    """the extreme heights beyond the core"""
    t, h, N, c, L, mr, H = made(E)
    if E.sym:
        (a, b), = core_line(E, h, N, L)
        E.ens_eq('Spkx', c.pkx(), E.np.max(h) - b); E.ens_eq('Svkx', c.vkx(), 100 * a + b - E.np.min(h))
    else:
        E.ens('Spkx', any(abs(c.pkx() - (h.max() - b)) <= 1e-6 * (1 + np.abs(h).max()) for a, b in core_line(E, h, N, L)), c.pkx())
        E.ens('Svkx', any(abs(c.vkx() - (100 * a + b - h.min())) <= 1e-6 * (1 + np.abs(h).max()) for a, b in core_line(E, h, N, L)), c.vkx())

def modular(E, t, N):
    """proof: the curve with pk, vk, mr, mc, Vm and Vv by contract (functions of the heights and their argument)"""
    if not E.sym: return AbbottFirestoneCurve(t, nbins=N)
    from dv.arr import functional
    from dv.core import SNum
    def m(name): return lambda s, *a: SNum(functional('curve_' + name, [t.data], list(a), 1)[0][0])
    return type('Curve', (AbbottFirestoneCurve,), dict(_calculate_curve=lambda s: None, **{n: m(n) for n in ('pk', 'vk', 'mr1', 'mr2', 'mr', 'mc', 'Vm', 'Vv')}))(t, nbins=N)

@contract('P05', 'derived parameters', [F + 'ak1', F + 'ak2', F + 'dc', F + 'vmp', F + 'vmc', F + 'vvv', F + 'vvc'])
def derived(E):
    """Sak1, Sak2, Sdc and the combined volumes by their defining identities, for given and default ratios"""
    t, h, N = curve(E, kind=E.choose('kind', ['surface', 'profile']))
    c = modular(E, t, N)
    p, q = params(E)
    E.ens_eq('Sak1', c.ak1(), c.pk() * c.mr1() / 2); E.ens_eq('Sak2', c.ak2(), c.vk() * (100 - c.mr2()) / 2)
    E.ens_eq('Sdc', c.dc(p, q), c.mc(p) - c.mc(q)); E.ens_eq('Sdc the other way round', c.dc(q, p), c.mc(q) - c.mc(p))
    E.ens_eq('Vmp', c.vmp(p), c.Vm(p)); E.ens_eq('Vmp by name', c.vmp(p=p), c.Vm(p))
    E.ens_eq('Vmc by name', c.vmc(q=q, p=p), c.Vm(q) - c.Vm(p)); E.ens_eq('Vvc by name', c.vvc(q=q, p=p), c.Vv(p) - c.Vv(q)); E.ens_eq('Vvv by name', c.vvv(q=q), c.Vv(q))
    E.ens_eq('Vmc', c.vmc(p, q), c.Vm(q) - c.Vm(p)); E.ens_eq('Vvv', c.vvv(q), c.Vv(q)); E.ens_eq('Vvc', c.vvc(p, q), c.Vv(p) - c.Vv(q))
    E.ens_eq('default Vmp', c.vmp(), c.Vm(10)); E.ens_eq('default Vmc', c.vmc(), c.Vm(80) - c.Vm(10)); E.ens_eq('default Vvv', c.vvv(), c.Vv(80)); E.ens_eq('default Vvc', c.vvc(), c.Vv(10) - c.Vv(80))

def volume(E, what):
    t, h, N, c, L, mr, H = made(E, core=False)
    p, q = params(E)
    v = c.mc(p); got = getattr(c, what)(p)
    f = (lambda k: hill(E, mr, H, k)) if what == 'Vm' else (lambda k: dale(E, mr, H, N, k))
    if E.sym:
        k = nearest(E, H, v)
        area = f(k)
        E.ens('area', E.either(got * 100 == area, got * 100 == -area)); E.ens('not negative', got >= 0)
    else:
        E.ens('area', any(abs(got * 100 - f(k)) <= 1e-6 * (1 + abs(got * 100)) for k in nearest(E, H, v)), got)
        E.ens('not negative', got >= -1e-9)

@contract('P05', 'Vm', [F + 'Vm'], timeout=110)
def vm(E):
    """area between the ratio axis and the curve above the height Smc(p), as sampled on the curve, per unit area"""
    volume(E, 'Vm')

@contract('P05', 'Vv', [F + 'Vv'], timeout=110)
def vv(E):
    """area between the curve and 100 % below the height Smc(p), as sampled on the curve, per unit area"""
    volume(E, 'Vv')

def drop(E, mr, H, i, what, a=0):
    """trapezoid between the samples i + a and i + 1 + a"""
    x, y = E.at(mr, (i + a,)), E.at(mr, (i + 1 + a,))
    return (E.at(H, (i + a,)) - E.at(H, (i + 1 + a,))) * ((x + y) if what == 'Vm' else (200 - x - y)) / 2

def falling(E):
    """proof: the curve with its samples by contract ('sampled curve', P04): heights that never rise over ratios that ascend from 0 to 100"""
    t, h, N = curve(E)
    mr, H = E.array('mr', [('nbins', 4)]), E.array('H', [('nbins', 4)])
    m, v = (lambda i: E.at(mr, (i,))), (lambda i: E.at(H, (i,)))
    E.hint(m(0) == 0); E.hint(m(N - 1) == 100); E.hint(E.forall(mr, lambda i: E.both(m(i) >= 0, m(i) <= 100)))
    E.hint(E.forall_int(0, N - 1, lambda i: v(i + 1) <= v(i)))
    def calculate(s): s._height, s._material_ratio = s._get_material_ratio_curve()   # its other results are not asked for
    return type('Curve', (AbbottFirestoneCurve,), dict(_get_material_ratio_curve=lambda s: (H, mr), _calculate_curve=calculate))(t, nbins=N), mr, H, N

def ordered(E, what):
    if not E.sym:
        t, h, N, c, L, mr, H = made(E, core=False)
        p, q = params(E); f = getattr(c, what)
        x, y = f(p), f(q)
        E.ens('order', x <= y + 1e-9 if what == 'Vm' else y <= x + 1e-9, (x, y)); return
    c, mr, H, N = falling(E)
    p, q = params(E); f = getattr(c, what)
    v, u = E.real('v'), E.real('u'); E.req(v >= u)              # 'Smc never rises' (proved, P04)
    c.mc = lambda x: v if E.cond(x == p) else u
    d = lambda i, a=0: drop(E, mr, H, i, what, a)
    x = f(p); k = E.extremum_position()
    y = f(q); l = E.extremum_position()
    E.lemma('closest point to the upper height', E.forall(H, lambda i: E.np.abs(E.at(H, (k,)) - v) <= E.np.abs(E.at(H, (i,)) - v)))
    E.lemma('first closest point', E.forall_int(0, k, lambda i: E.np.abs(E.at(H, (k,)) - v) < E.np.abs(E.at(H, (i,)) - v)))
    E.lemma('closest point to the lower height', E.forall(H, lambda i: E.np.abs(E.at(H, (l,)) - u) <= E.np.abs(E.at(H, (i,)) - u)))
    E.hint(E.implies(l < k, E.at(H, (k,)) <= E.at(H, (l,))))    # the curve never rises
    E.lemma('positions', k <= l)
    def term(i, o=0):
        E.index(i + o); E.index(i + 1 + o)
        ok = E.both(i + o >= 0, i + o < N - 1); x, y = E.at(mr, (i + o,)), E.at(mr, (i + 1 + o,))
        a, b = E.at(H, (i + o,)) - E.at(H, (i + 1 + o,)), (x + y) if what == 'Vm' else (200 - x - y)
        E.lemma('height of a trapezoid', E.implies(ok, a >= 0)); E.lemma('sides of a trapezoid', E.implies(ok, b >= 0))
        E.hint(E.implies(E.both(a >= 0, b >= 0), a * b >= 0))
        E.lemma('trapezoid not negative', E.implies(ok, a * b >= 0))
    if what == 'Vm':
        n, m = (a - 1 if E.cond(a >= 2) else 0 for a in (k, l))
        E.lemma_sum_part('all of it', m, lambda i: d(i), N - 1, d, term=term); E.lemma_sum_part('growth', n, lambda i: d(i), m, d, term=term)
        a, b = hill(E, mr, H, k), hill(E, mr, H, l)
    else:
        n, m = (N - a - 1 if E.cond(a < N - 1) else 0 for a in (k, l))
        E.lemma_sum_part('all of it', n, lambda i: d(i, k), N - 1, d, k, term=term); E.lemma_sum_part('shrinkage', m, lambda i: d(i, l), n, lambda i: d(i, k), l - k, term=lambda i: term(i, k))
        a, b = dale(E, mr, H, N, k), dale(E, mr, H, N, l)
    E.lemma('first area', E.either(x * 100 == a, x * 100 == -a)); E.lemma('second area', E.either(y * 100 == b, y * 100 == -b))
    E.lemma('not negative', E.both(x >= 0, y >= 0))
    E.ens('order', x <= y if what == 'Vm' else y <= x)

@contract('P05', 'order of material volumes', [F + 'Vm'], timeout=110)
def ordered_vm(E):
    """for p < q the material volume grows, so the core material volume is not negative"""
    ordered(E, 'Vm')

@contract('P05', 'order of void volumes', [F + 'Vv'], timeout=110)
def ordered_vv(E):
    """for p < q the void volume shrinks, so the core void volume is not negative"""
    ordered(E, 'Vv')

FACADES = dict(k='k', pk='pk', vk='vk', pkx='pkx', vkx='vkx', ak1='ak1', ak2='ak2', mr1='mr1', mr2='mr2', mrk1='mr1', mrk2='mr2')
WITH = {'mr': ('mr', ['c']), 'mc': ('mc', ['p']), 'dc': ('dc', ['p', 'q']), 'Vmp': ('vmp', ['p']), 'Vmc': ('vmc', ['p', 'q']), 'Vvv': ('vvv', ['q']), 'Vvc': ('vvc', ['p', 'q']), 'Vm': ('Vm', ['p']), 'Vv': ('Vv', ['p'])}

def opaque_curve(E):
    """the curve class by contract: every parameter is a function of the heights, the resolution and its arguments (defaults filled in)"""
    from dv.arr import functional
    from dv.core import SNum, lift, Unsupported
    class Opaque:
        def __init__(s, obj, nbins=10000): s.d, s.n = obj.data, nbins
        # the combinations by their identities ('derived parameters', proved)
        def dc(s, p, q): return s.mc(p) - s.mc(q)
        def vmp(s, p=10): return s.Vm(p)
        def vmc(s, p=10, q=80): return s.Vm(q) - s.Vm(p)
        def vvv(s, q=80): return s.Vv(q)
        def vvc(s, p=10, q=80): return s.Vv(p) - s.Vv(q)
        def ak1(s): return s.pk() * s.mr1() / 2
        def ak2(s): return s.vk() * (100 - s.mr2()) / 2
        def __getattr__(s, name):
            m = getattr(AbbottFirestoneCurve, name); sig = inspect.signature(inspect.unwrap(m))
            def call(*a, **k):
                b = sig.bind(s, *a, **k); b.apply_defaults()
                return SNum(functional('curve_' + name, [s.d], [s.n] + list(b.arguments.values())[1:], 1)[0][0])
            return call
    return Opaque

@contract('P05', 'facades', ['surfalize/base.py:BaseTopography.get_abbott_firestone_curve', S + 'Sk', S + 'Spk', S + 'Smr', S + 'Smc', S + 'Sxp', S + 'Sdc', 'surfalize/base.py:BaseTopography.Vmp', 'surfalize/base.py:BaseTopography.Vmc'], timeout=110)
def facades(E):
    """surface and profile level calls equal the curve level calls, for given and default arguments"""
    kind = E.choose('level', ['surface', 'profile'])
    t, h, N = curve(E, kind=kind, nbins=10000)
    p, q = params(E); c = E.real('c', conc=[0, .5, -1])
    arg = dict(p=p, q=q, c=c)
    old = base.AbbottFirestoneCurve
    if E.sym: base.AbbottFirestoneCurve = opaque_curve(E)
    try:
        C = base.AbbottFirestoneCurve(t)
        pre = 'S' if kind == 'surface' else 'R'
        for n, m in FACADES.items(): E.ens_eq(pre + n, getattr(t, pre + n)(), getattr(C, m)())
        for n, (m, names) in WITH.items():
            f = getattr(t, n if n[0] == 'V' else pre + n); vals = [arg[x] for x in names]
            E.ens_eq(f.__name__, f(*vals), getattr(C, m)(*vals))
            if n[0] == 'V' and n not in ('Vm', 'Vv'):
                E.ens_eq(f.__name__ + ' default', f(), getattr(C, m)(**dict(zip(names, [10 if x == 'p' else 80 for x in names]))))
                E.ens_eq(f.__name__ + ' by name', f(**dict(zip(names, vals))), getattr(C, m)(*vals))
        xp = getattr(t, pre + 'xp')
        E.ens_eq(pre + 'xp', xp(p, q), C.mc(p) - C.mc(q)); E.ens_eq(pre + 'xp the other way round', xp(q, p), C.mc(q) - C.mc(p)); E.ens_eq(pre + 'dc the other way round', getattr(t, pre + 'dc')(q, p), C.mc(q) - C.mc(p)); E.ens_eq(pre + 'xp by name', xp(q=q, p=p), C.mc(p) - C.mc(q))
        E.ens_eq(pre + 'xp default', xp(), C.mc(2.5) - C.mc(50)); E.ens_eq(pre + 'dc default', getattr(t, pre + 'dc')(), C.mc(2.5) - C.mc(50))
    finally: base.AbbottFirestoneCurve = old

ask = lambda n, *a, **k: (lambda t: getattr(small_curve(t), n)(*a, **k))
_q = {**{n: (ask(n), 1) for n in ('pk', 'vk', 'pkx', 'vkx', 'ak1', 'ak2', 'vmp', 'vmc', 'vvv', 'vvc')}, 'dc': (ask('dc', 20, 70), 1), 'Vm': (ask('Vm', 33), 1), 'Vv': (ask('Vv', 61), 1)}
magnitude_contract('P05', [F + 'pk', F + 'vk', F + 'Vm', F + 'Vv'], dict(surface=_q, profile=_q), lo=5, hi=40)

from dv.contract import contract
from .common import *
S = 'surfalize/surface.py:Surface.'
import operator
def other_step(E, s):
    """a step different from s, often nearly the same"""
    if E.sym: t = E.real('t', gt=0)
    else: t = E.real('t', gt=0, conc=lambda r: float(r.choice([*STEPS, s * (1 + 1e-7), s * (1 - 1e-4), s + 1e-9, s - 1e-11, s * 1.001, np.nextafter(s, 2 * s)])))
    E.req(t != s)
    return t
OPS = [('add', operator.add), ('sub', operator.sub), ('mul', operator.mul), ('truediv', operator.truediv)]

def two(E):
    a, h, sx, sy = surface(E, nan=True)
    g = E.array('g', list(h.shape), nan=True)
    b = Surface(own(g), sx, sy)
    return a, b, h, g, sx, sy

@contract('P15', 'surface op surface', [S + '__add__', S + '__sub__', S + '__mul__', S + '__truediv__', S + '_arithmetic_operation'])
def ss(E):
    """every pair of heights is combined, steps kept, both operands unchanged"""
    a, b, h, g, sx, sy = two(E)
    n, op = E.choose('op', OPS)
    if n == 'truediv': E.req(E.forall(g, lambda i, j: E.either(E.np.isnan(E.at(g, (i, j))), E.at(g, (i, j)) != 0)))
    r = op(a, b)
    E.ens('new', r is not a and r is not b and isinstance(r, Surface))
    E.ens_arr('heights', r.data, op(h, g))
    E.ens_eq('step_x', r.step_x, sx); E.ens_eq('step_y', r.step_y, sy)
    E.ens_arr('left', a.data, h); E.ens_arr('right', b.data, g)

@contract('P15', 'surface op number', [S + '__add__', S + '__radd__', S + '__sub__', S + '__rsub__', S + '__mul__', S + '__rmul__', S + '__truediv__', S + '_arithmetic_operation'])
def sn(E):
    """every height is combined with the number on the side it stands"""
    a, h, sx, sy = surface(E, nan=True)
    c = E.real('c', conc=[0.0, 1.0, -2.5, 3.0, 7.25]) if E.choose('int', [0, 1]) == 0 else E.int('c', lo=-5, hi=9)
    n, op = E.choose('op', OPS + [('radd', lambda x, y: y + x), ('rsub', lambda x, y: y - x), ('rmul', lambda x, y: y * x)])
    if n == 'truediv': E.req(c != 0)
    r = op(a, c)
    E.ens('new', r is not a and isinstance(r, Surface))
    E.ens_arr('heights', r.data, op(h, c))
    E.ens_eq('step_x', r.step_x, sx); E.ens_eq('step_y', r.step_y, sy)
    E.ens_arr('operand', a.data, h)

@contract('P15', 'refused operands', [S + '_arithmetic_operation'])
def bad(E):
    """operands of different size or step and unsupported types are refused with a ValueError"""
    a, h, sx, sy = surface(E)
    n, op = E.choose('op', OPS)
    k = E.choose('case', ['rows', 'columns', 'step_x', 'step_y', 'type'])
    ny, nx = h.shape
    if k in ('rows', 'columns'):
        g = E.array('g', [('gy', 1), ('gx', 1)])
        E.req(g.shape[0] != ny if k == 'rows' else E.both(g.shape[0] == ny, g.shape[1] != nx))
        E.raises(k, ValueError, op, a, Surface(g, sx, sy))
    elif k == 'step_x':
        t = other_step(E, sx)
        E.raises(k, ValueError, op, a, Surface(own(h), t, sy))
    elif k == 'step_y':
        t = other_step(E, sy)
        E.raises(k, ValueError, op, a, Surface(own(h), sx, t))
    else:
        for o in ('1', None, [1.0], (1,), {}, 1j, object()):
            E.raises('type', ValueError, op, a, o)
            if n != 'truediv' and not isinstance(o, (str, list, tuple)): E.raises('rtype', (ValueError,), op, o, a)

@contract('P15', 'equality', [S + '__eq__'])
def eq(E):
    """equal exactly when the same points are missing and all measured heights agree within 1e-10"""
    a, b, h, g, sx, sy = two(E)
    if not E.sym and E.rng.random() < .7 and 'g' not in E.values:
        g = h + E.rng.choice([0, 5e-11, 2e-10, 1e-3]) * (E.rng.random(h.shape) < .2); b = Surface(own(g), sx, sy); E._put('g', g)
    if not E.sym: E.req(not np.any(np.abs(np.abs(h - g) - 1e-10) < 1e-13))
    same = E.forall(h, lambda i, j: E.either(E.both(E.np.isnan(E.at(h, (i, j))), E.np.isnan(E.at(g, (i, j)))), E.np.abs(E.at(h, (i, j)) - E.at(g, (i, j))) <= 1e-10))
    r = a == b
    E.ens('equality', E.either(E.both(r, same), E.both(E.neg(r), E.neg(same))))
    E.ens('symmetric', E.either(E.both(r, b == a), E.both(E.neg(r), E.neg(b == a))))

@contract('P15', 'equality of different grids', [S + '__eq__'])
def eq_bad(E):
    """surfaces of different size or step, and objects of another type, are never equal"""
    a, h, sx, sy = surface(E, nan=True)
    k = E.choose('case', ['rows', 'columns', 'step_x', 'step_y', 'type'])
    if k in ('rows', 'columns'):
        g = E.array('g', [('gy', 1), ('gx', 1)], nan=True)
        E.req(g.shape[0] != h.shape[0] if k == 'rows' else g.shape[1] != h.shape[1])
        E.ens('size', E.neg(a == Surface(g, sx, sy)))
    elif k == 'step_x':
        t = other_step(E, sx)
        E.ens('step_x', E.neg(a == Surface(own(h), t, sy)))
    elif k == 'step_y':
        t = other_step(E, sy)
        E.ens('step_y', E.neg(a == Surface(own(h), sx, t)))
    else:
        from surfalize.profile import Profile
        for o in (1, 1.0, None, 'a', (), [1.0], object(), Profile(h[0], sx)):
            E.ens('type', (a == o) is False)

@contract('P15', 'hash', [S + '__hash__'])
def hsh(E):
    """equal surfaces hash equally"""
    a, b, h, g, sx, sy = two(E)
    if not E.sym: b = Surface(np.where(np.isnan(h), h, h + E.rng.choice([0, 4e-11, -5e-11])), sx, sy)
    E.req(a == b)
    E.ens('hash', hash(a) == hash(b) if not E.sym else a.__hash__() == b.__hash__())

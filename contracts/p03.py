from dv.contract import contract
from .common import *
S = 'surfalize/surface.py:Surface.'

@contract('P03', 'Sdq', [S + 'Sdq'])
def sdq(E):
    """Sdq = sqrt of (sum of squared x slopes + sum of squared y slopes) over the number of points"""
    s, h, sx, sy = surface(E)
    ny, nx = h.shape
    a = E.sum((ny, nx - 1), lambda i, j: ((E.at(h, (i, j + 1)) - E.at(h, (i, j))) / sx) ** 2)
    b = E.sum((ny - 1, nx), lambda i, j: ((E.at(h, (i + 1, j)) - E.at(h, (i, j))) / sy) ** 2)
    E.ens_eq('Sdq', s.Sdq(), E.np.sqrt((a + b) / (ny * nx)))

@contract('P03', 'surface area', [S + 'surface_area'])
def area(E):
    """developed area = sum over the grid cells of the cell area spanned by the forward differences at the first corner"""
    s, h, sx, sy = surface(E, ny=2, nx=2)
    ny, nx = h.shape
    spec = E.sum((ny - 1, nx - 1), lambda i, j: E.np.sqrt((sx * (E.at(h, (i + 1, j)) - E.at(h, (i, j)))) ** 2 + (sy * (E.at(h, (i, j + 1)) - E.at(h, (i, j)))) ** 2 + (sx * sy) ** 2))
    E.ens_eq('A', s.surface_area(), spec)

@contract('P03', 'area not below the flat area', [S + 'surface_area'])
def area_ge(E):
    """the developed area is never smaller than the summed flat cell area"""
    s, h, sx, sy = surface(E, ny=2, nx=2)
    ny, nx = h.shape
    d = E.np.zeros((ny - 1, nx - 1))
    dx = h[:-1, 1:] - h[:-1, :-1]; dy = h[1:, :-1] - h[:-1, :-1]
    cell = E.np.sqrt((sy * dx) ** 2 + (sx * dy) ** 2 + (sx * sy) ** 2)
    flat = E.np.sqrt(d + (sx * sy) ** 2)
    E.lemma_sum_le('cells', flat, cell)
    E.lemma('cells sum', E.np.sum(flat) <= E.np.sum(cell) * (1 + 1e-9) if not E.sym else E.np.sum(flat) <= E.np.sum(cell))
    E.ens('area', s.surface_area() >= (nx - 1) * (ny - 1) * sx * sy * (1 if E.sym else 1 - 1e-9))

@contract('P03', 'flat surface', [S + 'surface_area'])
def area_flat(E):
    """the developed area of a flat surface is the summed flat cell area"""
    sx, sy = steps(E); c = E.real('c')
    ny, nx = E.int('ny', lo=2), E.int('nx', lo=2)
    s = Surface(E.np.zeros((ny, nx)) + c, sx, sy)
    E.ens_eq('area', s.surface_area(), (nx - 1) * (ny - 1) * sx * sy)
    E.ens_eq('Sdq', s.Sdq(), 0)

@contract('P03', 'Sdr', [S + 'Sdr', S + 'projected_area'])
def sdr(E):
    """Sdr is the relative excess, in percent, of the developed area over the projected area the surface reports"""
    s, h, sx, sy = surface(E, ny=3, nx=3)
    ny, nx = h.shape
    pa = s.projected_area()
    E.ens_eq('Sdr', s.Sdr(), (s.surface_area() - pa) / pa * 100)

@contract('P03', 'Sdr flat', [S + 'Sdr', S + 'projected_area'], finding=True)
def sdr_flat(E):
    """Sdr of a flat surface is zero"""
    sx, sy = steps(E); c = E.real('c')
    ny, nx = E.int('ny', lo=3), E.int('nx', lo=3)
    s = Surface(E.np.zeros((ny, nx)) + c, sx, sy)
    E.ens_eq('Sdr of a flat surface', s.Sdr(), 0)

@contract('P03', 'projected area', [S + 'projected_area'])
def proj(E):
    """the projected area is that of the cells enclosed by the outermost ring of cells' midlines: (nx-2)(ny-2) cells (as built; see known finding on Sdr)"""
    s, h, sx, sy = surface(E, ny=3, nx=3)
    ny, nx = h.shape
    E.ens_eq('projected area', s.projected_area(), (nx - 2) * sx * (ny - 2) * sy)

@contract('P03', 'Rdq', ['surfalize/profile.py:Profile.Rdq'])
def rdq(E):
    """Rdq = root mean square of the forward-difference slopes"""
    p, h, st = profile(E, n=2)
    n = h.shape[0]
    # the length a profile is constructed with need not be a multiple of its step
    k = E.choose('length', ['consistent', 'arbitrary', 'default'])
    if k == 'arbitrary': p = Profile(own(h), st, E.real('length_um', gt=0, conc=STEPS))
    if k == 'default': p = Profile(own(h), st)
    q = E.sum((n - 1,), lambda i: ((E.at(h, (i + 1,)) - E.at(h, (i,))) / st) ** 2)
    E.ens_eq('Rdq', p.Rdq(), E.np.sqrt(q / (n - 1)))

ask = lambda n, *a, **k: (lambda t: getattr(t, n)(*a, **k))
magnitude_contract('P03', [S + n for n in ('Sdq', 'surface_area', 'projected_area')], dict(surface={'Sdq': (ask('Sdq'), 1)}, profile={'Rdq': (ask('Rdq'), 1)}))

@contract('P03', 'sizes of any magnitude', [S + n for n in ('Sdq', 'surface_area', 'projected_area')], sym=False, bounded=MAGNITUDES, samples=(60, 600))
def similar(E):
    """scaling heights and steps alike scales areas by the square and leaves slopes and Sdr unchanged"""
    magnitudes(E, 'surface', {'surface_area': (ask('surface_area'), 2), 'projected_area': (ask('projected_area'), 2), 'Sdq': (ask('Sdq'), 0), 'Sdr': (ask('Sdr'), 0)}, steps_too=True)

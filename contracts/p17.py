from dv.contract import contract
from .files import *
from surfalize.file import sur, sdf, al3d, tmd, sflz
from surfalize.image import Image
F = 'surfalize/file/'
FH = [F + 'common.py:FileHandler.read', F + 'common.py:FileHandler.write', F + 'common.py:open_file_like', F + 'common.py:Layout.read', F + 'common.py:Layout.write', F + 'common.py:read_array', F + 'common.py:write_array']
VIA = ['buffer', 'path']

def pair(E, s, fmt, save={}, load={}):
    with Target(E, fmt, E.choose('via', VIA)) as t:
        t.save(s, **save)
        return t.load(**load)

def ens_heights(E, r, h, tol, exact=False):
    """same missing points; every measured height within tol (a function of the lowest and highest height)"""
    E.ens_shape('rows and columns', r.data, h.shape)
    if not E.sym:
        E.ens('missing points', np.array_equal(np.isnan(r.data), np.isnan(h)))
        m = ~np.isnan(h); lo, hi = h[m].min(), h[m].max()
        E.ens('heights', bool((np.abs(r.data[m].astype(float) - h[m]) <= tol(lo, hi) + 1e-300).all()), f'{r.data.tolist()!r:.200} for {h.tolist()!r:.200}')

def single(lo, hi): return 2.0 ** -22 * max(abs(lo), abs(hi))
def double(lo, hi): return 1e-12 * max(abs(lo), abs(hi))

@contract('P17', 'tmd', [F + 'tmd.py:write_tmd', F + 'tmd.py:read_tmd'] + FH)
def tmd_(E):
    """.tmd: single precision heights, lengths divided by the number of points give the steps back"""
    s, h, sx, sy = file_surface(E)
    c = E.choose('comment', [None, '', 'x', 'Messung 1', 'a' * 21])
    r = pair(E, s, '.tmd', {} if c is None else dict(comment=c))
    if E.sym: E.ens_arr('heights', r.data, h)
    else:
        ens_heights(E, r, h, single)
        E.ens('comment', r.metadata['comment'].strip() == ('Exported by surfalize' if c is None else c))
    E.ens_eq('step_x', r.step_x, sx, tol=1e-6); E.ens_eq('step_y', r.step_y, sy, tol=1e-6)

@contract('P17', 'al3d', [F + 'al3d.py:write_al3d', F + 'al3d.py:read_al3d', F + 'al3d.py:write_tag', F + 'al3d.py:read_tag'] + FH)
def al3d_(E):
    """.al3d: single precision heights in metres, steps as decimal text"""
    s, h, sx, sy = file_surface(E)
    r = pair(E, s, '.al3d')
    if E.sym: E.ens_arr('heights', r.data, h)
    else: ens_heights(E, r, h, single)
    E.ens_eq('step_x', r.step_x, sx, tol=1e-9); E.ens_eq('step_y', r.step_y, sy, tol=1e-9)

@contract('P17', 'sdf binary', [F + 'sdf.py:write_sdf', F + 'sdf.py:read_sdf', F + 'sdf.py:read_binary_sdf'] + FH)
def sdf_(E):
    """.sdf binary: double precision"""
    s, h, sx, sy = file_surface(E)
    if E.sym: E.req(E.both(h.shape[0] < 2**16, h.shape[1] < 2**16))
    r = pair(E, s, '.sdf')
    if E.sym: E.ens_arr('heights', r.data, h)
    else: ens_heights(E, r, h, double)
    E.ens_eq('step_x', r.step_x, sx, tol=1e-12); E.ens_eq('step_y', r.step_y, sy, tol=1e-12)

@contract('P17', 'sdf text', [F + 'sdf.py:write_sdf', F + 'sdf.py:read_sdf', F + 'sdf.py:read_ascii_sdf'] + FH, sym=False, bounded='seeded surfaces up to 16 x 16', samples=(150, 1500))
def sdf_text(E):
    """.sdf text: ten decimals of the mantissa"""
    s, h, sx, sy = file_surface(E)
    r = pair(E, s, '.sdf', dict(binary=False))
    ens_heights(E, r, h, lambda lo, hi: 1e-9 * max(abs(lo), abs(hi)))
    E.ens_eq('step_x', r.step_x, sx, tol=1e-12); E.ens_eq('step_y', r.step_y, sy, tol=1e-12)

SUR = [F + 'sur.py:write_sur', F + 'sur.py:read_sur', F + 'sur.py:read_sur_object', F + 'sur.py:read_sur_header', F + 'sur.py:get_surface'] + FH
def sur_(E, z):
    s, h, sx, sy = file_surface(E)
    c = E.choose('comment', ['', 'Probe 1, µm']) if not E.sym else 'Probe 1, µm'
    if E.sym: E.e.fact(gio.z3.Const('size_bound', gio.I) < 2**31)
    E.watch_narrowing()
    r = pair(E, s, '.sur', dict(compressed=z, comment=c))
    E.ens_narrowing()
    E.ens_eq('step_x', r.step_x, sx, tol=1e-6); E.ens_eq('step_y', r.step_y, sy, tol=1e-6)
    E.ens('comment', r.metadata['comment'] == c.encode('utf-8'))
    if not E.sym: ens_heights(E, r, h, lambda lo, hi: 2.0 ** -22 * (hi - lo) + 2.0 ** -22 * max(abs(lo), abs(hi))); return
    K = 2**32 - 4
    lo, hi = E.np.nanmin(h), E.np.nanmax(h)
    E.ens_shape('rows and columns', r.data, h.shape)
    for i in E.each(h):
        x, y = E.at(h, i), E.at(r.data, i)
        E.ens_eq('missing points', E.missing(y), E.missing(x))
        E.req(E.neg(E.missing(x)))
        if E.cond(hi > lo):
            E.nonzero(hi - lo)
            z = (x - lo) / (hi - lo) * K - K / 2
            E.ens('height', E.np.abs(y - x) <= (hi - lo) / K)
        else: E.ens_eq('height', y, x)

@contract('P17', 'sur plain', SUR + [F + 'sur.py:read_uncompressed_data'])
def sur_plain(E):
    """.sur: 32 bit samples between the lowest and the highest height"""
    sur_(E, False)

@contract('P17', 'sur compressed', SUR + [F + 'sur.py:read_compressed_data', F + 'sur.py:read_directory'])
def sur_comp(E):
    """.sur compressed: 32 bit samples between the lowest and the highest height"""
    sur_(E, True)

SFLZ = [F + 'sflz.py:write_sflz', F + 'sflz.py:read_sflz', F + 'sflz.py:compress', F + 'sflz.py:decompress', F + 'sflz.py:ConvertCompression.read', F + 'sflz.py:ConvertCompression.write', F + 'common.py:FormatFromPrevious.get_format'] + FH
def sample_error(d, lo, hi):
    d = np.dtype(d)
    if d.kind == 'f': return max(float(np.finfo(d).eps), 1e-15) * max(abs(lo), abs(hi)) + float(np.finfo(d).tiny)
    return (hi - lo) * (2.0 ** -(8 * d.itemsize) * 1.01 + 1e-13) + 1e-14 * max(abs(lo), abs(hi))

def sflz_(E, dtypes, nan):
    s, h, sx, sy = file_surface(E, nan=nan)
    combos = [(d, c) for d in dtypes for c in ('none', 'zlib', 'lzma') if not E.sym or d == dtypes[0] or c == 'zlib']
    d, c = E.choose('samples and compression', combos)
    if nan and None in dtypes: E.req(E.has_nan(h))
    if E.sym: E.e.fact(gio.z3.Const('size_bound', gio.I) < 2**31)
    E.watch_narrowing()
    r = pair(E, s, '.sflz', dict(compression=c, **({} if d is None else dict(dtype=d))))
    E.ens_narrowing()
    d = np.dtype(d or '<u4')
    E.ens_eq('step_x', r.step_x, sx, tol=1e-15); E.ens_eq('step_y', r.step_y, sy, tol=1e-15)
    if not E.sym:
        # half precision overflows beyond 65504
        E.req(d != np.dtype('<f2') or np.nanmax(np.abs(h)) < 6e4)
        if d.kind in 'iu' and np.isnan(h).any(): d = np.dtype('<f8')
        ens_heights(E, r, h, lambda lo, hi: sample_error(d, lo, hi)); return
    if d.kind == 'f' or nan: E.ens_arr('heights', r.data, h); return
    lo, hi = E.np.min(h), E.np.max(h)
    E.ens_shape('rows and columns', r.data, h.shape)
    ii = np.iinfo(d); K = int(ii.max) - int(ii.min)
    if d.itemsize == 8: K = 2**52
    for i in E.each(h):
        x, y = E.at(h, i), E.at(r.data, i)
        E.ens('no missing point', E.neg(E.missing(y)))
        if E.cond(hi > lo):
            E.nonzero(hi - lo)
            E.ens('height', E.np.abs(y - x) <= (hi - lo) / K)
        else: E.ens_eq('height', y, x)

@contract('P17', 'sflz integer samples', SFLZ)
def sflz_int(E):
    """.sflz with integer samples: heights to one sample step between the lowest and the highest height"""
    sflz_(E, [None, '<u4', '<i4', '<u2', '<i2', '|u1', '|i1', '>i2', '<u8', '<i8'], False)

@contract('P17', 'sflz with missing points', SFLZ)
def sflz_nan(E):
    """.sflz: integer samples cannot hold missing points, doubles are stored instead"""
    sflz_(E, [None, '<i2', '<u4', '<f8'], True)

@contract('P17', 'sflz float samples', SFLZ)
def sflz_float(E):
    """.sflz with floating point samples"""
    sflz_(E, ['<f8', '<f4', '<f2', '>f8'], True)

@contract('P17', 'sflz image layers', SFLZ + ['surfalize/surface.py:Surface.from_raw_surface', 'surfalize/image.py:Image.__init__'])
def sflz_layers(E):
    """.sflz: image layers come back unchanged under their names, and only when asked for"""
    s, h, sx, sy = file_surface(E, nan=False)
    c = E.choose('compression', ['none', 'zlib', 'lzma']); keep = E.choose('saved', [True, False]); ask = E.choose('asked for', [True, False])
    dt = E.choose('image samples', ['uint8', 'uint16'])
    a = E.array('a', [('a_ny', 1), ('a_nx', 1)], kind='i').astype(dt); b = E.array('b', [('b_ny', 1), ('b_nx', 1), 3], kind='i').astype('uint8')
    if E.sym:
        E.e.fact(gio.z3.Const('size_bound', gio.I) < 2**31)
        for t in (a, b):
            E.req(t.shape[0] * t.shape[1] * 6 < 2**31)
            E.e.narrow = None
    s.image_layers = {'Intensität': Image(a.copy()), 'RGB': Image(b.copy())}
    r = pair(E, s, '.sflz', dict(compression=c, save_image_layers=keep), dict(read_image_layers=ask))
    if keep and ask:
        E.ens('names in order', list(r.image_layers) == ['Intensität', 'RGB'])
        for n, t in (('Intensität', a), ('RGB', b)):
            E.ens('sample type', r.image_layers[n].data.dtype == t.dtype); E.ens_arr('pixels', r.image_layers[n].data, t)
    else: E.ens('none', list(r.image_layers) == [])
    E.ens_shape('rows and columns', r.data, h.shape)

import importlib, itertools, pkgutil, struct as pystruct
from fractions import Fraction
from dv.contract import contract
from .files import *
import surfalize.file as pkg
from surfalize.file import common as fc
from surfalize.file.common import Layout, Entry, Reserved, FormatFromPrevious, Apply
F = 'surfalize/file/common.py:'

EXP = {'m': 0, 'meter': 0, 'dm': -1, 'decimeter': -1, 'cm': -2, 'centimeter': -2, 'mm': -3, 'millimeter': -3, 'um': -6, 'micrometer': -6, 'nm': -9, 'nanometer': -9, 'pm': -12, 'picometer': -12}
MICRO = ['\u00b5m', '\u03bcm', '\u339b']
UNITS = [F + f for f in ('get_unit_conversion', '_sanitize_mu', 'fix_decoding_issues')]

def cases(s): return sorted({''.join(c) for c in itertools.product(*[{x.lower(), x.upper()} for x in s])})

@contract('P18', 'unit factors', UNITS, samples=(2, 3))
def factors(E):
    """exact power of ten for every ordered pair of units and micro signs"""
    U = {**EXP, **{m: -6 for m in MICRO}}
    for a in U:
        for b in U:
            f = fc.get_unit_conversion(a, b)
            E.ens(f'{a} to {b}', Fraction(f) == Fraction(float(Fraction(10) ** (U[a] - U[b]))), f)
            g = fc.get_unit_conversion(b, a)
            E.ens(f'{a} to {b} and back', abs(f * g - 1) <= 4e-16, f * g)

@contract('P18', 'chained conversions', UNITS, samples=(2, 3))
def chained(E):
    """converting over any third unit multiplies to the direct factor"""
    U = ['m', 'dm', 'cm', 'mm', 'um', 'nm', 'pm']
    for a, b, c in itertools.product(U, U, U):
        x, y = fc.get_unit_conversion(a, b) * fc.get_unit_conversion(b, c), fc.get_unit_conversion(a, c)
        E.ens(f'{a} over {b} to {c}', abs(x - y) <= 1e-15 * y, x)

@contract('P18', 'unit case', UNITS, samples=(2, 3))
def case(E):
    """every combination of upper and lower case names the same unit"""
    for u, e in [*EXP.items(), *[(m, -6) for m in MICRO[:1]]]:
        ok = all(fc.get_unit_conversion(v, 'm') == fc.get_unit_conversion(u, 'm') and fc.get_unit_conversion('m', v) == fc.get_unit_conversion('m', u) for v in (cases(u) if u[0] != MICRO[0][0] else [u, u[0] + 'M']))
        E.ens(f'{u}', ok)

@contract('P18', 'other units refused', UNITS)
def unknown(E):
    """an arbitrary string converts only as one of the units or as a misdecoded micro sign, and is refused otherwise"""
    if not E.sym:
        u = E.choose('u', ['', 'x', 'km', 'inch', 'um ', ' um', 'u', 'mmm', 'hm', 'm\u00b2', '1', 'foo', 'meters', 'mu'])
        v = E.choose('v', list(EXP))
        E.raises('refused', ValueError, fc.get_unit_conversion, u, v); E.raises('refused as target', ValueError, fc.get_unit_conversion, v, u)
        return
    from dv.gio import SStr
    mis = fc.get_possible_mu_decodings()
    SStr.UNIVERSE = set(EXP) | {'um'}
    v = E.choose('other', ['m', 'um', 'picometer']); src = E.choose('role', ['source', 'target'])
    u = SStr.fresh('unit')
    old = fc.get_possible_mu_decodings
    fc.get_possible_mu_decodings = lambda: Mis()
    try:
        try: f = fc.get_unit_conversion(u, v) if src == 'source' else fc.get_unit_conversion(v, u)
        except ValueError: f = None
    finally: fc.get_possible_mu_decodings = old
    n = SStr(u.t)
    for a, b in (('\u00b5', 'u'), ('\u03bc', 'u'), ('\u339b', 'um')): n = n.replace(a, b)
    n = n.lower()
    w = n.which()
    if w is not None: E.ens('factor of the unit', f == (10 ** (EXP[w] - EXP[v]) if src == 'source' else 10 ** (EXP[v] - EXP[w])))
    elif f is not None:
        E.ens('factor of a misdecoded micrometre', f == (10 ** (-6 - EXP[v]) if src == 'source' else 10 ** (EXP[v] + 6)))
        E.ens('ends with m', n.endswith('m')); E.ens('misdecoded micro sign before', n[:-1] in Mis())
    else: E.ens('not a misdecoded micrometre', E.neg(E.both(n.endswith('m'), n[:-1].member())))

class Mis:
    """the set of misdecoded micro signs, membership of an arbitrary string undetermined"""
    def __contains__(self, s): return bool(s.member())

# ---------------------------------------------------------------------------------------------- layouts
def layouts():
    out = {}
    for m in pkgutil.iter_modules(pkg.__path__):
        mod = importlib.import_module(f'surfalize.file.{m.name}')
        for k, v in vars(mod).items():
            if isinstance(v, Layout): out[f'{m.name}.{k}'] = v
    return out
LAYOUTS = layouts()

def value_for(E, e, data):
    """an arbitrary representable value for an entry"""
    if isinstance(e.format, Apply):
        return E.choose(e.name, ['none', 'zlib', 'lzma'])
    f = e.format.get_format(data) if isinstance(e.format, FormatFromPrevious) else e.format
    c = f[-1]
    if c == 's':
        n = pystruct.calcsize(f)
        if E.sym: return gio.SText(e.name) if n else ''
        def txt(r):
            s = ''.join(r.choice(list('abcXYZ 019_-µé'), int(r.integers(0, n + 1)))).rstrip()
            while len(s.encode()) > n: s = s[:-1].rstrip()
            return s
        s = txt(E.rng)
        if isinstance(e.format, FormatFromPrevious): s = (s.encode('ascii', 'ignore').decode() + 'q' * n)[:n]; s = s.replace(' ', 'x')
        return s
    if c == '?': return E.int(e.name, lo=0, hi=1) == 1
    if c in 'fd': 
        return E.real(e.name, conc=(lambda r: float(np.float32(r.normal() * 10.0 ** r.integers(-9, 9)))) if c == 'f' else (lambda r: float(r.normal() * 10.0 ** r.integers(-9, 9))))
    lo, hi = gio.RANGE[c]
    # texts whose length is a field are kept short
    if any(isinstance(x, Entry) and isinstance(x.format, FormatFromPrevious) and x.format.previous == e.name for x in data['']): return E.choose(e.name, [0, 1, 7, 24])
    return E.int(e.name, lo=lo, hi=hi, conc=lambda r: [lo, hi, 0, 1, int(r.integers(max(lo, -2**62), min(hi, 2**62)))][int(r.integers(5))])

def items(f):
    """number of values of a format"""
    return len(pystruct.unpack(f, bytes(pystruct.calcsize(f)))) if isinstance(f, str) else 1

def roundtrip(E, L, enc):
    data = {'': L._entries}
    size = 0
    for e in L._entries:
        if isinstance(e, Reserved): size += e.nbytes; continue
        if items(e.format) > 1: # only ever read; the reader keeps the first value
            data[e.name] = value_for(E, Entry(e.name, e.format[:1] + e.format[-1]), data)
            size += pystruct.calcsize(e.format); continue
        data[e.name] = value_for(E, e, data)
        f = e.format.dtype if isinstance(e.format, Apply) else e.format.get_format(data) if isinstance(e.format, FormatFromPrevious) else e.format
        size += pystruct.calcsize(f)
    entries = data.pop('')
    f = gio.SFile() if E.sym else io.BytesIO()
    f.write(b'before')
    if all(isinstance(e, Reserved) or items(e.format) == 1 for e in entries): L.write(f, data, encoding='utf-8')
    else:
        for e in entries:
            if not isinstance(e, Reserved) and (n := items(e.format)) > 1: f.write(fc.struct.pack(e.format, *[data[e.name]] * n))
            else: e.write(f, data, 'utf-8')
    E.ens_eq('bytes written', f.tell(), 6 + size)
    f.write(b'after'); f.seek(6)
    got = L.read(f, encoding=enc)
    E.ens_eq('bytes consumed', f.tell(), 6 + size)
    E.ens('the next record is untouched', f.read(5) == b'after')
    E.ens('fields in order', list(got) == [e.name for e in entries if not isinstance(e, Reserved)])
    for k in got:
        if isinstance(data[k], str): E.ens(f'{k}', got[k] == data[k], f'{got[k]!r} for {data[k]!r}')
        else: E.ens_eq(f'{k}', got[k], data[k], atol=0)

LAY = [F + c for c in ('Layout.write', 'Layout.read', 'Entry.write', 'Entry.read', 'Reserved.write', 'Reserved.read', 'FormatFromPrevious.get_format', 'Apply.convert_from_file', 'Apply.convert_to_file', 'decode')]
for _n, _L in LAYOUTS.items():
    def _mk(n, L):
        @contract('P18', f'layout {n}', LAY, samples=(40, 400))
        def lay(E):
            """what is written with the layout is read back, byte for byte"""
            roundtrip(E, L, E.choose('encoding', ['utf-8', 'auto']))
    _mk(_n, _L)

@contract('P18', 'single entries', LAY)
def entries(E):
    """an entry of each format, alone and between reserved bytes"""
    fmt = E.choose('format', [o + c for c in 'bBhHiIqQfd?' for o in ('', '<', '>')] + ['1s', '7s', '30s'])
    a, b = E.choose('reserved', [(0, 0), (1, 3), (4, 17)])
    roundtrip(E, Layout(Reserved(a), Entry('x', fmt), Reserved(b), Entry('y', fmt)), 'utf-8')

@contract('P18', 'arrays', [F + 'read_array', F + 'write_array'])
def arrays(E):
    """arrays written to a file or buffer come back element for element, from the current position plus offset, and no further"""
    dt = E.choose('samples', ['float64', 'float32', 'int32', 'int16', 'uint8'])
    k = E.choose('offset', [0, 3]); limited = E.choose('limited', [False, True])
    a = E.array('a', [('a_ny', 1), ('a_nx', 1)], kind='i').astype(dt)
    disk = E.choose('disk', [False, True])
    if E.sym: f = gio.SFile(disk)
    else:
        f = tempfile.TemporaryFile() if disk else io.BytesIO()
        a = E.choose('storage', [np.ascontiguousarray, np.asfortranarray, lambda x: np.repeat(x, 2, 1)[:, ::2], lambda x: x[::-1, ::-1]])(a)
    f.write(b'before'); f.write(b'x' * k); fc.write_array(a, f)
    if limited: f.write(b'after')
    f.seek(6)
    ny, nx = a.shape
    if E.sym: E.nonzero(ny); E.nonzero(nx)
    r = fc.read_array(f, dt, **(dict(count=ny * nx) if limited else {}), offset=k)
    E.ens_arr('elements', r.reshape(ny, nx), a); E.ens('sample type', r.dtype == a.dtype)
    if limited: E.ens('rest untouched', f.read() == b'after')
    if not E.sym: f.close()

@contract('P18', 'partial arrays', [F + 'read_array', F + 'write_array'])
def partial(E):
    """any number of elements may be asked for, none included; the rest is left in the stream"""
    dt = E.choose('samples', ['float64', 'int16', 'uint8'])
    k = E.choose('offset', [0, 3]); disk = E.choose('disk', [False, True])
    f = gio.SFile(disk) if E.sym else tempfile.TemporaryFile() if disk else io.BytesIO()
    f.write(b'before'); f.write(b'x' * k)
    # the array is written in two parts, the first holds the elements asked for
    a, b = [E.array(q, [(q + '_n', 0)], kind='i').astype(dt) for q in 'ab']
    fc.write_array(a, f); fc.write_array(b, f); f.write(b'after')
    f.seek(6)
    r = fc.read_array(f, dt, size1(E, a), k) if E.choose('positional', [True, False]) else fc.read_array(f, dt, offset=k, count=size1(E, a))
    E.ens_arr('elements', r, a); E.ens('sample type', r.dtype == a.dtype)
    r = fc.read_array(f, dt, count=size1(E, b))
    E.ens_arr('following elements', r, b)
    E.ens('rest untouched', f.read() == b'after')
    if not E.sym: f.close()

@contract('P18', 'texts of any encoding', LAY, sym=False, bounded='texts of up to 8 characters of several scripts in four encodings', samples=(60, 600))
def encodings(E):
    """a text the encoding of the layout cannot express is refused, every other one read back"""
    enc = E.choose('encoding', ['ascii', 'latin1', 'utf-8', 'utf-16-le'])
    s = ''.join(E.rng.choice(list('abc XYZ0_-µéμ㎛Ωß'), int(E.rng.integers(0, 5)))).rstrip()
    L = Layout(Reserved(2), Entry('a', '40s'), Reserved(2), Entry('b', '1b')); f = io.BytesIO()
    try: s.encode(enc); ok = True
    except UnicodeEncodeError: ok = False
    if enc == 'utf-16-le' : ok = None
    try:
        L.write(f, dict(a=s, b=7), enc)
        f.seek(0); got = L.read(f, enc)
        E.ens('text', got['a'].rstrip(' \x00') == s, repr(got)); E.ens('next field', got['b'] == 7)
        E.ens('consumed', f.tell() == 45)
    except (UnicodeEncodeError, fc.struct.error) as e: E.ens('refused', ok is not True, repr(e))

"""Symbolic strings, texts of numbers, and byte streams.

A byte stream is a list of pieces whose lengths may be symbolic: literal bytes, packed numbers, texts padded to a fixed
field, the bytes of an array, a compressed stream.  Assumed contracts (struct, zlib, lzma, ndarray.tobytes/frombuffer,
str/float conversion of numbers, file objects) say that what is packed is what is unpacked with the same format; a read
that does not end at the border of a piece, or decodes it as something else, is outside the model."""
import io, struct as _struct, zlib as _zlib, lzma as _lzma
from . import core
from .core import *
from .core import _np
from . import arr as A
from .arr import SArr, I_
import z3

def eng(): return core.ENG
RANGE = dict(b=(-2**7, 2**7 - 1), B=(0, 2**8 - 1), h=(-2**15, 2**15 - 1), H=(0, 2**16 - 1), i=(-2**31, 2**31 - 1), I=(0, 2**32 - 1), l=(-2**31, 2**31 - 1), L=(0, 2**32 - 1), q=(-2**63, 2**63 - 1), Q=(0, 2**64 - 1))

# ------------------------------------------------------------------------------------------------ texts
class SText(str):
    """opaque text: what is known is its identity, that it does not end with blanks or NULs, and that it fits the fields it is written to"""
    def __new__(cls, key, pad=False, num=None):
        s = str.__new__(cls, f'\ue000{key}\ue000'); s.key, s.pad, s.num = key, pad, num; return s
    def ljust(s, n, *a): return SText(s.key, True, s.num)
    def rstrip(s, *a): return SText(s.key, False, s.num)
    def strip(s, *a): return SText(s.key if s.num is not None else f'strip({s.key})', False, s.num)
    def encode(s, *a): return SB([('text', None, s)])
    def __eq__(s, o):
        if isinstance(o, SText):
            if s.pad != o.pad: raise Unsupported('comparison of padded texts')
            return s.key == o.key if (s.key == o.key or s.num is None and o.num is None) else _no('comparison of texts')
        return _no('comparison of an arbitrary text with a literal')
    def __ne__(s, o): return not s == o
    def __hash__(s): return hash(('SText', s.key))
    def __len__(s): _no('length of a text')
    def __format__(s, spec): return repr(s)
    def __repr__(s): return f'<text {s.key}>'
    def __str__(s): return s
def _no(m): raise Unsupported(m)
for _m in ('__add__ __contains__ __getitem__ __ge__ __gt__ __iter__ __le__ __lt__ __mod__ __mul__ __rmul__ __radd__ capitalize casefold center count endswith expandtabs find format '
           'index isalnum isalpha isascii isdecimal isdigit isidentifier islower isnumeric isprintable isspace istitle isupper join lower lstrip partition replace rfind rindex rjust '
           'rpartition rsplit split splitlines startswith swapcase title translate upper zfill removeprefix removesuffix').split():
    setattr(SText, _m, (lambda m: lambda s, *a, **k: _no(f'text.{m}'))(_m))

S = z3.StringSort()
class SStr:
    """arbitrary string over a universe of relevant literals: equal to one of them or to none"""
    UNIVERSE = set()
    def __init__(self, t, lowered=False): self.t, self.lowered = t, lowered
    @classmethod
    def fresh(cls, name):
        t = z3.Const('str_' + name, S); eng().inputs[name] = dict(kind='value', value=0)
        return cls(t)
    def _fn(s, name): return z3.Function('str_' + name, S, S)(s.t)
    def lower(s): return s if s.lowered else SStr(s._fn('lower'), True)
    def casefold(s): return SStr(s._fn('casefold'))
    def strip(s, *a): return SStr(s._fn(f'strip{a!r}'), s.lowered)
    def replace(s, a, b): return SStr(s._fn(f'replace[{a!r},{b!r}]'))
    def which(s):
        """the literal of the universe this string equals on the current path, or None"""
        memo = eng().__dict__.setdefault('strs', {})
        if s.t.get_id() not in memo:
            U = [l for l in sorted(SStr.UNIVERSE) if not (s.lowered and l.lower() != l)]
            w = (U + [None])[eng().choose(len(U) + 1)]
            memo[s.t.get_id()] = (s.t, w)
            eng().fact(z3.And([s.t != z3.StringVal(l) for l in U]) if w is None else s.t == z3.StringVal(w))
        return memo[s.t.get_id()][1]
    def _lit(s, sym, con):
        w = s.which()
        return con(w) if w is not None else sym()
    def endswith(s, x): return s._lit(lambda: SBool(z3.Or([z3.SuffixOf(z3.StringVal(y), s.t) for y in (x if isinstance(x, tuple) else (x,))])), lambda w: w.endswith(x))
    def startswith(s, x): return s._lit(lambda: SBool(z3.Or([z3.PrefixOf(z3.StringVal(y), s.t) for y in (x if isinstance(x, tuple) else (x,))])), lambda w: w.startswith(x))
    def removesuffix(s, x): return s._lit(lambda: s[:-len(x)] if x and s.endswith(x) else s, lambda w: w.removesuffix(x))
    def removeprefix(s, x): return s._lit(lambda: s[len(x):] if x and s.startswith(x) else s, lambda w: w.removeprefix(x))
    def __slen__(s): return s._lit(lambda: SNum(z3.Length(s.t)), len)
    def __getitem__(s, k):
        w = s.which()
        if w is not None: return w[k]
        n = z3.Length(s.t)
        if isinstance(k, slice):
            if k.step not in (None, 1) or any(not isinstance(x, (int, type(None))) for x in (k.start, k.stop)): _no('string slice')
            def at(x, d): return d if x is None else z3.If(z3.IntVal(x) < n, z3.IntVal(x), n) if x >= 0 else z3.If(n + x > 0, n + x, z3.IntVal(0))
            a, b = at(k.start, z3.IntVal(0)), at(k.stop, n)
            return SStr(z3.SubString(s.t, a, z3.If(b > a, b - a, z3.IntVal(0))), s.lowered).free()
        if isinstance(k, int):
            if not eng().branch(n > k if k >= 0 else n >= -k): raise IndexError('string index out of range')
            return SStr(z3.SubString(s.t, z3.IntVal(k) if k >= 0 else n + k, 1), s.lowered).free()
        _no('string index')
    def free(s):
        """a part of a string: not one of the distinguished strings' forks (compared by its characters)"""
        eng().__dict__.setdefault('strs', {}).setdefault(s.t.get_id(), (s.t, None)); s.part = True
        return s
    part = False
    def member(s):
        w = s.which()
        return SBool(FALSE) if w is not None else SBool(z3.Function('str_in_set', S, B)(s.t))
    def __hash__(s):
        w = s.which()
        return hash(w) if w is not None else hash(('SStr', s.t.get_id()))
    def __eq__(s, o):
        if isinstance(o, SStr): return True if s.t.eq(o.t) else eng().branch(s.t == o.t)
        if isinstance(o, str):
            w = s.which()
            if w is not None: return w == o
            return False if o in SStr.UNIVERSE and not s.part else eng().branch(s.t == z3.StringVal(o))
        return False
    def __ne__(s, o): return not s == o
    def __bool__(s):
        w = s.which()
        return bool(w) if w is not None else eng().branch(z3.Length(s.t) > 0)
    def __format__(s, spec): return f'<string {s.t}>'
    __str__ = __repr__ = lambda s: f'<string {s.t}>'

def text_of(x, kind):
    """decimal text of a number (assumed: int / float of it gives the number back, at most 24 characters)"""
    eng().assumed.add('str(number): at most 24 characters, converted back to the same number')
    return SText(f'{kind}:{x!r}', num=x)

# ------------------------------------------------------------------------------------------------ bytes
def _len(p):
    k = p[0]
    if k == 'raw': return len(p[1])
    if k == 'num': return _struct.calcsize(p[1])
    if k == 'text': return p[1] if p[1] is not None else _no('length of an encoded text')
    if k == 'arr': return SNum(arith('*', A.iprod(p[1].dims), z3.IntVal(p[2].itemsize)))
    if k == 'zip': return p[3]
    _no(k)
def ladd(xs):
    c, s = 0, None
    for x in xs:
        v = x if isinstance(x, int) else numval(x.t)
        if v is not None: c += v
        else: s = x if s is None else s + x
    return c if s is None else (s + c if c else s)

class SB:
    """bytes with symbolic contents"""
    def __init__(self, parts): self.parts = parts
    def __slen__(self): return ladd([_len(p) for p in self.parts])
    def __len__(self):
        n = self.__slen__()
        return n if isinstance(n, int) else _no('len() of symbolic bytes outside patched module')
    def __add__(s, o): return SB(s.parts + parts_of(o))
    def __radd__(s, o): return SB(parts_of(o) + s.parts)
    def __bool__(s): return bool(lift(s.__slen__()) > 0)
    def decode(s, *a):
        if len(s.parts) == 1 and s.parts[0][0] == 'text': return s.parts[0][2]
        _no('decoding of binary data')
    def __eq__(s, o): _no('comparison of bytes')
    __hash__ = None
    def __getitem__(s, k): _no('slice of bytes')
def parts_of(o):
    if isinstance(o, SB): return o.parts
    if isinstance(o, (bytes, bytearray, memoryview)): return [('raw', bytes(o))] if len(o) else []
    raise TypeError(f'a bytes-like object is required, not {type(o).__name__!r}')
def simplify(parts):
    if all(p[0] == 'raw' for p in parts): return b''.join(p[1] for p in parts)
    return SB(parts)

def items(fmt):
    """(format of one value, size) of a struct format; None when padding would be inserted"""
    order = fmt[0] if fmt[0] in '@=<>!' else ''; body = fmt[len(order):]
    out = []; n = ''
    for ch in body:
        if ch.isdigit(): n += ch; continue
        if ch.isspace(): continue
        if ch == 's': out.append(order + (n or '1') + 's')
        elif ch == 'x': out += [order + 'x'] * int(n or 1)
        else: out += [order + ch] * int(n or 1)
        n = ''
    if sum(_struct.calcsize(f) for f in out) != _struct.calcsize(fmt): _no('aligned struct format')
    return out
def sym(x): return isinstance(x, (SNum, SBool, SB, SText, SArr))
class Struct:
    error = _struct.error
    calcsize = staticmethod(_struct.calcsize)
    def __getattr__(self, n): return getattr(_struct, n)
    @staticmethod
    def pack(fmt, *vals):
        if not any(sym(v) for v in vals): return _struct.pack(fmt, *vals)
        its = items(fmt); k = 0; out = []
        if len([f for f in its if f[-1] != 'x']) != len(vals): raise _struct.error(f'pack expected {len(its)} items for packing (got {len(vals)})')
        e = eng(); e.assumed.add('struct.pack / unpack with the same format are inverse on representable values')
        for f in its:
            if f[-1] == 'x': out.append(('raw', b'\x00')); continue
            v = vals[k]; k += 1
            if not sym(v): out.append(('raw', _struct.pack(f, v))); continue
            if f[-1] == 's':
                if not (isinstance(v, SB) and len(v.parts) == 1 and v.parts[0][0] == 'text'): raise _struct.error("argument for 's' must be a bytes object")
                t = v.parts[0][2]
                if t.num is not None and _struct.calcsize(f) < 24: _no('number text truncated')
                out.append(('text', _struct.calcsize(f), t)); continue
            if isinstance(v, SBool):
                if f[-1] != '?': v = v.as_num()
                else: out.append(('num', f, v)); continue
            if not isinstance(v, SNum): raise _struct.error('required argument is not a number')
            if f[-1] in RANGE:
                if not v.isint: raise _struct.error('required argument is not an integer')
                lo, hi = RANGE[f[-1]]
                if not e.branch(And(v.t >= lo, v.t <= hi)): raise _struct.error('format requires number in range')
            elif f[-1] == '?': v = v != 0
            elif f[-1] not in 'fd': _no(f'struct format {f}')
            else: v = SNum(toreal(v.t), v.nan)
            out.append(('num', f, v))
        return SB(out)
    @staticmethod
    def unpack(fmt, data):
        if not isinstance(data, SB): return _struct.unpack(fmt, data)
        parts = list(data.parts); out = []
        for f in items(fmt):
            n = _struct.calcsize(f)
            if n == 0 and f[-1] == 's': out.append(b''); continue
            got = []
            m = 0
            while m < n:
                if not parts: raise _struct.error(f'unpack requires a buffer of {_struct.calcsize(fmt)} bytes')
                p = parts.pop(0); l = _len(p)
                if p[0] == 'raw' and l > n - m: parts.insert(0, ('raw', p[1][n - m:])); p = ('raw', p[1][:n - m]); l = n - m
                if not isinstance(l, int): _no('unpack of data of symbolic size')
                got.append(p); m += l
            if m != n: _no('unpack across the border of a field')
            if f[-1] == 'x': continue
            if all(p[0] == 'raw' for p in got): out += _struct.unpack(f, b''.join(p[1] for p in got)); continue
            if len(got) != 1: _no('unpack of mixed fields')
            p = got[0]
            if p[0] == 'text' and f[-1] == 's': out.append(SEnc(p)); continue
            if p[0] != 'num' or _struct.calcsize(p[1]) != n or _canon(p[1]) != _canon(f): _no(f'{p[0]} {p[1]} read as {f}')
            out.append(p[2])
        if parts: raise _struct.error('unpack: buffer too long')
        return tuple(out)
def _canon(f):
    o = f[0] if f[0] in '@=<>!' else '@'
    big = o in '>!'
    c = f[-1]
    return (big and _struct.calcsize(f) > 1, {'l': 'i', 'L': 'I'}.get(c, c))
class SEnc(bytes):
    """bytes of a fixed field holding a padded text"""
    def __new__(cls, p):
        b = bytes.__new__(cls, b'\xee'); b.p = p; return b
    def decode(s, *a): return SText(s.p[2].key, True, s.p[2].num)
    def __eq__(s, o): _no('comparison of encoded text')
    def __len__(s): return s.p[1]
    __hash__ = None
for _m in ('__add__ __contains__ __getitem__ __iter__ rstrip strip lstrip replace split find index startswith endswith join hex').split():
    setattr(SEnc, _m, (lambda m: lambda s, *a, **k: _no(f'bytes.{m}'))(_m))

class Comp:
    def __init__(self, real, name): self.__dict__['_real'] = real; self.__dict__['_name'] = name
    def __getattr__(self, n): return getattr(self._real, n)
    def compress(self, data, *a, **k):
        if not isinstance(data, SB): return self._real.compress(data, *a, **k)
        e = eng(); e.assumed.add(f'{self._name}.decompress inverts {self._name}.compress')
        n = e.fresh(f'{self._name}_size', I); e.fact(And(n > 0, n < z3.Const('size_bound', I)))
        return SB([('zip', self._name, data, SNum(n))])
    def decompress(self, data, *a, **k):
        if not isinstance(data, SB): return self._real.decompress(data, *a, **k)
        if len(data.parts) != 1 or data.parts[0][0] != 'zip': _no('decompression of other data')
        if data.parts[0][1] != self._name: raise self._real.error('wrong compression') if hasattr(self._real, 'error') else self._real.LZMAError('wrong compression')
        return data.parts[0][2]

# ------------------------------------------------------------------------------------------------ arrays
def tobytes(a, order='C'):
    if order not in ('C', None): _no('memory order')
    return SB([('arr', a, a.dtype)])
def tofile(a, f, *k):
    if isinstance(f, SFile) and f.isdisk: f.write(tobytes(a)); return
    raise io.UnsupportedOperation('fileno')
SArr.tobytes = tobytes; SArr.tofile = tofile
def frombuffer(data, dtype=float, count=-1, offset=0):
    if not isinstance(data, SB): return _np.frombuffer(data, A.pytype(dtype), count, offset)
    if count != -1 or offset != 0: _no('partial frombuffer')
    dt = _np.dtype(A.pytype(dtype))
    if not data.parts: return _np.zeros(0, dt)
    if len(data.parts) != 1 or data.parts[0][0] != 'arr': _no('array read from other data')
    a, d = data.parts[0][1], data.parts[0][2]
    if d.newbyteorder('=') != dt.newbyteorder('=') or (d.byteorder in '>' and d.itemsize > 1) != (dt.byteorder in '>' and dt.itemsize > 1): _no(f'array of {d} read as {dt}')
    eng().assumed.add('ndarray.tobytes / tofile / frombuffer with the same sample type are inverse')
    r = SArr.new(a.dims, a.getter(), a.kind, a.guard, a.guard is not None or len(a.dims) != 1, dtype=dt)
    r.buf.writeable = False
    return r

# ------------------------------------------------------------------------------------------------ files
class SFile(io.IOBase):
    """random access stream; isdisk: a file opened from a path"""
    def __init__(self, isdisk=False, content=(), on_read=None):
        self.parts = list(content); self.at = 0; self.isdisk = isdisk; self.shut = False
    # the position is always at the border of a piece (raw pieces are split as needed)
    def tell(self): return ladd([_len(p) for p in self.parts[:self.at]])
    def seekable(self): return True
    def readable(self): return True
    def writable(self): return True
    def fileno(self): raise io.UnsupportedOperation('fileno')
    def flush(self): pass
    def close(self): self.shut = True
    def __del__(self): pass
    def write(self, b):
        new = parts_of(b)
        if self.at != len(self.parts):
            n = ladd([_len(p) for p in new])
            if isinstance(n, int) and n == 0: return 0
            _no('overwriting a stream')
        self.parts += new; self.at = len(self.parts)
        return ladd([_len(p) for p in new])
    def _forward(self, n):
        """pieces making up the next n bytes"""
        out = []
        while True:
            if isinstance(n, int) and n <= 0: return out
            if self.at >= len(self.parts): return out
            p = self.parts[self.at]; l = _len(p)
            if isinstance(n, int) and isinstance(l, int):
                if l > n:
                    if p[0] != 'raw': _no('read ends inside a field')
                    self.parts[self.at:self.at + 1] = [('raw', p[1][:n]), ('raw', p[1][n:])]; p = self.parts[self.at]; l = n
                n -= l
            else:
                d = lift(n) - lift(l)
                v = numval(z3.simplify(Poly_norm(d.t)))
                if v is None:
                    if eng().branch(d.t == 0): v = 0
                    else: _no(f'read of symbolic size ends inside a field: {z3.simplify(Poly_norm(d.t))}')
                if v < 0: _no('read ends inside a field')
                n = int(v)
            out.append(p); self.at += 1
    def read(self, n=-1):
        if n is None or isinstance(n, int) and n < 0:
            out = self.parts[self.at:]; self.at = len(self.parts); return simplify(out)
        return simplify(self._forward(n))
    def seek(self, off, whence=0):
        if whence == 2: 
            if isinstance(off, int) and off == 0: self.at = len(self.parts); return self.tell()
            _no('seek from the end')
        if whence == 1:
            if isinstance(off, int) and off >= 0: self._forward(off); return self.tell()
            _no('seek backwards')
        if not isinstance(off, int):
            for k in range(len(self.parts) + 1):
                t = ladd([_len(p) for p in self.parts[:k]])
                if not isinstance(t, int) and z3.simplify(Poly_norm((t - off).t)).eq(z3.RealVal(0)): self.at = k; return off
            _no('seek to a symbolic position')
        self.at = 0; self._forward(off); return off
def Poly_norm(t): return core.Poly.norm(toreal(t))

class SPath:
    """arbitrary path: only its suffix is observed"""
    def __init__(self, suffix, files=None, key='p'): self.suffix, self.files, self.key = suffix, files if files is not None else {}, key
    def __fspath__(self): return '/nonexistent/' + self.key
    def __str__(self): return f'<path {self.key}>'
import os as _os; _os.PathLike.register(SPath)

from pathlib import Path as _Path
class _PM(type):
    def __instancecheck__(c, x): return isinstance(x, (_Path, SPath))
    def __call__(c, *a, **k):
        if len(a) == 1 and isinstance(a[0], SPath): return a[0]
        return _Path(*a, **k)
    def __getattr__(c, n): return getattr(_Path, n)
class PPath(metaclass=_PM): pass

import builtins, contextlib
def popen(f, mode='r', *a, **k):
    if not isinstance(f, SPath): return builtins.open(f, mode, *a, **k)
    return f.open(mode)
def pstr(*a, **k):
    if a and isinstance(a[0], SNum): return text_of(a[0], 'int' if a[0].isint else 'float')
    return builtins.str(*a, **k)
class _SM(type):
    def __instancecheck__(c, x): return isinstance(x, (builtins.str, SStr))
    def __call__(c, *a, **k): return pstr(*a, **k)
    def __getattr__(c, n): return getattr(builtins.str, n)
    def __subclasscheck__(c, x): return issubclass(x, builtins.str)
    def __eq__(c, o): return o is c or o is builtins.str
    def __hash__(c): return hash(builtins.str)
class PStr(metaclass=_SM):
    _py = builtins.str
STRUCT = Struct()
def table():
    return {id(_struct): STRUCT, id(_zlib): Comp(_zlib, 'zlib'), id(_lzma): Comp(_lzma, 'lzma'), id(_Path): PPath}

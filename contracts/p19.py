import contextlib
from dv.contract import contract
from .files import *
from surfalize.file import common as fc
from surfalize.file.common import FileHandler, RawSurface
from surfalize.exceptions import UnsupportedFileFormatError
F = 'surfalize/file/common.py:FileHandler.'
READ = [F + 'read', F + 'is_path_like', F + '__init__', 'surfalize/file/common.py:open_file_like', 'surfalize/surface.py:Surface.load', 'surfalize/surface.py:Surface.from_raw_surface']
WRITE = [F + 'write', F + 'is_path_like', F + '__init__', 'surfalize/file/common.py:open_file_like', 'surfalize/surface.py:Surface.save']
ANY = ['.txt', '', '.s', 'sur', '.surx', '.png']

class Failure(Exception):
    """error of a reader"""

class Head(bytes):
    """leading bytes of arbitrary content"""
    def __new__(cls, w): b = bytes.__new__(cls, b'?'); b.w = w; return b
    def __eq__(s, m): return s.w.matches(m)
    def __ne__(s, m): return not s == m
    def startswith(s, m, *a):
        if a: raise gio.Unsupported('startswith with a range')
        return any(s.w.matches(x) for x in m) if isinstance(m, tuple) else s.w.matches(m)
    def __getitem__(s, k):
        if isinstance(k, slice) and k.start in (None, 0) and k.step in (None, 1): return s
        raise gio.Unsupported('inner bytes')
    def __contains__(s, m): raise gio.Unsupported('search in arbitrary content')
    def __len__(s): raise gio.Unsupported('length of arbitrary content')
    def __bool__(s): return not s.w.ask('content is empty') if not any(v for k, v in s.w.memo.items() if isinstance(k, tuple) and k[0] == 'content starts with') else True
    __hash__ = None

class Magic(bytes):
    """a magic, compared with arbitrary leading bytes"""
    def __eq__(s, o): return o.w.matches(s) if isinstance(o, Head) else bytes.__eq__(s, o)
    def __ne__(s, o): return not s == o
    def startswith(s, o, *a):
        # the leading bytes are the magic, or the content is shorter and the magic continues it
        if isinstance(o, Head): return o.w.matches(s) or o.w.ask(('content is a proper beginning of', bytes(s)))
        return bytes.startswith(s, o, *a)
    __hash__ = bytes.__hash__

class Stream(io.IOBase):
    """arbitrary content"""
    def __init__(s, w, pos=0): s.w, s.pos, s.shut = w, pos, False; w.streams.append(s)
    def read(s, n=-1):
        if s.pos != 0 or not isinstance(n, int) or n < 0: raise gio.Unsupported('reading arbitrary content')
        s.pos += n; return Head(s.w)
    def seek(s, off, whence=0):
        if whence not in (0, 1): raise gio.Unsupported('seek')
        s.pos = off if whence == 0 else s.pos + off; return s.pos
    def tell(s): return s.pos
    def readable(s): return True
    def seekable(s): return True
    def close(s): s.shut = True
    def __del__(s): pass

class World:
    """the registered suffixes and magics with readers and writers of arbitrary behaviour"""
    def __init__(w, E):
        w.E, w.memo, w.streams, w.calls, w.written = E, {}, [], [], []
        w.suffixes = dict(FileHandler._readers_by_suffix); w.magics = {Magic(k): r for k, r in FileHandler._readers_by_magic.items()}; w.writers = dict(FileHandler._writers)
        w.content = b''
        if not E.sym:
            w.content = E.rng.choice(np.array([*map(bytes, w.magics), b'', b'SF', b'garbage ' * 9], object)) + bytes(E.rng.integers(0, 256, 40, dtype='uint8'))
            if E.rng.integers(4) == 0: w.content = w.content[:E.rng.integers(0, 24)]
            if E.rng.integers(4) == 0: m = E.rng.choice(np.array([*map(bytes, w.magics)], object)); w.content = m[:E.rng.integers(0, len(m) + 1)]
        w.stand = {r: w.reader(r) for r in {*w.suffixes.values(), *w.magics.values()}}
        w.options = dict(read_image_layers=True, encoding='latin1')
    def ask(w, key): 
        if key not in w.memo: w.memo[key] = w.E.choose(f'{key}', [True, False])
        return w.memo[key]
    def matches(w, m):
        if not w.E.sym: return w.content.startswith(m)
        return w.ask(('content starts with', m)) if m in w.magics else False
    def succeeds(w, r): return w.ask(('reads', r.__module__ + '.' + r.__name__))
    def reader(w, r):
        def stand(filehandle, read_image_layers=False, encoding='utf-8'):
            w.calls.append((r, filehandle.tell(), dict(read_image_layers=read_image_layers, encoding=encoding)))
            filehandle.seek(17 + len(w.calls), 0)
            if not w.succeeds(r): raise w.error(r)
            return RawSurface(w, 1.0, 2.0, metadata={'reader': r})
        stand._suffix, stand._magic = r._suffix, r._magic
        return stand
    def error(w, r): return w.memo.setdefault(('error', r), Failure(r.__name__))
    def __enter__(w):
        for d, v in ((FileHandler._readers_by_suffix, w.suffixes), (FileHandler._readers_by_magic, w.magics)):
            d.clear(); d.update({k: w.stand[r] for k, r in v.items()})
        w.old = Surface.__dict__['from_raw_surface']; Surface.from_raw_surface = classmethod(lambda cls, raw: raw)
        FileHandler._writers.clear(); FileHandler._writers.update({k: w.writer(k) for k in w.writers})
        w.warn = warnings.catch_warnings(record=True); w.warned = w.warn.__enter__(); warnings.simplefilter('always')
        w.dir = None if w.E.sym else tempfile.mkdtemp(prefix='dv-')
        return w
    def __exit__(w, *a):
        w.warn.__exit__(*a)
        Surface.from_raw_surface = w.old
        for d, v in ((FileHandler._readers_by_suffix, w.suffixes), (FileHandler._readers_by_magic, w.magics), (FileHandler._writers, w.writers)): d.clear(); d.update(v)
        if w.dir: shutil.rmtree(w.dir)
    def writer(w, k):
        def stand(filehandle, surface, encoding='utf-8', **kwargs):
            w.written.append((k, filehandle, filehandle.tell(), surface, dict(encoding=encoding, **kwargs)))
            filehandle.write(b'content')
            if not w.ask(('writes', k)): raise w.error_w(k)
        return stand
    def error_w(w, k): return w.memo.setdefault(('write error', k), Failure(k))
    def text(w, name, lits):
        """arbitrary text, relevant values spelled out"""
        if w.E.sym:
            gio.SStr.UNIVERSE = {*w.suffixes, ''}
            return gio.SStr.fresh(name)
        k = w.E.rng.choice([*lits, *lits, *lits, *ANY])
        return ''.join(c.upper() if w.E.rng.integers(3) == 0 else c for c in k)
    def path(w, suffix):
        if w.E.sym:
            p = gio.SPath(suffix)
            def opener(mode):
                if mode == 'rb': return Stream(w)
                if mode == 'wb': w.disk = gio.SFile(True); return w.disk
                raise gio.Unsupported('file mode ' + mode)
            p.open = opener
            return p
        p = os.path.join(w.dir, 'file' + suffix)
        return w.E.choose('path type', [str, __import__('pathlib').Path])(p)

import warnings
def named(w, name):
    """reader of a name, case-insensitively"""
    name = name.lower()
    return w.suffixes[name] if name in w.suffixes else None

def spec_read(E, w, name):
    """allowed outcomes: (reader, ) or an error"""
    first = named(w, name) if name is not None else None
    if first is not None and w.succeeds(first): return {first}, None, 'named'
    err = w.error(first) if first is not None else UnsupportedFileFormatError
    m = {r for k, r in w.magics.items() if w.matches(k)} if not E.sym or not any(v for k, v in w.memo.items() if isinstance(k, tuple) and k[0] == 'content starts with') else {r for k, r in w.magics.items() if w.memo.get(('content starts with', k))}
    if m: return {r for r in m if w.succeeds(r)}, {w.error(r) for r in m if not w.succeeds(r)}, 'magic'
    return None, err, 'probe'

def ens_read(E, w, s, err, name, pathsuffix):
    """the surface s or error err is what the dispatch rules allow"""
    used = s.metadata['reader'] if s is not None else None
    ok, bad, why = spec_read(E, w, name)
    if why == 'named':
        E.ens('reader of the format or suffix', used in ok); E.ens('no warning', not w.warned)
    elif why == 'magic':
        E.ens('a reader whose magic matches', used in ok if used is not None else err in bad, f'{used} {err!r}')
    elif used is not None:
        E.ens('a reader that accepts the content', w.succeeds(used))
    else:
        E.ens('no reader accepts the content', not any(w.succeeds(r) for r in w.suffixes.values()))
        E.ens('original error', err is bad if not isinstance(bad, type) else type(err) is bad, repr(err))
    if used is not None and why != 'named' and pathsuffix is not None and name is pathsuffix:
        E.ens('warning for a mismatching path', any(issubclass(x.category, UserWarning) for x in w.warned))
    if pathsuffix is None: E.ens('no warning for a buffer', not w.warned)
    E.ens('readers start at the beginning', all(c[1] == 0 for c in w.calls)); E.ens('options are passed on', all(c[2] == w.options for c in w.calls))
    if s is not None: E.ens('what was read', s.data is w and s.step_x == 1.0 and s.step_y == 2.0)

def attempt(fn):
    try: return fn(), None
    except (gio.Unsupported, core_.Infeasible, core_.PathLimit, core_.PathEnd): raise
    except Exception as e: return None, e
from dv import core as core_

@contract('P19', 'reading a path', READ, samples=(400, 4000), max_paths=20000)
def path(E):
    """any suffix, any behaviour of the readers, any content"""
    with World(E) as w:
        sfx = w.text('suffix', list(w.suffixes)); p = w.path(sfx)
        if not E.sym:
            with open(p, 'wb') as f: f.write(w.content)
            sfx = os.path.splitext(p)[1]
        s, err = attempt(lambda: Surface.load(p, **w.options))
        ens_read(E, w, s, err, sfx, sfx)
        E.ens('files are closed', all(f.shut for f in w.streams))

@contract('P19', 'reading a path in a given format', READ, samples=(400, 4000), max_paths=20000)
def path_format(E):
    """the format decides, whatever the suffix"""
    with World(E) as w:
        sfx = '.data' if E.sym else w.text('suffix', list(w.suffixes)); fmt = w.text('format', list(w.suffixes)); p = w.path(sfx)
        if not E.sym:
            with open(p, 'wb') as f: f.write(w.content)
        s, err = attempt(lambda: Surface.load(p, format=fmt, **w.options))
        ens_read(E, w, s, err, fmt, sfx)
        E.ens('files are closed', all(f.shut for f in w.streams))

@contract('P19', 'reading a buffer', READ, samples=(400, 4000), max_paths=20000)
def buffer(E):
    """with or without a format; the position is restored whether or not reading succeeds"""
    with World(E) as w:
        fmt = w.text('format', list(w.suffixes)) if E.choose('given', [True, False]) else None
        f = Stream(w) if E.sym else io.BytesIO(w.content)
        s, err = attempt(lambda: Surface.load(f, format=fmt, **w.options))
        ens_read(E, w, s, err, fmt, None)
        E.ens('position restored', f.tell() == 0); E.ens('left open', not (f.shut if E.sym else f.closed))

@contract('P19', 'writing', WRITE, samples=(400, 4000), max_paths=20000)
def writing(E):
    """format over suffix, case-insensitively; refused without touching the target otherwise"""
    with World(E) as w:
        via = E.choose('via', VIA); given = E.choose('given', [True, False])
        sfx = w.text('suffix', list(w.writers)) if via == 'path' else None; fmt = w.text('format', list(w.writers)) if given else None
        if E.sym: gio.SStr.UNIVERSE = {*w.writers, ''}
        pos = E.choose('position', [0, 7])
        if via == 'path':
            t = w.path(sfx); w.disk = None
            if not E.sym: sfx = os.path.splitext(t)[1]
        else:
            t = gio.SFile() if E.sym else io.BytesIO()
            t.write(b'x' * pos)
        surface = object.__new__(Surface); k = dict(encoding='latin1', something=3)
        s, err = attempt(lambda: Surface.save(surface, t, format=fmt, **k))
        name = fmt if given else sfx
        low = name.lower() if name is not None else None
        exists = (w.disk is not None if E.sym else os.path.exists(t)) if via == 'path' else t.tell() != pos
        if name is None or not name:
            E.ens('no format', type(err) is ValueError, repr(err)); E.ens('nothing written', not exists and not w.written)
        elif low not in w.writers:
            E.ens('unsupported format', isinstance(err, UnsupportedFileFormatError), repr(err)); E.ens('nothing written', not exists and not w.written)
        else:
            want = [x for x in w.writers if x == low]
            E.ens('written once by the writer of the format', [x[0] for x in w.written] == want)
            E.ens('surface and options are passed on', all(x[3] is surface and x[4] == k for x in w.written))
            E.ens('errors are passed on', err is None if w.ask(('writes', want[0])) else err is w.error_w(want[0]), repr(err))
            E.ens('at the position of the target', w.written[0][2] == (pos if via == 'buffer' else 0))
            if via == 'path': E.ens('closed', w.disk.shut if E.sym else w.written[0][1].closed)
            else: E.ens('position restored', t.tell() == pos); E.ens('left open', not t.closed)

@contract('P19', 'other objects', READ + WRITE)
def others(E):
    """neither path nor file"""
    with World(E) as w:
        o = E.choose('object', [None, 3, 4.5, [1], object()])
        E.raises('not readable', (TypeError, UnsupportedFileFormatError), Surface.load, o)
        E.raises('not writable', TypeError, Surface.save, object.__new__(Surface), o, format='.sur')
        E.raises('no format', ValueError, Surface.save, object.__new__(Surface), o)
        E.ens('nothing read or written', not w.calls and not w.written)

@contract('P19', 'open_file_like', ['surfalize/file/common.py:open_file_like'])
def opening(E):
    """path: opened once and closed; buffer: position restored, left open; also when the body fails"""
    with World(E) as w:
        via = E.choose('via', VIA); fail = E.choose('fails', [False, True]); pos = E.choose('position', [0, 7])
        if via == 'path':
            t = w.path('.txt')
            if not E.sym: open(t, 'wb').close()
        else:
            t = gio.SFile() if E.sym else io.BytesIO()
            t.write(b'x' * pos); t.write(b'yyyyyyyyyy'); t.seek(pos)
        got = None; boom = Failure('body')
        def body():
            nonlocal got
            with fc.open_file_like(t, 'rb') as f:
                got = f; f.seek(3)
                if fail: raise boom
        r, err = attempt(body)
        E.ens('error of the body', err is (boom if fail else None), repr(err))
        if via == 'path': E.ens('closed', got.shut if E.sym else got.closed)
        else: E.ens('the buffer itself', got is t); E.ens('position restored', t.tell() == pos); E.ens('left open', not t.closed)
VIA = ['buffer', 'path']

@contract('P19', 'registry', [F + f for f in ('register_reader', 'register_writer', 'get_supported_formats_read', 'get_supported_formats_write', 'get_reader_suffix_groups')])
def registry(E):
    """suffixes are lower case, written formats can be read, and the groups partition the readable suffixes by reader"""
    R, W = FileHandler.get_supported_formats_read(), FileHandler.get_supported_formats_write()
    E.ens('written formats can be read', W <= R)
    E.ens('lower case suffixes', all(s == s.lower() and s.startswith('.') for s in R | W))
    G = FileHandler.get_reader_suffix_groups()
    E.ens('groups partition the suffixes', sorted(s for g in G for s in g) == sorted(R))
    E.ens('one group per reader', all(len({FileHandler._readers_by_suffix[s] for s in g}) == 1 for g in G) and len({FileHandler._readers_by_suffix[g[0]] for g in G}) == len(G))
    for m in FileHandler._readers_by_magic:
        E.ens(f'no magic hides another {m!r}', all(m == o or not o.startswith(m) for o in FileHandler._readers_by_magic))

REAL = [os.path.join(os.environ.get('DV_REPO', '/repo'), 'tests/test_files', f) for f in ('test_1.dat', 'test_1.nms', 'test_1.opd', 'test_1.plu', 'test_1.tmd', 'test_2.nms', 'test_ascii.sdf', 'test_uncompressed.sur')]

@contract('P19', 'real files', READ + WRITE, sym=False, bounded='five writable formats and the sample files, renamed and cut', samples=(60, 400))
def real(E):
    """a file or buffer under a right, wrong, unknown or missing name gives what its own reader gives on its content"""
    r = E.rng
    k = r.integers(3)
    if k == 0 and (S := [f for f in REAL if os.path.exists(f)]):
        src = S[r.integers(len(S))]; own = os.path.splitext(src)[1]; content = open(src, 'rb').read()
    else:
        own = r.choice(sorted(FileHandler._writers)); h = r.normal(size=(r.integers(1, 6), r.integers(1, 6)))
        b = io.BytesIO(); Surface(h, *r.uniform(.1, 3, 2)).save(b, format=own); content = b.getvalue()
    if len(content) > 2_000_000 and r.integers(4): raise_discard()
    same = [s for s, f in FileHandler._readers_by_suffix.items() if f is FileHandler._readers_by_suffix[own]]
    want = FileHandler._readers_by_suffix[own](io.BytesIO(content), read_image_layers=False, encoding='auto')
    hasmagic = any(content.startswith(m) and f is FileHandler._readers_by_suffix[own] for m, f in FileHandler._readers_by_magic.items())
    name = r.choice([own, own.upper(), own.title(), *(['.txt', '', *r.choice(sorted(FileHandler._readers_by_suffix), 3)] if hasmagic else [])])
    d = tempfile.mkdtemp(prefix='dv-')
    try:
        p = os.path.join(d, 'f' + name)
        with open(p, 'wb') as f: f.write(content)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            how = r.integers(4)
            if how == 0: s = Surface.load(p)
            elif how == 1: b = io.BytesIO(content); s = Surface.load(b, format=name); E.ens('position restored', b.tell() == 0)
            elif how == 2 and hasmagic: b = io.BytesIO(content); s = Surface.load(b); E.ens('position restored', b.tell() == 0)
            elif how == 2: s = Surface.load(p)
            else: s = Surface.load(os.path.join(d, p), format=own if r.integers(2) else own.upper())
        # a foreign reader that accepts the content under its own name is not covered by the property
        if how != 3 and name.lower() not in same and name.lower() in FileHandler._readers_by_suffix:
            try: FileHandler._readers_by_suffix[name.lower()](io.BytesIO(content)); raise_discard()
            except DISCARD: raise
            except Exception: pass
        E.ens('same content', np.array_equal(s.data, want.data, equal_nan=True) and s.step_x == want.step_x and s.step_y == want.step_y)
        if how == 0 and name.lower() not in same: E.ens('warned', any('suffix' in str(x.message) for x in ws))
    finally: shutil.rmtree(d)
from dv.env import Discard as DISCARD
def raise_discard(): raise DISCARD()

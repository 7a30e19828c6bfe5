"""streams and paths for the file contracts: arbitrary contents symbolically, real buffers and scratch files concretely"""
import io, os, shutil, tempfile, contextlib
import numpy as np
from surfalize import Surface
from .common import *
from dv import gio

class Target:
    """somewhere to save to and load from: a buffer or a path"""
    def __init__(self, E, fmt, via):
        self.E, self.fmt, self.via, self.dir = E, fmt, via, None
        if E.sym:
            if via == 'buffer': self.f = gio.SFile()
            else:
                self.f = gio.SPath(fmt)
                def opener(mode):
                    if mode == 'wb': self.disk = gio.SFile(True); return self.disk
                    if mode == 'rb': return gio.SFile(True, self.disk.parts)
                    raise gio.Unsupported('file mode ' + mode)
                self.f.open = opener
        elif via == 'buffer': self.f = io.BytesIO()
        else: self.dir = tempfile.mkdtemp(prefix='dv-'); self.f = os.path.join(self.dir, 'surface' + fmt)
    def __enter__(self): return self
    def __exit__(self, *a):
        if self.dir: shutil.rmtree(self.dir)
    def save(self, s, **k): s.save(self.f, **({'format': self.fmt} if self.via == 'buffer' else {}), **k)
    def load(self, **k): return Surface.load(self.f, **({'format': self.fmt} if self.via == 'buffer' else {}), **k)

def measured(E, h):
    E.req(h[~E.np.isnan(h)].size > 0)

def file_surface(E, nan=True, big=2**31):
    """heights over several magnitudes, constant ones included; any missing pattern with a measured point"""
    def v(r, sh):
        a = r.normal(size=sh) * 10.0 ** r.integers(-4, 4) + r.choice([0, 0, 3, -50])
        k = r.integers(6)
        if k == 0: a[:] = a.flat[0]
        if k == 1: a = np.round(a)
        if k == 2 and nan: a[:] = np.nan; a.flat[r.integers(a.size)] = 1.25
        return a
    h = E.array('h', [('h_ny', 1), ('h_nx', 1)], nan=nan, **({} if E.sym else dict(values=v))); sx, sy = steps(E); s = Surface(own(h), sx, sy)
    if nan: measured(E, h)
    ny, nx = h.shape
    if E.sym:
        E.req(ny * nx * 8 < big - 64)
        E.nonzero(ny); E.nonzero(nx)
    return s, h, sx, sy

def ens_same_grid(E, r, h, sx, sy, rel=0):
    """rows, columns, missing points and steps (steps to the stated relative resolution; exactly when symbolic)"""
    E.ens_shape('rows and columns', r.data, h.shape)
    E.ens_eq('step_x', r.step_x, sx, tol=rel or None); E.ens_eq('step_y', r.step_y, sy, tol=rel or None)

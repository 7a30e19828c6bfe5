"""For loops over a list given by the caller, cut at the loop head.

The contract passes an iterable standing for an arbitrary list.  The first visit of the loop head proves the invariant for the
empty prefix, then replaces the state by that after an arbitrary prefix; one arbitrary element is handed to the real loop body; the
second visit proves the invariant for the prefix extended by that element and ends the path.  Ending the loop instead continues
with the real code after it, in the state after an arbitrary prefix, which then is the whole list.  State is what the loop body can
reach: the containers in the local variables of the function under contract, and the objects of the contract itself."""
import os, sys
from dv import core
from dv.core import Unsupported

def owner(fname):
    """innermost frame of the code under contract in the named source file"""
    f = sys._getframe(1)
    while f is not None:
        if f.f_code.co_filename.endswith(fname): return f
        f = f.f_back
    raise Unsupported('loop not run by the code under contract')

class AnyList(list):
    """an arbitrary list, consumed once by a for loop"""
    def __init__(s, E, source, kind, established, havoc, pick, preserved):
        super().__init__()
        s.E, s.source, s.kind, s.established, s.havoc, s.pick, s.preserved, s.visits, s.obj = E, source, kind, established, havoc, pick, preserved, 0, None
    def state(s):
        loc = list(owner(s.source).f_locals.values())
        if s.obj is not None:
            if not any(v is s.obj for v in loc): raise Unsupported('the state at the loop head is another object')
            return s.obj
        own = {id(v): v for v in loc if type(v) is s.kind and v is not s}
        if len(own) != 1: raise Unsupported(f'{len(own)} local {s.kind.__name__}s at the loop head')
        s.obj = next(iter(own.values()))
        return s.obj
    def __iter__(s): return s
    def __next__(s):
        st = s.state(); s.visits += 1
        if s.visits == 1:
            s.E.ens('loop: invariant established', bool(s.established(st)))
            s.havoc(st)
            if s.E.choose('end of the list', [False, True]): s.visits = 3; raise StopIteration
            s.elem = s.pick()
            return s.elem
        if s.visits == 2:
            r = s.preserved(st, s.elem)
            if r is None: raise Unsupported('element not consumed by the loop body')
            s.E.ens('loop: invariant preserved', bool(r), f'{st!r}')
            raise core.PathEnd()
        raise Unsupported('list consumed again')
    def __len__(s):
        # list(x) of the code under contract would take all elements at once; a progress bar may do without the length
        if '/surfalize/' in sys._getframe(1).f_code.co_filename: raise Unsupported('length of an arbitrary list')
        raise TypeError('length of an arbitrary list')
    def __bool__(s):
        if not s.nonempty: raise Unsupported('emptiness of an arbitrary list')
        return True
    nonempty = False
    for _m in ('__getitem__', '__reversed__', '__contains__', '__add__', '__radd__', 'copy', 'index', 'count', '__eq__', '__setitem__', 'sort', 'append', 'pop', 'remove', 'insert', 'extend'):
        exec(f"def {_m}(s, *a): raise Unsupported('{_m} of an arbitrary list')")
    __hash__ = object.__hash__

REG = []
class Contract:
    def __init__(self, prop, name, fn, functions=(), sym=True, conc=True, samples=None, timeout=None, max_paths=400, stmt='', bounded='', finding=False, gen=None, rtol=1e-7, solver_ms=4000):
        self.prop, self.name, self.fn, self.functions, self.sym, self.conc = prop, name, fn, list(functions), sym, conc
        self.samples = samples; self.timeout = timeout; self.max_paths = max_paths; self.stmt = stmt; self.bounded = bounded; self.finding = finding; self.rtol = rtol; self.solver_ms = solver_ms
    @property
    def cid(self): return f'{self.prop}/{self.name}'
def contract(prop, name, functions=(), **k):
    def d(fn):
        REG.append(Contract(prop, name, fn, functions, stmt=(fn.__doc__ or '').strip(), **k))
        return fn
    return d

import itertools, re, string
import pandas as pd
from dv.contract import contract
from .common import *
from .itercut import AnyList
from surfalize.exceptions import CalculationError
from surfalize.batch import FilenameParser, BatchResult, ParsingError
B = 'surfalize/base.py:BaseTopography.roughness_parameters'
OTHER = ['sa', 'SA', ' Sa', 'Sa ', '', 'S', 'data', 'step_x', 'level', 'rotate', '__init__', 'roughness_parameters', 'Xyz', 'AVAILABLE_PARAMETERS']

def ghost(cls):
    """a topography whose parameters are arbitrary values"""
    T = type('Ghost', (cls,), {p: (lambda p: lambda self: ('value', p))(p) for p in cls.AVAILABLE_PARAMETERS})
    return object.__new__(T)
PRE = '<any names before>'

for _cls in (Surface, Profile):
    def _mk(cls):
        names = list(cls.AVAILABLE_PARAMETERS); others = [o for o in OTHER if o not in names] + [p for p in (Profile if cls is Surface else Surface).AVAILABLE_PARAMETERS if p not in names]
        @contract('P26', f'any list of names, {cls.__name__}', [B])
        def anylist(E):
            """loop over the names: the mapping holds exactly the names so far, in order, each with its own value"""
            t = ghost(cls)
            if not E.sym:
                k = E.rng.integers(0, 7); L = [names[i] for i in E.rng.integers(0, len(names), k)]
                r = t.roughness_parameters(tuple(L) if E.rng.integers(2) else L)
                E.ens('exactly the names, in order', list(r.items()) == [(p, ('value', p)) for p in dict.fromkeys(L)])
                return
            L = AnyList(E, 'surfalize/base.py', dict, lambda r: r == {}, lambda r: r.update({PRE: 1}), lambda: E.choose('name', names),
                        lambda r, p: None if list(r) == [PRE] else list(r.items()) == [(PRE, 1), (p, ('value', p))])
            r = t.roughness_parameters(L)
            E.ens('exactly the names, in order', list(r.items()) == [(PRE, 1)])
        @contract('P26', f'unknown names, {cls.__name__}', [B])
        def unknown(E):
            """an unknown name anywhere in the list"""
            t = ghost(cls); o = E.choose('unknown', others); p = E.choose('known', names[:2])
            for L in ([o], [p, o], [o, p], (p, o, p)): E.raises(f'refused', ValueError, t.roughness_parameters, L)
        @contract('P26', f'pairs of names, {cls.__name__}', [B])
        def pairs(E):
            """every list of up to two names, lists and tuples, each equal to the individual query"""
            t = ghost(cls)
            for a in names:
                E.ens('one name', t.roughness_parameters([a]) == {a: getattr(t, a)()})
                for b in names:
                    r = t.roughness_parameters((a, b))
                    E.ens('two names in order', list(r.items()) == [(p, getattr(t, p)()) for p in dict.fromkeys([a, b])])
            E.ens('none', t.roughness_parameters([]) == {})
        @contract('P26', f'standard parameters, {cls.__name__}', [B])
        def std(E):
            """all ISO parameters when none are named; all are known parameters"""
            t = ghost(cls)
            for r in (t.roughness_parameters(), t.roughness_parameters(None), t.roughness_parameters(parameters=None)):
                E.ens('all standard parameters, in order', list(r.items()) == [(p, ('value', p)) for p in cls.ISO_PARAMETERS])
            E.ens('no name twice', len(set(names)) == len(names)); E.ens('standard parameters are known', set(cls.ISO_PARAMETERS) <= set(names))
            E.ens('every parameter is a method', all(callable(getattr(cls, p, None)) for p in names))
        @contract('P26', f'values, {cls.__name__}', [B], sym=False, bounded='seeded topographies up to 40 x 40', samples=(12, 100))
        def values(E):
            """asked together or one by one, in any order"""
            r = E.rng; n = int(r.integers(20, 40)); x = np.arange(n); k = r.uniform(4, 8)
            h = np.sin(2 * np.pi * x / k) + r.normal(size=(n, n) if cls is Surface else n) * .1
            mk = (lambda: Surface(own(h), .5, .7)) if cls is Surface else (lambda: Profile(own(h), .5, .5 * (n - 1)))
            L = [names[i] for i in r.permutation(len(names))[:r.integers(1, len(names))] if names[i] not in ('stepheight', 'cavity_volume', 'homogeneity')] or ['Vmc']
            want = {}
            for p in L:
                try: want[p] = getattr(mk(), p)()
                except (ValueError, IndexError, CalculationError) as ex: E.raises(f'{p} fails alike', type(ex), mk().roughness_parameters, [p])
            L = list(want); got = mk().roughness_parameters(L)
            E.ens('names in order', list(got) == L)
            for p, w in want.items():
                E.ens(f'{p}', np.array_equal(np.asarray(got[p], float), np.asarray(w, float), equal_nan=True), f'{got[p]} for {w}')
    _mk(_cls)

# ---------------------------------------------------------------------------------------------- file names
PARSER = ['surfalize/batch.py:FilenameParser.' + f for f in ('parse_template', 'construct_regex', 'extract_from', 'apply_on')] + ['surfalize/batch.py:_Token.extract', 'surfalize/batch.py:BatchResult.extract_from_filename']

def reference(t):
    """(literal texts, fields) of a well-formed template, else None"""
    lits, fields, rest = [], [], t
    while '<' in rest or '>' in rest:
        m = re.match(r'([^<>]*)<([^<>]*)>', rest)
        if not m: return None
        f = m[2].split('|')
        if not 2 <= len(f) <= 4: return None
        lits.append(m[1]); fields.append(tuple(f + [''] * (4 - len(f)))); rest = rest[m.end():]
    return [*lits, rest], fields

DONE = []
@contract('P26', 'template grammar', PARSER[:1] + PARSER[4:5], sym=False, bounded='every template of up to 7 characters over < > | a; longer ones sampled', samples=(60, 600))
def grammar(E):
    """fields and literal parts of every template; malformed ones are refused"""
    if DONE: ts = [''.join(E.rng.choice(list('<>|ab_'), int(E.rng.integers(7, 25)), p=[.2, .2, .25, .2, .1, .05])) for _ in range(200)]
    else: ts = [''.join(t) for n in range(8) for t in itertools.product('<>|a', repeat=n)]; DONE.append(1)
    for t in ts:
        want = reference(t)
        df = pd.DataFrame(dict(file=['q']))
        try: tokens, seps = FilenameParser(t).parse_template(); got = (seps, [(k.name, k.dtype, k.prefix, k.suffix) for k in tokens])
        except (ParsingError, ValueError): got = None
        if want is not None: E.ens('literal parts and fields', got is not None and list(got[0]) == list(want[0]) and list(got[1]) == list(want[1]), f'{t!r}: {got} for {want}')
        elif got is not None:
            try: FilenameParser(t).extract_from(df, 'file'); ok = False
            except Exception: ok = True
            E.ens('malformed template refused', ok, t)

LITS = ['', '_', '-', ' ', 'P', 'FREP', 'kHz', '.', '+', '(x)', '[', ']', '*', '?', '^', '$', '\\', '\\d', '{2}', 'é', '°C', '#', '&', '=', '~', 'a.b', '%']
@contract('P26', 'file names', PARSER, sym=False, bounded='seeded templates of up to four fields and tables of up to five rows', samples=(150, 1500))
def filenames(E):
    """one column per field with the declared type and exactly the text between the literal parts; everything else unchanged"""
    r = E.rng; k = int(r.integers(1, 5)); n = int(r.integers(1, 6))
    types = [str(r.choice(['int', 'float', 'str'])) for _ in range(k)]
    pre = [str(r.choice(LITS)) for _ in range(k)]; suf = [str(r.choice(LITS)) for _ in range(k)]
    seps = [str(r.choice(['_', '__', ' - ', '.', '+', '^']))  for _ in range(k + 1)]; seps[0] = str(r.choice(['', 'x_'])); seps[-1] = str(r.choice(['', '.vk4', '_end']))
    names = [f'n{i}' for i in range(k)]
    if r.integers(4) == 0: names[0] = 'Sa'
    fields = []
    for a, t, p, s in zip(names, types, pre, suf):
        fields.append(f'<{a}|{t}' + (f'|{p}|{s}' if s or r.integers(2) else f'|{p}' if p or r.integers(2) else '') + '>')
    template = ''.join(x for p in zip(seps, fields) for x in p) + seps[-1]
    rows, vals = [], []
    for _ in range(n):
        v, txt = [], []
        for t in types:
            if t == 'int': x = int(r.integers(0, 10 ** int(r.integers(1, 8)))); v.append(x); txt.append(str(x).zfill(int(r.integers(1, 6))))
            elif t == 'float':
                a = str(int(r.integers(0, 1000))); b = str(int(r.integers(0, 1000))).zfill(3)
                q = r.integers(3)
                if q == 0: v.append(float(a)); txt.append(a)
                else: v.append(float(a + '.' + b)); txt.append(a + '.,'[q - 1] + b)
            else: x = ''.join(r.choice(list('abcXYZ'), int(r.integers(1, 6)))); v.append(x); txt.append(x)
        rows.append(''.join(x for s, p, t, u in zip(seps, pre, txt, suf) for x in (s, p, t, u)) + seps[-1]); vals.append(v)
    # what an independent, anchored reading of the template gives; names with several readings are not covered
    rx = {'int': '[0-9]+', 'float': '[0-9]+(?:[.,][0-9]+)?', 'str': '.+'}
    whole = ''.join(re.escape(s) + re.escape(p) + '(' + rx[t] + ')' + re.escape(u) for s, p, t, u in zip(seps, pre, types, suf)) + re.escape(seps[-1])
    for row, v in zip(rows, vals):
        ms = [m for i in range(len(row)) if (m := re.compile(whole).match(row, i))]
        if not ms or ms[0].start() or ms[0].end() != len(row): raise Discard()
        conv = [int(g) if t == 'int' else float(g.replace(',', '.')) if t == 'float' else g for g, t in zip(ms[0].groups(), types)]
        if conv != v: raise Discard()
    cols = {'before': r.normal(size=n), 'file': rows, 'Sa': r.normal(size=n), 'after': list(range(n))}
    df = pd.DataFrame(cols); keep = df.copy()
    after = True
    if r.integers(2): b = BatchResult(df); b.extract_from_filename(template); out = b.get_dataframe()
    else: out = FilenameParser(template).apply_on(df, 'file', **({} if r.integers(2) else dict(insert_after_column=(after := bool(r.integers(2))))))
    E.ens('the given table is unchanged', df.equals(keep))
    E.ens('rows', list(out.index) == list(keep.index))
    E.ens('columns', set(out.columns) == {*keep.columns, *names} and len(out.columns) == len({*keep.columns, *names}), f'{list(out.columns)}')
    E.ens('other columns keep their order', [c for c in out.columns if c not in names] == [c for c in keep.columns if c not in names])
    new = [a for a in names if a not in keep.columns]
    if after: i = list(out.columns).index('file') + 1; E.ens('new columns follow the file names in template order', list(out.columns)[i:i + len(new)] == new, f'{list(out.columns)}')
    for c in keep.columns:
        if c not in names: E.ens(f'column {c} unchanged', out[c].equals(keep[c]))
    for i, (a, t) in enumerate(zip(names, types)):
        E.ens(f'type of a {t} field', {'int': 'i', 'float': 'f', 'str': 'OTU'}[t].find(out[a].dtype.kind) >= 0, f'{out[a].dtype}')
        E.ens(f'values of a {t} field', out[a].tolist() == [v[i] for v in vals], f'{template!r} on {rows!r}: {out[a].tolist()}')
from dv.env import Discard

@contract('P26', 'template types', PARSER)
def types(E):
    """a field of another type is refused wherever it stands"""
    t = E.choose('type', ['', 'Float', 'double', 'integer', ' int', 'int ', 'string', '3', 'x']); at = E.choose('place', ['<a|{}>', '<b|int>_<a|{}>', 'x<a|{}|P|q>_<b|str>'])
    E.raises('refused', ParsingError, FilenameParser(at.format(t)).extract_from, pd.DataFrame(dict(file=['q1_2'])), 'file')

@contract('P26', 'malformed templates', PARSER)
def malformed(E):
    """unclosed, nested or incomplete fields"""
    t = E.choose('template', ['<', '<a|int', 'x_<a|int_<b|int>', '<a>', '<>', 'x>', '<a|int>>', '<<a|int>>', '<a|int>_<b', '<a|int><b>', '<a|int|p|s|more>', '<a|int>_<a|int>'])
    E.raises('refused', Exception, FilenameParser(t).extract_from, pd.DataFrame(dict(file=['1_2'])), 'file')

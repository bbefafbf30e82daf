"""truncated IC3 restarts"""
import contextlib
import io

from hypothesis import strategies as st

from lib import ic3fmt, ic3model
from lib.fw import Case, require

PROPERTY = 'C04'
LEVEL = 'fault_enumeration'
RULE = (
    'Fault = the file is cut after its first n bytes. Every n of small restarts (V2 and V3, both byte orders; all lengths '
    'of the file) is tried with the reader (with and without integrity checking) and with the listing of sections, plus '
    'random restarts cut at section boundaries, near them and anywhere. The complete file must be accepted. Non-trivial: '
    'each distinct restart or slice of lengths; count of evaluations is the number of truncated files tried.'
)
TECHNIQUE = 'exhaustive truncation of small restarts and generated truncations (fault injection with Hypothesis)'
NOTE = 'all prefixes of 4 small restarts (thorough: 12), random prefixes of random restarts'


def attempt(fn, data, cuts, full):
    import cfdtools.ic3 as ic3

    for n in cuts:
        with open(fn, 'wb') as f:
            f.write(data[:n])
        for c in (False, True):
            try:
                r = ic3.reader(fn, cIntegrity=c)
                r.read_data()
                mesh = r.export_mesh()
            except Exception:
                continue
            raise AssertionError(f'reader accepts the first {n} of {len(data)} bytes: {mesh.ncell} cells')
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                ic3.binreader(fn).read_headers()
        except Exception:
            pass
        else:
            require(
                'Name : EOF\n' not in out.getvalue() and out.getvalue() != full,
                f'brief shows a complete file for the first {n} of {len(data)} bytes',
            )


def complete(fn, data, m):
    import cfdtools.ic3 as ic3

    with open(fn, 'wb') as f:
        f.write(data)
    r = ic3.reader(fn, cIntegrity=True)
    r.read_data()
    ic3model.compare_mesh(m, r.export_mesh())
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ic3.binreader(fn).read_headers()
    return out.getvalue()


SMALL = [
    {
        'mesh': {'abs': {'nnode': 4, 'ncell': 1, 'faces': [[0, 1, 2]], 'f2c': [[0, -1]], 'nbd': 1}, 'ord': 0},
        'zones': [{'name': 'w', 'kind': 'boundary', 'w': 1, 'rd': []}],
        'part': [1, 0], 'state': [3, 0.5, 1.5], 'wgt': [], 'cell': [], 'node': [], 'ndof': 1,
        'xyz': {'k': 'uni', 's': 1, 'x': []},
    },
    {
        'mesh': {'abs': {'nnode': 4, 'ncell': 2, 'faces': [[0, 1, 2], [0, 1, 2, 3]], 'f2c': [[0, -1], [0, 1]], 'nbd': 1},
                 'ord': 0},
        'zones': [{'name': 'w', 'kind': 'perio_cart', 'w': 1, 'rd': [1.0, 2.0, 3.0]}],
        'part': [2, 0], 'state': [3, 0.5, 1.5], 'wgt': [['rho', 2.0]],
        'cell': [{'name': 'RHO', 'rank': 0, 'v': {'k': 'uni', 's': 1, 'x': []}, 'o': 'C'},
                 {'name': 'U', 'rank': 1, 'v': {'k': 'uni', 's': 1, 'x': []}, 'o': 'C'},
                 {'name': 'R', 'rank': 2, 'v': {'k': 'uni', 's': 1, 'x': []}, 'o': 'C'}],
        'node': [{'name': 'n', 'rank': 0, 'v': {'k': 'uni', 's': 1, 'x': []}, 'o': 'C'}],
        'ndof': 1, 'xyz': {'k': 'uni', 's': 1, 'x': []},
    },
]


def enum(tier):
    n = 16 if tier == 'quick' else 32
    return [
        {'model': i, 'ver': v, 'e': e, 'part': k, 'of': n}
        for i, v, e in ([(0, 2, '<'), (0, 3, '>'), (1, 3, '<'), (1, 2, '>')] if tier == 'quick' else
                        [(i, v, e) for i in (0, 1) for v in (2, 3) for e in '<>'])
        for k in range(n)
    ]


def all_cuts(spec, ctx):
    m = ic3model.make(SMALL[spec['model']])
    data = ic3fmt.pack(ic3fmt.sections(m, spec['ver'], spec['e']), spec['ver'], spec['e'])
    fn = ctx.path('f.ic3')
    full = complete(fn, data, m)
    cuts = range(spec['part'], len(data), spec['of'])
    attempt(fn, data, cuts, full)
    ctx.count = len(cuts)
    ctx.nontrivial = True


def random_cuts(spec, ctx):
    from lib.fw import HarnessError

    m = ic3model.make(spec['m'])
    if spec['own']:  # written by cfdtools itself
        from cfdtools.ic3 import writerV2, writerV3

        fn = ctx.path('w.ic3')
        W = (writerV2 if spec['ver'] == 2 else writerV3).writer
        W(ic3model.to_mesh(m, 1), endian={'<': 'little', '>': 'big'}[spec['e']]).write_data(fn)
        data = open(fn, 'rb').read()
    else:
        data = ic3fmt.pack(ic3fmt.sections(m, spec['ver'], spec['e']), spec['ver'], spec['e'])
    bounds = [8]
    for s in ic3fmt.parse(data)[2]:
        bounds.append(bounds[-1] + 256 + len(s.payload))
    if bounds[-1] != len(data):
        raise HarnessError('bounds')
    fn = ctx.path('f.ic3')
    full = complete(fn, data, m)
    cuts = {b for b in bounds if b < len(data)} | {0, 4, len(data) - 1, len(data) - 255}
    for kind, x in spec['cuts']:
        b = bounds[x % len(bounds)]
        n = x % len(data) if kind == 'any' else b + (x // len(bounds) % 300) * (1 if kind == 'after' else -1)
        cuts.add(min(max(n, 0), len(data) - 1))
    attempt(fn, data, sorted(cuts), full)
    ctx.count = len(cuts)
    ctx.nontrivial = True
    ctx.label('own' if spec['own'] else 'independent', f'v{spec["ver"]}{spec["e"]}')


_m3 = ic3model.model_spec(ints=True, maxndof=3)  # integers and several dofs only exist in V3
_m3f = ic3model.model_spec(ints=True, maxndof=3, face=True)
_m2 = ic3model.model_spec(ints=False)
_m2f = ic3model.model_spec(ints=True, face=True)
rnd = st.one_of(
    st.tuples(st.just(3), _m3, st.booleans()), st.tuples(st.just(2), _m2, st.booleans()),
    st.tuples(st.just(3), _m3f, st.just(False)), st.tuples(st.just(2), _m2f, st.just(False)),
).flatmap(lambda t: st.fixed_dictionaries({
    'm': st.just(t[1]),
    'ver': st.just(t[0]),
    'own': st.just(t[2]),
    'e': st.sampled_from('<>'),
    'cuts': st.lists(
        st.tuples(st.sampled_from(['any', 'after', 'before']), st.integers(0, 10**7)).map(list), min_size=4, max_size=12
    ),
}))
CASES = [
    Case('all', None, all_cuts, quick=0, thorough=0, enum=enum),
    Case('random', rnd, random_cuts, quick=160, thorough=4000),
]

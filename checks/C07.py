"""chains of conversions between IC3 versions"""
from hypothesis import strategies as st

from lib import ic3model
from lib.fw import Case, require

PROPERTY = 'C07'
RULE = (
    'A content is written, read and written again through 2 to 4 versions (V2, V3, V4, any byte order); the last mesh '
    'read must equal the initial content reduced to what all versions of the chain hold. Non-trivial: at least two '
    'different versions in the chain.'
)
TECHNIQUE = 'property-based testing (Hypothesis): metamorphic chains of conversions against the initial content'
NOTE = 'random contents, chains of 2 to 4 conversions; a few large meshes (sizes over 16 bits)'


def check(spec, ctx):
    import cfdtools.ic3 as ic3
    from cfdtools.ic3 import readerV4, writerV2, writerV3, writerV4

    m = ic3model.make(spec['m'])
    mesh = ic3model.to_mesh(m, spec['o'])
    dt = partition = True
    rd = 16
    for i, (v, e) in enumerate(spec['chain']):
        if v == 4:
            fm, fs = ctx.path(f'{i}m.h5'), ctx.path(f'{i}s.h5')
            writerV4.writer(mesh).write_data(fm, fs)
            r = readerV4.reader(fm, fs)
            ic3model.reduce_v4(m)
            dt = partition = False
            rd = 0
        else:
            fn = ctx.path(f'{i}.ic3')
            (writerV2 if v == 2 else writerV3).writer(mesh, endian=e).write_data(fn)
            r = ic3.reader(fn, cIntegrity=bool(i % 2))
        r.read_data()
        require(r.ncell == m.ncell, 'ncell')
        mesh = r.export_mesh()
    ic3model.compare_mesh(m, mesh, rd=rd, dt=dt, partition=partition,
                          internal=(max(z[3] for z in m.zones) + 1, m.nface - 1))
    ic3model.transforms(m, mesh)
    ctx.count = len(spec['chain'])
    ctx.nontrivial = len({v for v, _ in spec['chain']}) > 1
    ctx.label('-'.join(str(v) for v, _ in spec['chain'][:2]), f'length{len(spec["chain"])}')


CASES = [
    Case('chain', st.fixed_dictionaries({
        'm': ic3model.v4_spec(), 'o': st.integers(0, 100),
        'chain': st.lists(
            st.tuples(st.sampled_from([2, 3, 4]), st.sampled_from(['native', 'little', 'big'])).map(list), min_size=2, max_size=4
        ),
    }), check, quick=500, thorough=10000),
    Case('big', st.fixed_dictionaries({
        'm': ic3model.v4_spec(big=True), 'o': st.integers(0, 100),
        'chain': st.permutations([2, 3, 4]).map(lambda p: [[v, 'native'] for v in p]),
    }), check, quick=4, thorough=60),
]

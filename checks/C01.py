"""IC3 V2/V3 write -> read round trip"""
from hypothesis import strategies as st

from lib import ic3model
from lib.fw import Case

PROPERTY = 'C01'
RULE = (
    'Restart contents are drawn (abstract face-based meshes of 2/3/4-node faces and conforming hexa/prism/pyramid/tetra'
    ' meshes, 1-4 zones of all kinds, partition, step/dt/time, weights, node/cell scalars-vectors-tensors with special'
    ' values, int64 data and several dofs in V3, all byte orders); each is written by the library and read back by the'
    ' library, every observable is compared bitwise. Non-trivial: at least one data array and two faces.'
)


def roundtrip(version):
    def check(spec, ctx):
        import cfdtools.ic3 as ic3
        from cfdtools.ic3 import writerV2, writerV3

        m = ic3model.make(spec['m'])
        mesh = ic3model.to_mesh(m, spec['o'])
        w = (writerV2 if version == 2 else writerV3).writer(mesh, endian=spec['e'])
        fn = ctx.path('a.ic3')
        w.write_data(fn)
        r = ic3.reader(fn, cIntegrity=spec['c'])
        r.read_data()
        assert r.ncell == m.ncell
        assert r.ic3_version == version
        out = r.export_mesh()
        ic3model.compare_mesh(m, out, internal=(max(z[3] for z in m.zones) + 1, m.nface - 1))
        # what was read can be written again and nothing changed: fixpoint
        fn2 = ctx.path('b.ic3')
        (writerV2 if version == 2 else writerV3).writer(out, endian=spec['e']).write_data(fn2)
        assert open(fn, 'rb').read() == open(fn2, 'rb').read(), 'second generation of the restart differs'
        nd = len(m.celldata) + len(m.nodedata)
        ctx.nontrivial = nd > 0 and m.nface > 1
        ctx.label(spec['e'], next(k for k in ('gm', 'abs', 'big') if k in spec['m']['mesh']), f'ndof{m.ndof}', f'ndata{min(nd, 3)}')
        for d in spec['m']['cell']:
            ctx.label('cell rank %d%s' % (d['rank'], ' int' if d['v']['k'] == 'i8' and d['rank'] == 0 else ''))
        if m.wgt:
            ctx.label('weights')

    return check


def strat(**kw):
    return st.fixed_dictionaries(
        {
            'm': ic3model.model_spec(**kw),
            'e': st.sampled_from(['native', 'little', 'big']),
            'o': st.integers(0, 100),
            'c': st.booleans(),
        }
    )


CASES = [
    Case('v3', strat(ints=True, maxndof=3), roundtrip(3), quick=900, thorough=20000),
    Case('v2', strat(ints=False), roundtrip(2), quick=700, thorough=20000),
    Case('big', strat(ints=True, maxndof=2, big=True, maxvar=2), roundtrip(3), quick=6, thorough=100),
    Case('big2', strat(ints=False, big=True, maxvar=2), roundtrip(2), quick=6, thorough=100),
]

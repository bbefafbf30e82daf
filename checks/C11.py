"""scaling, morphing and removal of data"""
import numpy as np
from hypothesis import strategies as st

from checks.C09 import decode_v4
from lib import cfdmesh, ic3fmt, meshgen, values
from lib.fw import Case, require, same_array

PROPERTY = 'C11'
RULE = (
    'Generated 2D and 3D meshes with marks, cell and node data, parameters and partition; coordinates given as lists, lists of '
    'integers, arrays or (n,3) arrays; random sequences of 2 to 6 scalings, morphings and removals (existing and missing names), with '
    'faces built before or not; after each operation coordinates equal those of a plain numpy model and everything else is '
    'unchanged; 3D meshes are then exported. Non-trivial: at least 2 operations of different kinds.'
)
TECHNIQUE = 'model-based testing (Hypothesis): operation sequences against a numpy model, decoded exports'
NOTE = 'random meshes up to 8 blocks, up to 6 operations'

MORPH = {
    'swap': lambda x, y, z: (y, z, x),
    'affine': lambda x, y, z: (x + 0.5 * y, y - 0.25 * z + 1.0, z + 2.0 * x),
    'quad': lambda x, y, z: (x + 0.01 * y * y, y + 0.01 * x * z, z - 0.02 * x * x),
    'identity': lambda x, y, z: (x, y, z),
    'cyl': lambda x, y, z: ((2 + y) * np.cos(0.1 * x), (2 + y) * np.sin(0.1 * x), z),
    'list': lambda x, y, z: ((x + 1).tolist(), (2 * y).tolist(), (z - 1).tolist()),
}


def full(mesh):
    s = cfdmesh.snapshot(mesh)
    s.pop('xyz')
    s['prop'] = {k: repr(v) for k, v in mesh._cellprop.items()}
    s['faces'] = {
        k: (f['face2node'].index_elem_tuples(), f['face2cell'].conn.tolist()) for k, f in mesh._faces.items()
    }
    s['nface'] = int(mesh.nface)
    s['properties'] = {n: {k: repr(v) for k, v in b.properties.items()} for n, b in mesh._bocos.items()}
    return s


def check(spec, ctx):
    import cfdtools.data as _data
    from cfdtools.ic3 import writerV3, writerV4
    from cfdtools.vtk import vtkMesh

    gm = meshgen.build(spec['g'] if spec['coords'] != 'int' else dict(spec['g'], geo={}))
    if spec['coords'] == 'int':
        gm.nodes = np.rint(2 * gm.nodes)  # centres of blocks
    marks = meshgen.make_marks(gm, spec['marks'])
    mesh, order = cfdmesh.to_mesh(gm, spec['o'], marks, coords=spec['coords'] if spec['coords'] in ('list', 'array') else 'nd')
    if spec['coords'] == 'int':
        mesh.set_nodescoord_xyz(*[[int(v) for v in gm.nodes[:, i]] for i in range(3)])
    if spec['coords'] == 'alias':  # one array for several coordinates
        cols = [gm.nodes[:, c].copy() for c in range(3)]
        use = [cols[c] for c in ((0, 1, 0), (0, 1, 1), (0, 0, 2))[spec['o'] % 3]]
        gm.nodes = np.column_stack(use)
        mesh.set_nodescoord_xyz(*use)
    elif spec['coords'] in ('share', 'share-nd'):  # arrays of the caller, also given to another mesh
        use = [gm.nodes[:, c].copy() for c in range(3)] if spec['coords'] == 'share' else [gm.nodes.copy()]
        other, _ = cfdmesh.to_mesh(gm, spec['o'], marks)
        for m in (mesh, other):
            m.set_nodescoord_xyz(*use) if spec['coords'] == 'share' else m.set_nodescoord_nd(use[0])
    else:
        use = []
    given, kept = gm.nodes.copy(), [u.copy() for u in use]
    data = {'cell': {}, 'node': {}}
    for kind, n, typ in (('cell', gm.ncell, 'cellaverage'), ('node', gm.nnode, 'nodal')):
        ds = _data.DataSet(typ)
        for i, name in enumerate(spec['vars']):
            data[kind][name] = values.array({'k': 'uni', 's': i}, (n,) if i % 2 else (n, 3))
            ds.add_data(name, data[kind][name])
        (mesh.set_celldata if kind == 'cell' else mesh.set_nodedata)(ds)
    mesh.set_params({'step': 3, 'time': 0.5})
    part = np.arange(gm.ncell) % 2
    mesh.set_partition({'npart': int(part.max()) + 1, 'icvpart': part})
    if spec['faces']:
        mesh.make_face_connectivity()
        if gm.dim == 3:
            mesh.bocomarks_set_node_to_face()
    xyz = gm.nodes.astype(float).copy()
    state = full(mesh)
    kinds = set()
    for op, arg in spec['ops']:
        kinds.add(op)
        if op == 'scale':
            factors = {0: tuple, 1: list, 2: np.array}[spec['o'] % 3](arg)
            mesh.scale(factors)
            xyz = xyz * np.array(arg, float)
        elif op == 'morph':
            mesh.morph(MORPH[arg])
            xyz = np.column_stack([np.asarray(c) for c in MORPH[arg](*xyz.T)])
        else:
            kind, i = arg
            name = spec['vars'][i] if 0 <= i < len(spec['vars']) else 'absent'
            out = (mesh.pop_celldata if kind == 'cell' else mesh.pop_nodedata)(name)
            if name in data[kind]:
                same_array(data[kind].pop(name), out, f'removed {kind} data {name}')
                state[kind + 'data'].pop(name)
            else:
                require(out is None, f'missing {kind} data {name} gives {out}')
        for c, got, want in zip('xyz', mesh.nodescoord(), xyz.T):
            same_array(want, got, f'coordinate {c} after {op} {arg}')
        same_array(xyz, mesh.nodescoord(ndarray=True), f'coordinates after {op} {arg}')
        now = full(mesh)
        for k in state:
            require(now[k] == state[k], lambda: f'{k} changed by {op} {arg}: {now[k]} instead of {state[k]}')
        for kind in data:
            d = mesh._celldata if kind == 'cell' else mesh._nodedata
            require(list(d.keys()) == list(data[kind]), f'{kind} data are {list(d.keys())}')
    same_array(given, gm.nodes, 'array of coordinates of the caller')
    for u, v in zip(use, kept):
        same_array(v, u, 'array of coordinates given by the caller')
    if spec['coords'] in ('share', 'share-nd'):
        same_array(given, other.nodescoord(ndarray=True), 'coordinates of another mesh')
    if gm.dim == 3:
        fn = ctx.path('out.ic3')
        if spec['fmt'] == 'vtu':
            import pyvista as pv

            fn += '.vtu'
            vtkMesh(mesh).write_data(fn)
            same_array(xyz, pv.read(fn).points, 'exported points')
        elif spec['fmt'] == 4:
            for name in list(mesh._celldata.keys()):
                mesh.pop_celldata(name)
            writerV4.writer(mesh).write_data(fn)
            same_array(xyz, decode_v4(fn)[0].coords, 'exported coordinates')
        else:
            writerV3.writer(mesh, endian='little').write_data(fn)
            m = ic3fmt.decode(open(fn, 'rb').read())[2]
            same_array(xyz, m.coords, 'exported coordinates')
            require(set(m.celldata) == set(data['cell']), f'exported variables {set(m.celldata)}')
    ctx.nontrivial = len(kinds) > 1
    ctx.label(spec['coords'], f'dim{gm.dim}', *kinds, 'faces' if spec['faces'] else 'cells')


op = st.one_of(
    st.tuples(st.just('scale'), st.lists(st.sampled_from([1.0, 2, -1, 0.1, 1e-3, 0.0, 1000.0, 1 / 3]), min_size=3, max_size=3)).map(list),
    st.tuples(st.just('morph'), st.sampled_from(sorted(MORPH))).map(list),
    st.tuples(st.just('pop'), st.tuples(st.sampled_from(['cell', 'node']), st.integers(0, 3)).map(list)).map(list),
)
name = values.text('abcXYZ01', 1, 5).filter(lambda s: s != 'absent')
CASES = [
    Case('sequence', st.fixed_dictionaries({
        'g': st.one_of(meshgen.spec2d(maxcell=6), meshgen.spec3d(maxcell=6), meshgen.spec3d(maxcell=6)),
        'o': st.integers(0, 1000), 'marks': meshgen.markspec(), 'faces': st.booleans(),
        'coords': st.sampled_from(['nd', 'list', 'array', 'int', 'alias', 'share', 'share-nd']), 'vars': st.lists(name, max_size=3, unique=True),
        'ops': st.lists(op, min_size=2, max_size=6), 'fmt': st.sampled_from([3, 4, 'vtu']),
    }), check, quick=1500, thorough=15000),
]

"""export of marked meshes"""
import random

import h5py
import numpy as np
from hypothesis import strategies as st

from lib import cfdmesh, ic3fmt, ic3model, meshgen, values
from lib.fw import Case, require, same_array

PROPERTY = 'C09'
RULE = (
    'Conforming 3D meshes with 0 to 4 disjoint node marks (random, sides, partial, none), cell data and parameters, '
    'exported in a random sequence of 1 to 4 formats (V2, V3, V4, VTU) from the same mesh; files are decoded '
    'independently: zones against marks, faces, orientation, owners, coordinates, data. Repeated exports must be identical; marks may be '
    'removed and others added between two exports. '
    'Non-trivial: at least one mark and 2 cells.'
)
TECHNIQUE = 'property-based testing (Hypothesis): independent decoding of exported files, sequences of exports'
NOTE = 'random meshes up to 8 blocks, marks closed over boundary faces; a few large meshes (sizes over 16 bits)'


def decode_v4(fn):
    m = ic3fmt.Model()
    inv = {v: k for k, v in ic3fmt.KIND.items()}
    with h5py.File(fn, 'r') as f:
        m.ncell = int(f.attrs['cv_count'])
        m.coords = f['coordinates'][()].reshape(-1, 3)
        face = f['Connectivities/Face']
        m.f2c = face['cvofa'][()].reshape(-1, 2)
        pos, flat = 0, face['noofa_v'][()].tolist()
        for n in face['noofa_i'][()]:
            m.faces.append(flat[pos:pos + n])
            pos += n
        b = f['Boundaries']
        off = b['offsets'][()].tolist()
        for lab, kind, a, z in zip(b['labels'][()], b['kinds'][()], off[:-1], off[1:]):
            m.zones.append((lab.decode(), inv[kind], a, z - 1, [0.0] * 16))
        cells = {t: d[()].tolist() for t, d in f['Connectivities/Cell'].items()} if 'Cell' in f['Connectivities'] else None
    return m, cells


def check(spec, ctx):
    with cfdmesh.history(ctx, spec['gmsh']):
        check_case(spec, ctx)


def check_case(spec, ctx):
    import pyvista as pv

    import cfdtools.data as _data
    from cfdtools.ic3 import writerV2, writerV3, writerV4
    from cfdtools.vtk import vtkMesh

    gm = meshgen.build(spec['g'])
    marks = meshgen.make_marks(gm, spec['marks'])
    kinds = ['boundary', 'boundary', 'perio_cart', 'perio_cylz']
    marks = [mk + (kinds[(spec['o'] + i) % 4],) for i, mk in enumerate(marks)]
    r = random.Random(spec['o'])
    given = marks
    if spec['o'] % 4 == 0:  # nodes listed several times
        given = [(mk[0], mk[1] + [r.choice(mk[1]) for _ in range(r.randint(1, 4))]) + mk[2:] for mk in marks]
    mesh, order = cfdmesh.to_mesh(gm, spec['o'], given)
    ds = _data.DataSet('cellaverage')
    rho = values.array(spec['v'], (gm.ncell,))
    ds.add_data('RHO', rho)
    mesh.set_celldata(ds)
    mesh.set_params({'step': 7, 'time': 0.25})
    previous = {}
    retry = spec.get('retry')
    types = [(t, idx) for t, idx, _ in gm.by_type(spec['o'])]
    for i, fmt in enumerate(spec['seq']):
        if i and retry:  # other marks after an export
            for name in list(mesh._bocos):
                if name not in {mk[0] for mk in marks} or r.random() < .5:
                    mesh.remove_boco(name)
            kept = [mk for mk in marks if mk[0] in mesh._bocos]
            again = [mk for mk in meshgen.make_marks(gm, retry) if mk[0] not in mesh._bocos]
            again = [mk + (kinds[(spec['o'] + j) % 4],) for j, mk in enumerate(again)
                     if not any(mk[2] & other[2] for other in kept)]
            for mk in again:
                cfdmesh.add_mark(mesh, mk, spec['o'])
            marks = kept + again
            retry = None
            previous = {}
            ctx.label('other marks after an export')
        fn = ctx.path(f'{i}.{"vtu" if fmt == "vtu" else "out"}')
        if fmt == 'vtu':
            vtkMesh(mesh).write_data(fn)
            g = pv.read(fn)
            same_array(gm.nodes, g.points, 'VTK points')
            require(g.n_cells == gm.ncell, 'VTK cells')
            continue
        if fmt in (2, 3):
            (writerV2 if fmt == 2 else writerV3).writer(mesh, endian='little').write_data(fn)
            data = open(fn, 'rb').read()
            m = ic3fmt.decode(data)[2]
            same_array(rho, m.celldata['RHO'], 'RHO')
            require((m.step, m.time) == (7, 0.25), f'step {m.step} time {m.time}')
            same_array(np.zeros(gm.ncell, int), m.icv, 'partition')
            if fmt in previous:
                require(previous[fmt] == data, f'exports {i} and a previous one in the same format differ')
            previous[fmt] = data
        else:
            writerV4.writer(mesh).write_data(fn)
            m, cells = decode_v4(fn)
            if cells is not None:
                want = sorted((t, sorted(gm.cells[c][1] for c in idx)) for t, idx in types)
                require(sorted((t, sorted(c)) for t, c in cells.items()) == want, 'cells of V4 file')
        cfdmesh.check_zones(gm, order, marks, m)
        content = [m.faces, m.f2c.tolist(), sorted(z[:4] for z in m.zones)]
        require(previous.setdefault('all', content) == content, f'export {i} ({fmt}) differs from previous exports')
    ctx.count = len(spec['seq'])
    ctx.nontrivial = bool(marks) and gm.ncell > 1
    ctx.label(f'marks{len(marks)}', '-'.join(str(x) for x in spec['seq'][:2]), '+'.join(gm.types()))
    if set(gm.boundary()).difference(*[mk[2] for mk in marks]):
        ctx.label('unmarked faces')


CASES = [
    Case('export', st.fixed_dictionaries({
        'g': meshgen.spec3d(maxcell=8), 'o': st.integers(0, 1000), 'gmsh': st.booleans(), 'marks': meshgen.markspec(), 'v': values.float_spec(),
        'seq': st.lists(st.sampled_from([2, 3, 4, 'vtu']), min_size=1, max_size=4),
        'retry': st.one_of(st.none(), meshgen.markspec()),
    }), check, quick=500, thorough=10000),
    Case('big', st.fixed_dictionaries({
        'g': meshgen.big3d(), 'o': st.integers(0, 1000), 'gmsh': st.just(False), 'marks': meshgen.bigmarks(['a', 'b c', 'd']), 'v': values.float_spec(),
        'seq': st.permutations([2, 3, 4, 'vtu']),
    }), check, quick=5, thorough=60),
]

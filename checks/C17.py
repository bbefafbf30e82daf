"""VTK export and import"""
import numpy as np
from hypothesis import strategies as st

from lib import cfdmesh, meshgen, vtkgen
from lib.fw import Case, require, same_array

PROPERTY = 'C17'
RULE = (
    'export: generated 2D and 3D meshes of all types in random groups and numbering are written to VTU and read back with pyvista '
    'alone: points bit for bit, cells by type in the order of the mesh, volumes. import: grids built by the checker with '
    'interleaved cell types (32 or 64 bit points, with data) are saved in VTU or legacy VTK, read and exported: points, cells, faces '
    'with orientation, written again, read again, volumes. Non-trivial: at least 2 cell types, or permuted numbering and 2 cells.'
)
TECHNIQUE = 'property-based testing (Hypothesis): round trips with an independent reader (pyvista), oracle mesh'
NOTE = 'random meshes up to 8 blocks; a few large meshes (sizes over 16 bits)'


def build(spec):
    gm = meshgen.build(spec['g'])
    if spec.get('mirror'):  # cells of negative volumes
        gm.nodes = gm.nodes * [-1.0, 1.0, 1.0]
        gm.mirror = True
    return gm


def check_vol(gm, order, got, what):
    if gm.dim == 3 and not hasattr(gm, 'mirror'):
        want = gm.volumes()[order]
        require(np.allclose(got, want, rtol=1e-5, atol=1e-9 * want.max()), lambda: f'{what}: volumes {got} instead of {want}')


def check_export(spec, ctx):
    import pyvista as pv

    from cfdtools.vtk import vtkMesh

    gm = build(spec)
    mesh, order = cfdmesh.to_mesh(gm, spec['o'], auto=spec['auto'], coords=spec['coords'])
    before = cfdmesh.snapshot(mesh)
    v = vtkMesh(mesh)
    require((v.ncell, v.nnode) == (gm.ncell, gm.nnode), f'sizes {v.ncell} {v.nnode}')
    fn = ctx.path('m.vtu')
    v.write_data(fn)
    require(cfdmesh.snapshot(mesh) == before, 'the mesh is modified')
    g = pv.read(fn)
    same_array(gm.nodes, g.points, 'points')
    want = [(t, n) for t, d in mesh._cell2node.items() for n in d['elem2node'].tolist()]
    got = vtkgen.cells_of_grid(g)
    require(got == want, lambda: f'cells {got} instead of {want}')
    index = [order[i] for i in mesh._cell2node.all_index()]
    check_vol(gm, index, v.volumes(), 'exported mesh')
    if spec['o'] % 3 == 0:  # the same mesh is given again, transformed
        mesh.scale([2.0, 0.5, 4.0])
        v.set_mesh(mesh)
        v.write_data(ctx.path('scaled.vtu'))
        same_array(gm.nodes * [2.0, 0.5, 4.0], pv.read(ctx.path('scaled.vtu')).points, 'points of the scaled mesh')
        same_array(gm.nodes, pv.read(fn).points, 'points of the file written before')
        require(np.allclose(v.volumes(), 4 * g.compute_cell_sizes().cell_data['Volume'], rtol=1e-5), 'volumes of the scaled mesh')
    # read back with the library
    r = vtkMesh().read(fn)
    back = r.export_mesh()
    same_array(gm.nodes, back.nodescoord(ndarray=True), 'points read')
    cells = cfdmesh.cells_of(back)
    require(sorted(cells) == sorted(want), f'cells read {cells} instead of {want}')
    ctx.nontrivial = len(gm.types()) > 1 or (gm.ncell > 1 and bool(spec['g']['nperm'] or spec['g']['cperm']))
    ctx.label('+'.join(gm.types()), f'{gm.dim}D')


def check_import(spec, ctx):
    import pyvista as pv

    from cfdtools.vtk import vtkMesh

    gm = build(spec)
    if spec['dtype'] == 'f4':
        gm.nodes = gm.nodes.astype('f4').astype(float)
    data = {'a': np.arange(gm.ncell, dtype=float)} if spec['data'] else {}
    g = vtkgen.grid(gm, spec['dtype'], data)
    fn = ctx.path('m.' + spec['ext'])
    if spec['direct']:
        v = vtkMesh(pvmesh=g)
    else:
        g.save(fn, binary=spec['binary'] or spec['ext'] == 'vtk')  # ASCII legacy files are rounded
        v = vtkMesh()
        if spec['reuse']:  # an object may be used for several files
            v.read(fn)
            v.volumes()
        require(v.read(fn) is v, 'read')
    require((v.ncell, v.nnode) == (gm.ncell, gm.nnode), f'sizes {v.ncell} {v.nnode}')
    check_vol(gm, list(range(gm.ncell)), v.volumes(), 'read grid')
    v.brief()
    mesh = v.export_mesh()
    same_array(gm.nodes, mesh.nodescoord(ndarray=True), 'points')
    require((mesh.ncell, mesh.nnode) == (gm.ncell, gm.nnode), 'sizes of mesh')
    want = {cfdmesh.cell_key(t, c): i for i, (t, c) in enumerate(gm.cells)}
    order = []
    for t, c in cfdmesh.cells_of(mesh):
        key = cfdmesh.cell_key(t, c)
        require(key in want, f'{t} {c} is not a cell of the grid')
        order.append(want[key])
    require(sorted(order) == list(range(gm.ncell)), 'cells of the grid are not all there once')
    mesh.make_face_connectivity()
    faces = [cfdmesh.faces_of(mesh._faces[k]['face2node'], mesh._faces[k]['face2cell'].conn, k) for k in ('boundary', 'internal')]
    cfdmesh.check_faces(gm, order, *faces)
    out = ctx.path('again.vtu')
    w = vtkMesh(mesh)
    w.write_data(out)
    g2 = pv.read(out)
    same_array(gm.nodes, g2.points, 'points written again')
    cells2 = vtkgen.cells_of_grid(g2)
    order2 = [want.get(cfdmesh.cell_key(t, c), -1) for t, c in cells2]
    require(sorted(order2) == list(range(gm.ncell)), f'cells written again {cells2}')
    check_vol(gm, order2, vtkMesh().read(out).volumes(), 'grid written again')
    # the grid given is unchanged
    require(vtkgen.cells_of_grid(g) == [(t, list(c)) for t, c in gm.cells], 'grid is modified')
    ctx.nontrivial = len(gm.types()) > 1 or (gm.ncell > 1 and bool(spec['g']['nperm'] or spec['g']['cperm']))
    ctx.label('+'.join(gm.types()), f'{gm.dim}D', spec['dtype'], 'direct' if spec['direct'] else spec['ext'])


anymesh = st.one_of(meshgen.spec2d(maxcell=8), meshgen.spec3d(maxcell=8), meshgen.spec3d(maxcell=8, orphan=True))
bigmesh = st.one_of(meshgen.big3d(), meshgen.big2d())
_mirror = st.sampled_from([0, 0, 0, 1])
CASES = [
    Case('export', st.fixed_dictionaries({
        'g': anymesh, 'o': st.integers(0, 1000), 'auto': st.booleans(), 'coords': st.sampled_from(['nd', 'list', 'array']), 'mirror': _mirror,
    }), check_export, quick=500, thorough=8000),
    Case('import', st.fixed_dictionaries({
        'g': anymesh, 'dtype': st.sampled_from(['f8', 'f4']), 'ext': st.sampled_from(['vtu', 'vtu', 'vtk']), 'binary': st.booleans(),
        'direct': st.booleans(), 'data': st.booleans(), 'reuse': st.booleans(), 'mirror': _mirror,
    }), check_import, quick=500, thorough=8000),
    Case('big-export', st.fixed_dictionaries({
        'g': bigmesh, 'o': st.integers(0, 1000), 'auto': st.booleans(), 'coords': st.sampled_from(['nd', 'list', 'array']),
    }), check_export, quick=4, thorough=50),
    Case('big-import', st.fixed_dictionaries({
        'g': bigmesh, 'dtype': st.just('f8'), 'ext': st.sampled_from(['vtu', 'vtk']), 'binary': st.just(True),
        'direct': st.booleans(), 'data': st.just(True), 'reuse': st.just(False),
    }), check_import, quick=4, thorough=50),
]

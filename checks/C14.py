"""GMSH 2 reader"""
import numpy as np

from lib import cfdmesh, gmshfmt, meshgen
from lib.fw import Case, require

PROPERTY = 'C14'
RULE = (
    'GMSH 2 files written by the checker from conforming 2D and 3D meshes: node tags dense, offset, sparse or shuffled, elements in '
    'any order with 2 or 4 tags, boundary groups with named, unnamed or no physical group, several entities per group or one for '
    'all, groups of points and curves with the same tags, other sections, values separated by any blanks. The imported mesh is compared with what is described: '
    'coordinates bit for bit, cells, faces with orientation, marks. Non-trivial: a named group or at least 2 cell types.'
)
TECHNIQUE = 'property-based testing (Hypothesis): independent writer, comparison with the described mesh'
NOTE = 'random meshes up to 6 blocks (12 for thorough); a few large meshes (sizes over 16 bits)'


def read(fn):
    from cfdtools.gmsh.reader import reader

    r = reader(fn)
    r.read_data()
    return r, r.export_mesh()


def check_mesh(d, mesh, what):
    """returns comparable content"""
    gm = d.gm
    xyz = mesh.nodescoord(ndarray=True)
    require(xyz.shape == gm.nodes.shape, f'{what}: {xyz.shape[0]} nodes instead of {gm.nnode}')
    got = cfdmesh.cells_of(mesh)
    at = {k: i for i, k in enumerate(cfdmesh.node_keys(gm.nodes, gm.cells))}
    require(len(at) == gm.nnode, 'generated nodes are not distinct')
    ids = []
    for p in cfdmesh.node_keys(xyz, got):
        require(p in at, f'{what}: {p} is not a node of the file')
        ids.append(at[p])
    require(len(set(ids)) == gm.nnode, f'{what}: a node is found twice')
    want = {cfdmesh.cell_key(t, c): i for i, (t, c) in enumerate(gm.cells)}
    order = []
    for t, c in got:
        require(len(c) == meshgen.NNODE[t], f'{what}: {t} with {len(c)} nodes')
        key = cfdmesh.cell_key(t, [ids[n] for n in c])
        require(key in want, f'{what}: {t} {[ids[n] for n in c]} is not a cell of the file')
        order.append(want[key])
    require(sorted(order) == list(range(gm.ncell)), f'{what}: {len(order)} cells instead of {gm.ncell}')
    require((mesh.ncell, mesh.nnode) == (gm.ncell, gm.nnode), f'{what}: sizes {mesh.ncell} {mesh.nnode}')
    marks = {}
    for name, b in mesh._bocos.items():
        require(b.name == name and b.nodebased() and b.type == 'boundary', f'{what}: mark {name} {b.geodim}')
        marks[name] = sorted({ids[n] for n in b.index.list()})
    return ids, order, marks


def expected_marks(d):
    if not d.phys:  # no name in file: all boundary elements make a default mark
        nodes = sorted({n for t, c, dim, e, p in d.elts for n in c if dim == d.gm.dim - 1})
        return {'fluid': nodes} if nodes else {}
    out = {}
    for t, c, dim, e, p in d.elts:
        if dim == d.gm.dim - 1 and (dim, p) in d.phys:
            out.setdefault(d.phys[(dim, p)], set()).update(c)
    return {k: sorted(v) for k, v in out.items()}


def check_faces(d, mesh, ids, order):
    mesh.make_face_connectivity()

    def faces(kind):
        f = mesh._faces[kind]
        return [([ids[n] for n in nodes], c) for nodes, c in cfdmesh.faces_of(f['face2node'], f['face2cell'].conn, kind)]

    cfdmesh.check_faces(d.gm, order, faces('boundary'), faces('internal'))


def check(spec, ctx):
    fn = ctx.path('mesh.msh')
    d = gmshfmt.write2(spec, fn)
    r, mesh = read(fn)
    ids, order, marks = check_mesh(d, mesh, 'GMSH 2')
    require(r.ncell == d.gm.ncell, f'reader counts {r.ncell} cells')
    want = expected_marks(d)
    require(marks == want, lambda: f'marks {marks} instead of {want}')
    check_faces(d, mesh, ids, order)
    # a second export of the reader gives the same mesh
    again = r.export_mesh()
    require(np.array_equal(again.nodescoord(ndarray=True), mesh.nodescoord(ndarray=True)), 'second export: nodes')
    require(cfdmesh.cells_of(again) == cfdmesh.cells_of(mesh), 'second export: cells')
    ctx.nontrivial = bool(d.marks) or len(d.gm.types()) > 1
    ctx.label(f'{d.gm.dim}D', '+'.join(d.gm.types()), f'marks{len(marks)}', spec['tags'], spec['rest'], spec['extra'], 'same entity' if spec['sametag'] else 'entities')


CASES = [Case('read', gmshfmt.spec(), check, quick=900, thorough=0), Case('read-more', gmshfmt.spec(maxcell=12), check, quick=0, thorough=15000),
         Case('big', gmshfmt.spec(big=True), check, quick=4, thorough=40)]

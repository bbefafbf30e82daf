"""faces built from cells"""
from hypothesis import strategies as st

from lib import cfdmesh, meshgen
from lib.fw import Case, require

PROPERTY = 'C08'
RULE = (
    'Conforming meshes (hexahedra, prism columns, pyramids, tetrahedra with holes; triangles and quadrangles in 2D), nodes,'
    ' cells and local nodes permuted, cells added in random groups per type; generated faces are compared with those '
    'computed independently (once each, owners, outward orientation in 3D). Non-trivial: at least 2 cells.'
)
TECHNIQUE = 'property-based testing (Hypothesis): independent combinatorial oracle on generated conforming meshes'
NOTE = 'random meshes up to 12 hexahedral blocks (72 cells); a few large meshes (sizes over 16 bits)'


def check(spec, ctx):
    with cfdmesh.history(ctx, spec['gmsh']):
        check_case(spec, ctx)


def check_case(spec, ctx):
    gm = meshgen.build(spec['g'])
    mesh, order = cfdmesh.to_mesh(gm, spec['o'], auto=spec['auto'])
    con = mesh._cell2node
    inn, if2c, bd, bf2c = con.create_faces_from_elems()
    bdl, inl = cfdmesh.faces_of(bd, bf2c.conn, 'boundary'), cfdmesh.faces_of(inn, if2c.conn, 'internal')
    cfdmesh.check_faces(gm, order, bdl, inl)
    before = cfdmesh.cells_of(mesh)
    for _ in range(1 + spec['o'] % 2):
        mesh.make_face_connectivity()
    f = mesh._faces
    require(set(f) == {'internal', 'boundary'}, f'kinds of faces {set(f)}')
    bdl = cfdmesh.faces_of(f['boundary']['face2node'], f['boundary']['face2cell'].conn, 'boundary')
    inl = cfdmesh.faces_of(f['internal']['face2node'], f['internal']['face2cell'].conn, 'internal')
    cfdmesh.check_faces(gm, order, bdl, inl)
    require(mesh.nface == len(bdl) + len(inl), f'{mesh.nface} faces instead of {len(bdl)} + {len(inl)}')
    mixed, f2c = mesh.export_mixedfaces()
    require(cfdmesh.faces_of(mixed, f2c.conn, 'mixed') == bdl + inl, 'mixed faces are not boundary then internal faces')
    require(cfdmesh.cells_of(mesh) == before, 'cells are modified')
    if spec['other'] is not None:  # other cells given to the same mesh
        other = meshgen.build(spec['other'])
        con, order = cfdmesh.conn_of(other, spec['o'])
        mesh.set_cell2node(con)
        mesh.make_face_connectivity()
        f = mesh._faces
        cfdmesh.check_faces(other, order, *(cfdmesh.faces_of(f[k]['face2node'], f[k]['face2cell'].conn, k) for k in ('boundary', 'internal')))
        ctx.label('other cells')
    ctx.nontrivial = gm.ncell > 1
    ctx.label(f'dim{gm.dim}', '+'.join(gm.types()), 'auto' if spec['auto'] else 'indexed')


def strat(g, other=st.none()):
    return st.fixed_dictionaries({
        'other': other, 'g': g, 'o': st.integers(0, 1000), 'auto': st.booleans(), 'gmsh': st.booleans(),
    })


CASES = [
    Case('3d', strat(meshgen.spec3d(), st.one_of(st.none(), meshgen.spec3d(maxcell=2))), check, quick=700, thorough=15000),
    Case('2d', strat(meshgen.spec2d(), st.one_of(st.none(), meshgen.spec2d(maxcell=3))), check, quick=300, thorough=6000),
    Case('big', strat(st.one_of(meshgen.big3d(), meshgen.big2d())), check, quick=6, thorough=80),
]

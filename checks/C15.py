"""GMSH 4.1 reader"""
from checks.C14 import check_faces, check_mesh, expected_marks, read
from lib import gmshfmt
from lib.fw import Case, require, same_array

PROPERTY = 'C15'
RULE = (
    'The same generated 2D or 3D mesh written by two independent writers in GMSH 2.2 and 4.1 (random entities and tags per '
    'dimension, node blocks of any size and entity, parametric coordinates, element blocks in any order, other sections); both '
    'imports are compared with the described mesh and with each other. Non-trivial: a named group or at least 2 cell types.'
)
TECHNIQUE = 'differential property-based testing (Hypothesis): two formats of the same mesh, independent writers'
NOTE = 'random meshes up to 6 blocks (12 for thorough); a few large meshes (sizes over 16 bits)'


def check(spec, ctx):
    fn2, fn4 = ctx.path('m2.msh'), ctx.path('m4.msh')
    d = gmshfmt.write2(spec, fn2)
    gmshfmt.write4(spec, fn4)
    r4, mesh4 = read(fn4)
    ids4, order4, marks4 = check_mesh(d, mesh4, 'GMSH 4')
    want = expected_marks(d)
    require(marks4 == want, lambda: f'GMSH 4: marks {marks4} instead of {want}')
    require(r4.ncell == d.gm.ncell, f'reader counts {r4.ncell} cells')
    check_faces(d, mesh4, ids4, order4)
    _, mesh2 = read(fn2)
    ids2, order2, marks2 = check_mesh(d, mesh2, 'GMSH 2')
    require(marks2 == marks4, lambda: f'marks {marks2} and {marks4}')
    same_array(mesh2.nodescoord(ndarray=True), mesh4.nodescoord(ndarray=True), 'nodes of both formats')
    ctx.count = 2
    ctx.nontrivial = bool(d.marks) or len(d.gm.types()) > 1
    ctx.label(f'{d.gm.dim}D', '+'.join(d.gm.types()), f'marks{len(marks4)}', spec['tags'], spec['rest'], spec['extra'])


CASES = [Case('both', gmshfmt.spec(), check, quick=700, thorough=0), Case('both-more', gmshfmt.spec(maxcell=12), check, quick=0, thorough=12000),
         Case('big', gmshfmt.spec(big=True), check, quick=4, thorough=40)]

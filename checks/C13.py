"""cube generator"""
import itertools
import os

import numpy as np
from hypothesis import strategies as st

from checks.C09 import decode_v4
from lib import cfdmesh, ic3fmt, meshgen
from lib.fw import Case, require, same_array

PROPERTY = 'C13'
RULE = (
    'All sizes (nx, ny, nz) up to a bound (and random larger ones): coordinates, hexahedra, volumes, marks and faces of the mesh '
    'against a checker-made uniform grid; exports with the library (V2, V3, V4, VTU) and with cfdwritecube (.ic3, .vtu, default '
    'sizes) decoded independently. Non-trivial: sizes that are not all equal and more than one cell.'
)
TECHNIQUE = 'exhaustive enumeration of small sizes and property-based testing (Hypothesis) against a reference grid'
NOTE = 'all sizes up to 5x5x5 (thorough 9x9x9), random sizes up to 20; a few large meshes (sizes over 16 bits)'


def reference(n):
    nx, ny, nz = n
    pts = np.array([(i / nx, j / ny, k / nz) for i in range(nx + 1) for j in range(ny + 1) for k in range(nz + 1)])
    return pts


def check_mesh(n, xyz, cells, what):
    """cells: list of (type, nodes); returns GMesh"""
    nx, ny, nz = n
    require(len(cells) == nx * ny * nz, f'{what}: {len(cells)} cells')
    require(xyz.shape == ((nx + 1) * (ny + 1) * (nz + 1), 3), f'{what}: {xyz.shape} nodes')
    ijk = np.rint(xyz * np.array(n)).astype(int)
    require(np.allclose(xyz, ijk / np.array(n), rtol=0, atol=1e-14), f'{what}: nodes are not on the uniform grid')
    require(len({tuple(t) for t in ijk.tolist()}) == len(xyz), f'{what}: repeated nodes')
    require(ijk.min() >= 0 and (ijk.max(axis=0) <= np.array(n)).all(), f'{what}: nodes out of the cube')
    boxes = set()
    for t, c in cells:
        require(t == 'hexa8' and len(set(c)) == 8, f'{what}: cell {t} {c}')
        p = ijk[c]
        low = p.min(axis=0)
        require({tuple(x) for x in (p - low).tolist()} == set(itertools.product((0, 1), repeat=3)), f'{what}: cell {p.tolist()}')
        boxes.add(tuple(low.tolist()))
    require(len(boxes) == len(cells), f'{what}: cells overlap')
    gm = meshgen.GMesh(xyz, cells, 3)
    vol = gm.volumes()
    require(np.allclose(vol, 1.0 / (nx * ny * nz), rtol=1e-9), f'{what}: volumes from {vol.min()} to {vol.max()}')
    return gm


SIDES = [('imin', 0, 0), ('imax', 0, 1), ('jmin', 1, 0), ('jmax', 1, 1), ('kmin', 2, 0), ('kmax', 2, 1)]


def side_faces(gm, n):
    """name -> faces of the side"""
    ijk = np.rint(gm.nodes * np.array(n)).astype(int)
    out = {}
    bd = gm.boundary()
    for name, ax, side in SIDES:
        on = ijk[:, ax] == side * n[ax]
        out[name] = {f for f in bd if all(on[i] for i in f)}
    return out


def zones(gm, n, m, what):
    sides = side_faces(gm, n)
    require(sorted(z[0] for z in m.zones if z[1] != 'internal') == sorted(sides), f'{what}: zones {[z[0] for z in m.zones]}')
    cfdmesh.check_zones(gm, list(range(gm.ncell)), [(k, None, v, 'boundary') for k, v in sides.items()], m)


def read_file(fn, fmt):
    """(xyz, cells or None, restart or None)"""
    import pyvista as pv

    if fmt == 'vtu':
        g = pv.read(fn)
        require(set(g.cells_dict) == {12}, 'VTK types')
        return g.points, [('hexa8', c) for c in g.cells_dict[12].tolist()], None
    if fmt == 4:
        m, cells = decode_v4(fn)
        return m.coords, None, m
    m = ic3fmt.decode(open(fn, 'rb').read())[2]
    return m.coords, None, m


def check(spec, ctx):
    from cfdtools.ic3 import writerV2, writerV3, writerV4
    from cfdtools.meshbase.simple import Cube
    from cfdtools.vtk import vtkMesh

    n = spec['n']
    cube = Cube(*n) if n[2] != 1 or sum(n) % 2 else Cube(n[0], n[1])
    mesh = cube.export_mesh()
    cells = cfdmesh.cells_of(mesh)
    xyz = mesh.nodescoord(ndarray=True)
    require((mesh.ncell, mesh.nnode) == (len(cells), len(xyz)), f'sizes {mesh.ncell} {mesh.nnode}')
    gm = check_mesh(n, xyz, cells, f'cube {n}')
    ijk = np.rint(xyz * np.array(n)).astype(int)
    require(list(mesh._bocos) == [s[0] for s in SIDES], f'marks {list(mesh._bocos)}')
    for name, ax, side in SIDES:
        b = mesh._bocos[name]
        lst = b.index.list()
        require(b.name == name and b.nodebased() and b.type == 'boundary', f'mark {name}')
        require(len(set(lst)) == len(lst), f'mark {name} repeats nodes')
        require(set(lst) == set(np.flatnonzero(ijk[:, ax] == side * n[ax]).tolist()), f'nodes of mark {name}')
    before = cfdmesh.snapshot(mesh)
    again = Cube(*n).export_mesh()
    require(cfdmesh.snapshot(again) == before, 'two cubes of the same size differ')
    for fmt in spec['fmt']:
        fn = ctx.path(f'cube.{fmt}')
        if fmt == 'vtu':
            vtkMesh(mesh).write_data(fn)
        else:
            (writerV4.writer(mesh) if fmt == 4 else (writerV2 if fmt == 2 else writerV3).writer(mesh)).write_data(fn)
        pts, vcells, m = read_file(fn, fmt)
        same_array(xyz, pts, f'coordinates of {fmt}')
        if vcells is not None:
            require([c for _, c in vcells] == [c for _, c in cells], 'cells of VTU')
        else:
            zones(gm, n, m, f'V{fmt}')
        ctx.count += 1
        ctx.label(f'{fmt}')
    ctx.nontrivial = len(set(n)) > 1 and len(cells) > 1


def check_cli(spec, ctx):
    from cfdtools import _cli

    n, ext = spec['n'], spec['ext']
    os.chdir(ctx.dir)
    fn = ('sub/' if spec['dir'] else '') + spec['name'] + ext
    os.mkdir('sub')
    argv = [fn]
    for k, (o, v) in enumerate(zip(('--nx', '--ny', '--nz'), n)):
        if spec['given'][k]:
            argv += [o, str(v)]
        else:
            n = n[:k] + [10] + n[k + 1:]
    if spec['fmt']:
        argv += ['--fmt', 'IC3']
    out = _cli.cfdwritecube(argv)
    require(out == fn and os.path.isfile(fn), f'{fn} is not written, {out} is returned')
    ic3 = ext == '.ic3' or spec['fmt']
    pts, vcells, m = read_file(fn, 3 if ic3 else 'vtu')
    if vcells is None:
        # cells from faces: only zones and nodes
        ref = reference(n)
        require(m.ncell == n[0] * n[1] * n[2], f'{m.ncell} cells for {n}')
        from cfdtools.meshbase.simple import Cube

        mesh = Cube(*n).export_mesh()
        gm = meshgen.GMesh(mesh.nodescoord(ndarray=True), cfdmesh.cells_of(mesh), 3)
        require(pts.shape == ref.shape, f'{len(pts)} nodes for {n}')
        same_array(gm.nodes, pts, 'coordinates')
        zones(gm, n, m, 'cfdwritecube')
    else:
        check_mesh(n, pts, vcells, 'cfdwritecube')
    ctx.nontrivial = len(set(n)) > 1
    ctx.label(ext, 'fmt' if spec['fmt'] else 'by extension')


def enum(tier):
    top = 5 if tier == 'quick' else 9
    out = []
    fmts = [2, 3, 4, 'vtu']
    for i, n in enumerate(itertools.product(range(1, top + 1), repeat=3)):
        k = np.prod(n)
        out.append({'n': list(n), 'fmt': fmts if k <= 30 else [fmts[i % 4]]})
    return out


size = st.one_of(st.integers(1, 6), st.integers(1, 20))
CASES = [
    Case('sizes', st.fixed_dictionaries({
        'n': st.tuples(size, size, size).map(lambda t: [t[0], t[1], max(1, min(t[2], 1500 // (t[0] * t[1])))]),
        'fmt': st.lists(st.sampled_from([2, 3, 4, 'vtu']), max_size=2, unique=True),
    }), check, quick=60, thorough=1500, enum=enum),
    Case('big', st.fixed_dictionaries({
        'n': st.permutations([33, 34, 35]).map(list), 'fmt': st.sampled_from([[2], [3], [4], ['vtu']]),
    }), check, quick=2, thorough=16, examples=[{'n': [1, 2, 17000], 'fmt': ['vtu']}, {'n': [45, 38, 40], 'fmt': []}]),
    Case('cli', st.fixed_dictionaries({
        'n': st.lists(st.integers(1, 5), min_size=3, max_size=3), 'ext': st.sampled_from(['.ic3', '.vtu']), 'dir': st.booleans(),
        'name': st.sampled_from(['cube', 'my cube', 'cube.1']), 'given': st.lists(st.sampled_from([True, True, True, False]), min_size=3, max_size=3),
        'fmt': st.booleans(),
    }), check_cli, quick=80, thorough=800),
]

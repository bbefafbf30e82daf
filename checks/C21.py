"""extraction of cells and volumes"""
import os
import pickle
import random

import numpy as np
from hypothesis import strategies as st

from lib import meshgen, vtkgen
from lib.fw import Case, require, same_array

PROPERTY = 'C21'
RULE = (
    'Grids of all cell types in random numbering; sequences of extractions by lists, arrays or ranges of indices (any order, single '
    'cells, all cells), of the grid or of an extracted grid, and of volume requests, on objects built from a mesh, a grid or files, '
    'reused for several grids: cells, types, positions of nodes and volumes of the extracted grid are those of the selected cells '
    'in the given order, without unused or duplicated points; the same with cells of other types of VTK, of any number of points. Non-trivial: a selection of at least 2 cells not in increasing order.'
)
TECHNIQUE = 'property-based and stateful testing (Hypothesis): reference selection on generated meshes'
NOTE = 'random meshes up to 8 blocks, sequences of up to 6 operations'


def volumes(v, gm, cells, what):
    if gm.dim != 3:
        return
    want = gm.volumes()[cells]
    got = np.asarray(v.volumes())
    require(got.shape == want.shape, f'{what}: {got.shape} volumes instead of {want.shape}')
    require(np.allclose(got, want, rtol=1e-5, atol=1e-9 * want.max()), lambda: f'{what}: volumes {got} instead of {want}')


def content(v, gm, cells, what, unused=False):
    """grid holds exactly these cells of gm in this order"""
    g = v.pyvista_grid
    require(v.ncell == len(cells), f'{what}: {v.ncell} cells instead of {len(cells)}')
    pts = np.asarray(g.points)
    got = vtkgen.cells_of_grid(g)
    for i, (t, c) in zip(cells, got):
        wt, wc = gm.cells[i]
        require(t == wt, f'{what}: {t} instead of {wt}')
        same_array(gm.nodes[wc], pts[c], f'{what}: nodes of cell {i}')
    if not unused:
        used = {n for i in cells for n in gm.cells[i][1]}
        require(len(pts) == len(used) == v.nnode, f'{what}: {len(pts)} points instead of {len(used)}')
        # the same point is shared by the cells that share it
        ids = {}
        for i, (t, c) in zip(cells, got):
            for a, b in zip(gm.cells[i][1], c):
                require(ids.setdefault(a, b) == b, f'{what}: a shared point is duplicated')


def ids_of(sel, n, kind):
    ids = [i % n for i in sel]
    if kind == 'unique' or kind == 'range':
        ids = list(dict.fromkeys(ids))
    if kind == 'all':
        ids = list(range(n))
    elif kind == 'range':
        ids = sorted(ids)
    return ids


def check(spec, ctx):
    from cfdtools.vtk import vtkMesh

    meshes = [meshgen.build(s) for s in spec['g']]
    for gm in meshes:
        if spec['dtype'] == 'f4':
            gm.nodes = gm.nodes.astype('f4').astype(float)
    grids = [vtkgen.grid(gm, spec['dtype'], {'a': np.arange(gm.ncell) * 1.0}) for gm in meshes]
    files = []
    for i, g in enumerate(grids):
        files.append(ctx.path(f'g{i}.vtu'))
        g.save(files[-1])
    v, gm, cells = vtkMesh(pvmesh=grids[0]), meshes[0], list(range(meshes[0].ncell))
    nontrivial = False
    for op, arg in spec['ops']:
        if op == 'volumes':
            volumes(v, gm, cells, op)
        elif op in ('read', 'set'):
            i = arg % len(meshes)
            if op == 'read':
                v.read(files[i])
            else:
                v.set_pvmesh(grids[i])
            gm, cells = meshes[i], list(range(meshes[i].ncell))
        else:
            kind, sel, form = arg
            ids = ids_of(sel, len(cells), kind)
            given = {'list': list, 'array': np.array, 'i32': lambda x: np.array(x, dtype=np.int32), 'tuple': tuple}[form](ids)
            keep = np.array(ids)
            n, points = v.ncell, v.nnode
            w = v.vtk_extract_cells(given)
            require(np.array_equal(np.asarray(given), keep), 'the list of indices is modified')
            chosen = [cells[i] for i in ids]
            content(w, gm, chosen, f'extraction of {ids}')
            volumes(w, gm, chosen, f'extraction of {ids}')
            require((v.ncell, v.nnode) == (n, points), 'source is modified')
            content(v, gm, cells, 'source', unused=True)
            nontrivial |= len(ids) > 1 and ids != sorted(ids)
            ctx.label(kind, form)
            if op == 'follow':
                v, cells = w, chosen
    content(v, gm, cells, 'at the end', unused=True)
    volumes(v, gm, cells, 'at the end')
    volumes(v, gm, cells, 'at the end, again')
    ctx.nontrivial = nontrivial
    ctx.label(*('+'.join(m.types()) for m in meshes))


def check_large(spec, ctx):
    """few cells among many points"""
    from cfdtools.vtk import vtkMesh

    gm = meshgen.build(spec['g'])
    n = spec['n']
    r = random.Random(spec['seed'])
    new = r.sample(range(n), gm.nnode)
    nodes = np.empty((n, 3))
    nodes[:] = np.arange(n)[:, None] * [1.0, 0.5, 0.25] + 100.0
    nodes[new] = gm.nodes
    gm = meshgen.GMesh(nodes, [(t, [new[k] for k in c]) for t, c in gm.cells], gm.dim)
    ids = ids_of(spec['sel'], gm.ncell, 'unique')
    w = vtkMesh(pvmesh=vtkgen.grid(gm)).vtk_extract_cells(ids)
    content(w, gm, ids, f'extraction of {ids} among {n} points')
    volumes(w, gm, ids, f'extraction of {ids} among {n} points')
    ctx.nontrivial = len(ids) > 1
    ctx.label('large')


def check_big(spec, ctx):
    """many cells and points"""
    import pyvista as pv

    from cfdtools.vtk import vtkMesh

    n = spec['n']
    g = pv.ImageData(dimensions=[k + 1 for k in n], spacing=(1.0, 2.0, 0.5)).cast_to_unstructured_grid()
    ids = np.random.Generator(np.random.PCG64(spec['seed'])).permutation(g.n_cells)[: g.n_cells - spec['less']]
    w = vtkMesh(pvmesh=g).vtk_extract_cells(ids)
    want = g.points[g.cells_dict[g.celltypes[0]]][ids]
    got = np.asarray(w.pyvista_grid.points)[w.pyvista_grid.cells_dict[g.celltypes[0]]]
    same_array(want, got, f'nodes of {len(ids)} cells')
    require(np.allclose(w.volumes(), 1.0, rtol=1e-4), 'volumes')
    ctx.nontrivial = True
    ctx.label('big')


def in_child(f):
    """result of f() in another process: None if it crashes"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                out = pickle.dumps(f())
            except Exception as e:
                out = pickle.dumps(repr(e))
            while out:
                out = out[os.write(w, out):]
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        out = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(out) if out else None


# other types of VTK: (code, numbers of points)
OTHER = [(1, [1]), (2, [1, 2, 5]), (3, [2]), (4, [2, 3, 7]), (6, [3, 6]), (7, [5, 8]), (8, [4]), (11, [8]), (21, [3]), (22, [6]), (24, [10]), (25, [20])]
LONG = {4: [255, 256, 257, 300], 7: [255, 256, 300], 2: [256, 400]}


def check_types(spec, ctx):
    """cells of any type and number of points"""
    import pyvista as pv

    from cfdtools.vtk import vtkMesh

    r = random.Random(spec['seed'])
    npt = spec['npt']
    pts = np.arange(npt)[:, None] * [1.0, 0.5, 0.25] + 10.0
    cells = []
    for t, k, long in spec['cells']:
        code, sizes = OTHER[t]
        if long and code in LONG:
            sizes = LONG[code]
        cells.append((code, [r.randrange(npt) for _ in range(sizes[k % len(sizes)])]))
    flat = np.array([x for _, c in cells for x in [len(c)] + c])
    g = pv.UnstructuredGrid(flat, np.array([t for t, _ in cells], dtype=np.uint8), pts)
    ids = ids_of(spec['sel'], len(cells), spec['kind'])

    def run():
        w = vtkMesh(pvmesh=g).vtk_extract_cells(ids).pyvista_grid
        return np.asarray(w.points), np.asarray(w.cells), np.asarray(w.celltypes)

    got = in_child(run)
    what = f'extraction of {ids} among {[(t, len(c)) for t, c in cells]}'
    require(isinstance(got, tuple), f'{what}: {got or "crash"}')
    points, flat, types = got
    require(types.tolist() == [cells[i][0] for i in ids], f'{what}: types {types.tolist()}')
    pos = 0
    for i in ids:
        c = cells[i][1]
        require(flat[pos] == len(c), f'{what}: {flat[pos]} points in a cell instead of {len(c)}')
        same_array(pts[c], points[flat[pos + 1:pos + 1 + len(c)]], f'{what}: points of cell {i}')
        pos += 1 + len(c)
    require(pos == len(flat), f'{what}: {len(flat)} values instead of {pos}')
    require(len(points) == len({n for i in ids for n in cells[i][1]}), f'{what}: {len(points)} points')
    ctx.nontrivial = len(ids) > 1
    ctx.label('types')


anymesh = st.one_of(meshgen.spec3d(maxcell=8), meshgen.spec2d(maxcell=8), meshgen.spec3d(maxcell=8), meshgen.spec3d(maxcell=8, orphan=True))
selection = st.tuples(
    st.sampled_from(['unique', 'unique', 'repeat', 'range', 'all']), st.lists(st.integers(0, 200), min_size=1, max_size=12),
    st.sampled_from(['list', 'array', 'i32', 'tuple']),
).map(list)
op = st.one_of(
    st.tuples(st.just('volumes'), st.just(0)).map(list),
    st.tuples(st.sampled_from(['read', 'set']), st.integers(0, 1)).map(list),
    st.tuples(st.sampled_from(['extract', 'extract', 'follow']), selection).map(list),
    st.tuples(st.sampled_from(['extract', 'extract', 'follow']), selection).map(list),
)
CASES = [
    Case('sequence', st.fixed_dictionaries({
        'g': st.lists(anymesh, min_size=1, max_size=2), 'dtype': st.sampled_from(['f8', 'f8', 'f4']),
        'ops': st.lists(op, min_size=1, max_size=6),
    }), check, quick=600, thorough=10000),
    Case('types', st.fixed_dictionaries({
        'cells': st.lists(st.tuples(st.integers(0, len(OTHER) - 1), st.integers(0, 3), st.sampled_from([False, False, True])).map(list), min_size=1, max_size=8),
        'seed': st.integers(0, 10**6), 'npt': st.sampled_from([10, 400, 70000]), 'kind': st.sampled_from(['unique', 'repeat', 'all']),
        'sel': st.lists(st.integers(0, 200), min_size=1, max_size=8),
    }), check_types, quick=60, thorough=600),
    Case('large', st.fixed_dictionaries({
        'g': meshgen.spec3d(maxcell=6), 'n': st.sampled_from([300, 40000, 70000]), 'seed': st.integers(0, 10**6),
        'sel': st.lists(st.integers(0, 200), min_size=1, max_size=5),
    }), check_large, quick=40, thorough=300),
    Case('big', st.fixed_dictionaries({
        'n': st.permutations([40, 41, 44]).map(list), 'less': st.integers(0, 3), 'seed': st.integers(0, 10**6),
    }), check_big, quick=2, thorough=16),
]

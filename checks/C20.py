"""convolution along z of extruded data"""
import random

import numpy as np
from hypothesis import strategies as st

from lib import meshgen, values, vtkgen
from lib.fw import Case, fail, require, same_array

PROPERTY = 'C20'
RULE = (
    'Random 2D meshes of triangles and quadrangles extruded over 2 to 9 planes of cells along z (or x, y with a function), cells of '
    'all planes shuffled, with scalar, vector and integer data, random options (modes, rms, phase, snapshot) and selections; each '
    'output cell is identified by its position and compared with statistics computed for its column by plain sums. Grids which are '
    'not extruded (uneven planes, moved, missing or repeated cells, one plane) must be refused. Non-trivial: shuffled cells of '
    'several columns and data, or a bad grid.'
)
TECHNIQUE = 'property-based testing (Hypothesis): per-column reference model, refusal of broken grids'
NOTE = 'base of up to 6 blocks, 2 to 9 planes'

AXES = {'z': [0, 1, 2], 'x': [1, 2, 0], 'y': [2, 0, 1]}  # positions of (u, v, w) in xyz


def extruded(spec):
    """(GMesh, columns: list of cells per column from the first plane, plane positions)"""
    base = meshgen.build(spec['g'])
    nz, dz, z0 = spec['nz'], spec['dz'], spec['z0']
    z = z0 + dz * np.arange(nz + 1)
    nn = base.nnode
    r = random.Random(spec['shuffle'])
    uvw = np.concatenate([np.column_stack([base.nodes[:, :2], np.full(nn, zk)]) for zk in z])
    if spec['jitter']:
        rng = np.random.Generator(np.random.PCG64(spec['shuffle']))
        uvw = uvw + rng.uniform(-1, 1, uvw.shape) * 1e-8
    axes = AXES[spec['axis']]
    nodes = np.empty_like(uvw)
    nodes[:, axes] = uvw
    cells = []
    for k in range(nz):
        for t, c in base.cells:
            cells.append(({'tri3': 'prism6', 'quad4': 'hexa8'}[t], [n + nn * k for n in c] + [n + nn * (k + 1) for n in c]))
    ncol = base.ncell
    order = list(range(len(cells)))
    if spec['shuffle']:
        r.shuffle(order)
    new = {old: i for i, old in enumerate(order)}
    cells = [cells[i] for i in order]
    perm = list(range(len(nodes)))
    if spec['shuffle'] % 2:
        r.shuffle(perm)
        nodes2 = np.empty_like(nodes)
        nodes2[perm] = nodes
        nodes, cells = nodes2, [(t, [perm[n] for n in c]) for t, c in cells]
    return meshgen.GMesh(nodes, cells, 3), [[new[j + ncol * k] for k in range(nz)] for j in range(ncol)]


def data_of(spec, n):
    out = {}
    for name, v in spec['vars'].items():
        shape = (n,) if v['n'] == 0 else (n, v['n'])
        a = values.array({'k': v['k'], 's': v['s']}, shape)
        if v['off'] and v['t'] != 'f4':  # small variations around a large value
            a = a + v['off']
        if v['t'] == 'u1':
            a = np.mod(np.rint(a), 256)
        a = a.astype(v['t'])
        if v['nan'] and v['t'] in ('f8', 'f4'):
            for x in v['nan']:
                a.reshape(-1)[x % a.size] = np.nan
        out[name] = a
    return out


def directives(spec):
    """expected results: name -> options"""
    glob = {k: spec[k] for k in ('rms', 'phase', 'snapshot', 'nmode')}
    if spec['select'] is None:
        return {n: dict(glob, avg=True) for n in spec['vars']}, None
    out, select, names = {}, {}, sorted(spec['vars'])
    for i, items in spec['select']:
        name = names[i % len(names)]
        opt = dict(glob, avg=True)
        lst = []
        for item in items:
            if item == 'no_avg':
                opt['avg'] = False
            elif isinstance(item, str):
                opt[item] = True
            else:
                opt.update(item)
                item = dict(item)
            lst.append(item)
        out[name] = opt
        select[name] = lst[0] if len(lst) == 1 and isinstance(lst[0], str) else lst
    return out, select


def expected(col, opt):
    """results of one column; col: values along z (nz, ...)"""
    n, out = len(col), {}
    x = [np.asarray(v, dtype=float) for v in col]
    mean = sum(x) / n
    if opt['avg']:
        out['_avg'] = mean
    if opt['rms']:
        out['_rms'] = np.sqrt(sum((v - mean) ** 2 for v in x) / n)
    for m in range(1, opt['nmode'] + 1):
        f = sum(v * np.exp(-2j * np.pi * m * k / n) for k, v in enumerate(x)) / np.sqrt(n)
        out[f'_k{m}'] = np.abs(f)
        if opt['phase']:
            out[f'_k{m}_phase'] = f
    return out


def convolve(v, spec, **kw):
    if spec['axis'] != 'z' or spec['func']:
        a = AXES[spec['axis']]
        kw['splitcoords'] = lambda x: (x[:, a[:2]], x[:, a[2]])
    return v.vtk_zconvolution(**kw)


def check(spec, ctx):
    from cfdtools.vtk import vtkMesh

    gm, columns = extruded(spec)
    nz, ncol = spec['nz'], len(columns)
    spec = dict(spec, nmode=min(spec['nmode'], nz - 1))
    spec['select'] = spec['select'] and [
        [i, [x if isinstance(x, str) or 'nmode' not in x else {'nmode': min(x['nmode'], nz - 1)} for x in items]]
        for i, items in spec['select']
    ] or None
    if not spec['vars']:
        spec['select'] = None
    data = data_of(spec, gm.ncell)
    g = vtkgen.grid(gm, 'f8', data)
    v = vtkMesh(pvmesh=g)
    want, select = directives(spec)
    given = repr(select)
    kw = {k: spec[k] for k in ('rms', 'phase', 'snapshot', 'nmode') if spec[k] or spec['dz'] > 1}
    if select is not None:
        kw['select'] = select
    for _ in range(2 if spec['twice'] else 1):
        out = convolve(v, spec, **kw)
        compare(out, spec, gm, columns, data, want)
    require(repr(select) == given, f'selection is changed to {select}')
    require(set(g.cell_data.keys()) == set(data), f'data of the source are now {g.cell_data.keys()}')
    for name, a in data.items():
        same_array(a, np.asarray(g.cell_data[name]), f'source {name}')
    require(vtkgen.cells_of_grid(g) == [(t, list(c)) for t, c in gm.cells], 'cells of the source')
    ctx.nontrivial = bool(spec['shuffle']) and ncol > 1 and bool(want)
    if any(np.isnan(a.astype(float)).any() for a in data.values()):
        ctx.label('NaN')
    ctx.label(f'nz{nz}', f'modes{spec["nmode"]}', 'select' if select else 'all', spec['axis'], *{str(x['n']) for x in spec['vars'].values()})


def compare(out, spec, gm, columns, data, want):
    nz = spec['nz']
    grid = out.pyvista_grid
    require(out.ncell == len(columns), f'{out.ncell} cells instead of {len(columns)}')
    require(len(grid.point_data.keys()) == 0, 'point data')
    index = {}
    for j, col in enumerate(columns):
        t, c = gm.cells[col[0]]
        index[(t, tuple(map(tuple, gm.nodes[c])))] = j
    pts = grid.points
    order = []
    for t, c in vtkgen.cells_of_grid(grid):
        key = (t, tuple(map(tuple, pts[c])))
        require(key in index, f'{key} is not a cell of the first plane')
        order.append(index[key])
    require(sorted(order) == list(range(len(columns))), 'cells of the first plane are not all there once')
    keys = set()
    for name, opt in want.items():
        a = data[name]
        cols = [expected([a[i] for i in columns[j]], opt) for j in order]
        mag = np.nan_to_num(a.astype(float))  # columns with a NaN have NaN results, others have the usual ones
        scale = max(float(np.abs(mag).max()), 1e-300) * np.sqrt(nz)
        tol = (1e-5 if a.dtype == np.float32 else 1e-11) * scale
        # variations and modes have the accuracy of the variations, up to rounding errors of the values
        var = max(float(np.abs(mag - mag.mean(axis=0)).max()), 1e-300) * np.sqrt(nz)
        tolv = min(tol, (1e-5 if a.dtype == np.float32 else 1e-11) * var + 1e-14 * scale)
        if opt['snapshot']:
            keys.add(name)
            got = np.asarray(grid.cell_data[name]) if name in grid.cell_data.keys() else fail(f'no snapshot of {name}')
            require(got.dtype == a.dtype, f'snapshot of {name} is {got.dtype}')
            same_array(a[[columns[j][0] for j in order]], got, f'snapshot of {name}')
        for suffix in cols[0]:
            keys.add(name + suffix)
            require(name + suffix in grid.cell_data.keys(), lambda: f'{name + suffix} is missing in {grid.cell_data.keys()}')
            got = np.asarray(grid.cell_data[name + suffix])
            exp = np.array([c[suffix] for c in cols])
            require(got.shape == exp.shape, f'{name + suffix} has shape {got.shape} instead of {exp.shape}')
            nan = np.isnan(exp)
            require(np.array_equal(np.isnan(got), nan), lambda: f'{name + suffix}: {got.tolist()} instead of {exp.tolist()}')
            got, exp = np.where(nan, 0.0, got), np.where(nan, 0.0, exp)
            tols = tolv if suffix == '_rms' and a.dtype != np.float32 else tol
            if suffix.endswith('_phase'):
                mod = np.abs(exp)
                err = np.abs(mod * np.exp(1j * got.astype(float)) - exp)
                err = np.where(mod > 1e3 * tol, err, 0.0)
            else:
                err = np.abs(got.astype(float) - exp)
            require(
                float(err.max()) <= tols * 10,
                lambda: f'{name + suffix}: {got.tolist()} instead of {exp.tolist()}',
            )
    require(set(grid.cell_data.keys()) == keys, lambda: f'results {sorted(grid.cell_data.keys())} instead of {sorted(keys)}')


def check_bad(spec, ctx):
    from cfdtools.vtk import vtkMesh

    gm, columns = extruded(spec)
    nz = spec['nz']
    k = 1 + spec['k'] % (nz - 1)  # a plane which is not the first
    col = columns[spec['k'] % len(columns)]
    axes = AXES[spec['axis']]
    bad, cells, nodes = spec['bad'], [(t, list(c)) for t, c in gm.cells], gm.nodes.copy()
    kw = {}

    def own(cell):  # give a cell its own nodes
        nonlocal nodes
        t, c = cells[cell]
        first = len(nodes)
        nodes = np.concatenate([nodes, nodes[c]])
        cells[cell] = (t, list(range(first, first + len(c))))
        return cells[cell][1]

    w = nodes[:, axes[2]]
    if bad == 'uneven':
        if nz < 3:
            return
        k = 1 + spec['k'] % nz
        nodes[np.abs(w - (spec['z0'] + spec['dz'] * k)) < 0.1 * spec['dz'], axes[2]] += 0.3 * spec['dz']
    elif bad == 'moved':
        mine = own(col[k])
        nodes[mine, axes[spec['k'] % 2]] += 0.01
    elif bad == 'missing':
        if len(columns) == 1:
            return  # one plane less: uneven planes or an extruded grid
        del cells[col[k]]
    elif bad == 'repeated':
        if len(columns) == 1:
            return
        other = columns[(spec['k'] + 1) % len(columns)]
        cells[col[k]] = (cells[other[k]][0], list(cells[other[k]][1]))
    elif bad == 'plane':
        keep = [c[k] for c in columns]
        cells = [cells[i] for i in keep]
    elif bad == 'name':
        kw = {'select': {'absent': 'rms'}}
    g = vtkgen.grid(meshgen.GMesh(nodes, cells, 3), 'f8', {'a': np.arange(len(cells), dtype=float)})
    try:
        convolve(vtkMesh(pvmesh=g), spec, **kw)
    except ValueError:
        pass
    else:
        fail(f'{bad}: the grid is accepted')
    ctx.nontrivial = True
    ctx.label(bad)


seed = st.one_of(st.just(0), st.integers(1, 10**6), st.integers(1, 10**6))
var = st.fixed_dictionaries({
    'n': st.sampled_from([0, 0, 2, 3]), 'k': st.sampled_from(['uni', 'int', 'idx']), 't': st.sampled_from(['f8', 'f8', 'f8', 'f4', 'i8', 'i4', 'u1']),
    's': st.integers(0, 1000), 'off': st.sampled_from([0, 0, 10**6, -10**9]),
    'nan': st.one_of(st.just([]), st.just([]), st.just([]), st.lists(st.integers(0, 500), min_size=1, max_size=3)),
})
varname = vtkgen.varname.filter(lambda s: '_' not in s)
item = st.one_of(
    st.sampled_from(['avg', 'rms', 'snapshot', 'phase', 'no_avg']),
    st.fixed_dictionaries({'nmode': st.integers(0, 4)}),
    st.fixed_dictionaries({}, optional={'rms': st.booleans(), 'phase': st.booleans(), 'snapshot': st.booleans(), 'avg': st.booleans()}),
)
base = {
    'g': meshgen.unsized(meshgen.spec2d(maxcell=6)), 'nz': st.integers(2, 9), 'dz': st.sampled_from([1.0, 0.1, 0.05, 3.7, 2.0**-9]),
    'z0': st.sampled_from([0.0, -0.3, 5.0, 64.0, -1000.0]), 'shuffle': seed, 'axis': st.sampled_from(['z', 'z', 'x', 'y']), 'func': st.booleans(),
    'jitter': st.booleans(),
}
CASES = [
    Case('columns', st.fixed_dictionaries(dict(
        base, vars=st.dictionaries(varname, var, min_size=0, max_size=3), nmode=st.integers(0, 4), rms=st.booleans(),
        phase=st.booleans(), snapshot=st.booleans(), twice=st.sampled_from([False, False, True]),
        select=st.one_of(st.none(), st.lists(st.tuples(st.integers(0, 2), st.lists(item, max_size=3)).map(list), min_size=1, max_size=3)),
    )), check, quick=2500, thorough=30000),
    Case('bad', st.fixed_dictionaries(dict(
        base, bad=st.sampled_from(['uneven', 'moved', 'missing', 'repeated', 'plane', 'name']), k=st.integers(0, 10**6),
    )), check_bad, quick=800, thorough=8000),
]

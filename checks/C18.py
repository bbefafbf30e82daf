"""packing of series of VTK files"""
import numpy as np
from hypothesis import strategies as st

from lib import h5series, meshgen, vtkgen
from lib.fw import Case, fail, require, same_array

PROPERTY = 'C18'
RULE = (
    'Series of 1 to 4 VTU or binary legacy VTK files of the same grid (2D or 3D, all types, interleaved or not, 32 or 64 bit points), nodes and cells of each '
    'file numbered at random, with per file values of 0 to 3 variables (names with any characters; 0, 2, 3 or 9 components; reals, integers), times or '
    'none, filters; packed data are identified by exact positions of nodes. Bad series (moved node, missing, repeated or other '
    'cells) must be refused, a moved grid exactly when it is moved by more than the given tolerance. Non-trivial: at least 2 files with different numbering and a variable, or a bad series.'
)
TECHNIQUE = 'property-based and metamorphic testing (Hypothesis): random permutations of files, oracle by positions'
NOTE = 'grids up to 8 blocks, up to 4 files; a few series of up to 25 files and large meshes (sizes over 16 bits)'


def write_files(gm, spec, ctx):
    """returns (file names, expected list of (time, {name: values by gm cell}))"""
    names, expected = [], []
    ext = spec.get('ext', '.vtu')
    spec['vars'] = vtkgen.fit(spec['vars'], ext)
    for i, f in enumerate(spec['files']):
        p, corder, _ = vtkgen.permuted(gm, f['perm'])
        data = {k: vtkgen.values_of(v, gm.ncell, 0 if f['same'] else i + 1) for k, v in spec['vars'].items()}
        if f.get('comp') is not None:  # another number of components in this file
            for k in sorted(data)[:1]:
                data[k] = vtkgen.values_of(dict(spec['vars'][k], n=f['comp']), gm.ncell, i + 1)
        if f['extra']:
            data['extra'] = np.arange(gm.ncell) * 2.0 + i
        g = vtkgen.grid(p, spec['dtype'], {k: v[corder] for k, v in data.items()})
        g.point_data['nodal'] = np.arange(gm.nnode, dtype=float)
        if f['time'] is not None:
            g.field_data['TimeValue'] = [f['time']]
        g.field_data['other'] = [3.5]
        fn = ctx.path(f'{f["name"]}_{i}{ext}')
        g.save(fn)
        names.append(fn)
        expected.append((f['time'], data))
    return names, expected


def build(spec):
    gm = meshgen.build(spec['g'])
    if spec['dtype'] == 'f4':
        gm.nodes = gm.nodes.astype('f4').astype(float)
    return gm


def check_series(fn, gm, expected, keep, what):
    attrs, (nodes, _, cells), data = h5series.series(fn)
    require(attrs['cfd_datatype'] == 'datalist', f'{what}: type {attrs}')
    order = h5series.match(gm, nodes, cells, what)
    require(len(data) == len(expected), f'{what}: {len(data)} steps instead of {len(expected)}')
    for i, ((at, got), (time, want)) in enumerate(zip(data, expected)):
        names = set(want) if keep is None else set(keep)
        require(set(got) == names, f'{what}: step {i} has {sorted(got)} instead of {sorted(names)}')
        for k in names:
            require(got[k].dtype == want[k].dtype, f'{what}: step {i} {k} is {got[k].dtype}')
            same_array(want[k][order], got[k], f'{what}: step {i} variable {k}')
        if time is None:
            require('time' not in at, f'{what}: step {i} has time {at}')
        else:
            require(np.asarray(at['time']).ravel().tolist() == [time], f'{what}: step {i} has time {at}')
    return order


def check(spec, ctx):
    from cfdtools.vtk import vtkList

    gm = build(spec)
    names, expected = write_files(gm, spec, ctx)
    if spec['again']:  # same file several times, in any order
        names, expected = names + names[:1], expected + expected[:1]
    keep = sorted(spec['vars'])[: spec['filter']] if spec['filter'] and spec['vars'] else None
    v = vtkList(list(names), verbose=spec['verbose'])
    require(v.nfile == len(names) and v.allexist() is True, 'files')
    require(vtkList(list(names) + [ctx.path('absent.vtu')]).allexist() is False, 'a missing file is not found')
    v.read(filterdata=keep)
    if spec['twice']:
        v.read(filterdata=keep)
    out = ctx.path('pack.h5')
    require(v.dumphdf(out) == out, 'name of dump')
    check_series(out, gm, expected, keep, 'pack')
    perms = {f['perm'] for f in spec['files']}
    same = len({str(vtkgen.permuted(gm, p)[1]) for p in perms}) == 1
    if gm.ncell > 1:
        require(v.check_order() == same, f'check_order is {v.check_order()} for cell orders the same: {same}')
    ctx.nontrivial = not same and bool(spec['vars'])
    ctx.label('+'.join(gm.types()), f'files{len(names)}', 'same order' if same else 'other order', 'filter' if keep else 'all')


def check_bad(spec, ctx):
    import pyvista as pv

    from cfdtools.vtk import vtkList

    gm = build(spec)
    names, expected = write_files(gm, spec, ctx)
    g = pv.read(names[0])
    kind = spec['bad']
    m, _, _ = vtkgen.permuted(gm, spec['perm'])
    cells = [(t, list(c)) for t, c in m.cells]
    nodes = m.nodes.copy()
    k = spec['perm'] % len(cells)
    if kind == 'moved':
        nodes[cells[k][1][0]] += 0.01
    elif kind == 'shift':
        nodes += 0.5
    elif kind == 'scaled':
        nodes *= 1.01
    elif kind == 'missing':
        del cells[k]
    elif kind == 'repeated':  # a cell is there twice, another one is not
        cells[k] = cells[(k + 1) % len(cells)]
    elif kind == 'more':
        cells.append(cells[k])
    elif kind == 'one':
        cells = cells[k:k + 1]
    keep = None
    if kind == 'variable':  # a requested variable is missing
        keep = ['asked']
        for i, fn in enumerate(names):
            full = pv.read(fn)
            full.cell_data['asked'] = np.arange(gm.ncell) * 1.5
            full.save(fn)
    if len(m.cells) < 2 or not cells:
        return
    b = vtkgen.grid(meshgen.GMesh(nodes, cells, gm.dim), spec['dtype'])
    for name in g.cell_data.keys():
        b.cell_data[name] = np.resize(np.asarray(g.cell_data[name]), (len(cells),) + g.cell_data[name].shape[1:])
    fn = ctx.path('bad.vtu')
    b.save(fn)
    lst = list(names)
    lst.insert(1 + spec['perm'] % len(lst), fn)
    v = vtkList(lst)
    try:
        v.read(filterdata=keep)
    except ValueError:
        pass
    except KeyError:
        require(keep is not None, f'a grid with {kind} cells: KeyError')
    else:
        fail(f'a grid with {kind} cells is accepted')
    ctx.nontrivial = True
    ctx.label(kind)


def check_tol(spec, ctx):
    """a file moved by a vector is the same grid exactly when its length is under the tolerance"""
    from cfdtools.vtk import vtkList

    gm = meshgen.build(spec['g'])
    ctr = np.array([gm.nodes[c].mean(axis=0) for _, c in gm.cells])
    near = min([np.linalg.norm(ctr[i + 1:] - c, axis=1).min() for i, c in enumerate(ctr[:-1])], default=1.0)
    tol = near * spec['rel']
    if tol < 1e-9 * (1 + np.abs(gm.nodes).max()):
        return
    d = tol * spec['f']
    u = np.array(spec['u'], float)
    p, corder, norder = vtkgen.permuted(gm, spec['perm'])
    data = np.arange(gm.ncell) * 1.5
    fn = [ctx.path(f'{i}.vtu') for i in range(2)]
    vtkgen.grid(gm, 'f8', {'a': data}).save(fn[0])
    vtkgen.grid(meshgen.GMesh(p.nodes + d * u / np.linalg.norm(u), p.cells, gm.dim), 'f8', {'a': data[corder]}).save(fn[1])
    v = vtkList(fn)
    opt = {'tol': tol} if spec['opt'] else {'tol': tol, 'tolverbose': tol * 10}
    same = d < tol
    try:
        v.read(**opt)
    except ValueError:
        require(not same, f'a grid moved by {spec["f"]} of the tolerance is refused')
    else:
        require(same, f'a grid moved by {spec["f"]} of the tolerance is accepted')
        out = ctx.path('pack.h5')
        v.dumphdf(out)
        check_series(out, gm, [(None, {'a': data})] * 2, None, 'pack')
    for pos, order in (('cellcenter', corder), ('node', norder)):
        if order == sorted(order):
            require(v.check_order(pos=pos, tol=tol) == same, f'check_order of {pos}: moved by {spec["f"]} of the tolerance')
        elif len(order) > 1:
            require(v.check_order(pos=pos, tol=tol) is False, f'check_order of {pos}: other order is accepted')
    ctx.nontrivial = True
    ctx.label('under' if same else 'over')


anymesh = meshgen.unsized(st.one_of(meshgen.spec2d(maxcell=8), meshgen.spec3d(maxcell=8), meshgen.spec3d(maxcell=8)))
seed = st.one_of(st.just(0), st.integers(1, 10**6), st.integers(1, 10**6))
file = st.fixed_dictionaries({
    'perm': seed, 'same': st.sampled_from([False, False, False, True]), 'extra': st.sampled_from([False, False, True]),
    'time': st.sampled_from([None, 0.0, 0.5, 1.25, -3.0, 1e-9, 1 / 3, 1.5e-10, 123456.789012345, 1e20]), 'name': st.sampled_from(['a', 'b', 'flow 1', 'x.y']),
    'comp': st.sampled_from([None, None, None, 0, 2, 3]),
})
base = {
    'g': anymesh, 'files': st.lists(file, min_size=1, max_size=4), 'vars': vtkgen.variables,
    'dtype': st.sampled_from(['f8', 'f4']), 'ext': st.sampled_from(['.vtu', '.vtu', '.vtk']),
}
fewcells = meshgen.unsized(st.one_of(meshgen.spec2d(maxcell=3), meshgen.spec3d(maxcell=2)))
bigmesh = st.one_of(meshgen.big3d(), meshgen.big2d())
CASES = [
    Case('pack', st.fixed_dictionaries(dict(
        base, filter=st.sampled_from([0, 0, 1, 2]), again=st.sampled_from([False, False, True]), verbose=st.booleans(),
        twice=st.sampled_from([False, False, True]),
    )), check, quick=800, thorough=8000),
    Case('big', st.fixed_dictionaries(dict(
        base, g=bigmesh, files=st.lists(file, min_size=2, max_size=2), filter=st.just(0), again=st.just(False), verbose=st.just(False),
        twice=st.just(False), dtype=st.just('f8'),
    )), check, quick=4, thorough=40),
    Case('mid', st.fixed_dictionaries(dict(
        base, g=meshgen.mid(), files=st.lists(file, min_size=2, max_size=3), filter=st.just(0), again=st.just(False), verbose=st.just(False),
        twice=st.just(False), dtype=st.just('f8'),
    )), check, quick=80, thorough=800),
    Case('many', st.fixed_dictionaries(dict(
        base, g=fewcells, files=st.lists(file, min_size=9, max_size=25), filter=st.sampled_from([0, 1]), again=st.booleans(),
        verbose=st.just(False), twice=st.just(False),
    )), check, quick=60, thorough=600),
    Case('bad', st.fixed_dictionaries(dict(
        base, bad=st.sampled_from(['moved', 'shift', 'scaled', 'missing', 'repeated', 'more', 'one', 'variable']), perm=st.integers(1, 10**6),
    )), check_bad, quick=200, thorough=3000),
    Case('tol', st.fixed_dictionaries({
        'g': anymesh, 'perm': seed, 'rel': st.sampled_from([1e-7, 1e-4, 0.01]), 'f': st.sampled_from([0.0, 0.5, 0.7, 0.95, 1.05, 1.3, 1.7, 5.0]),
        'u': st.tuples(*[st.sampled_from([1.0, -1.0, 1.0, 0.5, 0.0])] * 3).map(list).filter(any), 'opt': st.booleans(),
    }), check_tol, quick=150, thorough=3000),
]

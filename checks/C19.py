"""HDF5 dumps and XDMF"""
import os
import random
import xml.etree.ElementTree as ET

import h5py
import numpy as np
import pyvista as pv
from hypothesis import strategies as st

from checks.C18 import build, fewcells, check_series, write_files, file
from lib import cfdmesh, h5series, meshgen, vtkgen
from lib.fw import Case, require, same_array

PROPERTY = 'C19'
RULE = (
    'mesh: grids of all types are dumped with vtkMesh (options of compression, overwriting), decoded with h5py and imported. '
    'series: series of VTK files packed by vtkList with XDMF, decoded, imported, every DataItem of the XDMF looked up in the dump: '
    'existence, size, topology, attribute type and centre (names of variables and files with any characters); read: XDMF files of grids of one type read by the XDMF reader of VTK give the cells and data of each step. list: data lists filled directly with a mesh. '
    'Non-trivial: at least 2 cell types, or 2 steps and a variable.'
)
TECHNIQUE = 'property-based testing (Hypothesis): round trip, independent decoding with h5py, an XML parser and the XDMF reader of VTK'
NOTE = 'grids up to 8 blocks, up to 4 steps, a few series of up to 30; a few large meshes (sizes over 16 bits)'

TOPO = {'tri3': 'Triangle', 'quad4': 'Quadrilateral', 'hexa8': 'Hexahedron', 'tetra4': 'Tetrahedron', 'pyra5': 'Pyramid', 'prism6': 'Wedge'}


def sorted_mesh(cells):
    """cells in the order of a dump"""
    return sorted(cells, key=lambda c: vtkgen.VTK[c[0]])


def imported(fn, what):
    """(nodes, cells) of the mesh imported by the library"""
    from cfdtools.hdf5 import h5File
    from cfdtools.vtk import vtkMesh

    h = h5File(fn)
    h.open()
    v = vtkMesh()
    v.importhdfgroup(h['mesh'])
    h.close()
    g = v.pyvista_grid
    require((v.ncell, v.nnode) == (g.n_cells, g.n_points), f'{what}: sizes')
    return np.array(g.points), vtkgen.cells_of_grid(g)


def check_mesh(spec, ctx):
    from cfdtools.vtk import vtkMesh

    gm = build(spec)
    if spec['skin'] and gm.dim == 3:  # boundary faces are cells too
        skin = [({3: 'tri3', 4: 'quad4'}[len(f)], f) for _, f in gm.boundary().values()]
        random.Random(spec['skin']).shuffle(skin)
        skin = skin[:1 + spec['skin'] % len(skin)]
        k = spec['skin'] % (gm.ncell + 1)
        gm = meshgen.GMesh(gm.nodes, gm.cells[:k] + skin + gm.cells[k:], 3)
    g = vtkgen.grid(gm, spec['dtype'])
    v = vtkMesh(pvmesh=g)
    fn = ctx.path('mesh.h5')
    opts = {'compression': 'gzip'} if spec['gzip'] else {}
    if spec['existing']:
        with open(fn, 'wb') as f:
            f.write(b'something')
    out = v.dumphdf(fn, overwrite=spec['overwrite'], **opts)
    if spec['existing'] and not spec['overwrite']:
        require(out != fn and open(fn, 'rb').read() == b'something', f'{out}: existing file is overwritten')
    else:
        require(out == fn, f'name {out}')
    want = sorted_mesh([(t, list(c)) for t, c in gm.cells])
    with h5py.File(out, 'r') as f:
        require(f.attrs['cfd_datatype'] == 'dataset', f'type {dict(f.attrs)}')
        require(f['mesh'].attrs['meshtype'] == 'unsmesh', 'meshtype')
        nodes, _, cells = h5series.read_mesh(f['mesh'])
        same_array(gm.nodes, nodes, 'nodes')
        require(nodes.dtype == np.dtype(spec['dtype']), f'nodes are {nodes.dtype}')
        require(cells == want, f'cells {cells} instead of {want}')
        if spec['gzip']:
            require(f['mesh/nodes'].compression == 'gzip', 'options are not applied')
    pts, got = imported(out, 'imported')
    same_array(gm.nodes, pts, 'imported nodes')
    require(got == want, f'imported cells {got} instead of {want}')
    require(vtkgen.cells_of_grid(g) == [(t, list(c)) for t, c in gm.cells], 'grid is modified')
    ctx.nontrivial = len(gm.types()) > 1
    ctx.label('+'.join(gm.types()), 'existing' if spec['existing'] else 'new')


def check_xdmf(xmf, fn, steps, what):
    """steps: list of {name: shape}"""
    root = ET.parse(xmf).getroot()
    require(root.tag == 'Xdmf' and [c.tag for c in root] == ['Domain'], 'root')
    top = root[0]
    require([c.tag for c in top] == ['Grid'], 'collection')
    require(top[0].get('GridType') == 'Collection' and top[0].get('CollectionType') == 'Temporal', 'collection')
    grids = list(top[0])
    require(len(grids) == len(steps), f'{what}: {len(grids)} grids instead of {len(steps)}')
    with h5py.File(fn, 'r') as f:

        def item(el):
            (it,) = list(el)
            require(it.tag == 'DataItem' and it.get('Format') == 'HDF', f'{what}: item of {el.tag}')
            name, path = it.text.strip().rsplit(':/', 1)
            path = '/' + path
            # relative to the folder of the XDMF file
            require(os.path.realpath(os.path.join(os.path.dirname(xmf), name)) == os.path.realpath(fn), f'{what}: file {name} instead of {fn}')
            require(path in f, f'{what}: {path} is not in the dump')
            dims = [int(x) for x in it.get('Dimensions').split()]
            require(int(np.prod(dims)) == f[path].size, f'{what}: dimensions {dims} of {path} {f[path].shape}')
            return path, dims

        times = []
        for i, (g, step) in enumerate(zip(grids, steps)):
            (time,) = g.findall('Time')
            times.append(float(time.get('Value')))
            (geo,) = g.findall('Geometry')
            require(geo.get('GeometryType') == 'XYZ' and item(geo)[0] == '/mesh/nodes', f'{what}: geometry')
            topo = {}
            for t in g.findall('Topology'):
                path, _ = item(t)
                etype = path.split('/')[-1]
                require(path == f'/mesh/cells/{etype}' and etype not in topo, f'{what}: topology {path}')
                topo[etype] = (t.get('TopologyType'), int(t.get('NumberOfElements')))
            want = {t: (TOPO[t], len(d)) for t, d in f['mesh/cells'].items()}
            require(topo == want, f'{what}: topologies {topo} instead of {want}')
            require(list(topo) == sorted(topo, key=vtkgen.VTK.get), f'{what}: order of topologies {list(topo)}')
            att = {}
            for a in g.findall('Attribute'):
                path, dims = item(a)
                name = a.get('Name')
                require(path == f'/datalist/i{i:06d}/{name}', f'{what}: step {i}: {path} for {name}')
                require(tuple(dims) == f[path].shape, f'{what}: dimensions {dims} of {path} {f[path].shape}')
                require(a.get('Center') == 'Cell', f'{what}: centre of {name}')
                require(a.get('AttributeType') == ('Scalar' if len(dims) == 1 else 'Vector'), f'{what}: type of {name}')
                require(name not in att, f'{what}: {name} twice')
                att[name] = tuple(dims)
            require(att == step, f'{what}: step {i}: attributes {att} instead of {step}')
        require(times == sorted(set(times)), f'{what}: times {times}')


def check_pack(spec, ctx):
    from cfdtools.vtk import vtkList

    gm = build(spec)
    names, expected = write_files(gm, spec, ctx)
    v = vtkList(names)
    v.read()
    os.mkdir(ctx.path('out'))
    os.chdir(ctx.dir)
    fn = {'abs': ctx.path('out/pack.h5'), 'rel': 'out/pack.h5', 'cwd': 'pack.v1.h5', 'special': 'out/a&b <1>.h5'}[spec['where']]
    opts = {'compression': 'gzip'} if spec['gzip'] else {}
    out = v.dumphdf(fn, xdmf=True, **opts)
    if spec['again']:
        first = open(out, 'rb').read()
        out2 = v.dumphdf(fn, xdmf=True, **opts)
        require(out2 != out, 'second dump overwrites')
        require(open(out, 'rb').read() == first, 'second dump changes the first one')
        check_series(out, gm, expected, None, 'first pack')
        out = out2
    order = check_series(out, gm, expected, None, 'pack')
    pts, cells = imported(out, 'imported')
    require(h5series.match(gm, pts, cells, 'imported') == order, 'cells are not imported in the order of data')
    check_xdmf(os.path.splitext(out)[0] + '.xmf', out, [{k: d.shape for k, d in w.items()} for _, w in expected], 'xdmf')
    ctx.nontrivial = len(gm.types()) > 1 or (len(expected) > 1 and bool(spec['vars']))
    ctx.label('+'.join(gm.types()), f'files{len(names)}', spec['where'])


def check_read(spec, ctx):
    """the XDMF file is read by VTK: cells and data of each step (in single precision)"""
    from vtkmodules.vtkIOXdmf2 import vtkXdmfReader
    from cfdtools.vtk import vtkList

    gm = build(spec)
    if not spec.get('all'):  # cells of one type
        types = gm.types()
        keep = types[spec['type'] % len(types)]
        gm = meshgen.GMesh(gm.nodes, [c for c in gm.cells if c[0] == keep], gm.dim)
    # the reader of VTK does not take any name
    spec['vars'] = {k if k.isalnum() and k.isascii() else f'v_{i}': w for i, (k, w) in enumerate(spec['vars'].items())}
    names, expected = write_files(gm, spec, ctx)
    v = vtkList(names)
    v.read()
    os.mkdir(ctx.path('out'))
    os.chdir(ctx.dir)
    fn = {'abs': ctx.path('out/pack.h5'), 'rel': 'out/pack.h5', 'cwd': 'pack.v1.h5', 'special': 'out/a&b.h5'}[spec['where']]
    out = v.dumphdf(fn, xdmf=True)
    os.chdir('/')
    out = os.path.join(ctx.dir, out)
    pts, cells = imported(out, 'imported')
    order = h5series.match(gm, pts, cells, 'imported')
    names = {k for _, w in expected for k in w}  # arrays of other steps may be there
    r = vtkXdmfReader()
    r.SetFileName(os.path.splitext(out)[0] + '.xmf')
    r.UpdateInformation()
    for i, (_, want) in reversed(list(enumerate(expected))):
        r.UpdateTimeStep(float(i))
        o = r.GetOutputDataObject(0)
        require(o is not None and o.IsA('vtkUnstructuredGrid'), f'step {i}: nothing is read')
        require(o.GetNumberOfCells() == gm.ncell, f'step {i}: {o.GetNumberOfCells()} cells instead of {gm.ncell}')
        g = pv.wrap(o)
        same_array(pts.astype('f4'), np.asarray(g.points), f'step {i}: points')
        require(vtkgen.cells_of_grid(g) == cells, f'step {i}: cells {vtkgen.cells_of_grid(g)} instead of {cells}')
        require(set(want) <= set(g.cell_data.keys()) <= names, f'step {i}: data {g.cell_data.keys()} instead of {sorted(want)}')
        for k, w in want.items():
            got = np.asarray(g.cell_data[k])
            w = np.asarray(w)[order].astype('f4')
            if w.ndim == 2 and w.shape[1] == 2:  # vectors of VTK have 3 components
                w = np.column_stack((w, np.zeros(len(w), 'f4')))
            same_array(w.reshape(got.shape), got, f'step {i}: {k}')
    ctx.nontrivial = len(expected) > 1 and bool(spec['vars'])
    ctx.label(*gm.types())


def check_list(spec, ctx):
    """lists filled without VTK files"""
    import cfdtools.data as _data

    gm = build(spec)
    mesh, order = cfdmesh.to_mesh(gm, spec['o'], auto=True)
    ds = _data.DataSetList(len(spec['steps']), Xrep='cellaverage', Trep=spec['trep'])
    ds.set_mesh(mesh)
    steps = []
    given = {k: vtkgen.values_of(v, gm.ncell, 0) for k, v in spec['vars'].items()}
    for i, time in enumerate(spec['steps']):
        if not spec['shared']:  # else the same dictionary is given at each step
            given = {k: vtkgen.values_of(v, gm.ncell, i) for k, v in spec['vars'].items()}
        steps.append((time, dict(given)))
        ds.add_datalist(given, time=time)
        require(list(given) == list(steps[-1][1]), f'the given dictionary becomes {list(given)}')
    fn = ctx.path('list.h5')
    require(ds.dumphdf(fn) == fn, 'name')
    attrs, (nodes, cells, _), got = h5series.series(fn)
    require(attrs['cfd_datatype'] == 'datalist', 'type')
    same_array(gm.nodes, nodes, 'nodes')
    want = {t: d['elem2node'].tolist() for t, d in mesh._cell2node.items()}
    require(cells == want, f'cells {cells} instead of {want}')
    require(len(got) == len(steps), f'{len(got)} steps')
    for (at, g), (time, w) in zip(got, steps):
        require(set(g) == set(w), f'variables {set(g)}')
        for k in w:
            same_array(w[k], g[k], k)
            require(g[k].dtype == w[k].dtype, f'{k} is {g[k].dtype}')
        require(('time' in at) == (time is not None) and (time is None or float(at['time']) == time), f'time {at} instead of {time}')
    content = ds.xdmf_content(fn, ['<Geometry GeometryType="XYZ"/>'])
    root = ET.fromstring('\n'.join(content))
    require(len(root.findall('Grid')) == len(steps), 'grids')
    for g, (_, w) in zip(root.findall('Grid'), steps):
        require([a.get('Name') for a in g.findall('Attribute')] == list(w), 'attributes')
        require(len(g.findall('Geometry')) == 1, 'geometry')
    ctx.nontrivial = len(gm.types()) > 1 or (len(steps) > 1 and bool(spec['vars']))


anymesh = meshgen.unsized(st.one_of(meshgen.spec2d(maxcell=6), meshgen.spec3d(maxcell=6), meshgen.spec3d(maxcell=6)))
dtype = st.sampled_from(['f8', 'f4'])
bigmesh = st.one_of(meshgen.big3d(), meshgen.big2d())
CASES = [
    Case('mesh', st.fixed_dictionaries({
        'g': anymesh, 'dtype': dtype, 'gzip': st.booleans(), 'existing': st.booleans(), 'overwrite': st.booleans(),
        'skin': st.one_of(st.just(0), st.integers(1, 10**6)),
    }), check_mesh, quick=400, thorough=5000),
    Case('big', st.fixed_dictionaries({
        'g': bigmesh, 'dtype': st.just('f8'), 'gzip': st.booleans(), 'existing': st.just(False), 'overwrite': st.just(False),
        'skin': st.sampled_from([0, 5]),
    }), check_mesh, quick=4, thorough=40),
    Case('pack', st.fixed_dictionaries({
        'g': anymesh, 'dtype': dtype, 'gzip': st.booleans(), 'files': st.lists(file, min_size=1, max_size=4),
        'vars': vtkgen.variables, 'where': st.sampled_from(['abs', 'rel', 'cwd', 'special']), 'again': st.booleans(),
        'ext': st.sampled_from(['.vtu', '.vtk', '.vtk']),
    }), check_pack, quick=400, thorough=6000),
    Case('many', st.fixed_dictionaries({
        'g': fewcells, 'dtype': dtype, 'gzip': st.booleans(), 'files': st.lists(file, min_size=9, max_size=25),
        'vars': vtkgen.variables, 'where': st.just('abs'), 'again': st.just(False), 'ext': st.just('.vtu'),
    }), check_pack, quick=50, thorough=500),
    Case('read', st.fixed_dictionaries({
        'g': anymesh, 'dtype': dtype, 'type': st.integers(0, 3), 'files': st.lists(file, min_size=1, max_size=4),
        'vars': vtkgen.variables, 'where': st.sampled_from(['abs', 'rel', 'cwd', 'special']), 'ext': st.just('.vtu'),
    }), check_read, quick=120, thorough=3000),
    Case('read-mixed', st.just({  # known finding: XDMF readers see the first topology of a grid only
        'g': {'dim': 2, 'n': [1, 2], 'kind': [0, 1], 'hole': [], 'nperm': 0, 'cperm': 0, 'rot': 0, 'geo': {'seed': 0, 'pert': 0, 'z': 0.0}},
        'dtype': 'f8', 'all': True, 'vars': {}, 'where': 'abs', 'ext': '.vtu',
        'files': [{'perm': 0, 'same': False, 'extra': False, 'time': None, 'name': 'a', 'comp': None}],
    }), check_read, quick=1, thorough=1),
    Case('list', st.fixed_dictionaries({
        'g': anymesh, 'dtype': dtype, 'o': st.integers(0, 1000), 'vars': vtkgen.variables, 'trep': st.sampled_from(['instant', 'timeevol']),
        'shared': st.booleans(),
        'steps': st.one_of(*[st.lists(st.sampled_from([None, 0.0, 1.0, 2.5]), max_size=k) for k in (4, 4, 30)]),
    }), check_list, quick=300, thorough=4000),
]

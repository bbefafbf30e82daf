"""extrusion of 2D meshes"""
import numpy as np
from hypothesis import strategies as st

from checks.C09 import decode_v4
from lib import cfdmesh, ic3fmt, meshgen
from lib.fw import Case, require

PROPERTY = 'C10'
RULE = (
    'Conforming 2D meshes of triangles and quadrangles (random shapes, holes, numbering, groups, marks and kinds of marks, '
    'coordinates as lists, arrays, integers or (n,3) arrays) extruded over 2 to 6 strictly increasing positions along a direction '
    'with positive z, compared with the mesh of layers built by the checker: nodes, cells (any local numbering of the same '
    'oriented element), volumes, faces, node marks, and the zones of its export to V2, V3 or V4. '
    'Non-trivial: at least 2 cells and 2 layers, or both cell types, or a mark.'
)
TECHNIQUE = 'property-based testing (Hypothesis): reference model of the extruded mesh, volumes, decoded export'
NOTE = 'random 2D meshes up to 16 blocks, up to 5 layers; a few large meshes (sizes over 16 bits)'

EXTRUDED = {'tri3': 'prism6', 'quad4': 'hexa8'}


def match(points, got, what):
    """index in points of each row of got; must be a bijection"""
    require(got.shape == points.shape, f'{what}: shape {got.shape} instead of {points.shape}')
    tol = 1e-12 * np.abs(points).max()
    if len(points) > 2000:
        from scipy.spatial import cKDTree

        near, ind = cKDTree(points).query(got, p=np.inf)
    else:
        d = np.abs(got[:, None, :] - points[None, :, :]).max(axis=2)
        ind = d.argmin(axis=1)
        near = d[np.arange(len(got)), ind]
    require(near.max() <= tol, f'{what}: a node is not at any expected position')
    if len({tuple(p) for p in (points + 0.0).tolist()}) < len(points):  # nodes at the same position: kept in their order
        require(np.abs(got - points).max() <= tol, f'{what}: nodes are not in the order of the planes')
        return np.arange(len(points))
    require(len(set(ind.tolist())) == len(points), f'{what}: two nodes at the same position')
    return ind


def extruded(gm, pos, direction):
    """expected mesh: plane major nodes, layer major cells; (3D GMesh)"""
    nn = gm.nnode
    nodes = np.concatenate([gm.nodes + p * np.array(direction, float) for p in pos])
    cells = []
    for k in range(len(pos) - 1):
        for t, c in gm.cells:
            cells.append((EXTRUDED[t], [n + k * nn for n in c] + [n + (k + 1) * nn for n in c]))
    return meshgen.GMesh(nodes, cells, 3)


def check(spec, ctx):
    with cfdmesh.history(ctx, spec['gmsh']):
        check_case(spec, ctx)


def check_case(spec, ctx):
    from cfdtools.ic3 import writerV2, writerV3, writerV4

    gm = meshgen.build(spec['g'])
    if spec['coords'] == 'int':  # integer positions: unperturbed
        gm = meshgen.build(dict(spec['g'], geo={}))
    marks = meshgen.make_marks(gm, spec['marks'])
    kinds = ['boundary', 'boundary', 'perio_cart', 'perio_cylx']
    marks = [mk + (kinds[(spec['o'] + i) % 4],) for i, mk in enumerate(marks)]
    mesh, order = cfdmesh.to_mesh(gm, spec['o'], marks, auto=spec['auto'], coords='nd' if spec['coords'] == 'int' else spec['coords'])
    if spec['coords'] == 'int':
        mesh.set_nodescoord_xyz(*[[int(v) for v in gm.nodes[:, i]] for i in range(3)])
    unit = 1.0 if spec['coords'] == 'int' else 2.0 ** spec['g']['geo'].get('size', 0)
    pos = (unit * np.cumsum([spec['start']] + spec['dz'])).tolist()
    direction = spec['dir'] or [0.0, 0.0, 1.0]
    before = cfdmesh.snapshot(mesh)
    kw = {}
    if spec['dir'] is not None:
        kw['direction'] = np.array(spec['dir']) if spec['o'] % 2 else list(spec['dir'])
    kw['extrude'] = np.array(pos) if spec['o'] % 3 == 0 else list(pos)
    if spec['domain'] is not None:
        kw['domain'] = spec['domain']
    if spec['default']:
        kw, pos, direction = {}, [0.0, 1.0], [0.0, 0.0, 1.0]
    domain = kw.get('domain', 'fluid')
    new = mesh.export_extruded(**kw)
    require(cfdmesh.snapshot(mesh) == before, 'the source mesh is modified')
    ref = extruded(gm, pos, direction)
    nlayer, nn = len(pos) - 1, gm.nnode
    require((new.ncell, new.nnode) == (ref.ncell, ref.nnode), f'sizes {new.ncell} {new.nnode}')
    xyz = new.nodescoord(ndarray=True)
    ind = match(ref.nodes, xyz, 'extruded nodes')
    got = cfdmesh.cells_of(new)
    want = {cfdmesh.cell_key(t, c): i for i, (t, c) in enumerate(ref.cells)}
    refid = []
    for i, (t, c) in enumerate(got):
        key = cfdmesh.cell_key(t, [int(ind[n]) for n in c])
        require(key in want, f'cell {i} {t} {c} is not one of the extruded cells')
        refid.append(want[key])
    require(len(set(refid)) == ref.ncell, 'a cell is extruded twice')
    # layer by layer, in the order of the source cells
    require(refid == [k * gm.ncell + j for k in range(nlayer) for j in order], 'cells are not numbered by layers, as the source cells')
    gotm = meshgen.GMesh(xyz, got, 3)
    # volumes: area x thickness
    x, y = gm.nodes[:, 0], gm.nodes[:, 1]
    area = np.array([0.5 * sum(x[a] * y[b] - x[b] * y[a] for a, b in zip(c, c[1:] + c[:1])) for _, c in gm.cells])
    vol = gotm.volumes()
    require((vol > 0).all(), 'negative volume')
    thick = np.diff(pos) * direction[2]
    expect = np.array([area[r % gm.ncell] * thick[r // gm.ncell] for r in refid])
    scale = np.abs(ref.nodes).max()
    require(np.allclose(vol, expect, rtol=1e-7, atol=1e-13 * scale**3), 'volumes are not area x thickness')
    # marks
    names = list(new._bocos)
    require(names[:len(marks)] == [mk[0] for mk in marks] and len(names) == len(marks) + 2, f'marks {names}')
    first, last = names[-2:]
    if not {domain + '0', domain + '1'} & set(names[:-2]):  # free names
        require((first, last) == (domain + '0', domain + '1'), f'marks {names}')
    else:
        ctx.label('name of end plane already used')

    def nodes_of(name):
        b = new._bocos[name]
        require(b.name == name and b.nodebased(), f'mark {name}: {b.name} {b.geodim}')
        lst = [int(ind[n]) for n in b.index.list()]
        require(len(set(lst)) == len(lst), f'mark {name} repeats a node')
        return set(lst)

    for mk in marks:
        require(nodes_of(mk[0]) == {n + k * nn for n in mk[1] for k in range(nlayer + 1)}, f'nodes of mark {mk[0]}')
        require(new._bocos[mk[0]].type == mk[3], f'kind of mark {mk[0]}')
    used = {n for _, c in gm.cells for n in c}  # nodes of no cell may be in the planes or not
    plane = nodes_of(first)
    require(used <= plane <= set(range(nn)), 'nodes of first plane')
    require(nodes_of(last) == {n + nlayer * nn for n in plane}, 'nodes of last plane')
    # faces and export
    inode = {int(r): i for i, r in enumerate(ind)}
    ends = [
        (name, None, {frozenset(inode[n + k * nn] for n in c) for _, c in gm.cells}, 'boundary')
        for name, k in ((first, 0), (last, nlayer))
    ]
    marks3 = [
        (mk[0], None, {frozenset(inode[n + (k + d) * nn] for n in e for d in (0, 1)) for e in mk[2] for k in range(nlayer)}, mk[3])
        for mk in marks
    ]
    clash = any(set(c) <= set(mk[1]) for mk in marks for _, c in gm.cells)
    if not clash:
        fn = ctx.path('out')
        fmt = spec['fmt']
        if fmt == 4:
            writerV4.writer(new).write_data(fn)
            m, _ = decode_v4(fn)
        else:
            (writerV2 if fmt == 2 else writerV3).writer(new, endian='little').write_data(fn)
            m = ic3fmt.decode(open(fn, 'rb').read())[2]
        cfdmesh.check_zones(gotm, list(range(gotm.ncell)), marks3 + ends, m)
        require(cfdmesh.snapshot(mesh) == before, 'the source mesh is modified by the export')
        ctx.label(f'V{fmt}')
    ctx.nontrivial = (gm.ncell > 1 and nlayer > 1) or len(gm.types()) > 1 or bool(marks)
    ctx.label('+'.join(gm.types()), f'layers{nlayer}', f'marks{len(marks)}', 'clash' if clash else 'exported')
    ctx.label('oblique' if direction[:2] != [0.0, 0.0] else 'straight', spec['coords'])


num = st.sampled_from([0.25, 0.5, 1.0, 1.0, 2.0, 3.5])
CASES = [
    Case('extrude', st.fixed_dictionaries({
        'g': meshgen.spec2d(), 'o': st.integers(0, 1000), 'gmsh': st.booleans(), 'marks': meshgen.markspec(), 'auto': st.booleans(),
        'coords': st.sampled_from(['nd', 'list', 'array', 'int']), 'start': st.sampled_from([0.0, 0.0, -1.5, 4.0]),
        'dz': st.lists(num, min_size=1, max_size=5), 'fmt': st.sampled_from([2, 3, 4]),
        'dir': st.one_of(st.none(), st.tuples(st.sampled_from([0.0, 0.5, -1.0]), st.sampled_from([0.0, -0.25, 2.0]), num).map(list)),
        'domain': st.sampled_from([None, None, 'D:', 'two.dim']), 'default': st.sampled_from([False] * 7 + [True]),
    }).map(lambda s: dict(s, g=dict(s['g'], geo=dict(s['g']['geo'], size=0))) if s['default'] else s), check, quick=900, thorough=15000),
    Case('big', st.fixed_dictionaries({
        'g': meshgen.big2d(), 'o': st.integers(0, 1000), 'gmsh': st.just(False), 'marks': meshgen.bigmarks(['a', 'b c', 'd']), 'auto': st.booleans(),
        'coords': st.sampled_from(['nd', 'list', 'array']), 'start': st.just(-1.5), 'dz': st.sampled_from([[1.0], [0.5, 2.0]]),
        'fmt': st.sampled_from([2, 3, 4]), 'dir': st.sampled_from([None, [0.5, -0.25, 2.0]]), 'domain': st.none(), 'default': st.just(False),
    }), check, quick=4, thorough=40),
]

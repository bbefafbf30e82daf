"""cfdtools meshes from generated meshes (meshgen.GMesh), and comparisons"""
import contextlib
import random

import numpy as np

from lib import meshgen
from lib.fw import require, same_array
from lib.meshgen import cyc


MSH = """$MeshFormat
2.2 0 8
$EndMeshFormat
$Nodes
4
1 0 0 0
2 1 0 0
3 0 1 0
4 0 0 1
$EndNodes
$Elements
1
1 4 2 0 1 1 2 3 4
$EndElements
"""


@contextlib.contextmanager
def history(ctx, gmsh):
    """what is done after a GMSH file has been read or not (the reader sets conventions of the whole session)"""
    import cfdtools.meshbase._elements as _elem
    from cfdtools.gmsh.reader import reader

    saved = {k: getattr(_elem, k) for k in ('elem2faces',) if hasattr(_elem, k)}
    try:
        if gmsh:
            fn = ctx.path('before.msh')
            with open(fn, 'w') as f:
                f.write(MSH)
            r = reader(fn)
            r.read_data()
            require(r.export_mesh().ncell == 1, 'GMSH file of one cell')
            ctx.label('after GMSH')
        yield
    finally:
        for k, v in saved.items():
            setattr(_elem, k, v)


def node_keys(nodes, cells, several=None):
    """what identifies each node: its position, and the positions of its cells if several nodes have the same position"""
    pos = [tuple(p) for p in (np.asarray(nodes) + 0.0).tolist()]
    if several is None:
        several = len(set(pos)) < len(pos)
    if not several:
        return pos
    mine = [[] for _ in pos]
    for _, c in cells:
        key = tuple(sorted(pos[n] for n in c))
        for n in c:
            mine[n].append(key)
    return [(p, tuple(sorted(m))) for p, m in zip(pos, mine)]


def table(nodes, seed=0):
    """the same values in arrays of several kinds"""
    a = np.array(nodes)
    how = seed // 3 % 6
    if how == 1:
        return a.astype(np.int32)
    if how == 2:
        return np.asfortranarray(a)
    if how == 3:  # view of a part of a larger array
        b = np.full((2 * a.shape[0], a.shape[1] + 1), -7)
        b[::2, :-1] = a
        return b[::2, :-1]
    return a


def conn_of(gm, seed=0, auto=False):
    """elem_connectivity of the cells in random groups; returns (conn, order): order[i] = gm cell of global index i"""
    import cfdtools.meshbase._connectivity as _conn

    r = random.Random(seed)
    conn = _conn.elem_connectivity()
    groups = []
    for t, idx, nodes in gm.by_type(seed):
        pos = list(range(len(idx)))
        while pos:
            n = len(pos) if seed % 3 == 0 else r.randint(1, len(pos))
            groups.append((t, [idx[i] for i in pos[:n]], [nodes[i] for i in pos[:n]]))
            pos = pos[n:]
    if seed % 3 == 2:
        r.shuffle(groups)
    if auto:  # numbered in the order of addition
        order = []
        for t, idx, nodes in groups:
            order += idx
            conn.add_elems(t, table(nodes, seed))
        return conn, order
    for i, (t, idx, nodes) in enumerate(groups):
        if idx == list(range(idx[0], idx[-1] + 1)) and r.random() < 0.5:
            il = _conn.indexlist(irange=[idx[0], idx[-1]])
        else:
            il = _conn.indexlist(ilist=list(idx) if r.random() < 0.7 else np.array(idx))
        conn.add_elems(t, table(nodes, seed + 3 * i), il)
    return conn, list(range(gm.ncell))


def to_mesh(gm, seed=0, marks=(), auto=False, coords='nd'):
    """returns (Mesh, order)"""
    import cfdtools.meshbase._connectivity as _conn
    from cfdtools.meshbase._mesh import Mesh

    conn, order = conn_of(gm, seed, auto)
    mesh = Mesh(gm.ncell, gm.nnode)
    mesh.set_cell2node(conn)
    if coords == 'nd':
        mesh.set_nodescoord_nd(np.array(gm.nodes))
    elif coords == 'list':
        mesh.set_nodescoord_xyz(*[list(map(float, gm.nodes[:, i])) for i in range(3)])
    else:
        mesh.set_nodescoord_xyz(*[np.array(gm.nodes[:, i]) for i in range(3)])
    for mark in marks:
        add_mark(mesh, mark, seed)
    return mesh, order


def add_mark(mesh, mark, seed=0):
    """node mark (name, nodes, faces, kind)"""
    import cfdtools.meshbase._connectivity as _conn
    from cfdtools.meshbase._mesh import submeshmark

    b = submeshmark(mark[0])
    b.geodim = 'bdnode'
    b.type = mark[3] if len(mark) > 3 else 'boundary'
    nodes = list(mark[1])
    if nodes and seed % 2 and nodes == list(range(nodes[0], nodes[-1] + 1)):
        b.index = _conn.indexlist(irange=[nodes[0], nodes[-1]])
    elif seed % 5 == 0:
        b.index = _conn.indexlist(ilist=np.array(nodes))
    else:
        b.index = _conn.indexlist(ilist=nodes)
    mesh.add_boco(b)


def faces_of(con, f2c, what):
    """list of (nodes, cells) by index"""
    out = {}
    for i, nodes in con.index_elem_tuples():
        require(i not in out, f'{what}: face {i} is defined twice')
        out[int(i)] = [int(n) for n in nodes]
    require(sorted(out) == list(range(len(out))), f'{what}: faces are not numbered from 0')
    cells = np.asarray(f2c)
    require(len(cells) == len(out), f'{what}: {len(cells)} rows of cells for {len(out)} faces')
    return [(out[i], [int(c) for c in cells[i]]) for i in range(len(out))]


def check_faces(gm, order, bd, inn, oriented=True):
    """bd, inn: lists of (nodes, cells)"""
    ref = gm.faces()
    seen = set()
    for kind, lst in (('boundary', bd), ('internal', inn)):
        for nodes, cells in lst:
            key = frozenset(nodes)
            require(key in ref, f'{kind} face {nodes} is not a face of a cell')
            require(key not in seen, f'face {nodes} is found twice')
            seen.add(key)
            own = {c: f for c, f in ref[key]}
            require(len(nodes) == len(key), f'face {nodes} repeats a node')
            got = [order[c] for c in cells if c >= 0]
            if kind == 'boundary':
                require(len(own) == 1, f'face {nodes} of two cells is a boundary')
                require(cells[1] == -1, f'boundary face {nodes} has cells {cells}')
            else:
                require(len(own) == 2, f'face {nodes} of one cell is internal')
            require(sorted(got) == sorted(own), f'{kind} face {nodes}: cells {got} instead of {sorted(own)}')
            outward = own[got[0]]
            if gm.dim == 3 and oriented:
                require(cyc(nodes) == cyc(outward), f'{kind} face {nodes} is not oriented out of its first cell: {outward}')
            elif len(nodes) == 4:
                ok = {cyc(outward), cyc(outward[::-1])}
                require(cyc(nodes) in ok, f'face {nodes} is not the polygon {outward}')
    require(len(seen) == len(ref), f'{len(seen)} faces instead of {len(ref)}')


def cells_of(mesh):
    """list of (type, nodes) by global index"""
    out = {}
    for t, d in mesh._cell2node.items():
        for i, nodes in zip(d['index'].list(), d['elem2node'].tolist()):
            require(i not in out, f'cell {i} is defined twice')
            out[i] = (t, nodes)
    require(sorted(out) == list(range(len(out))), 'cells are not numbered from 0')
    return [out[i] for i in range(len(out))]


def cell_key(t, nodes):
    """a cell whatever its local numbering"""
    return t, frozenset(cyc([nodes[j] for j in f]) for f in meshgen.OUT_FACES[t])


def snapshot(mesh):
    """everything observable of a cell-based mesh"""
    return {
        'cells': cells_of(mesh) if mesh._cell2node is not None else None,
        'xyz': mesh.nodescoord(ndarray=True).tolist(),
        'bocos': {n: (b.name, b.geodim, b.type, b.index.list()) for n, b in mesh._bocos.items()},
        'params': dict(mesh._params),
        'celldata': {k: np.asarray(v).tolist() for k, v in mesh._celldata.items()},
        'nodedata': {k: np.asarray(v).tolist() for k, v in mesh._nodedata.items()},
        'n': (mesh.ncell, mesh.nnode),
    }


def check_zones(gm, order, marks, m, unmarked=True):
    """m: decoded restart (lib.ic3fmt.Model) exported from gm with marks; kinds of marks included"""
    same_array(gm.nodes, m.coords, 'coordinates')
    require((m.ncell, m.nnode) == (gm.ncell, gm.nnode), 'sizes')
    zones = sorted((z for z in m.zones if z[1] != 'internal'), key=lambda z: z[2])
    inn = [z for z in m.zones if z[1] == 'internal']
    nbd = len(gm.boundary())
    first = 0
    for name, kind, a, b, _ in zones:
        require(a == first, f'zone {name} starts at {a} instead of {first}')
        require(b >= a, f'zone {name} is empty')
        first = b + 1
    require(first == nbd, f'zones hold {first} faces of {nbd} boundary faces')
    require(len(inn) == 1 and inn[0][2:4] == (nbd, m.nface - 1), f'internal zone {[z[:4] for z in inn]}')
    faces = [(list(f), [int(c) for c in cc]) for f, cc in zip(m.faces, m.f2c)]
    check_faces(gm, order, faces[:nbd], faces[nbd:])
    rest = set(gm.boundary()).difference(*[mk[2] for mk in marks])
    names = [z[0] for z in zones]
    extra = [n for n in names if n not in {mk[0] for mk in marks}]
    require(len(names) == len(marks) + (1 if rest else 0), f'zones {names} for marks {[mk[0] for mk in marks]}')
    require(len(extra) == (1 if rest else 0), f'extra zones {extra}')
    for name, kind, a, b, _ in zones:
        got = {frozenset(f) for f, _ in faces[a:b + 1]}
        if name in extra:
            require(got == rest, f'zone {name} does not hold the unmarked faces')
            require(kind == 'boundary', f'zone {name}: kind {kind}')
        else:
            mk = next(mk for mk in marks if mk[0] == name)
            require(got == mk[2], lambda: f'zone {name}: {sorted(map(sorted, got))} instead of {sorted(map(sorted, mk[2]))}')
            require(kind == (mk[3] if len(mk) > 3 else 'boundary'), f'zone {name}: kind {kind}')

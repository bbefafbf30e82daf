"""consistency checks and refusal of inconsistent meshes"""
import os
import random

import numpy as np
from hypothesis import strategies as st

from lib import cfdmesh, ic3fmt, meshgen
from lib.fw import Case, fail, require

PROPERTY = 'C30'
RULE = (
    'Tables: random groups of elements with index lists or ranges (permutations of 0..n-1, or with a duplicate, a gap, a shift) '
    'and compressed tables with right or wrong ends must be accepted exactly when they are right. Meshes: random conforming '
    'meshes with node or face marks, checked before and after faces are made, with wrong counts or unmarked faces. Exports: a '
    'random inconsistency is injected in a mesh (or none), exported in V2, V3 and V4: an error and no readable file, or '
    'a valid file. Non-trivial: an inconsistency is injected, or several groups, or marks.'
)
TECHNIQUE = 'property-based testing (Hypothesis): fault injection in meshes and tables, exact acceptance'
NOTE = 'random meshes up to 6 blocks, tables up to 30 elements'


def accepted(f):
    """True if f() returns something true, False if it raises or returns something false"""
    try:
        return bool(f())
    except Exception:
        return False


def tables(spec, ctx):
    import cfdtools.meshbase._connectivity as _conn

    r = random.Random(spec['seed'])
    kinds = ['tri3', 'quad4', 'bar2', 'hexa8']
    nn = {'tri3': 3, 'quad4': 4, 'bar2': 2, 'hexa8': 8}
    n = sum(spec['sizes'])
    index = list(range(n))
    if spec['perm']:
        r.shuffle(index)
    k = r.randrange(n)
    if spec['fault'] == 'duplicate' and n > 1:
        index[k] = index[k - 1]
    elif spec['fault'] == 'gap':
        index[index.index(n - 1)] = n - 1 + 1 + r.randrange(3)
    elif spec['fault'] == 'shift':
        index = [i + 1 for i in index]
    elif spec['fault'] == 'negative':
        index[index.index(0)] = -1
    right = sorted(index) == list(range(n))
    con = _conn.elem_connectivity()
    pos = 0
    for i, m in enumerate(spec['sizes']):
        part = index[pos:pos + m]
        pos += m
        t = kinds[spec['types'][i % len(spec['types'])]]
        nodes = np.array([[r.randrange(20) for _ in range(nn[t])] for _ in range(m)])
        if part == list(range(part[0], part[0] + m)) and part[0] >= 0 and r.random() < 0.5:
            il = _conn.indexlist(irange=[part[0], part[-1]])
        else:
            il = _conn.indexlist(ilist=part)
        con.add_elems(t, nodes, il)
    require(accepted(con.check) == right, lambda: f'indices {index} are {"refused" if right else "accepted"}')
    # compressed table
    sizes = np.array([r.randint(0, 4) for _ in range(n)])
    ind = np.concatenate(([0], np.cumsum(sizes)))
    val = np.arange(ind[-1])
    bad = spec['cfault']
    if bad == 'start':
        ind[0] = 1
    elif bad == 'more values':
        val = np.arange(ind[-1] + 1)
    elif bad == 'less values':
        if not len(val):
            bad = None
        val = val[:-1]
    got = accepted(_conn.compressed_listofindex(ind, val).check)
    if bad == 'start' and ind[-1] == 0:
        pass
    else:
        require(got == (bad is None), f'compressed table {ind} of {len(val)} values: check gives {got}')
    ctx.count = 2
    ctx.nontrivial = not right or bad is not None or len(spec['sizes']) > 1
    ctx.label(spec['fault'] if not right else 'right', bad or 'right table')


def mesh_check(spec, ctx):
    import cfdtools.meshbase._connectivity as _conn
    from cfdtools.meshbase._mesh import Mesh

    gm = meshgen.build(spec['g'])
    marks = meshgen.make_marks(gm, spec['marks'])
    mesh, order = cfdmesh.to_mesh(gm, spec['o'], marks)
    require(accepted(mesh.check), 'a mesh of cells is refused')
    require(cfdmesh.cells_of(mesh) == cfdmesh.cells_of(cfdmesh.to_mesh(gm, spec['o'], marks)[0]), 'cells changed by check')
    # wrong counts
    for nc, nn in ((gm.ncell + spec['d'], gm.nnode), (0, gm.nnode), (gm.ncell, 0)):
        wrong = Mesh(nc, gm.nnode)
        wrong.set_cell2node(cfdmesh.conn_of(gm, spec['o'])[0])
        if nn:
            wrong.set_nodescoord_nd(np.array(gm.nodes))
        else:
            wrong = Mesh(nc, 0)
            wrong.set_cell2node(cfdmesh.conn_of(gm, spec['o'])[0])
        if (wrong.ncell, wrong.nnode) != (gm.ncell, gm.nnode):
            require(not accepted(wrong.check), f'mesh of {gm.ncell} cells and {gm.nnode} nodes is accepted with counts {nc} and {nn}')
    # cells added to the connectivity afterwards
    wrong, _ = cfdmesh.to_mesh(gm, spec['o'])
    t, c = gm.cells[spec['o'] % gm.ncell]
    wrong._cell2node.add_elems(t, np.array([c] * spec['d']))
    require(not accepted(wrong.check), f'mesh of {wrong.ncell} cells is accepted with {wrong._cell2node.nelem} cells in its connectivity')
    # coordinates
    bad, n = 1 + spec['o'] % 7, gm.nnode + (spec['d'] if spec['o'] % 2 or gm.nnode <= spec['d'] else -spec['d'])
    wrong = np.resize(gm.nodes, (n, 3))
    empty = Mesh(gm.ncell, gm.nnode)
    xyz = [(wrong if bad >> i & 1 else gm.nodes)[:, i] for i in range(3)]
    for f in (lambda: empty.set_nodescoord_xyz(*xyz), lambda: empty.set_nodescoord_nd(wrong)):
        try:
            f()
        except Exception:
            continue
        fail(f'coordinates of sizes {[len(c) for c in xyz]} or {wrong.shape} are accepted for {gm.nnode} nodes')
    # faces
    mesh.make_face_connectivity()
    mesh.bocomarks_set_node_to_face()
    rest = set(gm.boundary()).difference(*[mk[2] for mk in marks])
    r = random.Random(spec['o'])
    full = sorted(set(sum([b.index.list() for b in mesh._bocos.values()], [])))
    for k in range(spec['again'] if full else 0):  # faces listed twice, in the same mark or another one
        b = mesh._bocos[r.choice(list(mesh._bocos))]
        b.index = _conn.indexlist(ilist=b.index.list() + [r.choice(full) for _ in range(r.randint(1, 2 + len(rest)))])
    names = list(mesh._bocos)
    got = accepted(mesh.check)
    require(got == (not rest), f'{len(rest)} boundary faces without mark: check gives {got}')
    new = [n for n in mesh._bocos if n not in names]
    if rest:
        if new:  # a mark of missing faces is made
            faces = dict(mesh._faces['boundary']['face2node'].index_elem_tuples())
            require({frozenset(faces[i]) for i in mesh._bocos[new[0]].index.list()} == rest, f'mark {new[0]} is not that of missing faces')
            require(accepted(mesh.check), 'refused once all faces are marked')
    else:
        require(not new, f'new marks {new}')
    ctx.count = 4
    ctx.nontrivial = bool(rest) or bool(marks)
    ctx.label('unmarked' if rest else 'all marked', f'marks{len(marks)}')


FAULTS = ['none', 'none', 'mark twice', 'face twice', 'other mark', 'missing face', 'coordinates', 'cell data', 'node data', 'ndof']


def export(spec, ctx):
    import cfdtools.data as _data
    import cfdtools.ic3 as ic3
    import cfdtools.meshbase._connectivity as _conn
    from cfdtools.ic3 import readerV4, writerV2, writerV3, writerV4
    from cfdtools.meshbase._mesh import submeshmark

    gm = meshgen.build(spec['g'])
    marks = meshgen.make_marks(gm, spec['marks'])
    fault, r = spec['fault'], random.Random(spec['o'])
    if not marks and fault in ('mark twice', 'face twice', 'other mark'):
        fault = 'none'
    for ver in (2, 3, 4):
        mesh, order = cfdmesh.to_mesh(gm, spec['o'], marks)
        ncell, nnode, ndof = gm.ncell, gm.nnode, 1
        d = -spec['d'] if spec['less'] else spec['d']
        if fault == 'cell data':
            ncell = max(0, ncell + d)
        elif fault == 'node data':
            nnode = max(0, nnode + d)
        elif fault == 'ndof':
            ndof = 2
        if fault in ('cell data', 'node data') and ver == 4:  # format does not hold these data
            continue
        if fault == 'ndof' and ver != 3:
            continue
        shapes = [(), (3,), (3, 3)]
        cd = _data.DataSet('cellaverage', ndof=ndof) if ndof == 1 else _data.DataSet('spectralcell', ndof=ndof)
        cd.add_data('A', np.ones((ncell,) + shapes[spec['rank']]))
        mesh.set_celldata(cd)
        nd = _data.DataSet('nodal')
        nd.add_data('B', np.ones((nnode,) + shapes[spec['rank'] % 2]))
        mesh.set_nodedata(nd)
        if fault == 'coordinates':
            n = max(1, gm.nnode + d)
            if n == gm.nnode:
                continue
            wrong = np.resize(gm.nodes, (n, 3))
        elif fault == 'mark twice':
            b = submeshmark('again')
            b.geodim, b.type = 'bdnode', 'boundary'
            b.index = _conn.indexlist(ilist=list(marks[spec['o'] % len(marks)][1]))
            mesh.add_boco(b)
        elif fault in ('face twice', 'other mark', 'missing face'):
            mesh.make_face_connectivity()
            mesh.bocomarks_set_node_to_face()
            nbd = mesh._faces['boundary']['face2node'].nelem
            own = [b.index.list() for b in mesh._bocos.values()]
            if fault == 'face twice':
                b = list(mesh._bocos.values())[spec['o'] % len(own)]
                b.index = _conn.indexlist(ilist=b.index.list() + [r.choice(b.index.list())])
            else:
                b = submeshmark('again')
                b.geodim, b.type = 'bdface', 'boundary'
                free = sorted(set(range(nbd)) - set(sum(own, [])))
                i = r.choice(sum(own, [])) if fault == 'other mark' else nbd + spec['d'] - 1
                b.index = _conn.indexlist(ilist=free[: spec['d'] - 1] + [i])
                mesh.add_boco(b)
        fn = ctx.path(f'{ver}.ic3')
        try:
            if fault == 'coordinates':
                if spec['rank']:
                    mesh.set_nodescoord_nd(wrong)
                else:  # some of the axes, or all, have a wrong size
                    bad = 1 + spec['o'] % 7
                    mesh.set_nodescoord_xyz(*[(wrong if bad >> i & 1 else gm.nodes)[:, i] for i in range(3)])
            W = {2: writerV2, 3: writerV3, 4: writerV4}[ver].writer(mesh)
            W.write_data(fn)
        except Exception as e:
            require(fault != 'none', f'consistent mesh is refused in V{ver}: {e!r}')
            if os.path.exists(fn):  # what was started cannot be read
                ok = True
                try:
                    rd = readerV4.reader(fn) if ver == 4 else ic3.reader(fn)
                    rd.read_data()
                    rd.export_mesh()
                except Exception:
                    ok = False
                require(not ok, f'{fault}: refused by the V{ver} writer but its file can be read')
        else:
            require(fault == 'none', f'{fault}: written in V{ver} without error')
            if ver != 4:
                m = ic3fmt.decode(open(fn, 'rb').read())[2]
                cfdmesh.check_zones(gm, order, marks, m)
        ctx.label(f'{fault} V{ver}')
    ctx.count = 3
    ctx.nontrivial = fault != 'none'


CASES = [
    Case('tables', st.fixed_dictionaries({
        'sizes': st.integers(0, 29).flatmap(
            lambda i: st.lists(st.integers(1, 6), min_size=1, max_size=5) if i else st.just([700, 1500])
        ), 'types': st.lists(st.integers(0, 3), min_size=1, max_size=4),
        'perm': st.booleans(), 'seed': st.integers(0, 10**6),
        'fault': st.sampled_from(['none', 'none', 'duplicate', 'gap', 'shift', 'negative']),
        'cfault': st.sampled_from([None, None, 'start', 'more values', 'less values']),
    }), tables, quick=1500, thorough=20000),
    Case('check', st.fixed_dictionaries({
        'g': meshgen.spec3d(maxcell=6), 'o': st.integers(0, 1000), 'marks': meshgen.markspec(), 'd': st.integers(1, 3),
        'again': st.sampled_from([0, 0, 1, 2]),
    }), mesh_check, quick=700, thorough=6000),
    Case('export', st.fixed_dictionaries({
        'g': meshgen.spec3d(maxcell=6), 'o': st.integers(0, 1000), 'marks': meshgen.markspec(), 'd': st.integers(1, 3),
        'less': st.booleans(), 'rank': st.integers(0, 2), 'fault': st.sampled_from(FAULTS),
    }), export, quick=1000, thorough=8000),
]

"""Restart models (lib.ic3fmt.Model) from specs, and their relation with cfdtools meshes."""
import random

import numpy as np
from hypothesis import strategies as st

from lib import meshgen, values
from lib.fw import require, same_array
from lib.ic3fmt import Model

_alpha = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-:. '
secname = st.one_of(
    st.sampled_from(['RHO', 'RHOU', 'RHOE', 'U_AVG', 'U_RMS', 'P', 'node_gb_index', 'x' * 52, 'EOF', 'STEP2']),
    st.sampled_from(['EOF_1', 'EOFx', 'DATA', 'X_NO', 'STEP', 'TIME', 'CV_PART', 'UGP_IO_EOF', 'P_AVG_2', 'internal', 'MATCHED']),
    values.text(_alpha, 1, 52),
).map(lambda s: s if s.strip() else 'v').filter(lambda s: not s.startswith('DEOF'))
wgtname = values.text('abcdefghijklmnopqrstuvwxyz0123456789_', 1, 20).filter(
    lambda s: not s.endswith('wgt')
)
_f = st.one_of(
    st.floats(allow_nan=False, allow_infinity=True, width=64),
    st.sampled_from([0.0, -0.0, 1.0, 1e-300, 1e300, 0.1]),
)
_i8 = st.one_of(st.integers(0, 10), st.integers(-(2**63), 2**63 - 1))


@st.composite
def abstract_mesh(draw, maxface=14, minface=1):
    nnode = draw(st.integers(4, 12))
    nface = draw(st.integers(minface, maxface))
    ncell = draw(st.integers(1, 6))
    faces = draw(
        st.lists(
            st.lists(st.integers(0, nnode - 1), min_size=2, max_size=4, unique=True), min_size=nface, max_size=nface
        )
    )
    f2c = draw(
        st.lists(st.tuples(st.integers(0, ncell - 1), st.integers(0, ncell - 1)).map(list), min_size=nface, max_size=nface)
    )
    nbd = draw(st.integers(1, nface))
    f2c[draw(st.integers(0, nface - 1))][0] = ncell - 1
    return {'abs': {'nnode': nnode, 'ncell': ncell, 'faces': faces, 'f2c': f2c, 'nbd': nbd},
            'ord': draw(st.integers(0, 1000))}


def big_mesh():
    """more nodes, cells, faces or nodes of faces than 16 bits can number"""
    return st.fixed_dictionaries({
        'nnode': st.sampled_from([1000, 40000, 70000, 360000]), 'ncell': st.sampled_from([1000, 40000, 70000]),
        'nface': st.sampled_from([5000, 20000, 40000, 70000]), 'nbd': st.sampled_from([300, 4000]), 'seed': st.integers(0, 10**6),
    }).map(lambda d: {'big': d, 'ord': 0})


def data_list(maxvar, ranks, ints):
    def one(rank, isint, name, v, vi, order):
        return {'name': name, 'rank': rank, 'v': vi if (isint and rank == 0) else v, 'o': order}

    item = st.builds(
        one, st.sampled_from(ranks), st.booleans() if ints else st.just(False), secname, values.float_spec(),
        values.int_spec, st.sampled_from('CF'),
    )
    return st.sampled_from([0, 1, 1]).flatmap(
        lambda n: st.lists(item, min_size=min(n, maxvar), max_size=maxvar, unique_by=lambda d: d['name'])
    )


@st.composite
def model_spec(draw, ints=True, maxndof=1, face=False, kinds=None, maxvar=3, gm=True, maxcell=6, big=False):
    if big:
        mesh = draw(big_mesh())
    elif gm and draw(st.integers(0, 2)) == 0:
        mesh = {'gm': draw(meshgen.spec3d(maxn=2, maxcell=maxcell)), 'ord': draw(st.integers(0, 1000))}
    else:
        mesh = draw(abstract_mesh())
    zone = st.fixed_dictionaries(
        {
            'name': secname,
            'kind': st.sampled_from(kinds or ['boundary', 'boundary', 'perio_cart', 'perio_cylx', 'perio_cyly', 'perio_cylz']),
            'w': st.integers(1, 3),
            'rd': st.one_of(st.just([]), st.lists(_f, min_size=3, max_size=3), st.lists(_f, min_size=16, max_size=16)),
        }
    )
    many = draw(st.sampled_from([0] * 7 + [12]))
    spec = {
        'mesh': mesh,
        'zones': draw(st.lists(zone, min_size=1, max_size=4 + many, unique_by=lambda z: z['name'])),
        'part': [draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.sampled_from([300, 40000, 70000, 2**31 - 1]))), draw(st.integers(0, 50))],
        'state': [draw(_i8), draw(_f), draw(_f)],
        'bare': draw(st.sampled_from([0] * 6 + [8, 15])),  # what is not given: step, dt, time, partition
        'wgt': draw(st.lists(st.tuples(wgtname, _f).map(list), max_size=2 + many, unique_by=lambda t: t[0])),
        'cell': draw(data_list(maxvar + many if maxvar else 0, [0, 0, 1, 2], ints)),
        'node': draw(data_list(2 + many // 2, [0, 0, 1], ints)),
        'ndof': draw(st.integers(1, maxndof)) if maxndof > 1 else 1,
        'xyz': draw(values.float_spec()),
    }
    if face:
        spec['face'] = draw(data_list(2, [0, 1], ints))
    return spec


def make(spec):
    m = Model()
    ms = spec['mesh']
    r = random.Random(ms['ord'])
    if 'abs' in ms:
        a = ms['abs']
        m.ncell = a['ncell']
        m.faces = [list(f) for f in a['faces']]
        f2c = [list(c) for c in a['f2c']]
        for i in range(a['nbd']):
            f2c[i][1] = -1
        m.f2c = np.array(f2c)
        nbd = a['nbd']
        m.coords = values.array(spec['xyz'], (a['nnode'], 3))
    elif 'big' in ms:
        b = ms['big']
        g = np.random.RandomState(b['seed'])
        m.ncell, nbd = b['ncell'], b['nbd']
        size = g.randint(2, 5, b['nface'])
        nodes = np.cumsum(g.randint(1, b['nnode'] // 5, (b['nface'], 4)), axis=1) + g.randint(0, b['nnode'], (b['nface'], 1))
        m.faces = [f[:n] for f, n in zip((nodes % b['nnode']).tolist(), size.tolist())]
        m.f2c = g.randint(0, m.ncell, (b['nface'], 2))
        m.f2c[:nbd, 1] = -1
        m.f2c[g.randint(b['nface']), 0] = m.ncell - 1
        m.coords = values.array(spec['xyz'], (b['nnode'], 3))
    else:
        gm = meshgen.build(ms['gm'])
        m.gm = gm
        m.ncell = gm.ncell
        bd, inn = [], []
        for k, v in sorted(gm.faces().items(), key=lambda t: sorted(t[0])):
            (bd if len(v) == 1 else inn).append((v[0][1], [v[0][0], v[1][0] if len(v) > 1 else -1]))
        r.shuffle(bd)
        r.shuffle(inn)
        nbd = len(bd)
        m.faces = [list(f) for f, _ in bd + inn]
        m.f2c = np.array([c for _, c in bd + inn])
        m.coords = gm.nodes
    zones = spec['zones'][:nbd]
    tot = sum(z['w'] for z in zones)
    sizes = [max(1, z['w'] * nbd // max(tot, 1)) for z in zones]
    while sum(sizes) > nbd:
        sizes[sizes.index(max(sizes))] -= 1
    sizes[-1] += nbd - sum(sizes)
    first = 0
    for z, n in zip(zones, sizes):
        m.zones.append((z['name'], z['kind'], first, first + n - 1, list(z['rd']) + [0.0] * (16 - len(z['rd']))))
        if z['kind'].startswith('perio') and spec['part'][1] % 3 == 0:  # neighbours of periodic faces
            m.f2c[first:first + n, 1] = [-2 - (i * 5 + spec['part'][1]) % m.ncell for i in range(n)]
        first += n
    m.npart = spec['part'][0]
    m.icv = np.array([(spec['part'][1] + i * 7 * max(1, m.npart // 11)) % m.npart for i in range(m.ncell)])
    m.bare = spec.get('bare', 0)
    m.step, m.dt, m.time = [0 if m.bare >> i & 1 else v for i, v in enumerate(spec['state'])]
    if m.bare & 8:
        m.npart, m.icv = 1, np.zeros(m.ncell, dtype=int)
    m.wgt = {k: v for k, v in spec['wgt']}
    m.ndof = spec['ndof']
    shapes = {0: (), 1: (3,), 2: (3, 3)}
    for key, data, n in (('cell', m.celldata, m.ncell * m.ndof), ('node', m.nodedata, m.nnode), ('face', m.facedata, m.nface)):
        for d in spec.get(key, []):
            a = values.array(d['v'], (n,) + shapes[d['rank']])
            data[d['name']] = np.asfortranarray(a) if d['o'] == 'F' else a
    return m


def to_mesh(m, order_seed=0):
    """cfdtools mesh with mixed faces, as a reader would do"""
    import cfdtools.data as _data
    import cfdtools.meshbase._connectivity as _conn
    from cfdtools.meshbase._mesh import Mesh, submeshmark

    mesh = Mesh(m.ncell, m.nnode)
    mesh.set_nodescoord_nd(np.array(m.coords))
    f2n = _conn.elem_connectivity()
    kinds = [2, 3, 4]
    random.Random(order_seed).shuffle(kinds)
    for n in kinds:
        idx = [i for i, f in enumerate(m.faces) if len(f) == n]
        if idx:
            f2n.add_elems(
                {2: 'bar2', 3: 'tri3', 4: 'quad4'}[n], np.array([m.faces[i] for i in idx]), _conn.indexlist(ilist=idx)
            )
    mesh.add_faces('mixed', f2n, _conn.indexindirection(np.array(m.f2c)))
    zones = list(m.zones)
    random.Random(order_seed + 1).shuffle(zones)
    for name, kind, first, last, rd in zones:
        boco = submeshmark(name)
        boco.type = kind
        boco.geodim = 'bdface'
        boco.index = _conn.indexlist(irange=[first, last])
        if any(rd) or np.signbit(rd).any() or order_seed % 2:
            boco.properties['periodic_transform'] = rd
        mesh.add_boco(boco)
    for data, xrep, setter in (
        (m.celldata, 'cellaverage', mesh.set_celldata), (m.nodedata, 'nodal', mesh.set_nodedata)
    ):
        if xrep == 'cellaverage' and m.ndof > 1:
            ds = _data.DataSet('spectralcell', ndof=m.ndof)
        else:
            ds = _data.DataSet(xrep)
        for k, v in data.items():
            ds.add_data(k, v)
        setter(ds)
    state = {k: v for i, (k, v) in enumerate((('step', m.step), ('dt', m.dt), ('time', m.time))) if not m.bare >> i & 1}
    mesh.set_params({**state, **{k + '_wgt': v for k, v in m.wgt.items()}})
    if not m.bare & 8:
        mesh.set_partition({'npart': m.npart, 'icvpart': np.array(m.icv, dtype=np.int32)})
    return mesh


def mesh_faces(mesh):
    """(list of node lists by face index, face2cell) of a cfdtools mesh with mixed faces"""
    con = mesh._faces['mixed']['face2node']
    out = {}
    for i, nodes in con.index_elem_tuples():
        require(i not in out, f'face {i} is defined twice')
        out[int(i)] = [int(n) for n in nodes]
    require(sorted(out) == list(range(len(out))), 'faces are not numbered from 0 to n-1')
    return [out[i] for i in range(len(out))], np.asarray(mesh._faces['mixed']['face2cell'].conn)


def compare_data(ref, got, what):
    got = {k: v for k, v in got.items()}
    require(sorted(got) == sorted(ref), f'{what}: names {sorted(got)} instead of {sorted(ref)}')
    for k, a in ref.items():
        same_array(a, got[k], f'{what} {k!r}')
        require(
            (np.asarray(got[k]).dtype.kind == 'i') == (a.dtype.kind == 'i'), f'{what} {k!r}: type {got[k].dtype}'
        )


def same_value(a, b, what):
    same_array(np.array([a], dtype=float), np.array([b], dtype=float), what)


def compare_mesh(m, mesh, wgt_keys=True, data=True, dt=True, partition=True, rd=16, internal=None):
    """cfdtools mesh (read from a file) against the model"""
    require((mesh.nnode, mesh.ncell) == (m.nnode, m.ncell), f'sizes {(mesh.nnode, mesh.ncell)} {(m.nnode, m.ncell)}')
    same_array(m.coords, mesh.nodescoord(ndarray=True), 'node coordinates')
    faces, f2c = mesh_faces(mesh)
    require(mesh.nface == m.nface, f'nface {mesh.nface} instead of {m.nface}')
    require(faces == m.faces, lambda: f'faces: {faces} instead of {m.faces}'[:300])
    same_array(m.f2c, f2c, 'face to cell connectivity')
    bocos = {n: b for n, b in mesh._bocos.items() if b.type != 'internal'}
    ref = {z[0]: z for z in m.zones if z[1] != 'internal'}
    require(sorted(bocos) == sorted(ref), f'zones {sorted(bocos)} instead of {sorted(ref)}')
    for name, (_, kind, first, last, tr) in ref.items():
        b = bocos[name]
        require(b.name == name, f'zone {name}: named {b.name}')
        require(b.type == kind, f'zone {name}: type {b.type} instead of {kind}')
        require(b.facebased(), f'zone {name} is not face based: {b.geodim}')
        require(b.index.list() == list(range(first, last + 1)), f'zone {name}: {b.index} instead of {first}-{last}')
        nodes = sorted({n for f in m.faces[first : last + 1] for n in f})
        require([int(i) for i in b.properties['slicing']] == nodes,
                lambda: f'zone {name}: nodes {b.properties["slicing"]} instead of {nodes}'[:300])
        if rd:
            same_array(np.array(tr[:rd], float), np.array(list(b.properties['periodic_transform'])[:rd], float),
                       f'zone {name} periodic transform')
    if internal is not None:
        got = [b for b in mesh._bocos.values() if b.type == 'internal']
        require(len(got) == 1, f'{len(got)} internal zones')
        require(got[0].index.list() == list(range(internal[0], internal[1] + 1)), f'internal zone {got[0].index}')
    par = mesh._params
    require(int(par['step']) == m.step, f"step {par['step']} instead of {m.step}")
    same_value(m.time, par['time'], 'time')
    if dt:
        same_value(m.dt, par['dt'], 'dt')
    if wgt_keys:
        got = {k[:-4]: v for k, v in par.items() if k.endswith('_wgt')}
        require(sorted(got) == sorted(m.wgt), f'weights {sorted(got)} instead of {sorted(m.wgt)}')
        for k, v in m.wgt.items():
            same_value(v, got[k], f'weight {k}')
    if partition:
        p = mesh._cellprop['partition']
        require(int(p['npart']) == m.npart, f"npart {p['npart']}")
        same_array(np.asarray(m.icv), np.asarray(p['icvpart']), 'cell partition')
    if data:
        compare_data(m.celldata, mesh._celldata, 'cell data')
        compare_data(m.nodedata, mesh._nodedata, 'node data')
        if m.celldata:
            require(mesh._celldata.ndof == m.ndof, f'ndof {mesh._celldata.ndof} instead of {m.ndof}')


def compare_decoded(m, d, version):
    """model decoded by the independent parser from a file written by cfdtools, against the model"""
    require((d.nnode, d.nface, d.ncell) == (m.nnode, m.nface, m.ncell), 'sizes')
    same_array(m.coords, d.coords, 'X_NO')
    require(d.faces == m.faces, 'NOOFA')
    same_array(m.f2c, d.f2c, 'CVOFA')
    got = {z[0]: z for z in d.zones if z[1] != 'internal'}
    ref = {z[0]: z for z in m.zones}
    require(sorted(got) == sorted(ref), f'zones {sorted(got)} instead of {sorted(ref)}')
    for n, z in ref.items():
        require(got[n][1:4] == tuple(z[1:4]), f'zone {n}: {got[n][1:4]} instead of {z[1:4]}')
        same_array(np.array(z[4], float), np.array(got[n][4], float), f'zone {n} rdata')
    internal = [z for z in d.zones if z[1] == 'internal']
    require(len(internal) == 1, f'{len(internal)} internal zones')
    last = max(z[3] for z in m.zones)
    require(internal[0][2:4] == (last + 1, m.nface - 1), f'internal zone {internal[0][2:4]}')
    require(d.npart == m.npart, 'npart')
    same_array(np.asarray(m.icv), d.icv, 'CV_PART')
    require(d.step == m.step, f'STEP {d.step}')
    same_value(m.dt, d.dt, 'DT')
    same_value(m.time, d.time, 'TIME')
    require(sorted(d.wgt) == sorted(m.wgt), f'weights {sorted(d.wgt)}')
    for k in m.wgt:
        same_value(m.wgt[k], d.wgt[k], f'weight {k}')
    compare_data(m.celldata, d.celldata, 'CV')
    compare_data(m.nodedata, d.nodedata, 'NO')


# ------------------------------------------------------------------ IC3 V4 (HDF5)

_stat = st.builds(
    lambda a, b, c, rank, v, o: {'name': a + b + c, 'rank': rank, 'v': v, 'o': o},
    st.one_of(st.sampled_from(['RHO', 'U', 'P', 'T']), values.text('ABCDEFGHIJ0123456789_-', 1, 10)),
    st.sampled_from(['_AVG', '_RMS', '_REY']), st.sampled_from(['', '', '', '_2', '1', '_X_RMS', 'E']), st.sampled_from([0, 1]), values.float_spec(), st.sampled_from('CF'),
)


@st.composite
def v4_spec(draw, other=True, big=False):
    """contents with the conserved variables, statistics and data that V4 files ignore"""
    spec = draw(model_spec(ints=False, maxvar=2 if other else 0, big=big))
    for z in spec['zones']:
        z['name'] = z['name'].replace('/', '_')
        if z['name'] in ('labels', 'offsets', 'kinds') or not z['name'].strip('.'):
            z['name'] = 'zone'
    names = set()
    spec['zones'] = [z for z in spec['zones'] if not (z['name'] in names or names.add(z['name']))]
    cons = [
        {'name': n, 'rank': r, 'v': draw(values.float_spec()), 'o': draw(st.sampled_from('CF'))}
        for n, r in (('RHO', 0), ('RHOU', 1), ('RHOE', 0))
    ]
    stats = draw(st.lists(_stat, max_size=3, unique_by=lambda d: d['name']))
    used = {d['name'] for d in cons + stats}
    extra = [d for d in spec['cell'] if d['name'] not in used and not is_stat(d['name'])]
    spec['cell'] = cons + stats + extra
    return spec


def printable(spec):
    """names without blanks at their ends, which are lost in printed tables"""
    spec = dict(spec)
    for key in ('zones', 'cell', 'node'):
        kept = {}
        for item in spec[key]:
            name = item['name'].strip()
            kept.setdefault('v' if name.startswith('DEOF') else name, item)
        spec[key] = [dict(item, name=name) for name, item in kept.items()]
    return spec


def is_stat(name):
    return any(x in name for x in ('_AVG', '_RMS', '_REY'))


def reduce_v4(m):
    """what remains in a pair of V4 files: in place"""
    m.celldata = {k: v for k, v in m.celldata.items() if k in ('RHO', 'RHOU', 'RHOE') or is_stat(k)}
    m.nodedata = {}
    if not any(is_stat(k) for k in m.celldata):
        m.wgt = {}
    m.zones = [(n, k, a, b, list(rd[:3]) + [0.0] * 13) for n, k, a, b, rd in m.zones]
    return m


def transforms(m, mesh):
    """first three values of periodic transforms; absent means zero"""
    for name, _, _, _, rd in m.zones:
        got = mesh._bocos[name].properties.get('periodic_transform')
        if got is None:
            require(not any(rd[:3]), f'zone {name}: periodic transform is lost')
        else:
            same_array(np.array(rd[:3], float), np.array(list(got)[:3], float), f'zone {name} periodic transform')

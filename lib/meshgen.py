"""Conforming 2D/3D meshes built from small JSON specs, with an independent geometric/combinatorial oracle.

Nothing of cfdtools is used here.
"""
import itertools
import random

import numpy as np
from hypothesis import strategies as st

from lib import values

# outward faces (right-hand rule) of the standard (CGNS/VTK/GMSH linear) elements
OUT_FACES = {
    'hexa8': [[0, 3, 2, 1], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [0, 4, 7, 3], [4, 5, 6, 7]],
    'prism6': [[0, 1, 4, 3], [1, 2, 5, 4], [2, 0, 3, 5], [0, 2, 1], [3, 4, 5]],
    'pyra5': [[0, 3, 2, 1], [0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]],
    'tetra4': [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]],
    'quad4': [[0, 1], [1, 2], [2, 3], [3, 0]],
    'tri3': [[0, 1], [1, 2], [2, 0]],
}
NNODE = {'hexa8': 8, 'prism6': 6, 'pyra5': 5, 'tetra4': 4, 'quad4': 4, 'tri3': 3, 'bar2': 2}
_GEN = {
    'hexa8': [[1, 2, 3, 0, 5, 6, 7, 4], [3, 2, 6, 7, 0, 1, 5, 4]],
    'prism6': [[1, 2, 0, 4, 5, 3], [3, 5, 4, 0, 2, 1]],
    'pyra5': [[1, 2, 3, 0, 4]],
    'tetra4': [[1, 2, 0, 3], [1, 0, 3, 2]],
    'quad4': [[1, 2, 3, 0]],
    'tri3': [[1, 2, 0]],
}


def cyc(face):
    """canonical form of an oriented face"""
    face = list(map(int, face))
    i = face.index(min(face))
    return tuple(face[i:] + face[:i])


def _symmetries(etype):
    n = NNODE[etype]
    group, todo = {tuple(range(n))}, [tuple(range(n))]
    while todo:
        p = todo.pop()
        for g in _GEN[etype]:
            q = tuple(p[g[i]] for i in range(n))
            if q not in group:
                group.add(q)
                todo.append(q)
    ref = {cyc(f) for f in OUT_FACES[etype]}
    for p in group:
        assert {cyc([p[i] for i in f]) for f in OUT_FACES[etype]} == ref, (etype, p)
    return sorted(group)


SYM = {e: _symmetries(e) for e in _GEN}
assert [len(SYM[e]) for e in ('hexa8', 'prism6', 'pyra5', 'tetra4')] == [24, 6, 4, 12]


class GMesh:
    """nodes (N,3), cells: list of (type, nodes) in global order"""

    def __init__(self, nodes, cells, dim):
        self.nodes, self.cells, self.dim = nodes, cells, dim

    @property
    def nnode(self):
        return len(self.nodes)

    @property
    def ncell(self):
        return len(self.cells)

    def faces(self):
        """dict  frozenset(nodes) -> list of (cell, oriented outward face)"""
        if getattr(self, '_big', None) and self._big[0] == (len(self.cells), id(self.cells)):
            return self._big[1]
        out = {}
        for i, (etype, nodes) in enumerate(self.cells):
            for f in OUT_FACES[etype]:
                face = [nodes[j] for j in f]
                out.setdefault(frozenset(face), []).append((i, face))
        if self.ncell > 2000:  # kept for large meshes
            self._big = (len(self.cells), id(self.cells)), out
        return out

    def boundary(self):
        return {k: v[0] for k, v in self.faces().items() if len(v) == 1}

    def types(self):
        return sorted({t for t, _ in self.cells})

    def by_type(self, order_seed=0):
        """OrderedDict-like list of (etype, [global index], [[nodes]])"""
        types = []
        for t, _ in self.cells:
            if t not in types:
                types.append(t)
        if order_seed:
            random.Random(order_seed).shuffle(types)
        return [
            (t, [i for i, c in enumerate(self.cells) if c[0] == t], [list(c[1]) for c in self.cells if c[0] == t])
            for t in types
        ]

    def volumes(self):
        """volumes by divergence theorem with faces split from their centroid"""
        vol = np.zeros(self.ncell)
        for etype, index, conn in self.by_type():
            x = self.nodes[np.array(conn)]
            x = x - x[:, :1]  # exact enough for small cells far from the origin
            for f in OUT_FACES[etype]:
                p = x[:, f]
                c = p.mean(axis=1)
                for k in range(len(f)):
                    vol[index] += np.einsum('ij,ij->i', c, np.cross(p[:, k], p[:, (k + 1) % len(f)])) / 6.0
        return vol


def _perm(n, seed):
    p = list(range(n))
    if seed:
        random.Random(seed).shuffle(p)
    return p


def _geometry(pts, geo, dim):
    """lattice positions -> positions by a small perturbation and an orientation preserving affine map"""
    pts = np.array(pts, dtype=float)
    seed = geo.get('seed', 0)
    if seed:
        r = random.Random(seed)
        if geo.get('pert', 0):
            for p in pts:
                for c in range(dim):
                    p[c] += r.uniform(-0.12, 0.12)
        a = np.diag([r.choice([0.25, 1.0, 3.0, 10.0]) for _ in range(3)])
        if dim == 3:
            th = r.choice([0.0, 0.3, 1.1, 2.5, 4.0])
            for i, j in ((0, 1), (1, 2)):
                rot = np.eye(3)
                rot[i, i] = rot[j, j] = np.cos(th)
                rot[i, j], rot[j, i] = -np.sin(th), np.sin(th)
                a = rot @ a
        pts = pts @ a.T
        t = np.array([r.choice([0.0, -1.5, 7.0]) for _ in range(3)])
        if dim == 2:
            t[2] = 0.0
            pts[:, 2] = 0.0
        pts = pts + t
    if dim == 2:
        pts[:, 2] += geo.get('z', 0.0)
    return pts * 2.0 ** geo.get('size', 0)


def _list(x, n):
    """list of n kinds: given, the same for all, or by a seed ('r...')"""
    if isinstance(x, str):
        r = random.Random(x)
        return [r.choice([0, 0, 1, 2]) for _ in range(n)]
    return [x] * n if isinstance(x, int) else (x or [0] * n)


def build3d(spec):
    nx, ny, nz = spec['n']

    def nid(i, j, k):
        return k + (nz + 1) * (j + (ny + 1) * i)

    pts = [(i, j, k) for i in range(nx + 1) for j in range(ny + 1) for k in range(nz + 1)]
    ijk = list(itertools.product(range(nx), range(ny), range(nz)))
    kind = _list(spec.get('kind'), len(ijk))
    col = _list(spec.get('col'), nx * ny)
    hole = set(spec.get('hole', []))
    if len(hole) >= len(ijk):
        hole = set(sorted(hole)[: len(ijk) - 1])
    blocks = {}
    for c, (i, j, k) in enumerate(ijk):
        if c in hole:
            continue
        nodes = [nid(*t) for t in (
            (i, j, k), (i + 1, j, k), (i + 1, j + 1, k), (i, j + 1, k),
            (i, j, k + 1), (i + 1, j, k + 1), (i + 1, j + 1, k + 1), (i, j + 1, k + 1))]
        iscol = col[j + ny * i]
        blocks[c] = (nodes, iscol, 0 if iscol else kind[c])
    users = {}
    for c, (nodes, iscol, kd) in blocks.items():
        for f in OUT_FACES['hexa8']:
            users.setdefault(frozenset(nodes[x] for x in f), []).append(kd if not iscol else 0)
    cells = []
    for c, (nodes, iscol, kd) in blocks.items():
        if iscol == 1:
            sub = [[0, 1, 2, 4, 5, 6], [0, 2, 3, 4, 6, 7]]
        elif iscol:
            sub = [[0, 1, 3, 4, 5, 7], [1, 2, 3, 5, 6, 7]]
        else:
            sub = None
        if sub:
            cells += [('prism6', [nodes[x] for x in s]) for s in sub]
        elif kd == 0:
            cells.append(('hexa8', nodes))
        else:
            centre = len(pts)
            pts.append(tuple(np.mean([pts[x] for x in nodes], axis=0)))
            for f in OUT_FACES['hexa8']:
                face = [nodes[x] for x in f]
                if kd == 2 and all(u == 2 for u in users[frozenset(face)]):
                    m = face.index(min(face))
                    a, b, cc, d = face[m:] + face[:m]
                    for tri in ((a, b, cc), (a, cc, d)):
                        cells.append(('tetra4', [tri[0], tri[2], tri[1], centre]))
                else:
                    cells.append(('pyra5', face[::-1] + [centre]))
    return _finish(spec, pts, cells, 3)


def build2d(spec):
    nx, ny = spec['n'][:2]

    def nid(i, j):
        return j + (ny + 1) * i

    pts = [(i, j, 0.0) for i in range(nx + 1) for j in range(ny + 1)]
    kind = _list(spec.get('kind'), nx * ny)
    hole = set(spec.get('hole', []))
    if len(hole) >= nx * ny:
        hole = set(sorted(hole)[: nx * ny - 1])
    cells = []
    for c, (i, j) in enumerate(itertools.product(range(nx), range(ny))):
        if c in hole:
            continue
        a, b, cc, d = nid(i, j), nid(i + 1, j), nid(i + 1, j + 1), nid(i, j + 1)
        if kind[c] == 0:
            cells.append(('quad4', [a, b, cc, d]))
        elif kind[c] == 1:
            cells += [('tri3', [a, b, cc]), ('tri3', [a, cc, d])]
        else:
            cells += [('tri3', [a, b, d]), ('tri3', [b, cc, d])]
    return _finish(spec, pts, cells, 2)


def _crack(pts, cells, seed):
    """some cells have their own copies of (some of) their nodes, at the same positions"""
    r = random.Random(seed)
    mine = {c for c in range(len(cells)) if r.random() < 0.5}
    keep = r.choice([0.0, 0.0, 0.3])
    copy = {}
    for n in sorted({n for c in mine for n in cells[c][1]}):
        if r.random() >= keep:
            copy[n] = len(pts) + len(copy)
    pts = np.concatenate([pts, pts[list(copy)].reshape(-1, 3)])
    return pts, [(t, [copy.get(n, n) for n in c]) if i in mine else (t, c) for i, (t, c) in enumerate(cells)]


def _finish(spec, pts, cells, dim):
    pts = _geometry(pts, spec.get('geo', {}), dim)
    if spec.get('crack'):
        pts, cells = _crack(pts, cells, spec['crack'])
    used = sorted({n for _, c in cells for n in c})
    if spec.get('orphan'):
        r = random.Random(int(spec['orphan']))  # nodes of no cell: those of holes, and others
        pts = np.concatenate([pts] + [[pts[r.randrange(len(pts))] + [31.0 * (k + 1), 0.0, 0.0]] for k in range(r.randint(0, 3))])
        used = list(range(len(pts)))
    p = _perm(len(used), spec.get('nperm', 0))
    newid = {old: p[i] for i, old in enumerate(used)}
    nodes = np.empty((len(used), 3))
    for old, new in newid.items():
        nodes[new] = pts[old]
    rs = spec.get('rot', 0)
    r = random.Random(rs)
    out = []
    for t, c in cells:
        s = r.choice(SYM[t]) if rs else range(len(c))
        out.append((t, [newid[c[x]] for x in s]))
    q = _perm(len(out), spec.get('cperm', 0))
    out = [out[x] for x in q]
    return GMesh(nodes, out, dim)


def unsized(strategy):
    """meshes of ordinary sizes, for functions with an absolute tolerance"""
    return strategy.map(lambda s: dict(s, geo={k: v for k, v in s['geo'].items() if k != 'size'}))


def build(spec):
    return build3d(spec) if spec['dim'] == 3 else build2d(spec)


_seed = st.one_of(st.just(0), st.integers(1, 10**6))
_many = st.sampled_from([0] * 7 + [12])
_height = st.sampled_from([0.0, 0.0, 0.0, 2.5])
_size = st.sampled_from([0, 0, 0, 0, -30, 20])  # power of 2 of the size of the mesh


@st.composite
def spec3d(draw, maxn=3, maxcell=12, types='all', pert=True, minn=1, orphan=False):
    n = [draw(st.integers(minn, maxn)) for _ in range(3)]
    while n[0] * n[1] * n[2] > maxcell:
        n[n.index(max(n))] -= 1
    nb = n[0] * n[1] * n[2]
    spec = {'dim': 3, 'n': n}
    mode = draw(st.sampled_from(['hexa', 'mixed', 'mixed', 'prism', 'tetra'] if types == 'all' else types))
    if mode == 'mixed':
        spec['kind'] = draw(st.lists(st.sampled_from([0, 0, 1, 2, 2]), min_size=nb, max_size=nb))
        spec['col'] = draw(st.lists(st.sampled_from([0, 0, 1, 2]), min_size=n[0] * n[1], max_size=n[0] * n[1]))
    elif mode == 'prism':
        spec['col'] = draw(st.lists(st.sampled_from([1, 2]), min_size=n[0] * n[1], max_size=n[0] * n[1]))
    elif mode == 'tetra':
        spec['kind'] = [2] * nb
    if nb > 1 and draw(st.integers(0, 3)) == 0:
        spec['hole'] = draw(st.lists(st.integers(0, nb - 1), max_size=max(1, nb // 3), unique=True))
    spec['nperm'], spec['cperm'], spec['rot'] = draw(_seed), draw(_seed), draw(_seed)
    spec['geo'] = {'seed': draw(_seed), 'pert': int(pert and draw(st.booleans()))}
    size = draw(_size)
    if size:
        spec['geo']['size'] = size
    if draw(st.integers(0, 2 if orphan else 5)) == 0:
        spec['orphan'] = draw(st.integers(1, 1000))
    if draw(st.integers(0, 5)) == 0:
        spec['crack'] = draw(st.integers(1, 1000))
    return spec


@st.composite
def spec2d(draw, maxn=4, maxcell=16):
    n = [draw(st.integers(1, maxn)) for _ in range(2)]
    while n[0] * n[1] > maxcell:
        n[n.index(max(n))] -= 1
    nb = n[0] * n[1]
    spec = {'dim': 2, 'n': n, 'kind': draw(st.lists(st.sampled_from([0, 0, 1, 2]), min_size=nb, max_size=nb))}
    if nb > 1 and draw(st.integers(0, 3)) == 0:
        spec['hole'] = draw(st.lists(st.integers(0, nb - 1), max_size=max(1, nb // 3), unique=True))
    spec['nperm'], spec['cperm'], spec['rot'] = draw(_seed), draw(_seed), draw(_seed)
    spec['geo'] = {'seed': draw(_seed), 'pert': int(draw(st.booleans())), 'z': draw(_height)}
    size = draw(_size)
    if size:
        spec['geo']['size'] = size
    if draw(st.integers(0, 5)) == 0:
        spec['orphan'] = draw(st.integers(1, 1000))
    if draw(st.integers(0, 5)) == 0:
        spec['crack'] = draw(st.integers(1, 1000))
    return spec


def _big(dim, shapes):
    return st.fixed_dictionaries({
        'dim': st.just(dim), 'shape': st.sampled_from(shapes), 'nperm': _seed, 'cperm': _seed, 'rot': _seed,
        'geo': st.fixed_dictionaries({'seed': _seed, 'pert': st.just(0)}),
    }).map(lambda d: dict({k: v for k, v in d.items() if k != 'shape'}, **d['shape']))


def big3d(types='all'):
    """more nodes, cells or faces than 16 bits can number"""
    hexa = [{'n': [1, 17000, 1]}, {'n': [9000, 1, 1]}, {'n': [33, 33, 33]}, {'n': [2, 2, 7400]}]
    rest = [{'n': [1, 1, 3000], 'kind': 2}, {'n': [1, 17000, 1], 'col': 1}, {'n': [1, 1, 6000], 'kind': 'r1'}, {'n': [80, 80, 1], 'kind': 'r2', 'col': 'r3'}]
    return _big(3, hexa if types == 'hexa' else rest + hexa)


def big2d():
    return _big(2, [{'n': [1, 33000]}, {'n': [17000, 1], 'kind': 1}, {'n': [260, 260]}, {'n': [150, 150], 'kind': 'r4'}])


def mid():
    """some hundreds or thousands of cells"""
    return st.one_of(
        _big(2, [{'n': [20, 30]}, {'n': [40, 60], 'kind': 'r4'}, {'n': [1, 700], 'kind': 1}]),
        _big(3, [{'n': [8, 9, 10]}, {'n': [1, 1, 200], 'kind': 'r1'}, {'n': [12, 12, 1], 'kind': 'r2', 'col': 'r3'}, {'n': [2, 600, 1]}]),
    )


def bigmarks(names):
    return st.fixed_dictionaries({'how': st.just('slabs'), 'seed': st.integers(0, 1000), 'names': st.just(names)})


# ------------------------------------------------------------------ marks


def _slabs(gm, keys, names, r):
    """marks of large meshes: slabs along the longest direction, the last one is not marked"""
    ctr = np.array([gm.nodes[sorted(k)].mean(axis=0) for k in keys])
    x = ctr @ np.linalg.svd(ctr - ctr.mean(axis=0), full_matrices=False)[2][0]
    slab = np.searchsorted(np.quantile(x, np.linspace(0, 1, len(names) + 2)[1:-1]), x)
    at = {}
    for k in keys:
        for n in k:
            at.setdefault(n, []).append(k)
    owned, marks = set(), []
    for i, name in enumerate(names):
        mine = [k for k, s in zip(keys, slab) if s == i and k not in owned]
        while mine:
            nodes = set().union(*mine)
            closure = {k for n in nodes for k in at[n] if k <= nodes}
            clash = set().union(*[k for k in closure if k in owned])
            if not clash:
                break
            mine = [k for k in mine if not k & clash]
        if mine:
            owned |= closure
            nodelist = sorted(nodes)
            r.shuffle(nodelist)
            marks.append((name, nodelist, closure))
    return marks


def make_marks(gm, mspec):
    """split boundary faces in marks given by node sets whose closed sets of boundary faces are disjoint

    mspec: {'how': 'random'|'sides'|'none', 'n': number of labels, 'seed': int, 'names': [...]}
    returns list of (name, sorted node list, set of frozenset faces); boundary faces not listed are unmarked
    """
    bd = gm.boundary()
    keys = sorted(bd, key=lambda k: sorted(k))
    how, nb = mspec['how'], len(mspec['names'])
    r = random.Random(mspec.get('seed', 0))
    if how == 'slabs':
        return _slabs(gm, keys, mspec['names'], r)
    label = {}
    for k in keys:
        if how == 'none':
            label[k] = None
        elif how == 'random':
            x = r.randrange(nb + 1)
            label[k] = None if x == nb else x
        else:
            p = gm.nodes[sorted(k)]
            d = p.max(axis=0) - p.min(axis=0)
            ext = gm.nodes.max(axis=0) - gm.nodes.min(axis=0)
            ax = int(np.argmin(d / np.where(ext > 0, ext, 1)))
            mid = 0.5 * (gm.nodes[:, ax].max() + gm.nodes[:, ax].min())
            label[k] = (2 * ax + int(p[:, ax].mean() > mid)) % (nb + 1)
            if label[k] == nb:
                label[k] = None
    owned, marks = set(), []
    for i, name in enumerate(mspec['names']):
        mine = [k for k in keys if label[k] == i and k not in owned]
        while mine:
            nodes = set().union(*mine)
            closure = {k for k in keys if k <= nodes}
            clash = closure & owned
            if not clash:
                break
            mine.pop()  # reduce until closed set is free
        if not mine:
            continue
        owned |= closure
        nodelist = sorted(nodes)
        r.shuffle(nodelist)
        marks.append((name, nodelist, closure))
    return marks


plainname = values.text('abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-', 1, 12).filter(
    lambda s: s not in ('fluid', 'internal-domain', 'int_fluid') and not s.startswith('DEOF')
)
# including names given by the library to the marks it adds
markname = st.integers(0, 9).flatmap(
    lambda i: plainname if i else st.sampled_from(['unmarked', 'unmarked_', 'unmarked_faces', 'fluid0', 'fluid1', 'fluid_0', '50%', '%d%s', '{0}{x}', '{'])
)


@st.composite
def markspec(draw, maxmarks=4):
    return {
        'how': draw(st.sampled_from(['random', 'sides', 'none', 'sides'])),
        'seed': draw(st.integers(0, 10**6)),
        'names': draw(st.lists(markname, min_size=1, max_size=maxmarks + draw(_many), unique=True)),
    }

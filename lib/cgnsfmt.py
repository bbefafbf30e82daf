"""independent writer of CGNS/HDF5 files (bases of unstructured zones) of generated meshes, with h5py"""
import random

import h5py
import numpy as np
from hypothesis import strategies as st

from lib import meshgen, values

CODE = {'node1': 2, 'bar2': 3, 'tri3': 5, 'quad4': 7, 'hexa8': 17}
FACE = {2: 'bar2', 3: 'tri3', 4: 'quad4'}


class Described:
    pass


def _node(parent, name, label, data=None, typ='MT'):
    g = parent.create_group(name)
    g.attrs['label'] = np.bytes_(label)
    g.attrs['name'] = np.bytes_(name)
    g.attrs['type'] = np.bytes_(typ)
    g.attrs['flags'] = np.array([1], dtype=np.int32)
    if data is not None:
        g.create_dataset(' data', data=data)
    return g


def _chars(s):
    return np.frombuffer(s.encode(), dtype=np.int8)


def write(spec, fn):
    with h5py.File(fn, 'w') as f:
        _root(f)
        return _write_zone(f, spec)


def write_zones(specs, fn):
    """several zones, those of a dimension in a base; returns list of (name, description)"""
    with h5py.File(fn, 'w') as f:
        _root(f)
        return [(spec['zone'], _write_zone(f, spec)) for spec in specs]


def _root(f):
    f.attrs['label'] = np.bytes_(b'Root Node of HDF5 File')
    f.create_dataset(' format', data=_chars('IEEE_LITTLE_32\0'))
    f.create_dataset(' hdf5version', data=_chars('HDF5 Version 1.8.4\0'))
    _node(f, 'CGNSLibraryVersion', b'CGNSLibraryVersion_t', np.array([3.2], dtype=np.float32), 'R4')


def _write_zone(f, spec):
    r = random.Random(spec['seed'])
    gm = meshgen.build(spec['g'])
    marks = meshgen.make_marks(gm, spec['marks'])
    d = Described()
    if spec['real'] == 'R4':
        gm.nodes = gm.nodes.astype(np.float32).astype(float)
    d.gm, d.marks, d.expected = gm, marks, {}
    it = np.int64 if spec['int'] == 'I8' else np.int32
    bd = gm.boundary()
    # sections: (type, list of connectivities, mark or None)
    sections = []
    for t, idx, nodes in gm.by_type(spec['seed'] % 7):
        pos = 0
        while pos < len(nodes):
            n = len(nodes) if spec['one'] else r.randint(1, len(nodes))
            sections.append([t, nodes[pos:pos + n], 'cells'])
            pos += n
    loc = {}
    for i, (name, nodes, faces) in enumerate(marks):
        loc[i] = spec['loc'][i % len(spec['loc'])]
        if loc[i] in ('face', 'element') or r.random() < 0.4:
            for t in sorted({FACE[len(f)] for f in faces}):
                sections.append([t, [bd[f][1] for f in sorted(faces, key=sorted) if FACE[len(f)] == t], i])
    if spec['low']:
        sections.append(['node1', [[r.randrange(gm.nnode)]], 'low'])
        if gm.dim == 3:
            sections.append(['bar2', [bd[f][1][:2] for f in sorted(bd, key=sorted)[:2]], 'low'])
    if spec['order'] == 'shuffled':
        r.shuffle(sections)
    elif spec['order'] == 'faces first':
        sections.sort(key=lambda s: s[2] == 'cells')
    start, element = 1, {}
    for s in sections:
        s.append(start)
        for k, c in enumerate(s[1]):
            if isinstance(s[2], int):
                element.setdefault(s[2], []).append(start + k)
        start += len(s[1])
    # cells in the order of element numbers
    d.numbered = [(s[0], c) for s in sections if s[2] == 'cells' for c in s[1]]
    base = f.get(spec['base'])
    if base is None:
        base = _node(f, spec['base'], b'CGNSBase_t', np.array([gm.dim, 3], dtype=np.int32), 'I4')
    if spec['families']:
        for mk in marks:
            if 'fam ' + mk[0] not in base:
                _node(base, 'fam ' + mk[0], b'Family_t')
    zone = _node(base, spec['zone'], b'Zone_t', np.array([[gm.nnode], [gm.ncell], [0]], dtype=it))
    _node(zone, 'ZoneType', b'ZoneType_t', _chars('Unstructured'), 'C1')
    gc = _node(zone, 'GridCoordinates', b'GridCoordinates_t')
    for i, c in enumerate('XYZ'):
        _node(gc, 'Coordinate' + c, b'DataArray_t', gm.nodes[:, i].astype('f4' if spec['real'] == 'R4' else 'f8'))
    labels = r.sample(range(300), len(sections))
    for lab, (t, conn, kind, first) in zip(labels, sections):
        s = _node(zone, f'sec{lab}', b'Elements_t', np.array([CODE[t], 0], dtype=np.int32), 'I4')
        _node(s, 'ElementRange', b'IndexRange_t', np.array([first, first + len(conn) - 1], dtype=it))
        _node(s, 'ElementConnectivity', b'DataArray_t', np.array(conn, dtype=it).ravel() + 1)
    zbc = _node(zone, 'ZoneBC', b'ZoneBC_t') if marks and not all(spec['gc']) or spec['emptybc'] else None
    zgc = _node(zone, 'ZoneGridConnectivity', b'ZoneGridConnectivity_t') if marks and any(spec['gc']) else None
    count = [0, 0]
    for i, (name, nodes, faces) in enumerate(marks):
        # a mark may be given by several conditions of the same family
        if loc[i] == 'vertex':
            lst = [n + 1 for n in nodes]
            exact = set(nodes)
        else:
            lst = list(element[i])
            exact = {n for f in faces for n in f}
        r.shuffle(lst)
        family = spec['families']
        parts = [lst]
        if family and len(lst) > 1 and spec['split']:
            k = r.randint(1, len(lst) - 1)
            parts = [lst[:k], lst[k:]]
        for part in parts:
            isgc = zgc is not None and (zbc is None or spec['gc'][i % len(spec['gc'])])
            count[isgc] += 1  # names are distinct in a group, but may be the same in both
            bcname = f'bc{count[isgc]}' if family else name
            if isgc:
                bc = _node(zgc, bcname, b'GridConnectivity_t', _chars('donor'), 'C1')
            else:
                bc = _node(zbc, bcname, b'BC_t', _chars(r.choice(['BCWall', 'FamilySpecified', 'Null'])), 'C1')
            arr = np.array(part, dtype=it)
            arr = [arr.reshape(-1, 1), arr.reshape(1, -1), arr][spec['seed'] % 3]
            if loc[i] == 'element' and len(part) != gm.ncell:
                _node(bc, 'ElementList', b'IndexArray_t', arr)
            else:
                _node(bc, 'PointList', b'IndexArray_t', arr)
                if loc[i] != 'vertex':
                    _node(bc, 'GridLocation', b'GridLocation_t', _chars('FaceCenter'), 'C1')
                elif r.random() < 0.5:
                    _node(bc, 'GridLocation', b'GridLocation_t', _chars('Vertex'), 'C1')
            if family:
                _node(bc, 'FamilyName', b'FamilyName_t', _chars(name), 'C1')
        d.expected[name] = None if loc[i] == 'vertex' and any(len(p) == gm.nnode for p in parts) else sorted(exact)
    return d


groupname = values.text('abcXYZ019_-. #', 1, 12).filter(lambda s: s.strip('. ') == s and s)
h5name = values.text('abcXYZ019_-# ', 1, 8).filter(lambda s: s.strip() == s and s and s not in ('CGNSLibraryVersion',))


@st.composite
def spec(draw, maxcell=6, dims=(2, 3), big=False):
    dim = draw(st.sampled_from(dims))
    g = draw(meshgen.spec2d(maxcell=maxcell) if dim == 2 else meshgen.spec3d(maxcell=maxcell, types=['hexa']))
    m = {
        'how': draw(st.sampled_from(['random', 'sides', 'sides'])), 'seed': draw(st.integers(0, 10**6)),
        'names': draw(st.lists(groupname, min_size=1, max_size=5 + draw(meshgen._many), unique=True)),
    }
    long = draw(st.sampled_from([''] * 5 + ['a name longer than most names of ', 'x' * 100]))
    m['names'] = [long + n for n in m['names']]
    if big:
        g = draw(st.one_of(meshgen.big3d(types='hexa'), meshgen.big2d()))
        m = draw(meshgen.bigmarks(['in', 'out 1', 'wall']))
    return {
        'g': g, 'marks': m, 'seed': draw(st.integers(0, 10**6)), 'real': draw(st.sampled_from(['R8', 'R8', 'R4'])),
        'int': draw(st.sampled_from(['I4', 'I8'])), 'one': draw(st.booleans()),
        'order': draw(st.sampled_from(['cells first', 'faces first', 'shuffled', 'shuffled'])),
        'loc': draw(st.lists(st.sampled_from(['vertex', 'face', 'element']), min_size=1, max_size=4)),
        'gc': draw(st.sampled_from([[False], [False], [False, True], [True]])), 'families': draw(st.booleans()),
        'split': draw(st.booleans()), 'low': draw(st.booleans()), 'emptybc': draw(st.booleans()),
        'base': draw(h5name), 'zone': draw(h5name),
    }

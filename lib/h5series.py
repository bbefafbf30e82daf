"""independent reading of cfdtools HDF5 dumps, and matching with a generated mesh"""
import h5py
import numpy as np

from lib import cfdmesh, vtkgen
from lib.fw import require


def read_mesh(group):
    nodes = group['nodes'][()]
    cells = {t: d[()].tolist() for t, d in group['cells'].items()}
    order = sorted(cells, key=vtkgen.VTK.get)
    return nodes, cells, [(t, c) for t in order for c in cells[t]]


def match(gm, nodes, cells, what):
    """gm cell of each of the cells (list of (type, nodes)), by exact positions; bijection"""
    at = {k: i for i, k in enumerate(cfdmesh.node_keys(gm.nodes, gm.cells))}
    if not isinstance(next(iter(at))[0], float):  # several nodes at the same position
        got = cfdmesh.node_keys(nodes, cells, True)
    else:
        got = cfdmesh.node_keys(nodes, cells, False)
    ids = []
    for p in got:
        require(p in at, f'{what}: {p} is not a node of the grid')
        ids.append(at[p])
    key = {(t, frozenset(c)): i for i, (t, c) in enumerate(gm.cells)}
    out = []
    for t, c in cells:
        k = (t, frozenset(ids[n] for n in c))
        require(k in key, f'{what}: {t} {c} is not a cell of the grid')
        out.append(key[k])
    require(sorted(out) == list(range(gm.ncell)), f'{what}: cells {out}')
    return out


def series(fn):
    """(attributes, mesh, list of (attributes, data))"""
    with h5py.File(fn, 'r') as f:
        attrs = dict(f.attrs)
        mesh = read_mesh(f['mesh'])
        require(f['mesh'].attrs['meshtype'] == 'unsmesh', 'meshtype')
        data = []
        for i, name in enumerate(sorted(f['datalist'])):
            require(name == f'i{i:06d}', f'group {name} of data')
            g = f['datalist'][name]
            data.append((dict(g.attrs), {k: d[()] for k, d in g.items()}))
    return attrs, mesh, data

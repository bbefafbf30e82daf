"""pyvista grids of generated meshes, built by the checker"""
import random

import numpy as np
from hypothesis import strategies as st

from lib import values
from lib.fw import require

VTK = {'bar2': 3, 'tri3': 5, 'quad4': 9, 'tetra4': 10, 'hexa8': 12, 'prism6': 13, 'pyra5': 14}
ELE = {v: k for k, v in VTK.items()}


def grid(gm, dtype='f8', data=None):
    """UnstructuredGrid of the cells of gm in their order; data: name -> array"""
    import pyvista as pv

    cells, types = [], []
    for t, c in gm.cells:
        cells += [len(c)] + list(c)
        types.append(VTK[t])
    g = pv.UnstructuredGrid(np.array(cells, dtype=np.int64), np.array(types, dtype=np.uint8), gm.nodes.astype(dtype))
    for k, v in (data or {}).items():
        g.cell_data[k] = v
    return g


def cells_of_grid(g):
    """list of (type, nodes) in the order of the grid"""
    out, conn, off, types = [], g.cell_connectivity.tolist(), g.offset.tolist(), g.celltypes.tolist()
    require(len(off) == len(types) + 1, 'offsets of the grid')
    for i, t in enumerate(types):
        out.append((ELE[t], conn[off[i]:off[i + 1]]))
    return out


def permuted(gm, seed):
    """same mesh with nodes and cells numbered otherwise: (GMesh, cell order, node order)

    new cell i is cell order[i] of gm, new node j is node norder[j] of gm"""
    from lib.meshgen import SYM, GMesh

    if not seed:
        return gm, list(range(gm.ncell)), list(range(gm.nnode))
    r = random.Random(seed)
    corder, norder = list(range(gm.ncell)), list(range(gm.nnode))
    what = seed % 4
    for order, used in ((corder, what != 1), (norder, what != 2)):
        if used and seed // 4 % 3 == 0 and len(order) > 1:  # nearly the same order
            for _ in range(r.randint(1, 3)):
                i, j = r.sample(range(len(order)), 2)
                order[i], order[j] = order[j], order[i]
        elif used:
            r.shuffle(order)
    new = {old: i for i, old in enumerate(norder)}
    cells = []
    for i in corder:
        t, c = gm.cells[i]
        if what == 3 and t not in ('prism6', 'pyra5'):  # VTK centres of these depend on the first node (1e-6)
            c = [c[k] for k in r.choice(SYM[t])]
        cells.append((t, [new[n] for n in c]))
    return GMesh(gm.nodes[norder], cells, gm.dim), corder, norder


def sorted_cells(gm):
    """stable order of cells by VTK type"""
    return sorted(range(gm.ncell), key=lambda i: VTK[gm.cells[i][0]])


varname = st.one_of(
    values.text('abcXYZ019_', 1, 6), values.text('abcXYZ019_', 1, 6), values.text('aBU1_ .-+%:\'\\é∂<>&"', 1, 6).map(str.strip),
).filter(lambda s: s.strip('.') and s not in ('time', 'TimeValue') and not s.startswith('vtk'))


def fit(names, ext):
    """VTK itself loses data whose name has one of <>&" in its XML files"""
    return {k.translate({ord(c): '~' for c in '<>&"'}) if ext != '.vtk' else k: v for k, v in names.items()}


# name -> kind of values
variables = st.dictionaries(
    varname,
    st.fixed_dictionaries({
        'n': st.sampled_from([0, 0, 2, 3, 9]), 't': st.sampled_from(['f8', 'f8', 'f8', 'f4', 'i8', 'i4', 'u1']), 's': st.integers(0, 10**6),
    }),
    max_size=3,
)


def values_of(spec, ncell, shift=0):
    a = values.array({'k': 'wide' if spec['t'] == 'f8' else 'int', 's': spec['s'] + 7919 * shift}, (ncell,) if spec['n'] == 0 else (ncell, spec['n']))
    if spec['t'] != 'f8':
        a = a + np.arange(a.size).reshape(a.shape)
    return a.astype(spec['t'])

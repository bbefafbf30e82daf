"""IC3 V4 (HDF5): documented content and round trip"""
import os

import h5py
import numpy as np
from hypothesis import strategies as st

from lib import ic3model
from lib.fw import Case, require, same_array
from lib.ic3fmt import KIND

PROPERTY = 'C06'
RULE = (
    'Contents with conserved variables, 0 to 3 statistics, weights, 1-4 zones (names up to 128 bytes of UTF-8) and data that the format does not hold are '
    'written by the library as a pair of HDF5 files (or a mesh file alone), decoded with h5py against the documented '
    'layout and read back by the library. Non-trivial: at least 2 faces and 2 zones, or statistics.'
)
TECHNIQUE = 'property-based testing (Hypothesis): independent decoding with h5py and round trip'
NOTE = 'random contents (up to 14 faces or small conforming meshes); a few large meshes (sizes over 16 bits)'


def text(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def check_mesh_file(m, fn, withprop):
    with h5py.File(fn, 'r') as f:
        for k, v in (('no_count', m.nnode), ('fa_count', m.nface), ('cv_count', m.ncell), ('ic3_format_version', 4)):
            require(int(f.attrs[k]) == v, f'attribute {k} is {f.attrs[k]} instead of {v}')
        require(text(f.attrs['meshtype']) == 'unstructured', 'meshtype')
        d = f['coordinates']
        require(d.dtype == np.float64, f'coordinates are {d.dtype}')
        same_array(np.asarray(m.coords).ravel(), d[()], 'coordinates')
        face = f['Connectivities/Face']
        for k, ref in (
            ('cvofa', np.asarray(m.f2c).ravel()), ('noofa_i', np.array([len(x) for x in m.faces])),
            ('noofa_v', np.array([n for x in m.faces for n in x])),
        ):
            require(face[k].dtype == np.int32, f'{k} is {face[k].dtype}')
            same_array(ref, face[k][()], k)
        b = f['Boundaries']
        zones = sorted(m.zones, key=lambda z: z[2])
        labels = [text(x) for x in b['labels'][()]]
        require(labels == [z[0] for z in zones] + ['internal-domain'], f'labels {labels}')
        require(b['kinds'][()].tolist() == [KIND[z[1]] for z in zones] + [6], f'kinds {b["kinds"][()]}')
        offsets = [z[2] for z in zones] + [zones[-1][3] + 1, m.nface]
        require(b['offsets'][()].tolist() == offsets, f'offsets {b["offsets"][()]} instead of {offsets}')
        require(all(b[k].dtype == np.int32 for k in ('kinds', 'offsets')), 'types of kinds and offsets')
        groups = {k for k in b if isinstance(b[k], h5py.Group)}
        require(groups == set(withprop), f'groups {groups} instead of {withprop}')
        for name in withprop:
            rd = {z[0]: z[4] for z in zones}[name]
            same_array(np.array(rd[:3], float), b[name]['periodic_transform'][()], f'periodic transform of {name}')


def check_solution_file(m, fn):
    with h5py.File(fn, 'r') as f:
        require(int(f.attrs['step']) == m.step, f'step {f.attrs["step"]}')
        ic3model.same_value(m.time, f.attrs['time'], 'time')
        stats = {k for k in m.celldata if ic3model.is_stat(k)}
        require(set(f) == {'rho', 'rhou', 'rhoe'} | ({'VolumeStats'} if stats else set()), f'datasets {set(f)}')
        for k in ('RHO', 'RHOU', 'RHOE'):
            require(f[k.lower()].dtype == np.float64, 'type')
            same_array(m.celldata[k].ravel(), f[k.lower()][()], k)
        if stats:
            g = f['VolumeStats']
            require(set(g) == {k.lower() for k in stats}, f'statistics {set(g)}')
            for k in stats:
                same_array(m.celldata[k].ravel(), g[k.lower()][()], k)
            require({k: float(v) for k, v in g.attrs.items()}.keys() == {k + '_wgt' for k in m.wgt}, 'weights')
            for k, v in m.wgt.items():
                ic3model.same_value(v, g.attrs[k + '_wgt'], f'weight {k}')


def rename(zones, how):
    """names of up to 128 bytes of UTF-8 (V2 and V3 only have 52 bytes)"""
    out = []
    for i, z in enumerate(zones):
        name = z['name']
        if how >> i & 1:
            add = [f'_{i}' + 'x' * 128, f'_{i} entrée', f'Ω{i}', f' {i} ', f'\t{i}\n']
            name = (name + add[(how >> 4) % 5]).encode()[:128].decode('utf-8', 'ignore')
        out.append(dict(z, name=name))
    assert len({z['name'] for z in out}) == len(zones)
    return out


def check(spec, ctx):
    from cfdtools.ic3 import readerV4, writerV4

    m = ic3model.make(dict(spec['m'], zones=rename(spec['m']['zones'], spec.get('names', 0))))
    mesh = ic3model.to_mesh(m, spec['o'])
    withprop = [n for n, b in mesh._bocos.items() if 'periodic_transform' in b.properties]
    fm, fs = ctx.path('mesh.h5'), ctx.path('sol.h5')
    w = writerV4.writer(mesh)
    if spec['over']:  # existing files are replaced, not completed
        for fn in (fm, fs):
            with h5py.File(fn, 'w') as f:
                f['rho'] = np.zeros(1000)
                f['Boundaries/old/periodic_transform'] = np.zeros(3)
                f['VolumeStats/rho_avg'] = np.zeros(7)
                f['VolumeStats/old_avg'] = np.zeros(7)
                f['VolumeStats'].attrs['OLD_AVG_wgt'] = 3.0
                f['Connectivities/Cell/hexa8'] = np.zeros((1, 8), int)
                f.attrs['step'] = 99
    w.write_data(fm, fs if spec['sol'] else None)
    if not spec['over']:
        require(os.path.exists(fs) == spec['sol'], 'solution file')
    ic3model.reduce_v4(m)
    check_mesh_file(m, fm, withprop)
    if spec['sol']:
        check_solution_file(m, fs)
        r = readerV4.reader(fm, fs)
        r.read_data()
        require(r.ncell == m.ncell, 'ncell')
        out = r.export_mesh()
        ic3model.compare_mesh(m, out, rd=0, dt=False, partition=False, internal=(max(z[3] for z in m.zones) + 1, m.nface - 1))
        ic3model.transforms(m, out)
    r = readerV4.reader(fm)
    r.read_data()
    require(r.ncell == m.ncell, 'ncell')
    out = r.export_mesh()
    m.step, m.time, m.wgt, m.celldata = 0, 0, {}, {}
    ic3model.compare_mesh(m, out, rd=0, dt=False, partition=False)
    ic3model.transforms(m, out)
    stats = [d for d in spec['m']['cell'] if ic3model.is_stat(d['name'])]
    ctx.nontrivial = m.nface > 1 and (len(m.zones) > 1 or bool(stats))
    ctx.label(f'stats{len(stats)}', f'zones{len(m.zones)}', 'solution' if spec['sol'] else 'mesh only')


CASES = [
    Case('v4', st.fixed_dictionaries({
        'm': ic3model.v4_spec(), 'o': st.integers(0, 100), 'sol': st.sampled_from([True, True, True, False]),
        'over': st.sampled_from([False, False, True]), 'names': st.one_of(st.just(0), st.integers(0, 79)),
    }), check, quick=500, thorough=10000),
    Case('big', st.fixed_dictionaries({
        'm': ic3model.v4_spec(big=True), 'o': st.integers(0, 100), 'sol': st.just(True), 'over': st.booleans(),
    }), check, quick=6, thorough=100),
]

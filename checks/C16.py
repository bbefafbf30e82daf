"""CGNS reader"""
from hypothesis import strategies as st

from checks.C14 import check_faces, check_mesh
from lib import cfdmesh, cgnsfmt
from lib.fw import Case, fail, require

PROPERTY = 'C16'
RULE = (
    'CGNS/HDF5 files written by the checker with h5py from conforming 2D (tri, quad) and hexahedral meshes: sections in any order '
    'and split, 32 and 64 bit integers, 32 and 64 bit reals, sections of lower dimensions, conditions given by vertices, faces or '
    'elements, as BC or grid connectivity, named by themselves (with the same names in both groups) or by family (several per family). One or two files are open at the '
    'same time and exported in turn. Files of several zones (and of a 2D and a 3D base), each zone being asked by its name in any '
    'order by one or several readers; without a name they are refused. Non-trivial: a mark and at least 2 sections of cells or a mark given by faces.'
)
TECHNIQUE = 'property-based testing (Hypothesis): independent writer, comparison with the described mesh'
NOTE = 'random meshes up to 6 blocks; a few large meshes (sizes over 16 bits)'


def check(spec, ctx):
    from cfdtools.cgns.cgns import cgnsMesh

    opened = []
    for i, s in enumerate(spec['files']):
        fn = ctx.path(f'mesh{i}.cgns')
        d = cgnsfmt.write(s, fn)
        r = cgnsMesh(fn, cIntegrity=bool(s['seed'] % 2)) if s['seed'] % 3 else cgnsMesh(fn)
        r.read_data()
        require(r.ncell == d.gm.ncell, f'reader counts {r.ncell} cells')
        opened.append((r, d, s))
    exports(opened, ctx)


def check_zones(spec, ctx):
    from cfdtools.cgns.cgns import cgnsMesh

    specs, names = [], set()
    for s in spec['zones']:
        name = s['zone'] + ('' if s['zone'] not in names else f' {len(names)}')
        names.add(name)
        specs.append(dict(s, zone=name, base=spec['bases'][s['g']['dim'] - 2]))
    fn = ctx.path('mesh.cgns')
    zones = cgnsfmt.write_zones(specs, fn)
    if len(zones) > 1:
        r = cgnsMesh(fn)
        try:
            r.read_data()
        except Exception:
            pass
        else:
            fail(f'a zone is chosen among {len(zones)}')
        r._file.close()
    opened, one = [], cgnsMesh(fn)
    for i in spec['order']:
        k = i % len(zones)
        r = one if i > 5 else cgnsMesh(fn)
        r.read_data(zone=zones[k][0])
        require(r.ncell == zones[k][1].gm.ncell, f'reader counts {r.ncell} cells')
        if r is one:
            exports([(r, zones[k][1], specs[k])], ctx)
        else:
            opened.append((r, zones[k][1], specs[k]))
    exports(opened, ctx)
    if hasattr(one, '_file'):
        one._file.close()
    ctx.count = 2 * len(spec['order'])
    dims = {d.gm.dim for _, d in zones}
    ctx.nontrivial = len(zones) > 1
    ctx.label(f'{len(zones)} zones', f'{len(dims)} bases')


def exports(opened, ctx):
    for again in (False, True):
        for r, d, s in opened:
            mesh = r.export_mesh()
            before = cfdmesh.cells_of(mesh)
            ids, order, marks = check_mesh(d, mesh, 'CGNS')
            for t in d.gm.types():  # cells of a type keep the order of their element numbers
                got = [[ids[n] for n in c] for tt, c in before if tt == t]
                require(got == [c for tt, c in d.numbered if tt == t], f'{t} are not in the order of elements')
            for name, want in d.expected.items():
                if want is None:  # all nodes of the mesh: taken as an internal mark
                    marks.pop(name, None)
                    continue
                require(name in marks, f'mark {name} is not found in {list(marks)}')
                got = marks.pop(name)
                require(got == want, f'mark {name}: {got} instead of {want}')
            require(not marks, f'unexpected marks {list(marks)}')
            if not again:
                check_faces(d, mesh, ids, order)
            require(cfdmesh.cells_of(mesh) == before, 'cells have changed')
    for r, _, _ in opened:
        r._file.close()
    ctx.count = 2 * len(opened)
    ctx.nontrivial = any(d.marks and (not s['one'] or s['loc'] != ['vertex']) for _, d, s in opened)
    for _, d, s in opened:
        ctx.label(f'{d.gm.dim}D', '+'.join(d.gm.types()), f'marks{len(d.marks)}', s['order'], 'families' if s['families'] else 'names', *s['loc'])


CASES = [
    Case('read', st.fixed_dictionaries({'files': st.lists(cgnsfmt.spec(), min_size=1, max_size=2)}), check, quick=500, thorough=8000),
    Case('zones', st.fixed_dictionaries({
        'zones': st.lists(cgnsfmt.spec(maxcell=4), min_size=1, max_size=4), 'order': st.lists(st.integers(0, 11), min_size=1, max_size=5),
        'bases': st.sampled_from([['Base', 'Other'], ['2D', '3D'], ['b', 'a'], ['Base 2', 'Base']]),
    }), check_zones, quick=100, thorough=2500),
    Case('big', st.fixed_dictionaries({'files': st.lists(cgnsfmt.spec(big=True), min_size=1, max_size=1)}), check, quick=4, thorough=40),
]

"""information printed about meshes and files"""
import ast
import contextlib
import io
import logging
import os
import re

import numpy as np
from hypothesis import strategies as st

from checks.C26 import EXT, FMT, inputs, readers, write_input
from lib import cfdmesh, ic3model, meshgen, values, vtkgen
from lib.fw import Case, Skip, require

PROPERTY = 'C29'
RULE = (
    'Files of all formats written by the checker (IC3 with data, GMSH 2 and 4, CGNS, VTU, VTK), meshes built directly (with faces, '
    'transformed, extruded): the lines printed by cfdinfo, vtkbrief, the conversion tools with --info, printinfo of meshes and of the '
    'IC3 reader, and ranges of variables printed by IC3 readers, are parsed and compared with numbers computed by the checker; files, folder and mesh are unchanged. '
    'Non-trivial: at least 2 marks or zones, or data.'
)
TECHNIQUE = 'property-based testing (Hypothesis): parsed output against the generated content'
NOTE = 'meshes up to 6 blocks'
FACE = {2: 'bar2', 3: 'tri3', 4: 'quad4'}


class Records(logging.Handler):
    def emit(self, record):
        self.lines.append(record.getMessage())


@contextlib.contextmanager
def logged():
    """lines logged and printed, in separate lists"""
    rec, log = Records(), logging.getLogger('cfdtools')
    rec.lines, level, out = [], log.level, io.StringIO()
    log.addHandler(rec)
    log.setLevel(logging.INFO)
    try:
        with contextlib.redirect_stdout(out):
            yield rec.lines, out
    finally:
        log.removeHandler(rec)
        log.setLevel(level)


def index_of(text):
    """(min, max, size) of a printed index"""
    mt = re.fullmatch(r'range (-?\d+) to (-?\d+)', text)
    if mt:
        a, b = map(int, mt.groups())
        return a, b, b - a + 1
    mt = re.fullmatch(r'list min:max:size = (-?\d+):(-?\d+):(\d+)', text)
    require(mt, f'index {text!r}')
    return tuple(map(int, mt.groups()))


def index_tuple(idx):
    lst = idx.list()
    return min(lst), max(lst), len(lst)


def parse(lines):
    """dictionary of the lines of the last printed mesh"""
    start = [i for i, x in enumerate(lines) if x.startswith('nnode:')]
    require(start, f'no mesh is printed: {lines}')
    out = {'cells': {}, 'faces': {}, 'bc': {}}
    require(len(start) == 1, f'mesh is printed {len(start)} times')
    now = None
    for x in lines[start[0]:]:
        mt = re.match(r'(nnode|ncell|nface): (\d+)$', x)
        if mt:
            out[mt.group(1)] = int(mt.group(2))
            continue
        mt = re.match(r'  ([xyz]) min:avg:max = (\S+):(\S+):(\S+)$', x)
        if mt:
            out[mt.group(1)] = [float(v) for v in mt.groups()[1:]]
            continue
        mt = re.match(r'  type (\w+): ?(.*)$', x)
        if mt:
            now = mt.group(1)
            require(now not in out['faces'], f'faces {now} twice')
            out['faces'][now] = {}
            out['faces', now] = mt.group(2).split()
            continue
        mt = re.match(r'(  \. )?(\w+): \((\d+), (\d+)\) with index (.*)$', x)
        if mt:
            where = out['cells'] if mt.group(1) is None else out['faces'][now]
            require(mt.group(2) not in where, f'{mt.group(2)} twice')
            where[mt.group(2)] = int(mt.group(3)), int(mt.group(4)), index_of(mt.group(5))
            continue
        if x.startswith('bocos: '):
            out['bocos'] = x[7:]
        elif x.startswith('  BC '):
            head, idx = x[5:].rsplit('): ', 1)
            name, dim = head.rsplit(' (', 1)
            require(name.rstrip() not in out['bc'], f'{name} twice')
            out['bc'][name.rstrip()] = dim, index_of(idx)
        elif x.startswith('params: '):
            out['params'] = x[8:]
    return out


def number(got, want, what):
    if not np.isfinite(want) or abs(want) > 1e15:
        same = got == want or (np.isnan(want) and np.isnan(got)) or abs(got - want) <= 1e-9 * abs(want)
    else:
        same = abs(got - want) <= 5.1e-4 + 1e-9 * abs(want)
    require(same, f'{what} {got} instead of {want}')


def coordinates(d, xyz):
    for c, v in zip('xyz', np.asarray(xyz, dtype=float).T):
        require(c in d, f'no {c}')
        number(d[c][0], np.min(v), f'min of {c}')
        number(d[c][2], np.max(v), f'max of {c}')
        if np.all(np.isfinite(v)) and np.abs(v).max() < 1e12:
            number(d[c][1], sum(v.tolist()) / len(v), f'average of {c}')


def check_marks(d, names, mesh, sizes=None):
    require(list(d['bc']) == names, f'marks {list(d["bc"])} instead of {names}')
    require(d['bocos'] == ' '.join(names), f'list of marks {d["bocos"]!r} instead of {names}')
    for name, (dim, idx) in d['bc'].items():
        b = mesh._bocos[name]
        require(dim == b.geodim, f'mark {name} is {dim} instead of {b.geodim}')
        want = index_tuple(b.index)
        require(idx == want, f'mark {name}: {idx} instead of {want}')
        if sizes and sizes.get(name) is not None:
            require(idx[2] == sizes[name], f'mark {name} of {idx[2]} instead of {sizes[name]}')


def check_ranges(lines, data, split, what):
    """ranges of variables printed while they are read; data: list of (name, array); split: arrays of that number of dimensions or more are by components"""
    want = []
    for name, a in data:
        a = np.asarray(a)
        if a.ndim in split:
            a = a.reshape(len(a), -1)
            want += [(f'{name}-{k}', a[:, k]) for k in range(a.shape[1])]
        else:
            want.append((name, a))
    got = []
    for x in lines:
        mt = re.fullmatch(r'  (.*?) *:  (\S+) / (\S+) / (\S+) \(min/mean/max\)\.', x)
        if mt:
            got.append(mt.groups())
    with np.errstate(all='ignore'):
        ref = [(n, '%+.5e' % a.min(), '%+.5e' % a.max()) for n, a in want]
    require(sorted((g[0], g[1], g[3]) for g in got) == sorted(ref), lambda: f'{what}: ranges {got} instead of {ref}')
    for n, a in want:
        big = np.abs(a.astype(float)).max()
        if np.isfinite(big) and big < 1e200 and sum(w[0] == n for w in want) == 1:
            mean = float(next(g[2] for g in got if g[0] == n))
            require(abs(mean - sum(a.astype(float).ravel().tolist()) / a.size) <= 1e-5 * big, f'{what}: mean of {n} is {mean}')


def tree(folder):
    return {n: open(os.path.join(folder, n), 'rb').read() for n in sorted(os.listdir(folder))}


def check_file(spec, ctx):
    """cfdinfo, conversions with --info"""
    import cfdtools._cli as cli

    kind = spec['kind']
    if kind == 'ic3':
        spec = dict(spec, ic3=ic3model.printable(spec['ic3']))
    os.mkdir(ctx.path('in'))
    os.mkdir(ctx.path('work'))
    fn = ctx.path('in/mesh' + (EXT[kind] if not spec['fmt'] else '.x'))
    coords, ncell, dim, cells, nodes = write_input(spec, fn)
    os.chdir(ctx.path('work'))
    before = tree(ctx.path('in'))
    argv = [fn] + (['--fmt', FMT[kind]] if spec['fmt'] else [])
    r = readers()[FMT[kind]](fn)
    r.read_data()
    mesh = r.export_mesh()
    xyz = np.array(coords, dtype=float)
    with logged() as (lines, _):
        if spec['tool'] == 'info':
            require(cli.cfdinfo(argv + (['--check'] if spec['check'] else [])) is True, 'cfdinfo')
        else:
            try:
                out = cli.cfdwrite_ic3v3(argv + ['--info', '--scale'] + [repr(x) for x in spec['scale']])
            except Exception as exc:
                raise Skip(type(exc).__name__)
            os.remove(out)
            xyz = xyz * np.array(spec['scale'])
    require(tree(ctx.path('in')) == before and os.listdir('.') == [], 'files are changed')
    d = parse(lines)
    require((d['nnode'], d['ncell']) == (len(xyz), ncell), f'{d["nnode"]} nodes and {d["ncell"]} cells instead of {len(xyz)} and {ncell}')
    if kind == 'ic3':
        m = ic3model.make(spec['ic3'])
        coordinates(d, xyz)
        check_ranges(lines, [*m.celldata.items(), *m.nodedata.items()], (2,), 'cfdinfo' if spec['tool'] == 'info' else 'conversion')
        require(d['nface'] == m.nface and d['cells'] == {}, f'{d["nface"]} faces instead of {m.nface}')
        want = {}
        for f in m.faces:
            want[FACE[len(f)]] = want.get(FACE[len(f)], 0) + 1
        require(list(d['faces']) == ['mixed'], f'faces {list(d["faces"])}')
        got = d['faces']['mixed']
        require({t: x[0] for t, x in got.items()} == want, f'faces {got} instead of {want}')
        require(set(d['faces', 'mixed']) == set(want), f'types of faces {d["faces", "mixed"]}')
        for t, x in got.items():
            ids = [i for i, f in enumerate(m.faces) if FACE[len(f)] == t]
            require(x[1] == {v: k for k, v in FACE.items()}[t] and x[2] == (ids[0], ids[-1], len(ids)), f'faces {t}: {x}')
        for name, _, first, last, _ in m.zones:
            require(d['bc'].get(name, (0, 0))[1] == (first, last, last - first + 1), f'zone {name}: {d["bc"].get(name)} instead of {first} {last}')
        require(set(d['bc']) >= {z[0] for z in m.zones}, 'zones')
        require(d['bocos'] == ' '.join(d['bc']), 'list of zones')
        step = re.search(r"'step': (?:np\.int64\()?(-?\d+)", d['params'])
        require(step and int(step.group(1)) == m.step, f'step of {d["params"]} instead of {m.step}')
        ctx.nontrivial = len(m.zones) > 1 or bool(m.celldata)
    else:
        # single precision files: bounds of what is read
        coordinates(d, mesh.nodescoord(ndarray=True) * (np.array(spec['scale']) if spec['tool'] != 'info' else 1.0))
        want = {t: e['elem2node'].shape for t, e in mesh._cell2node.items()}
        require({t: x[:2] for t, x in d['cells'].items()} == want, f'cells {d["cells"]} instead of {want}')
        require(sum(x[0] for x in want.values()) == ncell, 'number of cells')
        require(d['nface'] == 0 and d['faces'] == {}, 'faces of a mesh of cells')
        check_marks(d, list(mesh._bocos), mesh)
        ctx.nontrivial = len(d['bc']) > 1
    ctx.label(kind, spec['tool'], 'fmt' if spec['fmt'] else 'auto')


def check_mesh(spec, ctx):
    """printinfo of meshes in memory"""
    gm = meshgen.build(spec['g'])
    marks = meshgen.make_marks(gm, spec['marks'])
    mesh, order = cfdmesh.to_mesh(gm, spec['o'], marks)
    cells, xyz = {}, np.array(gm.nodes)
    for t, _ in gm.cells:
        cells[t] = cells.get(t, 0) + 1
    names, bd = [mk[0] for mk in marks], {n: len(mk[1]) for n, mk in zip([m[0] for m in marks], marks)}
    ncell, nface = gm.ncell, None
    for op in spec['ops']:
        if op == 'faces':
            mesh.make_face_connectivity()
            faces = gm.faces()
            nface = {'internal': {}, 'boundary': {}}
            for k, v in faces.items():
                w = nface['internal' if len(v) == 2 else 'boundary']
                w[FACE[len(k)]] = w.get(FACE[len(k)], 0) + 1
        elif op == 'scale':
            mesh.scale([2.0, -1.0, 0.5])
            xyz = xyz * [2.0, -1.0, 0.5]
        else:
            shot = cfdmesh.snapshot(mesh)
            with logged() as (lines, _):
                mesh.printinfo(detailed=op == 'detail') if op == 'detail' else mesh.printinfo()
            require(cfdmesh.snapshot(mesh) == shot, 'mesh is modified')
            d = parse(lines)
            require((d['nnode'], d['ncell']) == (gm.nnode, ncell), f'sizes {d["nnode"]} {d["ncell"]}')
            coordinates(d, xyz)
            require({t: x[0] for t, x in d['cells'].items()} == cells, f'cells {d["cells"]} instead of {cells}')
            for t, x in d['cells'].items():
                require(x[1] == meshgen.NNODE[t] and x[2][2] == x[0], f'cells {t}: {x}')
            want = {k: v for k, v in (nface or {}).items()}
            require(d['nface'] == sum(sum(v.values()) for v in want.values()), f'{d["nface"]} faces instead of {want}')
            got = {k: {t: x[0] for t, x in v.items() if x[0]} for k, v in d['faces'].items()}
            require(got == want, f'faces {got} instead of {want}')
            check_marks(d, names, mesh, bd)
    ctx.nontrivial = len(names) > 1
    ctx.label('+'.join(gm.types()), *spec['ops'])


def check_brief(spec, ctx):
    """vtkbrief"""
    import cfdtools._cli as cli
    from cfdtools.vtk import vtkMesh

    gm = meshgen.build(spec['g'])
    spec['cell'], spec['point'] = (vtkgen.fit(spec[k], spec['ext']) for k in ('cell', 'point'))
    data = {k: vtkgen.values_of(v, gm.ncell) for k, v in spec['cell'].items()}
    g = vtkgen.grid(gm, spec['dtype'], data)
    for k, v in spec['point'].items():
        g.point_data[k] = vtkgen.values_of(v, gm.nnode)
    for k in spec['field']:
        g.field_data[k] = [1.0]
    os.mkdir(ctx.path('in'))
    os.mkdir(ctx.path('work'))
    fn = ctx.path('in/f' + spec['ext'])
    g.save(fn)
    os.chdir(ctx.path('work'))
    before = tree(ctx.path('in'))
    with logged() as (lines, _):
        if spec['cli']:
            require(cli.vtkbrief([fn]) is True, 'vtkbrief')
        else:
            v = vtkMesh()
            v.read(fn)
            v.brief()
    require(tree(ctx.path('in')) == before and os.listdir('.') == [], 'files are changed')
    text = {}
    for x in lines:
        if ':' in x:
            k, v = x.split(':', 1)
            text[' '.join(k.split())] = v.strip()
    require(int(text.get('ncells', -1)) == gm.ncell, f'{text.get("ncells")} cells')
    require(int(text.get('npoints', -1)) == gm.nnode, f'{text.get("npoints")} points')
    for c, v in zip('XYZ', gm.nodes.astype(spec['dtype']).T):
        a, b = text[f'{c} bounds'].split(' - ')
        require((float(a), float(b)) == (v.min(), v.max()), f'{c}: {a} {b} instead of {v.min()} {v.max()}')
    for what, names in (('cell', list(data)), ('point', list(spec['point'])), ('field', list(spec['field']))):
        got = ast.literal_eval(text[f'{what} data names'])
        require(sorted(got) == sorted(names), f'{what} data {got} instead of {names}')
    ctx.nontrivial = bool(data) or bool(spec['point'])
    ctx.label(spec['ext'], 'tool' if spec['cli'] else 'library')


def check_reader(spec, ctx):
    """printinfo of the IC3 reader"""
    from cfdtools.ic3 import readerV4, writerV4

    spec = dict(spec, ic3=ic3model.printable(spec['ic3']))
    m = ic3model.make(spec['ic3'])
    if spec['kind'] == 'v4':
        fn = ctx.path('f.h5')
        writerV4.writer(ic3model.to_mesh(m, 0)).write_data(fn, ctx.path('s.h5'))
        ic3model.reduce_v4(m)
        ncell, cells, nodes = m.ncell, sorted(m.celldata), []
        r = readerV4.reader(fn, ctx.path('s.h5'))
    else:
        fn = ctx.path('f.ic3')
        coords, ncell, _, cells, nodes = write_input(spec, fn)
        r = readers()['IC3'](fn)
    with logged() as (lines, _):
        r.read_data()
    check_ranges(lines, [*m.celldata.items()] + ([] if spec['kind'] == 'v4' else [*m.nodedata.items()]), (2, 3) if spec['kind'] == 'v4' else (2,), spec['kind'])
    with logged() as (_, out):
        r.printinfo()
    text = {}
    for x in out.getvalue().splitlines():
        if ': ' in x:
            k, v = x.split(': ', 1)
            text.setdefault(k.strip(), v)
    noofa = [('noofa_count', sum(map(len, m.faces)))] if spec['kind'] != 'v4' else []
    for k, v in noofa + [('no_count', m.nnode), ('fa_count', m.nface), ('cv_count', ncell)]:
        require(int(text[f'mesh.params.{k}']) == v, f'{k} is {text[f"mesh.params.{k}"]} instead of {v}')
    require(text['mesh.coordinates'].startswith(f'ndarray ({m.nnode}, 3)'), f'coordinates {text["mesh.coordinates"]}')
    require(text['mesh.connectivity.cvofa.cvofa'].startswith(f'ndarray ({m.nface}, 2)'), 'cvofa')
    require(text['mesh filename' if spec['kind'] == 'v4' else 'filename'] == fn, 'name')
    for what, names in (('cells', cells), ('nodes', nodes)):
        got = {}
        for x in out.getvalue().splitlines():
            if x.startswith(f'variables.{what}.'):
                k, v = x[len(f'variables.{what}.'):].split(': ndarray ', 1)
                got[k] = v
        require(sorted(got) == sorted(names), f'data {sorted(got)} instead of {sorted(names)}')
        for k, v in got.items():
            size = {'cells': m.celldata, 'nodes': m.nodedata}[what][k].size
            shape = ast.literal_eval(v[:v.index(')') + 1])
            require(int(np.prod(shape)) == size, f'{what} data {k}: {v} instead of {size} values')
    ctx.nontrivial = bool(cells or nodes)


names = st.dictionaries(vtkgen.varname, st.fixed_dictionaries({
    'n': st.sampled_from([0, 0, 3]), 't': st.sampled_from(['f8', 'f4', 'i8']), 's': st.integers(0, 10**6),
}), max_size=3)
CASES = [
    Case('file', inputs(
        fmt=st.booleans(), check=st.booleans(), tool=st.sampled_from(['info', 'info', 'write']),
        scale=st.lists(st.sampled_from([1.0, 2.0, -1.0, 0.5]), min_size=3, max_size=3),
    ), check_file, quick=500, thorough=6000),
    Case('mesh', st.fixed_dictionaries({
        'g': st.one_of(meshgen.spec2d(maxcell=6), meshgen.spec3d(maxcell=6)), 'marks': meshgen.markspec(), 'o': st.integers(0, 1000),
        'ops': st.lists(st.sampled_from(['print', 'detail', 'faces', 'scale']), max_size=4).map(lambda x: x + ['print']),
    }), check_mesh, quick=400, thorough=5000),
    Case('brief', st.fixed_dictionaries({
        'g': st.one_of(meshgen.spec2d(maxcell=6), meshgen.spec3d(maxcell=6)), 'dtype': st.sampled_from(['f8', 'f4']), 'cell': names,
        'point': names, 'field': st.lists(values.text('abcXYZ019', 1, 6), max_size=2, unique=True), 'ext': st.sampled_from(['.vtu', '.vtk']),
        'cli': st.booleans(),
    }), check_brief, quick=200, thorough=3000),
    Case('reader', st.one_of(st.fixed_dictionaries({
        'kind': st.just('ic3'), 'ic3': ic3model.model_spec(maxndof=2), 'e': st.sampled_from('<>'), 'version': st.sampled_from([2, 3]),
    }), st.fixed_dictionaries({'kind': st.just('v4'), 'ic3': ic3model.v4_spec()})), check_reader, quick=200, thorough=2000),
]

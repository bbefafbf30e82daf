"""existing files are never modified"""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from lib import gmshfmt, ic3fmt, ic3model, meshgen, vtkgen
from lib.fw import Case, require

PROPERTY = 'C25'
RULE = (
    'Sequences of 1 to 6 operations (conversions to V2, V3 and VTU by the command line, packing, dumps of meshes and series with or '
    'without XDMF, information tools) in scratch folders with existing files and folders of colliding names (parentheses, dots, '
    'spaces, numbers), inputs in the output folder included, relative and absolute paths. Model: the set of all files with their '
    'bytes; after each operation (explicit replacements apart) it has exactly the expected new files. Non-trivial: an operation whose natural name was taken.'
)
TECHNIQUE = 'stateful property-based testing (Hypothesis): model of the file system'
NOTE = 'up to 6 operations and 8 existing files, or series of up to 130'
STEMS = ['m', 'm(1)', 'm(2)', 'a.b', 'x y', 'm.v2', 'M', 'dumped', 'dumped(1)', 'm[1]', 'm*', 'm[1](1)', '.m']
MESH = {
    'dim': 3, 'n': [1, 1, 2], 'kind': [0, 0], 'col': [0], 'nperm': 0, 'cperm': 0, 'rot': 0, 'geo': {'seed': 0, 'pert': 0},
}
_cache = {}


def source(kind):
    """bytes of a small input"""
    if kind not in _cache:
        import tempfile

        d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
        fn = os.path.join(d, 'f.' + kind)
        gm = meshgen.build(MESH)
        if kind == 'msh':
            with open(fn, 'w') as f:
                f.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%d\n' % gm.nnode)
                for i, p in enumerate(gm.nodes):
                    f.write('%d %r %r %r\n' % (i + 1, *map(float, p)))
                f.write('$EndNodes\n$Elements\n%d\n' % gm.ncell)
                for i, (_, c) in enumerate(gm.cells):
                    f.write(' '.join(map(str, [i + 1, 5, 2, 1, 1] + [n + 1 for n in c])) + '\n')
                f.write('$EndElements\n')
        elif kind == 'vtu':
            vtkgen.grid(gm, 'f8', {'a': np.arange(gm.ncell) * 1.0}).save(fn)
        else:  # restart, written by the library
            from cfdtools.ic3 import writerV3
            from cfdtools.meshbase.simple import Cube

            writerV3.writer(Cube(1, 1, 2).export_mesh(), endian='little').write_data(fn)
        _cache[kind] = open(fn, 'rb').read()
        shutil.rmtree(d)
    return _cache[kind]


def snapshot(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for x in dirs:
            out[os.path.join(d, x)] = None
        for x in files:
            out[os.path.join(d, x)] = open(os.path.join(d, x), 'rb').read()
    return out


def valid(path):
    """content of a new file"""
    import h5py
    import pyvista as pv

    ext = os.path.splitext(path)[1]
    data = open(path, 'rb').read()
    if ext == '.ic3':
        require(ic3fmt.decode(data)[2].ncell == 2, f'{path} is not the restart')
    elif ext == '.vtu':
        require(pv.read(path).n_cells == 2, f'{path} is not the mesh')
    elif ext == '.xmf':
        require(data.startswith(b'<Xdmf') and data.rstrip().endswith(b'</Xdmf>'), f'{path} is not XMF')
    else:
        with h5py.File(path, 'r') as f:
            require(len(f['mesh/nodes']) == 12, f'{path} is not the dump')


def check(spec, ctx):
    import cfdtools._cli as cli
    from cfdtools.vtk import vtkList, vtkMesh

    root = os.path.realpath(ctx.dir)
    dirs = {k: os.path.join(root, v) for k, v in (('cwd', 'work'), ('out', 'o.ut (1)'), ('in', 'work/in'))}
    for d in dirs.values():
        os.makedirs(d, exist_ok=True)
    for where, stem, ext, what in spec['existing']:
        path = os.path.join(dirs[where], STEMS[stem] + ext)
        if os.path.exists(path):
            continue
        if what == 'dir':
            os.mkdir(path)
        else:
            with open(path, 'wb') as f:
                f.write({'text': b'precious ' + stem.to_bytes(1, 'big'), 'empty': b''}[what])
    if spec['many']:  # a lot of numbered files
        where, stem, ext, n = spec['many']
        for i in range(n + 1):
            path = os.path.join(dirs[where], STEMS[stem] + (f'({i})' if i else '') + ext)
            if not os.path.exists(path):
                with open(path, 'wb') as f:
                    f.write(b'number %d' % i)
    inputs = []
    for where, stem, kind in spec['inputs']:
        path = os.path.join(dirs[where], STEMS[stem] + '.' + kind)
        if os.path.isdir(path):
            continue
        with open(path, 'wb') as f:
            f.write(source(kind))
        if path not in inputs:
            inputs.append(path)
    os.chdir(dirs['cwd'])
    for op in spec['ops']:
        before = snapshot(root)
        kind = op['op']
        exts = {'ic3v2': ['ic3', 'msh'], 'ic3v3': ['ic3', 'msh'], 'vtk': ['msh'], 'pack': ['vtu'], 'dump': ['vtu'], 'over': ['vtu'], 'series': ['vtu']}
        cand = [p for p in inputs if kind not in exts or p.split('.')[-1] in exts[kind]]
        if not cand:
            continue
        path = cand[op['which'] % len(cand)]
        given = path if op['abs'] else os.path.relpath(path)
        stem = os.path.splitext(os.path.basename(path))[0]
        folder = dirs[op['where']]
        target = folder if op['abs'] else os.path.relpath(folder)
        expected = {}
        if kind in ('ic3v2', 'ic3v3', 'vtk'):
            ext = '.vtu' if kind == 'vtk' else '.ic3'
            argv = [given]
            if op['outpath']:
                argv += ['--outpath', target + ('/' if op['slash'] else '')]
            else:
                folder = dirs['cwd']
            if op['fmt']:
                argv += ['--fmt', {'ic3': 'IC3', 'msh': 'GMSH'}[path.split('.')[-1]]]
            tool = {'ic3v2': cli.cfdwrite_ic3v2, 'ic3v3': cli.cfdwrite_ic3v3, 'vtk': cli.cfdwrite_vtk}[kind]
            name = tool(argv)
            expected[ext] = (folder, stem)
        elif kind == 'pack':
            name = cli.vtkpack([given, path])
            expected['.h5'] = (dirs['cwd'], 'dumped')
        elif kind == 'over':  # the only file replaced is the one given
            out = os.path.join(target, STEMS[op['stem']] + '.h5')
            if os.path.isdir(out):
                continue
            if op['fmt']:
                name = vtkMesh().read(given).dumphdf(out, overwrite=True)
            else:
                v = vtkList([given, path])
                v.read()
                name = v.dumphdf(out, overwrite=True)
            require(os.path.abspath(name) == os.path.abspath(out), f'over: returns {name}')
            valid(out)
            before.pop(os.path.abspath(out), None)
            after = snapshot(root)
            after.pop(os.path.abspath(out))
            require(after == before, 'over: other files are modified')
            ctx.label('over')
            continue
        elif kind in ('dump', 'series'):
            stem = STEMS[op['stem']]
            out = os.path.join(target, stem + '.h5')
            if kind == 'dump':
                name = vtkMesh().read(given).dumphdf(out)
            else:
                v = vtkList([given, path])
                v.read()
                name = v.dumphdf(out, **({'xdmf': True} if op['fmt'] else {}))
                if op['fmt']:
                    expected['.xmf'] = (folder, os.path.splitext(os.path.basename(str(name)))[0])
            expected['.h5'] = (folder, stem)
        else:
            name = None
            ext = path.split('.')[-1]
            if ext == 'vtu':
                require(cli.vtkbrief([given]), 'vtkbrief')
            elif ext == 'ic3' and op['fmt']:
                require(cli.ic3brief([given]), 'ic3brief')
            else:
                require(cli.cfdinfo([given]), 'cfdinfo')
        after = snapshot(root)
        what = f'{kind} of {os.path.relpath(path, root)}'
        for p, data in before.items():
            require(p in after, f'{what}: {p} is removed')
            require(after[p] == data, f'{what}: {os.path.relpath(p, root)} is modified')
        new = sorted(set(after) - set(before))
        require(len(new) == len(expected), f'{what}: new files {new}')
        for p in new:
            s, ext = os.path.splitext(os.path.basename(p))
            require(ext in expected, f'{what}: new file {p}')
            folder, stem = expected[ext]
            require(os.path.dirname(p) == folder, f'{what}: new file {p} is not in {folder}')
            natural = os.path.join(folder, stem + ext)
            if natural in before:
                require(s.startswith(stem), f'{what}: {p} instead of {stem}')
                ctx.nontrivial = True
                ctx.label(kind + ' collision')
            else:
                require(p == natural, f'{what}: {p} instead of {natural}')
                ctx.label(kind)
            valid(p)
            if ext != '.xmf':
                require(os.path.abspath(name) == p, f'{what}: returns {name}, file is {p}')
            if ext in ('.ic3', '.vtu'):
                inputs.append(p)
        if name is None:
            ctx.label('info')


place = st.sampled_from(['cwd', 'cwd', 'out', 'in'])
stem = st.one_of(st.integers(0, 1), st.integers(0, len(STEMS) - 1))
op = st.fixed_dictionaries({
    'op': st.sampled_from(['ic3v2', 'ic3v3', 'vtk', 'vtk', 'ic3v3', 'pack', 'dump', 'series', 'info', 'over']), 'which': st.integers(0, 5),
    'where': place, 'abs': st.booleans(), 'outpath': st.booleans(), 'slash': st.booleans(), 'fmt': st.booleans(), 'stem': stem,
})
CASES = [
    Case('files', st.fixed_dictionaries({
        'existing': st.lists(st.tuples(
            place, stem, st.sampled_from(['.ic3', '.vtu', '.h5', '.xmf', '']), st.sampled_from(['text', 'text', 'empty', 'dir']),
        ).map(list), max_size=8),
        'many': st.one_of(st.none(), st.tuples(place, st.sampled_from([0, 1, 9]), st.sampled_from(['.ic3', '.vtu', '.h5', '.xmf']), st.integers(1, 130)).map(list)),
        'inputs': st.lists(st.tuples(place, stem, st.sampled_from(['ic3', 'msh', 'vtu'])).map(list), min_size=1, max_size=4),
        'ops': st.lists(op, min_size=1, max_size=6),
    }), check, quick=1200, thorough=8000),
]

"""command line conversions against the library"""
import os

import numpy as np
from hypothesis import strategies as st

from lib import cgnsfmt, gmshfmt, ic3fmt, ic3model, vtkgen
from lib.fw import Case, Skip, fail, require, same_array

PROPERTY = 'C26'
RULE = (
    'Generated IC3 V2/V3 restarts with data, GMSH 2 and 4 and CGNS meshes (2D, 3D) written by the checker are converted by the three '
    'tools with random options (removals of existing and missing names, planes, factors, format, folder, information, in any order); '
    'the result equals, byte for byte for IC3, the one of reading, transforming and writing with the library, and decoded names of '
    'data, numbers of cells and positions of nodes are those computed by the checker. Non-trivial: at least one transforming option.'
)
TECHNIQUE = 'differential property-based testing (Hypothesis): tools against library calls, independent decoding'
NOTE = 'meshes up to 6 blocks, up to 5 planes'
EXT = {'ic3': '.ic3', 'gmsh2': '.msh', 'gmsh4': '.msh', 'cgns': '.cgns'}
FMT = {'ic3': 'IC3', 'gmsh2': 'GMSH', 'gmsh4': 'GMSH', 'cgns': 'CGNS'}


def tools():
    import cfdtools._cli as cli
    from cfdtools.ic3 import writerV2, writerV3
    from cfdtools.vtk import vtkMesh

    return {
        'v2': (cli.cfdwrite_ic3v2, '.ic3', writerV2.writer), 'v3': (cli.cfdwrite_ic3v3, '.ic3', writerV3.writer),
        'vtk': (cli.cfdwrite_vtk, '.vtu', vtkMesh),
    }


def readers():
    import cfdtools.ic3 as ic3
    from cfdtools.cgns.cgns import cgnsMesh
    from cfdtools.gmsh.reader import reader

    return {'IC3': ic3.reader, 'GMSH': reader, 'CGNS': cgnsMesh}


def write_input(spec, fn):
    """returns (positions of nodes, number of cells, dimension, cell names, node names)"""
    kind = spec['kind']
    if kind == 'ic3':
        m = ic3model.make(spec['ic3'])
        version = spec['version'] if not any(a.dtype.kind == 'i' for a in [*m.celldata.values(), *m.nodedata.values()]) and m.ndof == 1 else 3
        with open(fn, 'wb') as f:
            f.write(ic3fmt.pack(ic3fmt.sections(m, version, spec['e']), version, spec['e']))
        return m.coords, m.ncell, 0, sorted(m.celldata), sorted(m.nodedata)
    if kind == 'cgns':
        gm = cgnsfmt.write(spec['cgns'], fn).gm
    else:
        gm = (gmshfmt.write2 if kind == 'gmsh2' else gmshfmt.write4)(spec['gmsh'], fn).gm
    return gm.nodes, gm.ncell, gm.dim, [], []


def library(fmt, fn, out, writer, opt):
    r = readers()[fmt](fn)
    r.read_data()
    mesh = r.export_mesh()
    for name in opt['cell']:
        mesh.pop_celldata(name)
    for name in opt['node']:
        mesh.pop_nodedata(name)
    if opt['extrude']:
        n = opt['extrude']
        mesh = mesh.export_extruded(extrude=np.linspace(0.0, 1.0, n + 1))
    if opt['scale']:
        mesh.scale(opt['scale'])
    writer(mesh).write_data(out)


def asked(names, i, others):
    """name of an existing data, or of none, which may look like an existing one"""
    if i < len(names):
        return names[i]
    others = [x for x in others if x not in names and not x.startswith('-')]
    if others and i % 3 == 0:  # of the other kind of data
        return others[i * 5 % len(others)]
    n = names[i * 7 % len(names)] if names else 'x'
    out = [f'absent{i}', n[:-1], n + '0', n.swapcase(), n[1:], n + ' '][i % 6]
    return out if out and out not in names and not out.startswith('-') else f'absent{i}'


def check(spec, ctx):
    kind = spec['kind']
    folder, outdir = ctx.path('in'), ctx.path('out')
    os.mkdir(folder)
    os.mkdir(outdir)
    work = ctx.path('work')
    os.mkdir(work)
    os.chdir(work)
    explicit = spec['fmt'] or spec['ext'] is not None
    fn = os.path.join(folder, spec['stem'] + (EXT[kind] if spec['ext'] is None else spec['ext']))
    stem = os.path.splitext(os.path.basename(fn))[0]
    coords, ncell, dim, cells, nodes = write_input(spec, fn)
    tool, ext, writer = tools()[spec['tool']]
    opt = {
        'cell': [asked(cells, i, nodes) for i in spec['cell']] if not any(n.startswith('-') for n in cells) else [],
        'node': [asked(nodes, i, cells) for i in spec['node']] if not any(n.startswith('-') for n in nodes) else [],
        'extrude': spec['extrude'] if dim == 2 else 0, 'scale': spec['scale'],
    }
    parts = []
    if opt['cell']:
        parts.append(['--remove-cell-data'] + opt['cell'])
    if opt['node']:
        parts.append(['--remove-node-data'] + opt['node'])
    if opt['extrude']:
        parts.append(['--extrude', str(opt['extrude'])])
    if opt['scale']:
        parts.append(['--scale'] + [repr(float(x)) for x in opt['scale']])
    if explicit:
        parts.append(['--fmt', FMT[kind]])
    if spec['out']:
        parts.append(['--outpath', outdir])
    if spec['info']:
        parts.append(['--info'])
    if spec['check']:
        parts.append(['--check'])
    if spec['swap']:
        parts.reverse()
    argv = [x for p in parts for x in p]
    if spec['first']:
        argv = [fn] + argv
    else:  # a list of names is separated from the file
        argv += (['--'] if parts and parts[-1][0].startswith('--remove') else []) + [fn]
    ref = os.path.join(folder, 'reference' + ext)
    try:
        library(FMT[kind], fn, ref, writer, opt)
    except Exception as exc:  # e.g. an IC3 restart has no cells to export to VTK
        try:
            tool(argv)
        except Exception:
            raise Skip(type(exc).__name__)
        fail(f'the tool does not fail as the library does: {exc!r}')
    from checks.C29 import coordinates, logged, parse

    with logged() as (lines, _):
        name = tool(argv)
    want = os.path.join(outdir if spec['out'] else work, stem + ext)
    require(os.path.abspath(name) == want, f'file {name} instead of {want}')
    xyz = np.array(coords, dtype=float)
    n = opt['extrude']
    if n:
        xyz = np.concatenate([xyz + np.array([0, 0, k / n]) for k in range(n + 1)])
    if opt['scale']:
        xyz = xyz * np.array(opt['scale'])
    if spec['tool'] == 'vtk':
        import pyvista as pv

        a, b = pv.read(ref), pv.read(want)
        same_array(a.points, b.points, 'points')
        require(vtkgen.cells_of_grid(a) == vtkgen.cells_of_grid(b), 'cells are not those of the library')
        got, count = b.points, b.n_cells
    else:
        data = open(want, 'rb').read()
        require(data == open(ref, 'rb').read(), f'{argv}: the file is not the one written by the library')
        e, version, m, secs = ic3fmt.decode(data)
        require(version == {'v2': 2, 'v3': 3}[spec['tool']], f'version {version}')
        got, count = m.coords, m.ncell
        for what, names, removed, out in (('cell', cells, opt['cell'], m.celldata), ('node', nodes, opt['node'], m.nodedata)):
            keep = [x for x in names if x not in removed]
            require(set(out) <= set(keep), f'{what} data {sorted(out)} instead of {keep}')
            ctx.label(f'{what} data removed' if len(keep) < len(names) else f'{what} data kept' if keep else f'no {what} data')
        mod = ic3model.make(spec['ic3']) if kind == 'ic3' else None
        if mod is not None:  # what both can hold is there
            ints = spec['tool'] == 'v2'
            for what, all_, removed, out in (('cell', mod.celldata, opt['cell'], m.celldata), ('node', mod.nodedata, opt['node'], m.nodedata)):
                for k, a in all_.items():
                    if k not in removed and a.dtype.kind == 'f' and not (ints and mod.ndof > 1):
                        require(k in out, f'{what} data {k} is lost')
                        same_array(a, out[k], f'{what} data {k}')
    require(count == ncell * max(n, 1), f'{count} cells instead of {ncell * max(n, 1)}')
    got = np.array(got, dtype=float)
    require(got.shape == xyz.shape, f'{got.shape} nodes instead of {xyz.shape}')
    if kind == 'ic3':
        same_array(xyz, got, 'coordinates')
    else:
        scale = np.abs(xyz).max(axis=0) + 1e-30
        a, b = (sorted(np.round(p / scale, 9).tolist()) for p in (xyz, got))
        require(np.allclose(np.array(sorted_rows(a)), np.array(sorted_rows(b)), atol=1e-8), 'positions of nodes')
    if spec['info']:  # what is printed is what is written
        d = parse(lines)
        require((d['nnode'], d['ncell']) == (len(got), count), f'--info: {d["nnode"]} nodes and {d["ncell"]} cells')
        coordinates(d, got)
    ctx.nontrivial = bool(opt['cell'] or opt['node'] or n or opt['scale'])
    ctx.label(kind, spec['tool'], 'extrude' if n else 'flat', 'scale' if opt['scale'] else 'unscaled', 'fmt' if explicit else 'auto')


def sorted_rows(rows):
    return sorted((tuple(0.0 if abs(x) < 1e-12 else x for x in r) for r in rows))


def check_format(spec, ctx):
    """unknown extensions are refused unless the format is given; information tools read any input"""
    import cfdtools._cli as cli

    kind = spec['kind']
    fn = ctx.path(spec['stem'] + spec['ext'])
    write_input(spec, fn)
    os.chdir(ctx.dir)
    argv = [fn] + (['--fmt', FMT[kind]] if spec['fmt'] else []) + (['--check'] if spec['check'] else [])
    listed = os.listdir(ctx.dir)
    ext = os.path.splitext(fn)[1]
    known = ext == EXT[kind]
    if ext in EXT.values() and not known and not spec['fmt']:
        return
    for tool in (cli.cfdinfo, cli.cfdwrite_ic3v3):
        if not spec['fmt'] and not known:
            try:
                tool(argv)
            except RuntimeError:
                ctx.nontrivial = True
            else:
                fail(f'{spec["ext"]} is accepted')
        elif tool is cli.cfdinfo:
            require(tool(argv), 'cfdinfo')
    if kind == 'ic3' and (known or spec['fmt']):
        require(cli.ic3brief([fn]), 'ic3brief')
    require(os.listdir(ctx.dir) == listed, 'a file is written')
    ctx.label(kind, spec['ext'], 'fmt' if spec['fmt'] else 'auto')


inp = {
    'kind': st.sampled_from(['ic3', 'ic3', 'gmsh2', 'gmsh4', 'cgns']), 'ic3': ic3model.model_spec(maxndof=2), 'gmsh': gmshfmt.spec(),
    'cgns': cgnsfmt.spec(), 'e': st.sampled_from('<>'), 'version': st.sampled_from([2, 3]),
}
factor = st.sampled_from([1.0, 2.0, 0.5, -1.0, 0.001, 3.7, 1000.0])


@st.composite
def inputs(draw, **kw):
    kind = draw(inp['kind'])
    out = {'kind': kind}
    keys = {'ic3': ['ic3', 'e', 'version'], 'cgns': ['cgns']}.get(kind, ['gmsh'])
    for k in keys:
        out[k] = draw(inp[k])
    for k, s in kw.items():
        out[k] = draw(s)
    return out


stem = st.sampled_from(['mesh', 'mesh', 'restart.000100', 'a b.v2', 'x(1)', 'm.ic3.old', 'm.msh'])
CASES = [
    Case('convert', inputs(
        tool=st.sampled_from(['v2', 'v3', 'v3', 'vtk']), ext=st.sampled_from([None, None, None, '.dat', '', '.hdf', '.ic3']), fmt=st.booleans(),
        cell=st.lists(st.integers(0, 4), max_size=3, unique=True), node=st.lists(st.integers(0, 3), max_size=2, unique=True),
        extrude=st.sampled_from([0, 0, 1, 2, 3, 5]), scale=st.one_of(st.none(), st.lists(factor, min_size=3, max_size=3)),
        stem=stem, check=st.booleans(), out=st.booleans(), info=st.booleans(), swap=st.booleans(), first=st.booleans(),
    ), check, quick=1200, thorough=12000),
    Case('format', inputs(
        ext=st.sampled_from(['.ic3', '.msh', '.cgns', '.dat', '', '.IC3', '.vtk']), fmt=st.booleans(), check=st.booleans(), stem=stem,
    ), check_format, quick=150, thorough=1500),
]

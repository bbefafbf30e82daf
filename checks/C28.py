"""headers of HDF5 containers"""
import logging
import os
from pathlib import Path

import h5py
import numpy as np
from hypothesis import strategies as st

from lib.fw import Case, fail, require

PROPERTY = 'C28'
RULE = (
    'Sequences of 2 to 10 operations on 3 files and 3 objects: creation (modes w, w-, x; all types and versions, unknown types, missing '
    'versions), reading, updating with additions, append and unknown modes, files written without header (or with a type and no '
    'version, or by CGNS), with attributes, groups, cells and nodes. Model: state of each file, compared with plain h5py after each '
    'operation. Non-trivial: reopening of a file already opened, or refused operation on an existing file.'
)
TECHNIQUE = 'stateful property-based testing (Hypothesis): model of the files, read independently with h5py'
NOTE = 'up to 10 operations on 3 files'
TYPES = ['external', 'dataset', 'datalist', 'probes', 'cfdmesh']
BADTYPES = ['', 'Dataset', 'mesh', 'datasets', 'list', 'probe']
BADMODES = ['', 'z', 'rw', 'W']


def content(fn):
    """attributes and datasets of a file, without the library"""
    out = {}

    def add(name, obj):
        out[name] = (
            sorted((k, repr(v)) for k, v in obj.attrs.items()),
            (obj.dtype.str, obj.shape, np.asarray(obj[()]).tobytes()) if isinstance(obj, h5py.Dataset) else None,
        )

    with h5py.File(fn, 'r') as f:
        add('/', f)
        f.visititems(add)
    return out


def fill(f, h, what, seed):
    """adds something to an opened file"""
    rng = np.random.default_rng(seed)
    name = f'{what}{seed}'
    if what == 'mesh':
        cells = {t: rng.integers(0, 9, (rng.integers(1, 4), n)) for t, n in [('hexa8', 8), ('tri3', 3)][: rng.integers(1, 3)]}
        nodes = rng.random((5, 3))
        if name in f:
            return
        h.write_unsmesh(cells, nodes, path='/' + name, **({'meshtype': 'mine'} if seed % 2 else {}))
        g = f[name]
        require(g.attrs['meshtype'] == ('mine' if seed % 2 else 'unsmesh'), f'type of mesh {g.attrs["meshtype"]}')
        require(np.array_equal(g['nodes'][()], nodes) and g['nodes'].dtype == nodes.dtype, 'nodes of a mesh differ')
        require(set(g['cells']) == set(cells), f'cells {list(g["cells"])} instead of {list(cells)}')
        for t, c in cells.items():
            require(np.array_equal(g['cells'][t][()], c), f'cells {t} of a mesh differ')
    elif what == 'data' and name not in f:
        f.create_group(name).create_dataset('v', data=rng.random(seed % 4 + 1))
        require(h[name].name == '/' + name and np.array_equal(h[name]['v'][()], f[name]['v'][()]), 'item of the file differs')
    elif what == 'attr':
        f.attrs[name] = seed


class Records(logging.Handler):
    def emit(self, record):
        self.lines.append(record.getMessage())


def report(h, typ, ver, lib, what):
    """information printed about an opened file"""
    rec, log = Records(), logging.getLogger('cfdtools')
    rec.lines, level = [], log.level
    log.addHandler(rec)
    log.setLevel(logging.INFO)
    try:
        h.printinfo()
    finally:
        log.removeHandler(rec)
        log.setLevel(level)
    for name, value in (('type', typ), ('data version', ver), ('cfdtools version', lib)):
        got = [x.split(':', 1)[1].strip() for x in rec.lines if x.split(':')[0].endswith(name)]
        require(got == ([str(value)] if value else []), f'{what}: printed {name} {got} instead of {value}')


def check(spec, ctx):
    from cfdtools.hdf5 import h5File
    import cfdtools

    state = {}  # file: (type, version, header)
    objs = {}
    for op in spec['ops']:
        kind, ifile, iobj = op[:3]
        fn = ctx.path(['a.h5', 'b.hdf', 'c'][ifile])
        arg = Path(fn) if iobj == 2 else fn
        exists = os.path.exists(fn)
        before = content(fn) if exists else None
        require(exists == (fn in state), 'files and model differ')
        if kind == 'raw':  # a file of another program
            typ, ver, cgns = op[3:]
            with h5py.File(fn, 'w') as f:
                if typ is not None:
                    f.attrs['cfd_datatype'] = typ
                    if ver is not None:
                        f.attrs['data_version'] = ver
                if cgns:
                    f.create_dataset(' hdf5version', data=np.frombuffer(b'HDF5 Version 1.8\0', dtype=np.int8))
            state[fn] = (typ, (ver or 0) if typ else None, None)
            ctx.label('no header' if typ is None else 'raw header')
            continue
        key = (fn, iobj)
        if key not in objs:
            objs[key] = h5File(arg)
        else:
            ctx.label('same object')
        h = objs[key]
        mode = op[3]
        what = f'mode {mode} {"existing" if exists else "no"} file'
        if kind == 'create':
            typ, ver, fills = op[4:]
            want = None
            if typ not in TYPES:
                want = 'unknown type'
            elif ver is None:
                want = 'no version'
            if mode != 'w' and exists:
                want = 'existing file'
            err = None
            try:
                h.open(mode, datatype=typ, version=ver) if typ is not None or ver is not None else h.open(mode)
            except Exception as exc:
                err = exc
            if err is None and want is not None:
                h.close()
                fail(f'{what}, type {typ} version {ver}: accepted')
            if err is not None and want is None:
                raise err
            if err is not None:
                ctx.label('refused ' + want)
                if want == 'existing file':
                    require(content(fn) == before, f'{what}: file changed')
                    ctx.nontrivial = True
                else:  # what is left of a new file is not specified
                    try:
                        h.close()
                    except Exception:
                        pass
                    state.pop(fn, None)
                    if os.path.exists(fn):
                        os.remove(fn)
                continue
            f = h._h5file
            require(list(f) == [], f'{what}: new file with {list(f)}')
            require(h.datatype == typ, f'{what}: type {h.datatype} instead of {typ} in the opened file')
            for w, s in fills:
                fill(f, h, w, s)
            report(h, typ, ver, cfdtools.__version__, what)
            h.close()
            with h5py.File(fn, 'r') as f:
                got = f.attrs['cfd_datatype'], f.attrs['data_version'], f.attrs['cfdtools_version']
                require(got == (typ, ver, cfdtools.__version__), f'{what}: header {got} instead of {typ}, {ver}')
                keys = {n for n in f.attrs} - {f'attr{s}' for w, s in fills if w == 'attr'}
                require(keys == {'cfd_datatype', 'data_version', 'cfdtools_version'}, f'{what}: attributes {keys}')
                require(set(f) == {f'{w}{s}' for w, s in fills if w != 'attr'}, f'{what}: content {set(f)}')
            state[fn] = (typ, ver, cfdtools.__version__)
            ctx.label('created ' + mode)
        elif kind == 'open':
            fills = op[4]
            try:
                if len(op) > 5 and op[5]:  # what is given for reading does not replace what the file holds
                    h.open(mode, datatype=op[5], version=11)
                else:
                    h.open(mode) if mode != 'r' or op[2] else h.open()
            except FileNotFoundError:
                require(not exists, f'{what}: not found')
                ctx.label('no such file')
                require(not os.path.exists(fn), f'{what}: created')
                continue
            require(exists, f'{what}: opened')
            typ, ver, lib = state[fn]
            require(h.datatype == typ, f'{what}: type {h.datatype} instead of {typ}')
            got = getattr(h, '_version', ver)
            require(got is None if ver is None else got == ver, f'{what}: version {got} instead of {ver}')
            got = getattr(h, '_cfdtools_version', lib)
            require(got == lib, f'{what}: library version {got} instead of {lib}')
            for name in before:
                if name != '/':
                    require(h[name].name == '/' + name, f'item {name} is {h[name].name}')
            report(h, typ, ver, lib, what)
            if mode == 'r+':
                require(content_open(h._h5file) == before, f'{what}: content changed')
                for w, s in fills:
                    fill(h._h5file, h, w, s)
            h.close()
            after = content(fn)
            if mode == 'r':
                require(after == before, f'{what}: content changed')
            else:
                for k, v in before.items():
                    if k == '/':
                        require(set(v[0]) <= set(after[k][0]), f'{what}: attributes changed')
                    else:
                        require(after.get(k) == v, f'{what}: {k} changed')
                new = {n.split('/')[0] for n in set(after) - set(before)}
                require(new <= {f'{w}{s}' for w, s in fills}, f'{what}: new content {new}')
            ctx.nontrivial = True
            ctx.label('opened ' + mode)
        else:  # bad mode
            err = None
            try:
                h.open(mode, datatype='probes', version=1)
            except Exception as exc:
                err = exc
            if err is None:
                h.close()
            else:
                try:
                    h.close()
                except Exception:
                    pass
            if mode != 'a':
                require(err is not None, f'{what}: accepted')
            if exists and (mode != 'a' or err is not None):
                require(content(fn) == before, f'{what}: file changed')
                ctx.nontrivial = True
            elif exists:  # append, if it is accepted
                after = content(fn)
                require(all(after.get(k) == v for k, v in before.items() if k != '/'), f'{what}: content changed')
                os.remove(fn)
                state.pop(fn)
            elif os.path.exists(fn):
                os.remove(fn)
            ctx.label('mode ' + mode)


def content_open(f):
    out = {}

    def add(name, obj):
        out[name] = (
            sorted((k, repr(v)) for k, v in obj.attrs.items()),
            (obj.dtype.str, obj.shape, np.asarray(obj[()]).tobytes()) if isinstance(obj, h5py.Dataset) else None,
        )

    add('/', f)
    f.visititems(add)
    return out


fills = st.lists(st.tuples(st.sampled_from(['mesh', 'data', 'attr']), st.integers(0, 5)).map(list), max_size=3, unique_by=tuple)
types = st.one_of(st.sampled_from(TYPES), st.sampled_from(TYPES), st.sampled_from(BADTYPES + [None]))
version = st.one_of(st.integers(0, 9), st.integers(0, 9), st.integers(1, 10**6), st.none(), st.sampled_from(['1.2', '2-beta', '', 0.5, 2.0]))
ifile, iobj = st.integers(0, 2), st.integers(0, 2)
op = st.one_of(
    st.tuples(st.just('create'), ifile, iobj, st.sampled_from(['w', 'w', 'x', 'w-']), types, version, fills),
    st.tuples(st.just('create'), ifile, iobj, st.sampled_from(['w', 'x', 'w-']), st.sampled_from(TYPES), version.filter(lambda v: v is not None), fills),
    st.tuples(st.just('open'), ifile, iobj, st.sampled_from(['r', 'r', 'r+']), fills),
    st.tuples(st.just('open'), ifile, iobj, st.sampled_from(['r', 'r+']), fills, st.one_of(st.none(), st.sampled_from(TYPES))),
    st.tuples(st.just('raw'), ifile, iobj, st.one_of(st.none(), st.sampled_from(TYPES)), st.one_of(st.none(), st.integers(0, 5)), st.booleans()),
    st.tuples(st.just('mode'), ifile, iobj, st.sampled_from(BADMODES + ['a'])),
).map(list)
CASES = [
    Case('history', st.fixed_dictionaries({'ops': st.lists(op, min_size=2, max_size=10)}), check, quick=1500, thorough=20000),
]

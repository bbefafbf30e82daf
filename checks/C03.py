"""IC3 reader on files of an independent writer, sections in any order"""
import contextlib
import io
import os
import random

import numpy as np
from hypothesis import strategies as st

from lib import ic3fmt, ic3model
from lib.fw import Case, require, same_array
from lib.ic3fmt import CODE, Section

PROPERTY = 'C03'
RULE = (
    'Contents as in C01 plus face data and extra parameters are written by an independent writer in both byte orders, '
    'with or without integrity sections, sections in random order; the mesh read must equal the model. Altered entries '
    'of integrity sections (small and large meshes) must be rejected when checking is requested, files which do not start '
    'with the magic number always. Non-trivial: sections '
    'are not in canonical order, or a section is altered.'
)
TECHNIQUE = 'property-based testing (Hypothesis): files of an independent writer, reordered sections, injected faults'
NOTE = 'random contents and orders of sections; large integrity sections up to 300000 indices; a few large meshes (sizes over 16 bits)'


def build(spec, version):
    m = ic3model.make(spec['m'])
    e = spec['e']
    secs = ic3fmt.sections(m, version, e, check_sections=spec['chk'])
    if spec['int']:
        last = max(z[3] for z in m.zones)
        secs.insert(len(secs) // 2, Section('internal-domain', CODE['FA_ZONE'], [6, last + 1, m.nface - 1]))
    for i, v in enumerate(spec['extra']):
        secs.append(Section(f'PARAM{i}', CODE['I0'], [v]))
        secs.append(Section(f'Real{i}', CODE['D0'], rdata=[v / 7.0]))
    mode = spec['mix']
    r = random.Random(mode)
    for i in range(mode // 7 % 4):  # sections of other kinds are ignored
        code = r.choice([13, 19, 27, 29, 35, 46, 49, 52, 52, 60, 99, 1000, -3, 0])
        size = r.choice([0, 8, 24, 256])
        secs.insert(r.randrange(len(secs) + 1), Section(f'OTHER_{i}', code, [r.randrange(100) for _ in range(8)], payload=bytes(r.randrange(256) for _ in range(size))))
    if mode % 3 == 1:
        r.shuffle(secs)
    elif mode % 3 == 2:
        for _ in range(3):
            i, j = r.randrange(len(secs)), r.randrange(len(secs))
            secs[i], secs[j] = secs[j], secs[i]
    if mode % 4 == 3:  # a name ends at its first null byte, whatever follows it
        for s in secs:
            s.tail = bytes(r.choice([0, 32, 65, 200, 255]) for _ in range(52))
    return m, secs


def read(version):
    def check(spec, ctx):
        import cfdtools.ic3 as ic3

        m, secs = build(spec, version)
        fn = ctx.path('f.ic3')
        data = ic3fmt.pack(secs, version, spec['e'])
        with open(fn, 'wb') as f:
            f.write(data)
        r = ic3.reader(fn, cIntegrity=spec['c'])
        r.read_data()
        require(r.ncell == m.ncell and r.ic3_version == version, 'ncell or version')
        mesh = r.export_mesh()
        last = max(z[3] for z in m.zones)
        ic3model.compare_mesh(m, mesh, internal=(last + 1, m.nface - 1) if spec['int'] else None)
        for i, v in enumerate(spec['extra']):
            require(mesh._params[f'param{i}'] == v, f'param{i}')
            require(mesh._params[f'real{i}'] == v / 7.0, f'real{i}')
        require(open(fn, 'rb').read() == data, 'file modified by reader')
        ctx.nontrivial = spec['mix'] % 3 != 0
        ctx.label(spec['e'], f'order{spec["mix"] % 3}', f'integrity{int(spec["chk"])}{int(spec["c"])}')

    return check


def altered(spec, ctx):
    import cfdtools.ic3 as ic3

    m, secs = build(dict(spec, chk=True), spec['ver'])
    which = spec['which']
    s = next(s for s in secs if s.code == CODE[which])
    a = np.frombuffer(s.payload, dtype=spec['e'] + 'i4').copy()
    i = spec['pos'] % len(a)
    if spec['alt'] == 'swap' and len(a) > 1:
        j = (i + 1 + spec['pos'] // 7 % (len(a) - 1)) % len(a)
        a[i], a[j] = a[j], a[i]
    else:
        a[i] += spec['delta']
    s.payload = a.tobytes()
    fn = ctx.path('f.ic3')
    with open(fn, 'wb') as f:
        f.write(ic3fmt.pack(secs, spec['ver'], spec['e']))
    try:
        r = ic3.reader(fn, cIntegrity=True)
        r.read_data()
    except Exception:
        pass
    else:
        raise AssertionError(f'wrong {which} section (index {i}) is accepted')
    if spec['pos'] % 2:  # same thing by the command line
        import cfdtools._cli as cli

        os.chdir(ctx.dir)
        for tool in (cli.cfdinfo, cli.cfdwrite_ic3v2, cli.cfdwrite_ic3v3):
            try:
                tool([fn, '--check'] if spec['pos'] % 4 == 1 else ['--check', '--fmt', 'IC3', fn])
            except Exception:
                pass
            else:
                raise AssertionError(f'wrong {which} section (index {i}) is accepted by {tool.__name__} --check')
    ctx.nontrivial = True
    ctx.label(which, spec['alt'])


def foreign(spec, ctx):
    """files whose first integer is not the magic number, in any byte order"""
    import cfdtools._cli as cli
    import cfdtools.ic3 as ic3

    m, secs = build(spec, spec['ver'])
    data = bytearray(ic3fmt.pack(secs, spec['ver'], spec['e']))
    how, x = spec['wrong']
    if how == 'bit':
        data[x % 32 // 8] ^= 1 << x % 8
    elif how == 'mixed':  # half words of each byte order
        data[:4] = bytes([data[1], data[0], data[3], data[2]])
    elif how == 'text':
        data[:4] = b'# vtk DataFile'[:4]
    elif how == 'add':
        data[:4] = np.array(ic3fmt.MAGIC + x, dtype=spec['e'] + 'i4').tobytes()
    fn = ctx.path('f.ic3')
    with open(fn, 'wb') as f:
        f.write(data)

    def read():
        r = ic3.reader(fn, cIntegrity=spec['c'])
        r.read_data()
        return r.export_mesh()

    def listing():
        with contextlib.redirect_stdout(io.StringIO()):
            ic3.binreader(fn).read_headers()

    for name, call in (('reader', read), ('binreader', listing), ('cfdinfo', lambda: cli.cfdinfo([fn]))):
        try:
            call()
        except Exception:
            continue
        raise AssertionError(f'{name} accepts a file which starts with {bytes(data[:4])!r}')
    ctx.nontrivial = True
    ctx.label(how)


def large(spec, ctx):
    """large integrity sections: one entry wrong by one"""
    import cfdtools.ic3 as ic3

    n = spec['n']
    m = ic3fmt.Model()
    m.coords = np.zeros((n if spec['which'] == 'NO_CHECK' else 4, 3))
    m.faces = [[0, 1, 2]] * 2
    m.ncell = n if spec['which'] == 'CV_CHECK' else 2
    m.f2c = np.array([[0, -1], [m.ncell - 1, -1]])
    m.zones = [('wall', 'boundary', 0, 1, [0.0] * 16)]
    secs = ic3fmt.sections(m, 2, '<', check_sections=True)
    s = next(s for s in secs if s.code == CODE[spec['which']])
    for bad in (False, True):
        if bad:
            a = np.frombuffer(s.payload, dtype='<i4').copy()
            a[n - 1 - spec['pos'] % n] += spec['delta']
            s.payload = a.tobytes()
        fn = ctx.path('f.ic3')
        with open(fn, 'wb') as f:
            f.write(ic3fmt.pack(secs, 2, '<'))
        r = ic3.reader(fn, cIntegrity=True)
        try:
            r.read_data()
        except Exception:
            require(bad, 'right integrity sections are rejected')
        else:
            require(not bad, f'wrong index in a {spec["which"]} section of {n} indices is accepted')
            same_array(m.f2c, r.export_mesh()._faces['mixed']['face2cell'].conn, 'f2c')
    ctx.count = 2
    ctx.nontrivial = True


def base(**kw):
    return {
        'm': ic3model.model_spec(face=True, **kw),
        'e': st.sampled_from('<>'),
        'chk': st.booleans(),
        'int': st.booleans(),
        'mix': st.integers(0, 10**6),
        'extra': st.lists(st.integers(-5, 5), max_size=2),
        'c': st.booleans(),
    }


alter = st.fixed_dictionaries(
    dict(
        base(ints=False, maxvar=1),
        ver=st.sampled_from([2, 3]),
        which=st.sampled_from(['NO_CHECK', 'FA_CHECK', 'CV_CHECK']),
        pos=st.integers(0, 10**6),
        alt=st.sampled_from(['swap', 'delta']),
        delta=st.one_of(st.sampled_from([1, -1]), st.integers(-(2**30), 2**30).filter(bool)),
    )
)
CASES = [
    Case('v3', st.fixed_dictionaries(base(ints=True, maxndof=3)), read(3), quick=700, thorough=15000),
    Case('v2', st.fixed_dictionaries(base(ints=True)), read(2), quick=500, thorough=15000),
    Case('big', st.fixed_dictionaries(base(ints=True, maxndof=2, big=True, maxvar=2)), read(3), quick=6, thorough=100),
    Case('altered', alter, altered, quick=300, thorough=6000),
    Case('foreign', st.fixed_dictionaries(dict(
        base(ints=False, maxvar=1), ver=st.sampled_from([2, 3]),
        wrong=st.one_of(
            st.tuples(st.just('bit'), st.integers(0, 31)), st.tuples(st.sampled_from(['mixed', 'text']), st.just(0)),
            st.tuples(st.just('add'), st.sampled_from([1, -1, 256, -ic3fmt.MAGIC, -2 * ic3fmt.MAGIC, 10**6])),
        ).map(list))), foreign, quick=150, thorough=3000),
    Case(
        'large',
        st.fixed_dictionaries({
            'which': st.sampled_from(['NO_CHECK', 'CV_CHECK']), 'n': st.sampled_from([100, 120000, 300000]),
            'pos': st.integers(0, 999), 'delta': st.sampled_from([1, -1]),
        }),
        large, quick=16, thorough=100,
    ),
]

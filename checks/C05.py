"""listing of the sections of an IC3 restart"""
import contextlib
import io
import re
import struct

from hypothesis import strategies as st

from lib import ic3fmt, ic3model, values
from lib.fw import Case, require, same_array
from lib.ic3fmt import CODE, Section

PROPERTY = 'C05'
RULE = (
    'Files made of 1 to 12 random sections (any code but EOF, names, integer and real values including extremes, payloads '
    'of 0 to 700 bytes: random, or copies of headers and EOF sections; or several GB in sparse files) in both byte orders and versions, and restarts '
    'written by the library; the listing printed by the command and by the library is parsed and compared with the '
    'headers. Non-trivial: at least 3 sections and one payload.'
)
TECHNIQUE = 'property-based testing (Hypothesis): printed listing against generated headers'
NOTE = 'random section lists up to 12 sections (480 for some); names are printable ASCII not starting with DEOF'
EXTREME = [0, 1, -1, 2**63 - 1, -(2**63), 2**31, 10**15]


def parse_listing(text):
    out = []
    for block in text.split('> Header:\n')[1:]:
        d = {}
        for line in block.splitlines():
            mt = re.match(r'(Name |Id   |hsize|skip |idata|rdata): (.*)$', line)
            if mt:
                d[mt.group(1).strip()] = mt.group(2)
        out.append((
            d['Name'], int(re.match(r'\[\s*(-?\d+)\]', d['Id']).group(1)), int(d['skip']),
            [int(x) for x in d['idata'][1:-1].split(', ')], [float(x) for x in d['rdata'][1:-1].split(', ')],
        ))
        names = re.findall(r"'([^']+)'", d['Id'])
        require(len(names) >= 1, f'no symbolic name for section code in {d["Id"]}')
    return out


def compare(text, secs):
    got = parse_listing(text)
    require(len(got) == len(secs), f'{len(got)} sections listed instead of {len(secs)}')
    for (name, code, skip, idata, rdata), s in zip(got, secs):
        require(name == s.name, f'name {name!r} instead of {s.name!r}')
        require(code == s.code, f'{name}: code {code} instead of {s.code}')
        require(skip == 256 + len(s.payload), f'{name}: skip {skip} instead of {256 + len(s.payload)}')
        require(idata == list(s.idata), f'{name}: idata {idata} instead of {s.idata}')
        same_array(s.rdata, rdata, f'{name}: rdata')


def run(data, secs, ctx):
    import cfdtools._cli as cli
    import cfdtools.ic3 as ic3

    fn = ctx.path('f.ic3')
    with open(fn, 'wb') as f:
        f.write(data)
    for call in (lambda: ic3.binreader(fn).read_headers(), lambda: cli.ic3brief([fn])):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            call()
        compare(out.getvalue(), secs)
    require(open(fn, 'rb').read() == data, 'the file was modified')


def random_file(spec, ctx):
    e, ver = spec['e'], spec['ver']
    secs = []
    for s in spec['secs']:
        kind, n, seed = s['pay']
        if kind == 'head':
            body = Section('EOF', CODE['EOF']).pack(e)[:n] if n % 2 else Section(s['name'], s['code']).pack(e)[:n]
        elif kind == 'ff':
            body = b'\xff' * n
        else:
            body = bytes((seed * (i + 3) * 7919 >> 3) % 256 for i in range(n))
        secs.append(Section(s['name'], s['code'], s['i'], s['r'], body))
        if n % 3 == 1:  # a name ends at its first null byte
            secs[-1].tail = bytes((seed * (i + 5) * 7919 >> 3) % 256 for i in range(52))
    secs *= spec['times']
    data = ic3fmt.pack(secs, ver, e)
    run(data, secs + [Section('EOF', CODE['EOF'])], ctx)
    ctx.nontrivial = len(secs) >= 3 and any(s.payload for s in secs)
    ctx.label(e, f'v{ver}', 'sections%d+' % (len(secs) // 4 * 4))


def huge(spec, ctx):
    """payloads of several GB (sparse file: nothing is written in them)"""
    import os

    import cfdtools._cli as cli

    e = spec['e']
    fn = ctx.path('f.ic3')
    want = []
    try:
        with open(fn, 'wb') as f:
            f.write(struct.pack(e + 'ii', ic3fmt.MAGIC, spec['ver']))
            for s in spec['secs']:
                sec = Section(s['name'], s['code'], s['i'], s['r'])
                head = bytearray(sec.pack(e))
                struct.pack_into(e + 'q', head, 56, 256 + s['size'])
                f.write(head)
                f.seek(s['size'], os.SEEK_CUR)
                want.append((sec, s['size']))
            end = Section('EOF', CODE['EOF'])
            f.write(end.pack(e))
    except OSError:  # no room for sparse files here
        ctx.label('no sparse files')
        return
    want.append((end, 0))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        cli.ic3brief([fn])
    os.unlink(fn)
    got = parse_listing(out.getvalue())
    require([g[0] for g in got] == [s.name for s, _ in want], f'sections {[g[0] for g in got]} instead of {[s.name for s, _ in want]}')
    require([g[2] for g in got] == [256 + n for _, n in want], f'skips {[g[2] for g in got]}')
    ctx.nontrivial = True


def restart(spec, ctx):
    from cfdtools.ic3 import writerV2, writerV3

    m = ic3model.make(spec['m'])
    fn = ctx.path('w.ic3')
    W = (writerV2 if spec['ver'] == 2 else writerV3).writer
    W(ic3model.to_mesh(m, 1), endian=spec['e']).write_data(fn)
    data = open(fn, 'rb').read()
    run(data, ic3fmt.parse(data)[2], ctx)
    ctx.nontrivial = True


_r = st.one_of(st.floats(allow_nan=True, width=64), st.sampled_from([0.0, -0.0, 0.1, 1e-300]))
section = st.fixed_dictionaries({
    'name': st.one_of(ic3model.secname, ic3model.secname, ic3model.secname, st.just('')),
    'code': st.sampled_from(sorted(set(CODE.values()) - {CODE['EOF']})),
    'i': st.lists(st.one_of(st.integers(-100, 100), st.sampled_from(EXTREME)), max_size=8),
    'r': st.lists(_r, max_size=16),
    'pay': st.tuples(st.sampled_from(['rand', 'head', 'ff']), st.one_of(st.just(0), st.integers(0, 700)),
                     st.integers(1, 99)).map(list),
})
CASES = [
    Case('random', st.fixed_dictionaries({
        'secs': st.lists(section, min_size=1, max_size=12), 'times': st.sampled_from([1] * 15 + [40]), 'e': st.sampled_from('<>'), 'ver': st.sampled_from([2, 3]),
    }), random_file, quick=800, thorough=20000),
    Case('huge', st.fixed_dictionaries({
        'secs': st.lists(st.fixed_dictionaries({
            'name': ic3model.secname, 'code': st.sampled_from(sorted(set(CODE.values()) - {CODE['EOF']})),
            'i': st.lists(st.integers(-100, 100), max_size=8), 'r': st.just([]),
            'size': st.sampled_from([0, 100, 2**31 - 256, 2**31 - 255, 2**31 + 8, 2**32 - 256, 2**32 + 40]),
        }), min_size=1, max_size=3), 'e': st.sampled_from('<>'), 'ver': st.sampled_from([2, 3]),
    }), huge, quick=40, thorough=400),
    Case('restart', st.fixed_dictionaries({
        'm': ic3model.model_spec(ints=False), 'e': st.sampled_from(['native', 'little', 'big']),
        'ver': st.sampled_from([2, 3]),
    }), restart, quick=160, thorough=4000),
]

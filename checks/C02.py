"""bytes of the IC3 V2/V3 restarts against an independent parser"""
from hypothesis import strategies as st

from lib import ic3fmt, ic3model
from lib.fw import Case, require, same_array
from lib.ic3fmt import CODE

PROPERTY = 'C02'
RULE = (
    'Restart contents as in C01 are written by the library in native, little and big endian and decoded by an independent'
    ' strict parser (magic, version, zero padded names, codes, exact skips, counts and payload sizes, single EOF at the'
    ' end); decoded contents are compared with the model and the three files with each other. Non-trivial: at least one'
    ' data array and two zones or face types.'
)
TECHNIQUE = 'property-based testing (Hypothesis): independent parser of the written bytes'
NOTE = 'random restart contents (up to 14 faces or small conforming meshes), all byte orders and both versions; a few large meshes (sizes over 16 bits)'


def layout(version):
    def check(spec, ctx):
        from cfdtools.ic3 import writerV2, writerV3

        W = (writerV2 if version == 2 else writerV3).writer
        m = ic3model.make(spec['m'])
        files = {}
        for e in ('little', 'big', 'native'):
            fn = ctx.path(e + '.ic3')
            if spec['o'] % 3 == 0:  # written over a longer file
                with open(fn, 'wb') as f:
                    f.write(b'DEOF' * 30000)
            W(ic3model.to_mesh(m, spec['o']), endian=e).write_data(fn)
            files[e] = open(fn, 'rb').read()
        secs = {}
        for e, data in files.items():
            code, ver, d, secs[e] = ic3fmt.decode(data)
            require(e == 'native' or code == {'little': '<', 'big': '>'}[e], f'{e} file is written in {code}')
            require(ver == version, f'version {ver} instead of {version}')
            ic3model.compare_decoded(m, d, version)
            if m.celldata and version == 3:
                require(d.ndof == m.ndof, f'ndof {d.ndof} instead of {m.ndof}')
            codes = [s.code for s in secs[e]]
            for key in ('COUNTS', 'NOOFA', 'CVOFA', 'CV_PART', 'X_NO', 'DATA', 'EOF'):
                require(codes.count(CODE[key]) == 1, f'{codes.count(CODE[key])} sections {key}')
            require(codes[0] == CODE['COUNTS'] and codes[-1] == CODE['EOF'], 'first or last section')
            for key in ('NO_CHECK', 'FA_CHECK', 'CV_CHECK'):
                if version == 2:
                    require(codes.count(CODE[key]) == 1, f'{codes.count(CODE[key])} sections {key}')
            names = [s.name for s in secs[e] if s.code in (CODE['I0'], CODE['D0'])]
            require(sorted(names) == sorted(['STEP', 'DT', 'TIME'] + [k.upper() + '_WGT' for k in m.wgt]), f'{names}')
            last = -1
            zones = [s for s in secs[e] if s.code == CODE['FA_ZONE']]
            for s in sorted(zones, key=lambda s: s.idata[1:3]):
                require(s.idata[1] == last + 1, f'zone {s.name} starts at {s.idata[1]} after {last}')
                last = s.idata[2]
            require(last == m.nface - 1, f'last zone ends with face {last} of {m.nface}')
        for a, b in zip(secs['little'], secs['big']):
            require((a.name, a.code, a.idata, len(a.payload)) == (b.name, b.code, b.idata, len(b.payload)),
                    f'{a.name}: little and big endian headers differ')
            same_array(a.rdata, b.rdata, f'{a.name} rdata little/big')
        require(len(secs['little']) == len(secs['big']), 'number of sections')
        require(files['native'] in (files['little'], files['big']), 'native file')
        nd = len(m.celldata) + len(m.nodedata)
        ctx.count = 3
        ctx.nontrivial = nd > 0 and (len(m.zones) > 1 or len({len(f) for f in m.faces}) > 1)
        ctx.label(f'zones{len(m.zones)}', f'ndof{m.ndof}', f'ndata{min(nd, 3)}')
        for z in m.zones:
            ctx.label(z[1])

    return check


def strat(**kw):
    return st.fixed_dictionaries({'m': ic3model.model_spec(**kw), 'o': st.integers(0, 100)})


CASES = [
    Case('v3', strat(ints=True, maxndof=3), layout(3), quick=450, thorough=12000),
    Case('v2', strat(ints=False), layout(2), quick=450, thorough=12000),
    Case('big', strat(ints=True, maxndof=2, big=True, maxvar=2), layout(3), quick=3, thorough=50),
    Case('big2', strat(ints=False, big=True, maxvar=2), layout(2), quick=3, thorough=50),
]

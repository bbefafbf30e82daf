"""Independent parser and writer of the IC3 (CharlesX) binary restart format, V2 and V3."""
import struct

import numpy as np

from lib.fw import Violation, require

MAGIC = 123581321
CODE = {
    'COUNTS': 10, 'I0': 11, 'D0': 12, 'FA_CHECK': 20, 'NOOFA': 21, 'CVOFA': 22, 'FA_ZONE': 23, 'FA_D1': 24,
    'FA_D3': 25, 'FA_II1': 26, 'NO_CHECK': 30, 'X_NO': 31, 'NO_D1': 32, 'NO_D3': 33, 'NO_II1': 34, 'CV_CHECK': 40,
    'CV_PART': 41, 'CV_D1': 42, 'CV_D3': 43, 'CV_D33': 44, 'CV_II1': 45, 'DATA': 50, 'EOF': 51,
}
KIND = {'boundary': 1, 'perio_cart': 2, 'perio_cylx': 3, 'perio_cyly': 4, 'perio_cylz': 5, 'internal': 6}
NAMECODE = {v: k for k, v in CODE.items()}


class Section:
    def __init__(self, name, code, idata=(), rdata=(), payload=b''):
        self.name, self.code, self.payload = name, code, payload
        self.idata = list(idata) + [0] * (8 - len(idata))
        self.tail = b''  # bytes following the end of the name
        self.rdata = list(rdata) + [0.0] * (16 - len(rdata))

    def pack(self, e):
        head = (self.name.encode('ascii') + b'\0' + self.tail).ljust(52, b'\0')[:52] + struct.pack(
            e + 'iq8q16d', self.code, 256 + len(self.payload), *[int(i) for i in self.idata], *self.rdata
        )
        assert len(head) == 256
        return head + self.payload


class Model:
    """content of a restart"""

    def __init__(self):
        self.coords = np.zeros((0, 3))
        self.faces = []  # list of node lists
        self.f2c = np.zeros((0, 2), int)
        self.ncell = 0
        self.zones = []  # name, kind(str), first, last, rdata(16)
        self.npart = 1
        self.icv = None
        self.bare = 0  # see ic3model.make
        self.step, self.dt, self.time = 0, 0.0, 0.0
        self.wgt = {}  # lower case name (without _wgt) -> value
        self.nodedata = {}
        self.celldata = {}
        self.facedata = {}
        self.ndof = 1

    @property
    def nnode(self):
        return len(self.coords)

    @property
    def nface(self):
        return len(self.faces)


def _b(e, t, a):
    return np.ascontiguousarray(a, dtype=np.dtype(e + t)).tobytes()


def sections(m, version, e, check_sections=None, internal_zone=True):
    """list of sections (without EOF) in the order the IC3 code documents"""
    out = []
    nof = sum(len(f) for f in m.faces)
    out.append(Section('NO_FA_CV_NOOFA_COUNTS', CODE['COUNTS'], [m.nnode, m.nface, m.ncell, nof]))
    if check_sections if check_sections is not None else version == 2:
        out.append(Section('NO_CHECK', CODE['NO_CHECK'], [m.nnode], payload=_b(e, 'i4', np.arange(m.nnode))))
        out.append(Section('FA_CHECK', CODE['FA_CHECK'], [m.nface], payload=_b(e, 'i4', np.arange(m.nface))))
        out.append(Section('CV_CHECK', CODE['CV_CHECK'], [m.ncell], payload=_b(e, 'i4', np.arange(m.ncell))))
    flat = [n for f in m.faces for n in f]
    out.append(Section('NOOFA_I_AND_V', CODE['NOOFA'], [m.nface, nof],
                       payload=_b(e, 'i4', [len(f) for f in m.faces]) + _b(e, 'i4', flat)))
    out.append(Section('CVOFA', CODE['CVOFA'], [m.nface, 2], payload=_b(e, 'i4', m.f2c)))
    for name, kind, first, last, rd in m.zones:
        out.append(Section(name, CODE['FA_ZONE'], [KIND[kind], first, last], rd))
    icv = np.zeros(m.ncell) if m.icv is None else m.icv
    out.append(Section('CV_PART', CODE['CV_PART'], [m.ncell, m.npart], payload=_b(e, 'i4', icv)))
    out.append(Section('X_NO', CODE['X_NO'], [m.nnode, 3], payload=_b(e, 'f8', m.coords)))
    out.append(Section('DATA', CODE['DATA']))
    out.append(Section('STEP', CODE['I0'], [m.step]))
    out.append(Section('DT', CODE['D0'], rdata=[m.dt]))
    out.append(Section('TIME', CODE['D0'], rdata=[m.time]))
    for k, v in m.wgt.items():
        out.append(Section(k.upper() + '_WGT', CODE['D0'], rdata=[v]))
    for prefix, n, data, nd in (('NO', m.nnode, m.nodedata, 1), ('FA', m.nface, m.facedata, 1),
                                ('CV', m.ncell, m.celldata, m.ndof)):
        i1 = nd if (prefix == 'CV' and version == 3) else None
        for name, a in data.items():
            if a.ndim == 1:
                isint = a.dtype.kind == 'i'
                out.append(Section(name, CODE[prefix + ('_II1' if isint else '_D1')],
                                   [n] + ([i1] if i1 else []), payload=_b(e, 'i8' if isint else 'f8', a)))
            elif a.ndim == 2:
                out.append(Section(name, CODE[prefix + '_D3'], [n, i1 or 3], payload=_b(e, 'f8', a)))
            else:
                out.append(Section(name, CODE[prefix + '_D33'], [n, i1 or 3, 3], payload=_b(e, 'f8', a)))
    return out


def pack(secs, version, e):
    data = struct.pack(e + 'ii', MAGIC, version)
    for s in secs:
        data += s.pack(e)
    return data + Section('EOF', CODE['EOF']).pack(e)


def parse(data):
    """strict parse of bytes -> (endian, version, [Section]); EOF section included"""
    require(len(data) >= 8, 'file shorter than its header')
    for e in '<>':
        magic, version = struct.unpack(e + 'ii', data[:8])
        if magic == MAGIC:
            break
    else:
        raise Violation(f'no magic number: {data[:8]!r}')
    pos, out = 8, []
    while True:
        require(pos + 256 <= len(data), f'section header at {pos} is out of the file ({len(data)} bytes)')
        rawname = data[pos:pos + 52]
        vals = struct.unpack(e + 'iq8q16d', data[pos + 52:pos + 256])
        name = rawname.split(b'\0')[0]
        require(rawname == name.ljust(52, b'\0'), f'section name is not padded with zeros: {rawname!r}')
        code, skip = vals[0], vals[1]
        require(code in NAMECODE, f'unknown section code {code}')
        require(skip >= 256, f'section {name!r} has a bad skip {skip}')
        require(pos + skip <= len(data), f'section {name!r} goes beyond end of file')
        s = Section(name.decode('utf-8'), code, vals[2:10], vals[10:26], data[pos + 256:pos + skip])
        out.append(s)
        pos += skip
        if code == CODE['EOF']:
            break
    require(pos == len(data), f'{len(data) - pos} bytes after EOF section')
    return e, version, out


def _dec(e, t, s, shape, what):
    n = int(np.prod(shape))
    item = int(t[1])
    require(len(s.payload) == n * item, f'{what}: payload of {len(s.payload)} bytes instead of {n * item}')
    return np.frombuffer(s.payload, dtype=e + t).reshape(shape).astype('=' + t)


def decode(data):
    """bytes -> (endian, version, Model, sections); strict about layout"""
    e, version, secs = parse(data)
    m = Model()
    by = {}
    for s in secs:
        by.setdefault(s.code, []).append(s)

    def one(key):
        lst = by.get(CODE[key], [])
        require(len(lst) == 1, f'{len(lst)} sections {key}')
        return lst[0]

    c = one('COUNTS')
    nno, nfa, ncv, nof = c.idata[:4]
    m.ncell = ncv
    s = one('NOOFA')
    require(s.idata[:2] == [nfa, nof], f'NOOFA counts {s.idata[:2]} != {[nfa, nof]}')
    require(len(s.payload) == 4 * (nfa + nof), 'NOOFA payload size')
    ints = np.frombuffer(s.payload, dtype=e + 'i4')
    cnt, flat = ints[:nfa], ints[nfa:]
    require(cnt.sum() == nof, 'sum of nodes per face is not noofa_count')
    pos = 0
    for n in cnt:
        m.faces.append([int(x) for x in flat[pos:pos + n]])
        pos += n
    s = one('CVOFA')
    require(s.idata[:2] == [nfa, 2], 'CVOFA header')
    m.f2c = _dec(e, 'i4', s, (nfa, 2), 'CVOFA')
    inv = {v: k for k, v in KIND.items()}
    for s in by.get(CODE['FA_ZONE'], []):
        require(len(s.payload) == 0, 'FA_ZONE with payload')
        require(s.idata[0] in inv, f'unknown zone kind {s.idata[0]}')
        m.zones.append((s.name, inv[s.idata[0]], s.idata[1], s.idata[2], list(s.rdata)))
    s = one('CV_PART')
    require(s.idata[0] == ncv, 'CV_PART header')
    m.npart, m.icv = s.idata[1], _dec(e, 'i4', s, (ncv,), 'CV_PART')
    s = one('X_NO')
    require(s.idata[:2] == [nno, 3], 'X_NO header')
    m.coords = _dec(e, 'f8', s, (nno, 3), 'X_NO')
    for key, n in (('NO_CHECK', nno), ('FA_CHECK', nfa), ('CV_CHECK', ncv)):
        for s in by.get(CODE[key], []):
            require(s.idata[0] == n, f'{key} header')
            require(np.array_equal(_dec(e, 'i4', s, (n,), key), np.arange(n)), f'{key} content')
    for s in by.get(CODE['I0'], []):
        require(s.name == 'STEP', f'unexpected integer parameter {s.name}')
        m.step = s.idata[0]
    for s in by.get(CODE['D0'], []):
        if s.name == 'DT':
            m.dt = s.rdata[0]
        elif s.name == 'TIME':
            m.time = s.rdata[0]
        elif s.name.endswith('_WGT'):
            m.wgt[s.name[:-4].lower()] = s.rdata[0]
        else:
            raise Violation(f'unexpected parameter {s.name}')
    for prefix, n, data in (('NO', nno, m.nodedata), ('FA', nfa, m.facedata), ('CV', ncv, m.celldata)):
        for suf, t, shape in (('_D1', 'f8', ()), ('_II1', 'i8', ()), ('_D3', 'f8', (3,)), ('_D33', 'f8', (3, 3))):
            for s in by.get(CODE.get(prefix + suf, -1), []):
                require(s.idata[0] == n, f'{s.name}: size {s.idata[0]} in header instead of {n}')
                nd = 1
                if prefix == 'CV' and version == 3:
                    nd = s.idata[1]
                    require(nd >= 1, f'{s.name}: ndof {nd}')
                    m.ndof = nd
                elif suf in ('_D3', '_D33'):
                    require(s.idata[1] == 3, f'{s.name}: number of components {s.idata[1]}')
                if suf == '_D33':
                    require(s.idata[2] == 3, f'{s.name}: third dimension {s.idata[2]}')
                require(s.name not in data, f'{s.name} is written twice')
                data[s.name] = _dec(e, t, s, (n * nd,) + shape, s.name)
    return e, version, m, secs

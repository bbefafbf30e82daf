"""independent writers of ASCII GMSH files (2.2 and 4.1) of generated meshes; nothing of cfdtools is used here"""
import random

from hypothesis import strategies as st

from lib import meshgen, values

ETYPE = {'bar2': 1, 'tri3': 2, 'quad4': 3, 'tetra4': 4, 'hexa8': 5, 'prism6': 6, 'pyra5': 7, 'node1': 15}
FACE = {2: 'bar2', 3: 'tri3', 4: 'quad4'}


class Described:
    """what the file describes: nodes by tag, cells and named groups of faces"""


def describe(spec):
    """elements and groups shared by both formats"""
    r = random.Random(spec['seed'])
    gm = meshgen.build(spec['g'])
    marks = meshgen.make_marks(gm, spec['marks'])
    d = Described()
    d.gm, d.marks = gm, marks
    n = gm.nnode
    how = spec['tags']
    if how == 'dense':
        d.tag = list(range(1, n + 1))
    elif how == 'offset':
        o = r.randint(2, 5000)
        d.tag = list(range(o, o + n))
    else:
        d.tag = sorted(r.sample(range(1, 5 * n + 10), n)) if how == 'sparse' else r.sample(range(1, 5 * n + 10), n)
    # elements: (type, gm nodes, dim, entity, physical)
    d.elts = []
    dim = gm.dim
    d.phys = {}  # (dim, physical tag) -> name
    nvol = 1 + r.randrange(3)
    volphys = r.choice([0, 1, 1, 7])
    for t, c in gm.cells:
        d.elts.append((t, list(c), dim, 1 + r.randrange(nvol), volphys))
    if volphys and r.random() < 0.8:
        d.phys[(dim, volphys)] = r.choice(['fluid', 'domain', 'vol 1'])
    used = r.sample(range(1, 40), len(marks))
    ent = 1
    bd = gm.boundary()
    owned = set()
    for (name, nodes, faces), p in zip(marks, used):
        d.phys[(dim - 1, p)] = name
        nent = 1 + r.randrange(3)
        for f in sorted(faces, key=sorted):
            d.elts.append(_face(bd[f][1], r) + (dim - 1, ent + r.randrange(nent), p))
        owned |= set(faces)
        ent += nent
    rest = sorted(set(bd) - owned, key=sorted)
    if spec['rest'] == 'entity':
        for f in rest:
            d.elts.append(_face(bd[f][1], r) + (dim - 1, ent, 0))
    elif spec['rest'] == 'unnamed' and d.phys:
        for f in rest:
            d.elts.append(_face(bd[f][1], r) + (dim - 1, ent, 20))
    if spec['low']:  # lower dimensions with groups of the same tags
        for _ in range(r.randint(1, 3)):
            k = r.randrange(n)
            d.elts.append(('node1', [k], 0, 1 + r.randrange(2), r.choice([0, 1, 2])))
        d.phys[(0, r.choice([1, 2] + used))] = r.choice(['a point', 'corner'])
        if dim == 3:
            for f in sorted(bd, key=sorted)[:2]:
                d.elts.append(('bar2', bd[f][1][:2], 1, 1 + r.randrange(2), r.choice([0, 1, 2])))
            d.phys[(1, r.choice([1, 2] + used))] = 'a curve'
    if spec['bare']:  # no group at all
        d.elts = [e[:4] + (0,) for e in d.elts]
        d.phys = {}
    r.shuffle(d.elts) if spec['shuffle'] else None
    return d, r


def _face(nodes, r):
    nodes = list(nodes)
    k = r.randrange(len(nodes))
    nodes = nodes[k:] + nodes[:k]
    return FACE[len(nodes)], nodes[::-1] if r.random() < 0.5 else nodes


def _num(x, r):
    x = float(x)
    s = r.choice([repr(x), '%.17g' % x, '%.17e' % x])
    assert float(s) == x
    return s


def _names(d, r, spec):
    items = list(d.phys.items())
    r.shuffle(items)
    if not items:
        return []
    return ['$PhysicalNames', str(len(items))] + [f'{dim} {p} "{name}"' for (dim, p), name in items] + ['$EndPhysicalNames']


def _extra(spec, r):
    out = {
        'none': [], 'comments': ['$Comments', 'Nodes 12', 'a line $ 3', '$EndComments'],
        'data': ['$NodeData', '1', '"v"', '1', '0.0', '3', '0', '1', '1', '1 0.5', '$EndNodeData'],
        'periodic': ['$Periodic', '0', '$EndPeriodic'],
    }
    return out[spec['extra']]


def _save(out, spec, fn, r):
    """blanks between and around values, and ends of lines"""
    space, names = spec.get('space', 'one'), False
    lines = []
    for line in out:
        names = names and line != '$EndPhysicalNames'
        if space in ('tab', 'many', 'mixed') and not names:
            line = ''.join((r.choice({'tab': ['\t'], 'many': ['  ', '   '], 'mixed': [' ', '\t', '  ']}[space]) if c == ' ' else c) for c in line)
            line = r.choice(['', '', ' ']) + line + r.choice(['', '', ' '])
        names = names or line.strip() == '$PhysicalNames'
        lines.append(line)
    with open(fn, 'w', newline='\r\n' if space == 'crlf' else '\n') as f:
        f.write('\n'.join(lines) + ('\n' if r.random() < 0.9 else ''))


def write2(spec, fn):
    d, r = describe(spec)
    order = list(range(d.gm.nnode))
    if spec['shuffle']:
        r.shuffle(order)
    out = ['$MeshFormat', f'{r.choice(["2.2", "2", "2.1"])} 0 8', '$EndMeshFormat']
    extra = _extra(spec, r)
    out += extra if spec['extra'] == 'comments' else []
    out += _names(d, r, spec)
    out += ['$Nodes', str(len(order))]
    out += [f'{d.tag[i]} ' + ' '.join(_num(x, r) for x in d.gm.nodes[i]) for i in order] + ['$EndNodes']
    out += ['$Elements', str(len(d.elts))]
    tag = 0
    for t, nodes, dim, ent, phys in d.elts:
        tag += 1 if not spec['shuffle'] else r.randint(1, 3)
        tags = [phys, spec['seed'] % 3 if spec['sametag'] else ent] + ([1, 1] if spec['part'] and r.random() < 0.7 else [])
        out.append(' '.join(map(str, [tag, ETYPE[t], len(tags)] + tags + [d.tag[i] for i in nodes])))
    out += ['$EndElements'] + (extra if spec['extra'] != 'comments' else [])
    _save(out, spec, fn, r)
    return d


def write4(spec, fn):
    d, r = describe(spec)
    gm = d.gm
    out = ['$MeshFormat', '4.1 0 8', '$EndMeshFormat']
    extra = _extra(spec, r)
    out += extra if spec['extra'] == 'comments' else []
    out += _names(d, r, spec)
    # entities: renumber so that an entity has one physical group only
    key, ents = {}, {0: {}, 1: {}, 2: {}, 3: {}}
    pool = {k: r.sample(range(1, 400), 300) for k in range(4)}
    elts = []
    for t, nodes, dim, ent, phys in d.elts:
        k = (dim, ent, phys)
        if k not in key:
            key[k] = pool[dim].pop()
            ents[dim][key[k]] = phys
        elts.append((t, nodes, dim, key[k]))
    for dim in range(gm.dim + 1):  # entities without element, of the same tags as others
        for _ in range(r.randrange(3)):
            ents[dim].setdefault(r.randint(1, 8), 0 if spec['bare'] else r.choice([0, 0, 3, 5]))
    entities = ['$Entities', ' '.join(str(len(ents[k])) for k in range(4))]
    sign = r.choice([[1], [1], [1, -1], [-1]])  # a reversed entity has a negative group
    for dim in range(4):
        tags = list(ents[dim])
        r.shuffle(tags)
        for tag in tags:
            phys = ents[dim][tag]
            box = [_num(r.uniform(-1, 1), r) for _ in range(3 if dim == 0 else 6)]
            line = [str(tag)] + box + ([str(1), str(r.choice(sign) * phys)] if phys else ['0'])
            if dim:
                nb = r.randrange(3)
                line += [str(nb)] + [str(r.randint(-9, 9)) for _ in range(nb)]
            entities.append(' '.join(line))
    entities.append('$EndEntities')
    if spec['bare'] != 'no entities':
        out += entities
    # nodes in blocks of any entity
    order = list(range(gm.nnode))
    if spec['shuffle']:
        r.shuffle(order)
    blocks, pos = [], 0
    while pos < len(order):
        n = r.choice([1, 1, 2, 5, len(order)])
        blocks.append(order[pos:pos + n])
        pos += n
        if r.random() < 0.2:
            blocks.append([])
    out += ['$Nodes', f'{len(blocks)} {gm.nnode} {min(d.tag)} {max(d.tag)}']
    for b in blocks:
        dim = r.randrange(gm.dim + 1)
        para = int(r.random() < 0.3 and dim > 0)
        out.append(f'{dim} {r.choice(list(ents[dim]) or [1])} {para} {len(b)}')
        out += [str(d.tag[i]) for i in b]
        for i in b:
            out.append(' '.join(_num(x, r) for x in list(gm.nodes[i]) + [0.5] * (dim if para else 0)))
    out.append('$EndNodes')
    groups = {}
    for t, nodes, dim, ent in elts:
        groups.setdefault((dim, ent, t), []).append(nodes)
    keys = list(groups)
    if spec['shuffle']:
        r.shuffle(keys)
    tag = r.choice([0, 0, 1000]) if spec['shuffle'] else 0
    lines, first = [], tag + 1
    for dim, ent, t in keys:
        lines.append(f'{dim} {ent} {ETYPE[t]} {len(groups[(dim, ent, t)])}')
        for nodes in groups[(dim, ent, t)]:
            tag += r.randint(1, 3) if lines[1:] and spec['shuffle'] else 1
            lines.append(' '.join(map(str, [tag] + [d.tag[i] for i in nodes])))
    out += ['$Elements', f'{len(keys)} {len(elts)} {first} {tag}'] + lines + ['$EndElements'] + (extra if spec['extra'] != 'comments' else [])
    _save(out, spec, fn, r)
    return d


randomname = values.text('abcXYZ019_-. ', 1, 10).map(lambda s: ' '.join(s.split())).filter(lambda s: s and s not in ('fluid', 'int_fluid'))
# including names which look like those used by the library, or like other items of a file
groupname = st.integers(0, 7).flatmap(
    lambda i: randomname if i else st.sampled_from([
        'int_wall', 'int_fluid2', 'fluid2', 'fluid wall', 'Fluid', 'internal', 'boundary', 'None', 'unmarked', '0', '12', '1 2', "it's", '50%', 'End',
    ])
)


@st.composite
def spec(draw, maxcell=6, dims=(2, 3), big=False):
    dim = draw(st.sampled_from(dims))
    g = draw(meshgen.spec2d(maxcell=maxcell) if dim == 2 else meshgen.spec3d(maxcell=maxcell, maxn=2))
    m = {
        'how': draw(st.sampled_from(['random', 'sides', 'none', 'sides'])), 'seed': draw(st.integers(0, 10**6)),
        'names': draw(st.lists(groupname, min_size=1, max_size=4 + draw(meshgen._many), unique=True)),
    }
    if big:
        g = draw(st.one_of(meshgen.big3d(), meshgen.big2d()))
        m = draw(meshgen.bigmarks(['in', 'out 1', 'wall']))
    return {
        'g': g, 'marks': m, 'seed': draw(st.integers(0, 10**6)), 'tags': draw(st.sampled_from(['dense', 'offset', 'sparse', 'shuffled'])),
        'bare': draw(st.sampled_from(['', '', '', '', '', '', 'entities', 'no entities'])),
        'rest': draw(st.sampled_from(['absent', 'entity', 'unnamed'])), 'low': draw(st.booleans()), 'shuffle': draw(st.booleans()),
        'extra': draw(st.sampled_from(['none', 'comments', 'data', 'periodic'])), 'part': draw(st.booleans()),
        'sametag': draw(st.booleans()), 'space': draw(st.sampled_from(['one', 'one', 'tab', 'many', 'mixed', 'crlf'])),
    }

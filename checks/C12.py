"""containers of indices and connectivities against plain lists"""
import numpy as np
from hypothesis import strategies as st

from lib.fw import Case, require, same_array

PROPERTY = 'C12'
RULE = (
    'Random sequences of up to 12 operations on index lists (range, list or array made, consecutive numbers with a flaw; append, shift, concatenate, compress, '
    'indexing), on pair tables (append), and on element connectivities (adding groups of elements of all types with ranges, lists, '
    'permuted or automatic indices; merging 1 to 4 of them; export to and import from compressed form; selection of '
    'elements), each compared after each operation with plain Python lists. '
    'Non-trivial: at least two operations that add something.'
)
TECHNIQUE = 'model-based testing (Hypothesis): operation sequences against plain lists'
NOTE = 'up to 12 operations, up to 40 elements; some large ones (numbers over 32 bits, 34000 elements)'

NN = {'node1': 1, 'bar2': 2, 'tri3': 3, 'quad4': 4, 'tetra4': 4, 'pyra5': 5, 'prism6': 6, 'hexa8': 8}
FACES = ['bar2', 'tri3', 'quad4']


def make_index(how, ints):
    """(indexlist, plain list)"""
    import cfdtools.meshbase._connectivity as _conn

    if how == 'range':
        a, n = (ints + [0, 0])[0], len(ints)
        if n == 0:
            return _conn.indexlist(ilist=[]), []
        r = [a, a + n - 1]
        il = _conn.indexlist(irange=tuple(r) if n % 2 else r)
        r[:] = [a + 7, a + 3]  # the list of the caller is not kept
        return il, list(range(a, a + n))
    if how == 'array':
        return _conn.indexlist(ilist=np.array(ints, dtype=int)), list(ints)
    return _conn.indexlist(ilist=list(ints)), list(ints)


def same_index(il, model, what):
    require(il.list() == model, lambda: f'{what}: {il.list()} instead of {model}')
    require(all(isinstance(i, int) for i in il.list()), f'{what}: not integers')
    require(il.size == len(model), f'{what}: size {il.size} instead of {len(model)}')
    require(il.type in ('list', 'range'), f'{what}: type {il.type}')
    if il.type == 'range':
        require(list(il.range()) == [model[0], model[-1]], f'{what}: range {il.range()}')
    if model:
        require(il[0] == model[0] and il[-1] == model[-1] and il[1:] == model[1:], f'{what}: items')


def check_index(spec, ctx):
    il, model = make_index(*spec['start'])
    pool = [(il, model)]
    added = 0
    for op, k, how, ints, n in spec['ops']:
        k = k % len(pool)
        il, model = pool[k]
        if op == 'append':
            arg = list(ints) if how != 'array' else np.array(ints, dtype=int)
            il.append(arg)
            pool[k] = (il, model + list(ints))
            same_array(np.array(ints, int), np.array(arg, int), 'argument of append')
            added += 1
        elif op == 'shift':
            pool.append((il.shift(n), [i + n for i in model]))
            added += 1
        elif op == 'add':
            other = make_index(how, ints)
            pool += [(il + other[0], model + other[1]), other]
            added += 1
        elif op == 'self':
            pool.append((il + il, model + model))
        elif op == 'compress' and model:
            il.compress()
            want = 'range' if model == list(range(model[0], model[0] + len(model))) else 'list'
            require(il.type == want, f'{model} is compressed to a {il.type}')
            ctx.label('compressed to ' + want)
        elif op == 'new':
            pool.append(make_index(how, ints))
        for i, (a, b) in enumerate(pool):  # others are not affected
            same_index(a, b, f'list {i} after {op} of {k}')
    ctx.nontrivial = added > 1
    ctx.label(*[o[0] for o in spec['ops']])


def check_table(spec, ctx):
    import cfdtools.meshbase._connectivity as _conn

    rows = []
    t = _conn.indexindirection() if not spec['first'] else _conn.indexindirection(np.array(spec['first']))
    rows += spec['first']
    require(t.nelem == len(rows), f'{t.nelem} elements')
    for block in spec['blocks']:
        a = np.array(block, dtype=int).reshape(-1, 2)
        t.append(a)
        rows += block
        require(t.nelem == len(rows), f'{t.nelem} elements instead of {len(rows)}')
        same_array(np.array(rows, int).reshape(-1, 2), t.conn, 'rows')
        same_array(np.array(block, int).reshape(-1, 2), a, 'argument of append')
        if rows:
            i = len(block) % len(rows)
            require(t[i].tolist() == rows[i] and t[i:, 1].tolist() == [r[1] for r in rows[i:]], 'items')
    ctx.nontrivial = len(spec['blocks']) > 1


def groups_of(spec, types=None):
    """[(type, nodes, index or None, how)]: groups with a permutation of 0..n-1 as indices, or automatic"""
    import random

    r = random.Random(spec['seed'])
    groups, n = [], 0
    for t, size in spec['groups']:
        if types and t not in types:
            t = types[len(t) % len(types)]
        groups.append([t, [r.sample(range(40), NN[t]) for _ in range(size)], size])
        n += size
    if spec['index'] == 'auto':
        perm = list(range(n))
    else:
        perm = list(range(n))
        if spec['index'] == 'perm':
            r.shuffle(perm)
        elif spec['index'] == 'blocks':
            starts, order = {}, list(range(len(groups)))
            r.shuffle(order)
            pos = 0
            for g in order:
                starts[g] = pos
                pos += groups[g][2]
            perm = [i for g in range(len(groups)) for i in range(starts[g], starts[g] + groups[g][2])]
    out, pos = [], 0
    for t, nodes, size in groups:
        out.append((t, nodes, perm[pos:pos + size]))
        pos += size
    return out, r


def fill(spec, types=None):
    import cfdtools.meshbase._connectivity as _conn

    conn, model = _conn.elem_connectivity(), []
    groups, r = groups_of(spec, types)
    given = []
    for t, nodes, index in groups:
        arr = np.array(nodes, dtype=int).reshape(-1, NN[t])
        if spec['index'] == 'auto':
            conn.add_elems(t, arr)
        elif index and index == list(range(index[0], index[0] + len(index))) and r.random() < 0.6:
            given.append((_conn.indexlist(irange=[index[0], index[-1]]), index))
            conn.add_elems(t, arr, given[-1][0])
        else:
            given.append((_conn.indexlist(ilist=index if r.random() < 0.5 else np.array(index, dtype=int)), index))
            conn.add_elems(t, arr, given[-1][0])
        model += [(i, t, n) for i, n in zip(index, nodes)]
        same_conn(conn, model, 'after addition', types=[g[0] for g in groups])
    for il, index in given:
        require(il.list() == index, f'given index {index} is changed to {il.list()}')
    return conn, model, r


def same_conn(conn, model, what, types=()):
    """model: list of (index, type, nodes) in any order"""
    require(conn.nelem == len(model), f'{what}: {conn.nelem} elements instead of {len(model)}')
    got = [(i, t, n) for t, d in conn.items() for i, n in zip(d['index'].list(), d['elem2node'].tolist())]
    require(sorted(got) == sorted(model), lambda: f'{what}: {sorted(got)} instead of {sorted(model)}')
    require({t for _, t, _ in model} <= set(conn.elems()), f'{what}: types {list(conn.elems())}')
    require(list(conn.keys()) == list(conn.elems()), f'{what}: keys')
    for t, d in conn.items():
        require(d['index'].size == len(d['elem2node']), f'{what}: {d["index"].size} indices of {t}')
        require(conn[t].tolist() == d['elem2node'].tolist(), f'{what}: nodes of {t}')
        # order within a type is the order of addition
        require(conn[t].tolist() == [n for _, tt, n in model if tt == t], f'{what}: order of {t}')
    require(sorted(conn.all_index()) == sorted(i for i, _, _ in model), f'{what}: all_index')
    require(
        sorted((int(i), [int(x) for x in n]) for i, n in conn.index_elem_tuples()) == sorted((i, n) for i, _, n in model),
        f'{what}: index_elem_tuples',
    )
    nodes = [int(n) for n in conn.nodelist()]
    require(len(set(nodes)) == len(nodes), f'{what}: nodelist repeats')
    require(set(nodes) == {x for _, _, n in model for x in n}, f'{what}: nodelist')


def check_conn(spec, ctx):
    conn, model, r = fill(spec)
    if not model:
        ctx.label('empty')
        return
    require(conn.check() is True, 'check')
    sel = r.sample([i for i, _, _ in model], r.randint(0, len(model)))
    got = [int(n) for n in conn.nodes_of_indexlist(sel)]
    require(len(set(got)) == len(got), 'nodes of a selection are repeated')
    want = {x for i, _, n in model if i in set(sel) for x in n}
    require(set(got) == want, f'nodes of {sel}: {sorted(got)} instead of {sorted(want)}')
    same_conn(conn, model, 'after queries')
    ctx.nontrivial = len(spec['groups']) > 1
    ctx.label(spec['index'], f'types{len({t for _, t, _ in model})}')


def check_bad(spec, ctx):
    """an index which is not 0..n-1 is detected"""
    import cfdtools.meshbase._connectivity as _conn

    groups, r = groups_of(dict(spec, index='perm'))
    groups = [g for g in groups if g[2]]
    if not groups:
        return
    n = sum(len(g[2]) for g in groups)
    g = r.randrange(len(groups))
    k = r.randrange(len(groups[g][2]))
    bad = {'hole': n + r.randint(0, 3), 'double': r.randrange(n), 'negative': -1 - r.randint(0, 2)}[spec['bad']]
    changed = groups[g][2][k] != bad
    groups[g][2][k] = bad
    conn = _conn.elem_connectivity()
    for t, nodes, index in groups:
        conn.add_elems(t, np.array(nodes), _conn.indexlist(ilist=index))
    try:
        ok = conn.check()
    except AssertionError:
        ok = False
    require(bool(ok) is (not changed), f'check of indices {[g[2] for g in groups]} gives {ok}')
    ctx.nontrivial = changed and n > 1
    ctx.label(spec['bad'])


def check_merge(spec, ctx):
    import cfdtools.meshbase._connectivity as _conn

    cons, models, shift, want = [], [], 0, []
    for s in spec['parts']:
        c, m, _ = fill(s)
        cons.append(c)
        models.append(m)
        want += [(i + shift, t, n) for i, t, n in m]
        shift += len(m)
    merged = _conn.elem_connectivity()
    merged.importfrom_merge(tuple(cons) if spec['tuple'] else cons)
    same_conn(merged, want, 'merged')
    for c, m in zip(cons, models):
        same_conn(c, m, 'source of a merge')
    # what is added to one connectivity is not in the others
    pool = [(merged, want)] + list(zip(cons, models))
    for k, t, n in spec['then']:
        conn, model = pool[k % len(pool)]
        pool_nodes = [[(7 * i + j + k) % 40 for j in range(NN[t])] for i in range(n)]
        start = len(model)
        conn.add_elems(t, np.array(pool_nodes, dtype=int).reshape(-1, NN[t]))
        model += [(start + i, t, x) for i, x in enumerate(pool_nodes)]
        for c, m in pool:
            same_conn(c, m, 'after addition to a connectivity of a merge')
    ctx.nontrivial = sum(bool(m) for m in models) > 1
    ctx.label(f'parts{len(cons)}')


def check_compressed(spec, ctx):
    import cfdtools.meshbase._connectivity as _conn

    conn, model, _ = fill(spec, types=FACES)
    if not model:
        return
    z = conn.exportto_compressedindex()
    ordered = sorted(model)
    off = np.concatenate(([0], np.cumsum([len(n) for _, _, n in ordered])))
    same_array(off, z._index, 'offsets')
    same_array(np.array([x for _, _, n in ordered for x in n]), z._value, 'values')
    require(z.size == len(z._value), 'size')
    require(z.check() is True, 'check')
    back = _conn.elem_connectivity()
    back.importfrom_compressedindex(_conn.compressed_listofindex(z._index.copy(), z._value.copy()))
    same_conn(back, ordered, 'imported')
    require(back.check() is True, 'check of imported')
    again = back.exportto_compressedindex()
    same_array(z._index, again._index, 'offsets exported again')
    same_array(z._value, again._value, 'values exported again')
    same_conn(conn, model, 'after export')
    ctx.nontrivial = len({len(n) for _, _, n in model}) > 1 or len(spec['groups']) > 1
    ctx.label(*{t for _, t, _ in model}, spec['index'])


def check_large(spec, ctx):
    """numbers and sizes which do not hold in 16 or 32 bits"""
    import random

    import cfdtools.meshbase._connectivity as _conn

    r = random.Random(spec['seed'])
    top, n = spec['top'], spec['n']
    # indices
    il, model = make_index('list', [r.randrange(top) for _ in range(5)])
    other, omodel = make_index('range', list(range(top - n, top)))
    both = il + other
    same_index(both, model + omodel, 'concatenation')
    other.append([top, top + 1])
    other.compress()
    require(other.type == 'range', 'a contiguous list is not compressed')
    same_index(other, omodel + [top, top + 1], 'compressed')
    same_index(other.shift(top), [i + top for i in omodel + [top, top + 1]], 'shifted')
    # pairs
    rows = [[r.randrange(top), r.choice([-1, r.randrange(top)])] for _ in range(n)]
    t = _conn.indexindirection()
    for a, b in ((0, n // 2), (n // 2, n)):
        t.append(np.array(rows[a:b]).reshape(-1, 2))
    same_array(np.array(rows), t.conn, 'rows')
    # elements
    parts, models = [], []
    for _ in range(2):
        conn, model = _conn.elem_connectivity(), []
        perm = list(range(n))
        if spec['perm']:
            r.shuffle(perm)
        pos = 0
        for etype in ('tri3', 'quad4', 'bar2', 'tri3'):
            size = n - pos if pos and etype == 'tri3' else min(n - pos, r.randint(0, n // 2))
            nodes = [[r.randrange(top) for _ in range(NN[etype])] for _ in range(size)]
            index = perm[pos:pos + size]
            arr = np.array(nodes, dtype=int).reshape(-1, NN[etype])
            conn.add_elems(etype, arr, _conn.indexlist(ilist=index))
            model += [(i, etype, x) for i, x in zip(index, nodes)]
            pos += size
        same_conn(conn, model, 'large')
        require(conn.check() is True, 'check')
        parts.append(conn)
        models.append(model)
    ordered = sorted(models[0])
    z = parts[0].exportto_compressedindex()
    same_array(np.concatenate(([0], np.cumsum([len(x) for _, _, x in ordered]))), z._index, 'offsets')
    same_array(np.array([v for _, _, x in ordered for v in x]), z._value, 'values')
    back = _conn.elem_connectivity()
    back.importfrom_compressedindex(_conn.compressed_listofindex(z._index.copy(), z._value.copy()))
    same_conn(back, ordered, 'imported')
    sel = set(r.sample(range(n), n // 3))
    got = [int(v) for v in parts[1].nodes_of_indexlist(sorted(sel))]
    require(sorted(got) == sorted({v for i, _, x in models[1] if i in sel for v in x}), 'nodes of a selection')
    merged = _conn.elem_connectivity()
    merged.importfrom_merge(parts)
    same_conn(merged, models[0] + [(i + n, t, x) for i, t, x in models[1]], 'merged')
    ctx.nontrivial = True
    ctx.label(f'{top}', f'{n} elements')


ints = st.lists(st.integers(0, 30), max_size=6)
run = st.tuples(st.integers(-3, 20), st.integers(1, 5)).map(lambda t: list(range(t[0], t[0] + t[1])))


def _flaw(t):
    first, n, k, edit = t
    out = list(range(first, first + n))
    k %= n
    if edit == 'double' and k:  # same first, last and size
        out[k] = out[k - 1]
    elif edit == 'swap':
        out[k], out[k - 1] = out[k - 1], out[k]
    elif edit == 'twice':
        out.insert(k, out[k])
    elif edit == 'hole':
        del out[k]
    elif edit == 'reverse':
        out.reverse()
    elif edit == 'step':
        out = out[:k] + [i + 1 for i in out[k:]]
    elif edit == 'wild' and 0 < k < n - 1:
        out[k] += 1000
    return out


nearly = st.tuples(
    st.integers(-3, 20), st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(1, 80)), st.integers(0, 80),
    st.sampled_from(['double', 'swap', 'twice', 'hole', 'reverse', 'step', 'wild', '']),
).map(_flaw)
how = st.sampled_from(['range', 'list', 'array'])
iop = st.tuples(
    st.sampled_from(['append', 'shift', 'add', 'self', 'compress', 'compress', 'new']), st.integers(0, 5), how, st.one_of(ints, run, nearly),
    st.integers(-5, 50),
).map(list)
pairs = st.lists(st.lists(st.integers(-1, 50), min_size=2, max_size=2), max_size=4)
cspec = st.fixed_dictionaries({
    'groups': st.lists(st.tuples(st.sampled_from(sorted(NN)), st.integers(0, 4)).map(list), min_size=1, max_size=8),
    'seed': st.integers(0, 10**6), 'index': st.sampled_from(['auto', 'perm', 'blocks', 'perm']),
})
CASES = [
    Case('index', st.fixed_dictionaries({'start': st.tuples(how, st.one_of(ints, run, nearly)).map(list), 'ops': st.lists(iop, min_size=1, max_size=12)}),
         check_index, quick=1200, thorough=30000),
    Case('table', st.fixed_dictionaries({'first': pairs, 'blocks': st.lists(pairs, max_size=5)}), check_table, quick=400, thorough=8000),
    Case('conn', cspec, check_conn, quick=800, thorough=20000),
    Case('bad', st.builds(lambda s, b: dict(s, bad=b), cspec, st.sampled_from(['hole', 'double', 'negative'])), check_bad, quick=500, thorough=8000),
    Case('merge', st.fixed_dictionaries({
        'parts': st.lists(cspec, min_size=1, max_size=4), 'tuple': st.booleans(),
        'then': st.lists(st.tuples(st.integers(0, 4), st.sampled_from(sorted(NN)), st.integers(0, 3)).map(list), max_size=3),
    }), check_merge, quick=400, thorough=10000),
    Case('compressed', cspec, check_compressed, quick=500, thorough=12000),
    Case('large', st.fixed_dictionaries({
        'seed': st.integers(0, 10**6), 'top': st.sampled_from([300, 40000, 70000, 2**31 + 70000, 2**33]), 'n': st.sampled_from([250, 300, 3000, 34000]),
        'perm': st.booleans(),
    }).filter(lambda d: d['n'] <= d['top']), check_large, quick=16, thorough=300),
]

"""deterministic arrays from small specs"""
import numpy as np
from hypothesis import strategies as st

SPECIAL = {
    'nan': float('nan'), 'inf': float('inf'), '-inf': float('-inf'), '-0': -0.0, 'tiny': 5e-324,
    'huge': 1.7976931348623157e308, 'eps': 1.0 + 2**-52, 'third': 1.0 / 3.0,
}


def array(spec, shape):
    """spec = {'k': kind, 's': seed, 'x': [[position, special], ...]}"""
    n = int(np.prod(shape))
    rng = np.random.Generator(np.random.PCG64(spec['s']))
    k = spec['k']
    if k == 'idx':
        a = np.arange(n, dtype=float) + spec['s']
    elif k == 'int':
        a = rng.integers(-5, 6, n).astype(float)
    elif k == 'i8':
        a = rng.integers(-(2**62), 2**62, n)
    elif k == 'wide':
        a = rng.standard_normal(n) * 10.0 ** rng.integers(-30, 30, n)
    else:
        a = rng.uniform(-1, 1, n)
    if k != 'i8':
        for pos, name in spec.get('x', []):
            a[pos % n] = SPECIAL[name]
    return a.reshape(shape)


def float_spec(special=True):
    x = st.lists(st.tuples(st.integers(0, 500), st.sampled_from(sorted(SPECIAL))).map(list), max_size=3)
    return st.fixed_dictionaries(
        {
            'k': st.sampled_from(['idx', 'int', 'wide', 'uni']),
            's': st.integers(0, 10**6),
            'x': x if special else st.just([]),
        }
    )


int_spec = st.fixed_dictionaries({'k': st.just('i8'), 's': st.integers(0, 10**6)})


def text(alphabet, min_size, max_size):
    """as st.text, without the cost of loading the tables of characters"""
    return st.lists(st.sampled_from(alphabet), min_size=min_size, max_size=max_size).map(''.join)

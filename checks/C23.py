"""weights of polynomial bases"""
import numpy as np
from hypothesis import strategies as st
from numpy.polynomial.legendre import leggauss

from lib.fw import Case, require

PROPERTY = 'C23'
RULE = (
    'All orders 1 to 20 and both families, several objects used in turn, random polynomials of degree lower than the order and random '
    'points (scalars and arrays, within and out of [-1,1] up to 10, Gauss points, ends): values and derivatives by weights equal '
    'those of the polynomial; weights sum to one and zero, are one or zero at Gauss points, are the same for both families. '
    'Non-trivial: order above 1.'
)
TECHNIQUE = 'property-based testing (Hypothesis): exactness on random polynomials, agreement of the two families'
NOTE = 'orders 1 to 20'
FAMILY = ['legendre', 'polynomial']


def tol(order, x):
    """rounding, amplified by the inverse of the matrix of the basis and by the growth of polynomials out of [-1, 1]"""
    return 1e-13 * 2.42**order * np.maximum(1.0, np.abs(x)) ** order


def weights(b, x, form, grad):
    f = {'v': (b.interp_weights, b.diff_weights), 'alias': (b.value_weights, b.gradv_weights)}[form][grad]
    return np.asarray(f(x))


def check(spec, ctx):
    from cfdtools.utils.polybase import poly1d

    objs = []
    for order, fam, default in spec['objs']:
        b = poly1d(order) if default else poly1d(order, series=FAMILY[fam])
        objs.append((order, 0 if default else fam, b))
    for who, x, form, grad, coef in spec['ops']:
        order, fam, b = objs[who % len(objs)]
        root = leggauss(order)[0]
        if isinstance(x, list) and x and x[0] == 'root':
            at = float(root[x[1] % order])
        elif isinstance(x, list) and x and x[0] == 'many':
            at = np.linspace(x[2], x[3], x[1])
        else:
            at = np.array(x) if isinstance(x, list) else x
        w = weights(b, at, form, grad)
        what = f'order {order} {FAMILY[fam]} {"derivative" if grad else "value"} at {at}'
        require(w.shape == (order,) + np.shape(at), f'{what}: shape {w.shape}')
        coef = np.array(coef[:order] + [0.0] * (order - len(coef)))
        scale = float(np.abs(coef).sum()) + 1.0
        p = np.polynomial.Polynomial(coef)
        want = (p.deriv() if grad else p)(at) if order > 1 or not grad else np.zeros(np.shape(at))
        got = np.tensordot(p(root), w, axes=(0, 0))
        t = tol(order, at) * scale
        require(np.all(np.abs(got - want) <= t), lambda: f'{what}: {got} instead of {want}, polynomial {coef.tolist()}')
        require(np.all(np.abs(w.sum(axis=0) - (0 if grad else 1)) <= t), lambda: f'{what}: weights sum to {w.sum(axis=0)}')
        other = poly1d(order, series=FAMILY[1 - fam])
        w2 = weights(other, at, form, grad)
        require(np.all(np.abs(w - w2) <= 1e3 * t), lambda: f'{what}: {w.tolist()} with a family, {w2.tolist()} with the other')
        if not grad and isinstance(x, list) and x and x[0] == 'root':
            require(np.all(np.abs(w - (np.arange(order) == x[1] % order)) <= 1e3 * t), lambda: f'{what}: {w.tolist()} at a Gauss point')
        ctx.nontrivial |= order > 1
        ctx.label(f'order{order}', FAMILY[fam], 'grad' if grad else 'value')


near = st.tuples(st.sampled_from([-0.5, 0.25, 0.0, 1.0]), st.sampled_from([0, 1e-12, 1e-8, 1e-6, 1e-4, 4e-4, 3e-3])).map(sum)
point = st.one_of(st.floats(-1.2, 1.2), st.sampled_from([-1, 1, 0, 0.5]), near, st.floats(-1, 1), st.floats(-10, 10), st.integers(-3, 3))
x = st.one_of(point, st.lists(point, min_size=1, max_size=4), st.tuples(st.just('root'), st.integers(0, 23)).map(list),
              st.tuples(st.just('many'), st.integers(0, 400), point, point).map(list))
CASES = [
    Case('weights', st.fixed_dictionaries({
        'objs': st.lists(st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 20)), st.integers(0, 1), st.sampled_from([False, False, True])).map(list), min_size=1, max_size=3),
        'ops': st.lists(st.tuples(
            st.integers(0, 2), x, st.sampled_from(['v', 'alias']), st.integers(0, 1), st.lists(st.floats(-5, 5), min_size=1, max_size=20),
        ).map(list), min_size=1, max_size=6),
    }), check, quick=1500, thorough=20000),
]

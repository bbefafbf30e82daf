"""spectra and spectrograms of time series"""
import numpy as np
from hypothesis import strategies as st

from lib import values
from lib.fw import Case, fail, require, same_array

PROPERTY = 'C22'
RULE = (
    'Random time series (4 to 400 samples, some of up to 70000, 1 to 3 variables, reals of several scales and integers, any time step and origin, jitter), all kinds of '
    'ranges (none, positive, negative) and windows (even, odd, default), filters with or without time; results are compared with '
    'discrete Fourier sums of the slices done by the checker; source, filter and time are compared with copies. Sequences of both '
    'requests on the same data set. Non-trivial: a strict range or at least 2 windows.'
)
TECHNIQUE = 'property-based testing (Hypothesis): reference Fourier sums'
NOTE = 'up to 400 samples, a few series of up to 70000'


def dft(x):
    """modulus of the Fourier sums of x"""
    n = len(x)
    if n > 400:
        return np.abs(np.fft.fft(np.asarray(x, dtype=float)))
    k = np.arange(n)
    return np.abs(np.exp(-2j * np.pi * np.outer(k, k) / n) @ np.asarray(x, dtype=float))


def freqs(n, dt):
    k = np.arange(n)
    return np.where(k < (n + 1) // 2, k, k - n) / (n * dt)


class Axes:
    def __init__(self):
        self.calls = []

    def plot(self, *args, **kw):
        self.calls.append(('plot', args, kw))

    def contourf(self, *args, **kw):
        self.calls.append(('contourf', args, kw))


def close(want, got, tol, what):
    got = np.asarray(got)
    require(got.shape == np.shape(want), f'{what}: shape {got.shape} instead of {np.shape(want)}')
    err = np.abs(got - want)
    require(bool(np.all(err <= tol)), lambda: f'{what}: {got.tolist()} instead of {np.asarray(want).tolist()}')


def names_of(keep, data):
    return [n for n in (keep if keep else data) if n != 'time']


def unknown(request, data):
    """a filter naming unknown data is refused"""
    try:
        out = request(datafilter=[*list(data)[:1], 'no such data'])
    except (KeyError, ValueError, AssertionError):
        return
    fail(f'filter with an unknown name gives {list(out.keys())}')


def spectrum(ds, data, t, arg, ctx):
    imin, imax, keep = arg
    sl = slice(imin, imax)
    n = len(t[sl])
    if n < 2:
        return False
    given = list(keep) if keep is not None else None
    kw = {k: v for k, v in (('datafilter', keep), ('imin', imin), ('imax', imax)) if v is not None}
    out = ds.dataSet_spectrum(**kw)
    require(keep == given, 'filter is modified')
    dt = (t[sl][-1] - t[sl][0]) / (n - 1)
    avg, dev, m = ds.dtstats(imin, imax)
    require(m == n, f'{m} samples instead of {n}')
    close(dt, avg, 1e-8 * dt, 'time step')
    close(np.std(np.diff(t[sl])), dev, 1e-8 * dt, 'deviation of time step')
    want = names_of(keep, data)
    require(sorted(out.keys()) == sorted(set(want) | {'freq'}), f'spectrum has {list(out.keys())}')
    require((out.Trep, out.Xrep) == ('spectrum', ds.Xrep), 'representation')
    close(freqs(n, dt), out['freq'], 1e-8 / dt, 'frequencies')
    for name in want:
        x = data[name][sl]
        close(dft(x), out[name], (1e-5 if x.dtype == np.float32 else 1e-11) * n * (1e-300 + np.abs(x.astype(float)).max()), f'spectrum of {name} from {imin} to {imax}')
    return n < len(t)


def spectrogram(ds, data, t, arg, ctx):
    window, keep = arg
    n = len(t)
    nw = window if window else n // 100
    h = nw // 2
    if h < 1 or 2 * h + 1 > n:
        return False
    given = list(keep) if keep is not None else None
    kw = {k: v for k, v in (('datafilter', keep), ('window', window)) if v is not None}
    out = ds.dataSet_spectrogram(**kw)
    require(keep == given, 'filter is modified')
    dt = (t[-1] - t[0]) / (n - 1)
    want = names_of(keep, data)
    require(sorted(out.keys()) == sorted(set(want) | {'freq', 'time'}), f'spectrogram has {list(out.keys())}')
    require((out.Trep, out.Xrep) == ('spectrogram', ds.Xrep), 'representation')
    size = 2 * h + 1
    close((np.arange(h + 1) / (size * dt))[2:], out['freq'], 1e-8 / dt, 'frequencies')
    starts = [i for i in range(0, n, h) if i + size <= n]
    same_array(t[[i + h for i in starts]], out['time'], 'times of windows')
    hann = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(size) / (size - 1))
    for name in want:
        x = data[name].astype(float)
        ref = np.array([dft(x[i:i + size] * hann)[2:h + 1] for i in starts])
        got = np.asarray(out[name])
        require(got.shape == ref.shape, f'spectrogram of {name}: shape {got.shape} instead of {ref.shape}')
        with np.errstate(all='ignore'):
            close(ref, np.exp(got), 1e-10 * size * (1e-300 + np.abs(x).max()), f'spectrogram of {name} with window {window}')
        axes = Axes()
        out.contourf('time', 'freq', name, axes=axes, cmap='x')
        (kind, a, k), = axes.calls
        require(kind == 'contourf' and k == {'cmap': 'x'} and a[2].shape == (len(a[1]), len(a[0])), 'map of spectrogram')
        same_array(got.T, a[2], 'map')
    return len(starts) > 1


def check(spec, ctx):
    import cfdtools.data as _data

    n = spec['n']
    rng = np.random.Generator(np.random.PCG64(spec['seed']))
    t = spec['t0'] + spec['dt'] * (np.arange(n) + (rng.uniform(-0.2, 0.2, n) if spec['jitter'] else 0))
    ds = _data.DataSet(spec['xrep'], Trep='timeevol')
    data = {}
    if spec['first']:
        ds.add_data('time', t.copy())
    for i, (name, v) in enumerate(spec['vars'].items()):
        a = values.array({'k': v['k'], 's': v['s']}, (n,))
        if v['t'] not in ('f8', 'f4'):
            a = np.rint(3 * a)
        else:
            a = a * v['x']
        data[name] = a.astype(v['t'])
        ds.add_data(name, data[name].copy())
    if not spec['first']:
        ds.add_data('time', t.copy())
    names = sorted(data)
    for op, arg, keep in spec['ops']:
        if keep is not None:
            keep = list(dict.fromkeys(names[i % len(names)] if i < 6 else 'time' for i in keep))
            if keep == ['time']:
                keep = None
        if len(t) >= 200 and spec['seed'] % 4 == 0:
            unknown(ds.dataSet_spectrum if op == 'spectrum' else ds.dataSet_spectrogram, data)
        if op == 'spectrum':
            res = spectrum(ds, data, t, (arg[0], arg[1], keep), ctx)
        else:
            res = spectrogram(ds, data, t, (arg[0], keep), ctx)
        ctx.nontrivial |= bool(res)
        require(sorted(ds.keys()) == sorted(list(data) + ['time']), f'{op}: source has now {list(ds.keys())}')
        same_array(t, ds['time'], f'{op}: time of the source')
        for k, a in data.items():
            require(ds[k].dtype == a.dtype, 'type of source')
            same_array(a, ds[k], f'{op}: {k} of the source')
        require(ds.Trep == 'timeevol', 'source is changed')
        ctx.label(op, 'filter' if keep else 'all')


def check_not_time(spec, ctx):
    """spectra of data which are not a time series are refused"""
    import cfdtools.data as _data

    ds = _data.DataSet(Trep=spec['trep'])
    ds.add_data('p', np.arange(10.0))
    if spec['trep'] != 'timeevol':
        ds.add_data('time', np.arange(10.0))
    for f in (ds.dataSet_spectrum, ds.dataSet_spectrogram, ds.dtstats):
        try:
            f()
        except AssertionError:
            pass
        else:
            fail('data are accepted')
    ctx.nontrivial = True


name = values.text('abcPU_1', 1, 4)
var = st.fixed_dictionaries({
    'k': st.sampled_from(['uni', 'uni', 'int', 'idx']), 't': st.sampled_from(['f8', 'f8', 'f8', 'f4', 'i8', 'i4', 'u1']), 's': st.integers(0, 1000),
    'x': st.sampled_from([1.0, 1.0, 1e-9, 1e9, 1e-30, 0.0]),
})
bound = st.one_of(st.none(), st.integers(0, 60), st.integers(-60, -1))
window = st.one_of(st.none(), st.integers(2, 30), st.integers(2, 100))
keep = st.one_of(st.none(), st.lists(st.integers(0, 7), min_size=1, max_size=3))
op = st.one_of(
    st.tuples(st.just('spectrum'), st.tuples(bound, bound).map(list), keep).map(list),
    st.tuples(st.just('spectrogram'), st.tuples(window).map(list), keep).map(list),
)
CASES = [
    Case('series', st.fixed_dictionaries({
        'n': st.one_of(st.integers(4, 200), st.integers(200, 400)), 't0': st.sampled_from([0.0, -1.0, 100.0]), 'seed': st.integers(0, 1000),
        'dt': st.sampled_from([1.0, 0.01, 1e-5, 30.0]), 'jitter': st.sampled_from([False, False, True]), 'first': st.booleans(),
        'xrep': st.sampled_from(['cellaverage', 'nodal', 'spectralcell']), 'vars': st.dictionaries(name, var, min_size=1, max_size=3),
        'ops': st.lists(op, min_size=1, max_size=3),
    }), check, quick=1500, thorough=20000),
    Case('long', st.fixed_dictionaries({
        'n': st.sampled_from([1000, 1024, 4097, 20000, 70000]), 't0': st.sampled_from([0.0, 100.0]), 'seed': st.integers(0, 1000),
        'dt': st.sampled_from([1.0, 1e-5]), 'jitter': st.booleans(), 'first': st.booleans(),
        'xrep': st.just('cellaverage'), 'vars': st.dictionaries(name, var, min_size=1, max_size=2),
        'ops': st.lists(st.one_of(
            st.tuples(st.just('spectrum'), st.tuples(st.sampled_from([None, 500, -700]), st.sampled_from([None, 900, -1])).map(list), keep).map(list),
            st.tuples(st.just('spectrogram'), st.tuples(st.sampled_from([None, 257, 600, 1000])).map(list), keep).map(list),
        ), min_size=1, max_size=2),
    }), check, quick=12, thorough=150),
    Case('not-time', None, check_not_time, enum=lambda tier: [{'trep': x} for x in ('instant', 'timeevol', 'spectrum', 'spectrogram')]),
]

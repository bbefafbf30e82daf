"""line probes of IC3"""
import os

import numpy as np
from hypothesis import strategies as st

from lib import values
from lib.fw import Case, fail, require, same_array

PROPERTY = 'C24'
RULE = (
    'Sets of probe files written by the checker (1 to 6 probes, 2 to 30 samples, coordinates in one or several lines, prefixes with '
    'folders, dots and spaces), random sequences of requests of read, derived and missing variables compared with formulas in the '
    'parsed numbers; then time and frequency maps by the command line, where the arrays given to the contour plot, its labels and the '
    'figure file are compared with a reference (Fourier sums at each probe). Non-trivial: a derived variable or a map.'
)
TECHNIQUE = 'property-based testing (Hypothesis): independent writer and formulas, recorded plots'
NOTE = 'up to 6 probes, up to 30 samples (1000 for frequency maps)'
READ = ['P', 'RHO', 'U-X', 'U-Y', 'U-Z', 'T', 'a1']
DERIVED = ['Asound', 'S', 'Mach', 'U', 'INVX+', 'INVX-']


def rows_text(rows, fmt, time, it0, every, again=0):
    n = len(rows)
    lines = []
    for i in range(n):
        cells = [str(it0 + every * (i % again if again else i)), repr(float(time[i])), str(rows.shape[1])]
        cells += [(repr(float(x)) if fmt == 'repr' else '%.6e' % x) for x in rows[i]]
        lines.append(' '.join(cells))
    return '\n'.join(lines) + '\n', np.array([[float(x) if fmt == 'repr' else float('%.6e' % x) for x in r] for r in rows])


def write(spec, ctx):
    """returns (prefix, parsed values per variable, time)"""
    folder = ctx.path(spec['folder'])
    os.makedirs(folder, exist_ok=True)
    prefix = os.path.join(folder, spec['prefix'])
    nt, npr = spec['nt'], spec['np']
    step = np.ones(nt)
    if spec['steps'] != 'equal':
        rng = np.random.Generator(np.random.PCG64(spec['seed'] + 5))
        step = rng.uniform(0.2, 2.0, nt) if spec['steps'] == 'random' else np.where(np.arange(nt) < nt // 2, 1.0, 0.25)
    time = spec['t0'] + spec['dt'] * np.concatenate([[0.0], np.cumsum(step)[:-1]])
    data = {}
    for i, name in enumerate(READ + DERIVED):
        if name not in spec['files']:
            continue
        rng = np.random.Generator(np.random.PCG64(spec['seed'] * 31 + i))
        a = rng.uniform(-2, 2, (nt, npr))
        if name in ('P', 'RHO', 'T'):
            a = np.abs(a) + 0.1
        a *= spec['scale'][i % len(spec['scale'])]
        text, data[name] = rows_text(a, spec['fmt'], time, spec['it0'], spec['every'], spec['again'])
        with open(prefix + '.' + name, 'w') as f:
            f.write(text)
    for i, name in enumerate('XYZ'):
        if name not in spec['coords']:
            continue
        rng = np.random.Generator(np.random.PCG64(spec['seed'] * 37 + i))
        x = rng.uniform(-3, 3, (1, npr)) * spec['scale'][0]
        if spec['line'] != 'any':
            x = np.sort(x)[:, :: (-1 if spec['line'] == 'down' else 1)]
        lines = spec['coords'][name]
        text, v = rows_text(np.repeat(x, lines, axis=0), spec['fmt'], np.arange(lines) * 7.0 - 3, 0, 1)
        data[name] = v[0]
        with open(prefix + '.' + name, 'w') as f:
            f.write(text)
    # files of other prefixes and variables
    for other in [prefix + '.P2', prefix + '.p'] + [prefix + '2.' + name for name in READ]:
        with open(other, 'w') as f:
            f.write('0 0.0 1 99.0\n1 1.0 1 99.0\n')
    return prefix, data, time


def model(name, data):
    """value of a variable, None if unknown"""
    if name in data:
        return data[name]

    def get(*names):
        v = [model(n, data) for n in names]
        return None if any(x is None for x in v) else v

    with np.errstate(all='ignore'):
        if name == 'Asound':
            v = get('P', 'RHO')
            return v and np.sqrt(1.4 * v[0] / v[1])
        if name == 'S':
            v = get('P', 'RHO')
            return v and (np.log(v[0]) - 1.4 * np.log(v[1])) / 0.4
        if name == 'U':
            v = get('U-X', 'U-Y', 'U-Z')
            return v and np.sqrt(v[0] ** 2 + v[1] ** 2 + v[2] ** 2)
        if name == 'Mach':
            v = get('U', 'Asound')
            return v and v[0] / v[1]
        if name in ('INVX+', 'INVX-'):
            v = get('U-X', 'Asound')
            return v and 2 * v[1] / 0.4 + (v[0] if name == 'INVX+' else -v[0])
    return None


def same(want, got, what, exact):
    if exact:
        same_array(want, got, what)
    else:
        same_array(want, got, what, exact=False, rtol=1e-11, atol=1e-11 * (1 + np.nanmax(np.abs(want), initial=0.0)))


def check_values(spec, ctx):
    from cfdtools.probes.data import phydata

    prefix, data, time = write(spec, ctx)
    if spec['base'] == 'here':  # empty prefix, in the folder of the files
        for f in os.listdir(os.path.dirname(prefix)):
            if f.startswith(os.path.basename(prefix) + '.'):
                name = os.path.join(os.path.dirname(prefix), f)
                os.rename(name, os.path.join(os.path.dirname(name), f[len(os.path.basename(prefix)):]))
        os.chdir(os.path.dirname(prefix))
        base, prefix = os.path.basename(prefix) + '2', ''
    else:
        base = prefix if spec['base'] == 'same' else prefix + '2'  # files are those of the given prefix
    d = phydata(base, verbose=spec['verbose'])
    asked = {}
    for name in spec['ops']:
        want = model(name, data)
        if want is None:
            try:
                d.check_data(name, prefix=prefix)
            except NameError:
                pass
            else:
                fail(f'{name} cannot be known but is accepted')
            require(name not in d.alldata, f'{name} is defined')
        else:
            require(d.check_data(name, prefix=prefix), f'request of {name}')
            asked[name] = want
            ctx.nontrivial |= name in DERIVED and name not in data
            ctx.label('derived' if name in DERIVED and name not in data else 'coordinate' if name in 'XYZ' else 'read')
        for n, w in asked.items():
            require(n in d.alldata, f'{n} has disappeared')
            same(w, d.alldata[n], f'{n} after request of {name}', n in data)
        for n in d.alldata:
            if n == 'time':
                require(any(x not in 'XYZ' for x in d.alldata if x != 'time'), 'time comes from coordinates')
                same_array(time, d.alldata[n], f'time after request of {name}')
            else:
                w = model(n, data)
                require(w is not None, f'unexpected variable {n}')
                same(w, d.alldata[n], n, n in data)
        if any(n not in 'XYZ' for n in asked):
            require('time' in d.alldata, 'time is not defined')


class Plots:
    """records contour plots and saved figures"""

    def __init__(self, save):
        self.save, self.contours, self.saved = save, [], []

    def __enter__(self):
        import matplotlib

        matplotlib.use('Agg')
        import matplotlib.axes
        import matplotlib.figure

        self.A, self.F = matplotlib.axes.Axes, matplotlib.figure.Figure
        self.old = self.A.contourf, self.F.savefig
        rec = self

        def contourf(ax, *args, **kw):
            rec.contours.append((ax, [np.array(a) for a in args], dict(kw)))
            return rec.old[0](ax, *args, **kw)

        def savefig(fig, fname, *args, **kw):
            ax = [c[0] for c in rec.contours if c[0].figure is fig]
            rec.saved.append((str(fname), [(a.get_xlabel(), a.get_ylabel()) for a in ax]))
            if rec.save:
                return rec.old[1](fig, fname, *args, **kw)

        self.A.contourf, self.F.savefig = contourf, savefig
        return self

    def __exit__(self, *_):
        import matplotlib.pyplot as plt

        self.A.contourf, self.F.savefig = self.old
        plt.close('all')


def check_map(spec, ctx):
    import cfdtools._cli as cli

    spec = dict(spec, np=max(2, spec['np']))
    if spec['map'] == 'freq':
        spec['nt'] = 600 + spec['nt'] * 13
    prefix, data, time = write(spec, ctx)
    names = [n for n in READ + DERIVED if model(n, data) is not None]
    axes = [n for n in 'XYZ' if n in data]
    if spec['other']:  # an axis which is not a coordinate, repeated at each time
        x = np.sort(np.random.Generator(np.random.PCG64(spec['seed'])).uniform(-3, 3, (1, spec['np'])))
        text, v = rows_text(np.repeat(x, spec['nt'], axis=0), spec['fmt'], time, 0, 1)
        data['R'] = v
        with open(prefix + '.R', 'w') as f:
            f.write(text)
        axes = ['R']
    if not names or not axes:
        return
    before = {f: open(os.path.join(os.path.dirname(prefix), f)).read() for f in os.listdir(os.path.dirname(prefix))}
    var, axis = names[spec['var'] % len(names)], axes[spec['axis'] % len(axes)]
    argv = [prefix]
    if var != 'P' or spec['verbose']:
        argv += ['--data', var] if '-' != var[0] else ['--data=' + var]
    if axis != 'X' or spec['verbose']:
        argv += ['--axis', axis]
    if spec['map'] == 'freq' or spec['verbose']:
        argv += ['--map', spec['map']]
    argv += {0: [], 1: ['-v'], 2: ['--check'], 3: ['--cmap', 'viridis', '--cmaplevels', '7'], 4: ['-v', '--check']}[spec['opt']]
    with Plots(spec['save']) as rec:
        cli.ic3probe_plotline(argv)
    require(len(rec.contours) == 1, f'{len(rec.contours)} contour plots')
    _, args, kw = rec.contours[0]
    require(len(args) >= 3, 'arguments of contour plot')
    what = f'{spec["map"]} map of {var}'
    x = data[axis] if data[axis].ndim == 1 else data[axis][0]
    same(x, args[0], what + ': axis', data[axis].ndim == 1)
    v = model(var, data)
    if spec['map'] == 'time':
        same(time, args[1], what + ': time', True)
        same(v, args[2], what, var in data)
    else:
        n = len(time)
        dt = (time[-1] - time[0]) / (n - 1)
        k = np.arange(1, n // 200)
        same_array(k / (n * dt), args[1], what + ': frequencies', exact=False, rtol=1e-7)
        ref = np.abs(np.exp(-2j * np.pi * np.outer(k, np.arange(n)) / n) @ v)
        same_array(ref, args[2], what, exact=False, rtol=1e-9, atol=1e-9 * n * np.abs(v).max())
    require(kw.get('levels') == (7 if spec['opt'] == 3 else 30), f'levels {kw.get("levels")}')
    require(len(rec.saved) == 1, 'figures')
    name, labels = rec.saved[0]
    require(name == f'{prefix}.{var}.{spec["map"]}.png', f'figure {name}')
    require(labels == [(axis, {'time': 'time', 'freq': 'frequency'}[spec['map']])], f'labels {labels}')
    if spec['save']:
        require(open(name, 'rb').read(8) == b'\x89PNG\r\n\x1a\n', 'figure file')
    for f, text in before.items():
        require(open(os.path.join(os.path.dirname(prefix), f)).read() == text, f'{f} is modified')
    ctx.nontrivial = True
    ctx.label(spec['map'], 'derived' if var not in data else 'read', axis)


base = {
    'folder': st.sampled_from(['.', 'probes', 'a.b/c d']), 'prefix': st.sampled_from(['line', 'probe.line1', 'l 1', 'P']),
    'np': st.integers(1, 6), 'nt': st.integers(2, 30), 't0': st.sampled_from([0.0, 12.5]), 'dt': st.sampled_from([1.0, 1e-4, 0.3]),
    'it0': st.integers(0, 1000), 'every': st.integers(0, 50), 'again': st.sampled_from([0, 0, 1, 2, 5]), 'seed': st.integers(0, 10**6), 'fmt': st.sampled_from(['repr', 'e']),
    'files': st.one_of(
        st.just(READ[:6]), st.lists(st.sampled_from(READ + DERIVED), max_size=7, unique=True),
        st.lists(st.sampled_from(READ), min_size=3, max_size=7, unique=True),
    ),
    'verbose': st.booleans(), 'steps': st.sampled_from(['equal', 'equal', 'random', 'two']),
    'line': st.sampled_from(['up', 'up', 'down', 'any']),
    'scale': st.lists(st.sampled_from([1.0, 1.0, 1e3, 1e5, 1e-3, 1e-12, 1e9]), min_size=1, max_size=3),
}
CASES = [
    Case('values', st.fixed_dictionaries(dict(
        base, coords=st.dictionaries(st.sampled_from('XYZ'), st.integers(1, 3), max_size=3),
        base=st.sampled_from(['same', 'same', 'other', 'here']),
        ops=st.lists(st.sampled_from(READ + DERIVED * 2 + ['X', 'Y', 'Z', 'none']), min_size=1, max_size=6),
    )), check_values, quick=1500, thorough=20000),
    Case('map', st.fixed_dictionaries(dict(
        base, coords=st.dictionaries(st.sampled_from('XYZ'), st.integers(1, 3), min_size=1, max_size=3), var=st.integers(0, 20),
        axis=st.integers(0, 2), map=st.sampled_from(['time', 'freq']), opt=st.integers(0, 4), save=st.just(False),
        other=st.sampled_from([False, False, True]),
    )), check_map, quick=240, thorough=3000),
    Case('figure', st.fixed_dictionaries(dict(
        base, coords=st.dictionaries(st.sampled_from('XYZ'), st.integers(1, 3), min_size=1, max_size=3), var=st.integers(0, 20),
        axis=st.integers(0, 2), map=st.sampled_from(['time', 'freq']), opt=st.integers(0, 4), save=st.just(True), other=st.just(False),
    )), check_map, quick=24, thorough=200),
]

"""timers, memoised functions and lazy properties"""
import logging
import re
import time

from hypothesis import strategies as st

from lib.fw import Case, fail, require

PROPERTY = 'C27'
RULE = (
    'Random sequences of 3 to 14 operations (start, pause, stop with or without a number of elements, reset, with-blocks, with-blocks '
    'ended by an exception, waits) on 1 or 2 timers against a model with exact bounds of the real time measured around each call; '
    'reported times are parsed; the same with exact durations given by a clock of the checker. Random calls of 2 memoised functions (failing ones included, up to 5000 '
    'distinct arguments) and of lazy properties of several objects (ended, equal or of derived classes) '
    'against a dictionary. Non-trivial: a pause followed by another start, or a hit.'
)
TECHNIQUE = 'stateful model-based testing (Hypothesis): time bounds model, dictionary model'
NOTE = 'up to 14 operations on timers, 30 calls, 5000 memoised results'
now = time.perf_counter


class Model:
    def __init__(self, nelem):
        self.nelem = nelem
        self.clear()

    def clear(self):
        self.since, self.lo, self.hi = None, 0.0, 0.0

    def lap(self, t0, t1):
        """stopped between t0 and t1"""
        a, b = self.since
        self.lo += t0 - b
        self.hi += t1 - a
        self.since = None


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def wait(n):
    end = now() + n * 2e-4
    while now() < end:
        pass


def check_timer(spec, ctx):
    from cfdtools.api import Timer, TimerError

    log = logging.getLogger('cfdtools.api')
    rec, level = Records(), log.level
    log.addHandler(rec)
    log.setLevel(logging.INFO)
    try:
        timers = []
        for task, nelem, ltab in spec['timers']:
            kw = {k: v for k, v in (('task', task), ('nelem', nelem), ('ltab', ltab)) if v is not None}
            timers.append((Timer(**kw), Model(nelem)))
        paused = set()
        for who, op, arg in spec['ops']:
            who %= len(timers)
            t, m = timers[who]
            rec.lines.clear()
            running = m.since is not None
            error = False
            stopped = None

            def call(f):
                t0 = now()
                try:
                    f()
                    return t0, now(), False
                except TimerError:
                    return t0, now(), True

            if op == 'wait':
                wait(arg)
            elif op == 'start':
                t0, t1, error = call(t.start)
                require(error == running, f'start of a timer {"running" if running else "idle"}: error {error}')
                if not error:
                    m.since = (t0, t1)
                    if who in paused:
                        ctx.nontrivial = True
            elif op == 'pause':
                t0, t1, error = call(t.pause)
                require(error != running, f'pause of a timer {"running" if running else "idle"}: error {error}')
                if not error:
                    m.lap(t0, t1)
                    paused.add(who)
            elif op == 'stop':
                t0, t1, error = call(t.stop if not arg else (lambda: t.stop(nelem=arg)))
                require(error != running, f'stop of a timer {"running" if running else "idle"}: error {error}')
                if arg and (not error or True):
                    m.nelem = arg
                if not error:
                    m.lap(t0, t1)
                    stopped = (m.lo, m.hi, m.nelem)
                    m.clear()
                    paused.discard(who)
            elif op == 'reset':
                t.reset()
                m.clear()
                paused.discard(who)
            else:
                box = []
                t0 = now()
                try:
                    with t:
                        t1 = now()
                        box.append(t1)
                        wait(arg)
                        t2 = now()
                        if op == 'raise':
                            raise KeyError('x')
                except TimerError:
                    error = True
                except KeyError:
                    require(op == 'raise', 'an exception comes from nowhere')
                else:
                    require(op == 'with', 'an exception is lost')
                t3 = now()
                require(error == running, f'with-block of a timer {"running" if running else "idle"}: error {error}')
                require(error == (not box), 'block is not executed')
                if not error:
                    m.since = (t0, t1)
                    m.lap(t2, t3)
                    stopped = (m.lo, m.hi, m.nelem)
                    m.clear()
                    paused.discard(who)
            eps = 1e-7
            for k, (tt, mm) in enumerate(timers):
                require(
                    mm.lo - eps <= tt.elapsed <= mm.hi + eps,
                    lambda: f'timer {k} after {op} of timer {who}: elapsed {tt.elapsed} not in [{mm.lo}, {mm.hi}]',
                )
            if stopped:
                text = ' '.join(rec.lines)
                found = re.findall(r'wtime:\s*([0-9.]+)\s*s', text)
                require(len(found) == 1, f'time is reported {len(found)} times: {text!r}')
                lo, hi, n = stopped
                require(lo - 6e-5 <= float(found[0]) <= hi + 6e-5, f'{found[0]} s is reported instead of [{lo}, {hi}]')
                per = re.findall(r'([0-9.]+)\s*µs/elem', text)
                require(len(per) == (0 if n is None else 1), f'time per element: {text!r} for {n} elements')
                if n is not None:
                    require(
                        1e6 * lo / n - 1e-3 <= float(per[0]) <= 1e6 * hi / n + 1e-3,
                        f'{per[0]} µs per element instead of [{1e6 * lo / n}, {1e6 * hi / n}]',
                    )
            elif error:
                require('wtime' not in ' '.join(rec.lines), 'time is reported by a refused operation')
            ctx.label(op + (' refused' if error else ''))
    finally:
        log.removeHandler(rec)
        log.setLevel(level)


class Clock:
    """stand-in of the clocks of module time: monotonic clocks agree, time.time jumps, time of process is slower"""

    NAMES = {'perf_counter': (1, 0), 'monotonic': (1, 0), 'time': (1, 1), 'process_time': (0.25, 0), 'thread_time': (0.25, 0)}

    def __init__(self, start):
        self.t, self.jump, self.saved = start, 0.0, {}

    def value(self, name):
        rate, jump = self.NAMES[name]
        return rate * self.t + jump * (1.7e9 + self.jump)

    def __enter__(self):
        for name in self.NAMES:
            for full, f in ((name, lambda n=name: self.value(n)), (name + '_ns', lambda n=name: int(round(self.value(n) * 1e9)))):
                self.saved[full] = getattr(time, full)
                setattr(time, full, f)
        return self

    def __exit__(self, *exc):
        for full, f in self.saved.items():
            setattr(time, full, f)


def check_clock(spec, ctx):
    """exact durations with a clock of the checker"""
    from cfdtools.api import Timer, TimerError

    with Clock(0.0) as clock:
        t = Timer()
        t.start()
        clock.t += 1024.0
        t.pause()
        seen = t.elapsed
    if abs(seen) < 1.0:
        ctx.label('clock is not seen')
        return
    rec, log = Records(), logging.getLogger('cfdtools.api')
    level = log.level
    log.addHandler(rec)
    log.setLevel(logging.INFO)
    try:
        with Clock(spec['start']) as clock:
            t = Timer(nelem=spec['nelem'])
            total, since, nelem, laps = 0.0, None, spec['nelem'], 0
            for op, arg in spec['ops']:
                rec.lines.clear()
                if op == 'wait':
                    clock.t += arg * 2.0**-30
                    clock.jump -= arg % 7
                    continue
                want, reported = since is not None, None
                if op in ('start', 'with'):
                    want = not want
                try:
                    if op == 'start':
                        t.start()
                        since = clock.t
                    elif op == 'pause':
                        t.pause()
                    elif op == 'stop':
                        nelem = 0 if arg == 'none' else arg or nelem
                        t.stop(nelem=nelem) if arg else t.stop()
                    else:
                        with t:
                            since = clock.t
                            clock.t += arg * 2.0**-20
                    done = True
                except TimerError:
                    done = False
                require(done == want, f'{op} is {"done" if done else "refused"}')
                if done and op != 'start':
                    total, since, laps = total + clock.t - since, None, laps + 1
                    if op != 'pause':
                        reported, total, laps = (total, laps), 0.0, 0
                require(abs(t.elapsed - total) <= 1e-9 + 1e-12 * total, f'after {op}: elapsed {t.elapsed} instead of {total} ({laps} laps)')
                if reported:
                    text = ' '.join(rec.lines)
                    (got,) = re.findall(r'wtime:\s*([0-9.]+)\s*s', text)
                    require(abs(float(got) - reported[0]) <= 5.1e-5, f'{got} s is reported instead of {reported[0]}')
                    per = re.findall(r'([0-9.]+)\s*µs/elem', text)
                    require(nelem == 0 or len(per) == (0 if nelem is None else 1), f'time per element: {text!r} for {nelem}')
                    require(nelem or not per or not float(per[0]) > 0, f'{per} µs per element for no element')
                    if nelem:
                        require(abs(float(per[0]) - 1e6 * reported[0] / nelem) <= 1e-3 + 1e-9 * float(per[0]), f'{per[0]} µs: {reported} for {nelem}')
                    ctx.nontrivial |= reported[1] > 1
    finally:
        log.removeHandler(rec)
        log.setLevel(level)
    ctx.label('clock')


class Boom(Exception):
    pass


class Alike:
    """different objects which look the same"""

    def __repr__(self):
        return 'alike'


def check_memo(spec, ctx):
    from cfdtools.api import memoize

    calls = []

    def make(k):
        def f(*args):
            """doc of function"""
            calls.append((k, args))
            if args and args[0] == 'boom':
                raise Boom()
            return None if args and args[0] == 'none' else [k, args]

        f.__name__ = f'name{k}'
        return f

    functions = [memoize(make(k)) for k in range(2)]
    alike = [Alike(), Alike()]
    cache, hits, misses = [{}, {}], [0, 0], [0, 0]
    for k, args in spec['calls']:
        args = tuple(tuple(a) if isinstance(a, list) else alike[int(a[1])] if str(a).startswith('@') else a for a in args)
        f = functions[k]
        before = len(calls)
        try:
            got = ('value', f(*args))
        except Boom:
            got = ('boom', None)
        new = calls[before:]
        if args in cache[k]:
            hits[k] += 1
            require(new == [], f'function is called again for {args}')
            require(got[0] == 'value' and got[1] is cache[k][args][1], f'{args}: {got} instead of the first result')
            ctx.nontrivial = True
        else:
            misses[k] += 1
            require(new == [(k, args)], f'calls {new} for {args}')
            if args and args[0] == 'boom':
                require(got[0] == 'boom', f'{args}: exception is lost')
            else:
                want = None if args and args[0] == 'none' else [k, args]
                require(got == ('value', want), f'{args}: {got} instead of {want}')
                cache[k][args] = got
        for j in range(2):
            info = functions[j].cache_info()
            want = (hits[j], misses[j], None, len(cache[j]))
            require(tuple(info) == want, f'cache of {j}: {tuple(info)} instead of {want}')
            require((info.hits, info.misses, info.maxsize, info.currsize) == want, 'names of cache information')
            require((functions[j].__name__, functions[j].__doc__) == (f'name{j}', 'doc of function'), 'name of function')
    ctx.label('memo')


def check_many(spec, ctx):
    """no result is forgotten, or taken for another, whatever the number of arguments"""
    from cfdtools.api import memoize

    calls = []

    @memoize
    def f(*args):
        calls.append(args)
        return [args]

    n, step, k = spec['n'], spec['step'], spec['k']
    distinct = [tuple(i * step + j for j in range(k)) for i in range(n)]
    if spec['text']:
        distinct = [tuple(str(x) for x in a) for a in distinct]
    first = [f(*a) for a in distinct]
    require(calls == distinct, 'calls of the function')
    order = list(range(n))
    if spec['back']:
        order.reverse()
    for i in order:
        got = f(*distinct[i])
        require(got is first[i] and got == [distinct[i]], f'{distinct[i]}: {got} among {n}')
    require(len(calls) == n, f'{len(calls)} calls for {n} distinct arguments')
    require(tuple(f.cache_info()) == (n, n, None, n), f'cache of {n} arguments: {tuple(f.cache_info())}')
    ctx.nontrivial = n > 1
    ctx.label('many')


def check_life(spec, ctx):
    """objects that end, are equal, or are of derived classes"""
    from cfdtools.utils._dev import lazyprop

    count = [0]

    class A:
        def __init__(self, v):
            self.v = v

        def __eq__(self, other):
            return isinstance(other, A)

        def __hash__(self):
            return 1

        @lazyprop
        def one(self):
            count[0] += 1
            return (self.v, 'one')

    class B(A):
        @lazyprop
        def two(self):
            count[0] += 1
            return (self.v, 'two')

    class Other:
        v = 'other'

        @lazyprop
        def one(self):
            count[0] += 1
            return (self.v, 'one of another class')

    kept = []
    for v, cls, keep, names in spec['objs']:
        x = [A, B, Other][cls](*([v] if cls < 2 else []))
        for name in names:
            if name == 'two' and cls != 1:
                continue
            want = (x.v, name if cls < 2 else 'one of another class')
            if (name in x.seen if hasattr(x, 'seen') else False):
                new = 0
            else:
                new = 1
                x.seen = getattr(x, 'seen', set()) | {name}
            before = count[0]
            got = getattr(x, name)
            require(got == want, f'{name} is {got} instead of {want}')
            require(count[0] - before == new, f'{name} computed {count[0] - before} times instead of {new}')
            ctx.nontrivial |= not new
        if keep:
            kept.append(x)
        else:
            del x
    for x in kept:
        for name in getattr(x, 'seen', ()):
            before = count[0]
            want = (x.v, name if not isinstance(x, Other) else 'one of another class')
            require(getattr(x, name) == want and count[0] == before, f'{name} of a previous object')
    ctx.label('life')


def check_lazy(spec, ctx):
    from cfdtools.utils._dev import lazyprop

    count = {}

    class A:
        def __init__(self, v):
            self.v = v

        @lazyprop
        def one(self):
            count[id(self), 'one'] = count.get((id(self), 'one'), 0) + 1
            return [self.v]

        @lazyprop
        def two(self):
            count[id(self), 'two'] = count.get((id(self), 'two'), 0) + 1
            if self.v == 'boom':
                raise Boom()
            return None

    objs = [A(v) for v in spec['values']]
    seen, tries = {}, {}
    for k, name in spec['gets']:
        k %= len(objs)
        try:
            got = getattr(objs[k], name)
        except Boom:
            tries[k, name] = tries.get((k, name), 0) + 1
            require(objs[k].v == 'boom' and name == 'two', 'unexpected exception')
        else:
            require(got == ([objs[k].v] if name == 'one' else None), f'{name} of {k} is {got}')
            if (k, name) in seen:
                require(seen[k, name] is got, f'{name} of {k} is computed again')
                ctx.nontrivial = True
            seen[k, name] = got
            tries[k, name] = 1
        require(count.get((id(objs[k]), name), 0) == tries[k, name], f'{name} of {k} is computed {count[id(objs[k]), name]} times')
    try:
        objs[0].one = 3
    except AttributeError:
        pass
    else:
        fail('a lazy property can be set')
    ctx.label('lazy')


timer = st.tuples(st.sampled_from([None, '', 'task', 'x' * 70]), st.sampled_from([None, None, 10, 1]), st.sampled_from([None, 5])).map(list)
op = st.one_of(
    st.tuples(st.integers(0, 1), st.sampled_from(['start', 'start', 'pause']), st.just(0)).map(list),
    st.tuples(st.integers(0, 1), st.just('stop'), st.sampled_from([0, 0, 3, 100])).map(list),
    st.tuples(st.integers(0, 1), st.just('wait'), st.integers(1, 5)).map(list),
    st.tuples(st.integers(0, 1), st.sampled_from(['reset', 'with', 'raise', 'with']), st.integers(0, 3)).map(list),
    st.tuples(st.integers(0, 1), st.sampled_from(['start', 'pause', 'pause']), st.just(0)).map(list),
)
arg = st.one_of(st.integers(0, 2), st.sampled_from([-1, -2, 2**61 - 1, 2**61, 1.5, -1.5, '', '1', 1.0, 0.0, -0.0, 2.0, True, False, '@0', '@1']), st.sampled_from(['a', 'boom', 'none']), st.lists(st.integers(0, 1), max_size=2))
CASES = [
    Case('timer', st.fixed_dictionaries({
        'timers': st.lists(timer, min_size=1, max_size=2), 'ops': st.lists(op, min_size=3, max_size=14),
    }), check_timer, quick=1500, thorough=20000),
    Case('clock', st.fixed_dictionaries({
        'start': st.sampled_from([0.0, 0.0, 4096.0, -8.0]), 'nelem': st.sampled_from([None, None, 10, 1, 0]),
        'ops': st.lists(st.one_of(
            st.tuples(st.just('wait'), st.one_of(st.integers(0, 5000), st.integers(0, 2**31), st.integers(0, 2**44))).map(list),
            st.tuples(st.sampled_from(['start', 'start', 'pause', 'pause', 'with']), st.integers(0, 9)).map(list),
            st.tuples(st.sampled_from(['stop', 'start']), st.sampled_from([0, 0, 3, 100, 'none'])).map(list),
        ), min_size=4, max_size=30),
    }), check_clock, quick=600, thorough=10000),
    Case('memoize', st.fixed_dictionaries({
        'calls': st.lists(st.tuples(st.integers(0, 1), st.lists(arg, max_size=2)).map(list), min_size=1, max_size=30),
    }), check_memo, quick=500, thorough=5000),
    Case('lazy', st.fixed_dictionaries({
        'values': st.lists(st.sampled_from(['a', 'b', 'boom']), min_size=1, max_size=3),
        'gets': st.lists(st.tuples(st.integers(0, 2), st.sampled_from(['one', 'two'])).map(list), min_size=1, max_size=12),
    }), check_lazy, quick=300, thorough=3000),
    Case('many', st.fixed_dictionaries({
        'n': st.sampled_from([1, 50, 129, 300, 1025, 5000]), 'step': st.sampled_from([1, 7, 2**31, -1]), 'k': st.integers(1, 3),
        'text': st.booleans(), 'back': st.booleans(),
    }), check_many, quick=60, thorough=200),
    Case('life', st.fixed_dictionaries({
        'objs': st.lists(st.tuples(
            st.integers(0, 3), st.integers(0, 2), st.booleans(), st.lists(st.sampled_from(['one', 'one', 'two']), max_size=3),
        ).map(list), min_size=1, max_size=12),
    }), check_life, quick=300, thorough=3000),
]

"""Small framework around Hypothesis: specs in, verdict out.

A check module defines  PROPERTY, RULE, CASES (list of Case), optionally LEVEL and ASSUMPTIONS.
A Case has a Hypothesis strategy producing a JSON-serialisable *spec* and a function  check(spec, ctx)
which is a pure function of the spec and of the code in /repo.  Any exception other than HarnessError
is a violation; it is shrunk by Hypothesis and the minimal spec is the replay file.
"""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import math
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN = VERIF / 'known_findings.txt'


class HarnessError(Exception):
    """the check itself cannot work: neither a pass nor a violation"""


class Skip(Exception):
    """spec outside of the domain (counted, never a failure)"""


class Case:
    def __init__(self, name, strategy, check, quick=100, thorough=2000, examples=(), enum=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough
        self.examples = list(examples)
        self.enum = enum  # optional: function(tier) -> list of specs enumerated completely


class Ctx:
    """given to each check: scratch folder and classification"""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self._dir = None
        self.count = 1  # number of executions done for this spec

    @property
    def dir(self):
        if self._dir is None:  # the same name for all cases of a worker: nothing may be kept from a file to the next one
            self._dir = os.path.join(os.environ['VERIF_SCRATCH'], 'case')
            try:
                os.mkdir(self._dir)
            except FileExistsError:
                self._dir = tempfile.mkdtemp(prefix='case_', dir=os.environ['VERIF_SCRATCH'])
        return self._dir

    def path(self, name):
        return os.path.join(self.dir, name)

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def close(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)


def canon(spec):
    return json.dumps(spec, sort_keys=True, separators=(',', ':'))


class Violation(AssertionError):
    pass


def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


QUICK_FACTOR = 3  # of the numbers of small cases of the quick tier
HANG = 120.0  # seconds; cases take milliseconds


def _hang(*_):
    raise Violation(f'no answer after {HANG:.0f} s')


class Recorder:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.fail = None
        self.fail_error = None
        self.harness = None
        self.past = collections.deque(maxlen=30)  # last specs, for failures that depend on what was done before

    def run(self, case, spec):
        ctx = Ctx()
        cwd = os.getcwd()
        signal.signal(signal.SIGALRM, _hang)
        signal.setitimer(signal.ITIMER_REAL, HANG)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                case.check(spec, ctx)
        except Skip:
            self.skipped += 1
            return
        except HarnessError:
            self.harness = traceback.format_exc()
            raise
        except (Exception, SystemExit) as exc:  # violation
            self.fail = spec
            self.fail_past = list(self.past)
            self.fail_error = f"{type(exc).__name__}: {exc}"[:600]
            self.fail_trace = traceback.format_exc()[-4000:]
            raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.chdir(cwd)
            ctx.close()
            self.past.append(spec)
        self.evaluations += ctx.count
        for lab in ctx.labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if ctx.nontrivial:
            key = hashlib.md5((case.name + canon(spec)).encode()).hexdigest()
            if key not in self.nontrivial:
                self.nontrivial.add(key)
                size = len(canon(spec))
                if len(self.samples) < 4 and size < 3000:
                    self.samples.append({'case': case.name, 'spec': spec, 'labels': sorted(ctx.labels)})


def quiet_repo():
    import logging
    import warnings

    warnings.simplefilter('ignore')
    logging.getLogger('cfdtools').setLevel(logging.CRITICAL)
    for h in list(logging.getLogger('cfdtools').handlers):
        logging.getLogger('cfdtools').removeHandler(h)


def load(prop):
    import cfdtools  # noqa: F401  (must come from /repo)

    if not os.path.abspath(cfdtools.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError(f"cfdtools comes from {cfdtools.__file__}")
    import cfdtools.meshbase  # noqa: F401  must be imported first

    quiet_repo()
    mod = importlib.import_module(f'checks.{prop}')
    quiet_repo()
    return mod


def worker(prop, k, n, out, tier, seed):
    """run share k of n of all cases, write json to out"""
    res = {'evaluations': 0, 'skipped': 0, 'nontrivial': [], 'labels': {}, 'samples': [], 'fails': [], 'cases': {}}
    harness = None
    scratch = os.environ['VERIF_SCRATCH']
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    try:
        mod = load(prop)
        import hypothesis
        import hypothesis.internal.conjecture.engine as eng
        from hypothesis import HealthCheck, Phase, given, settings

        if hasattr(eng, 'MAX_SHRINKING_SECONDS'):
            eng.MAX_SHRINKING_SECONDS = float(os.environ.get('VERIF_SHRINK', 40 if tier == 'quick' else 120))
        os.chdir(scratch)
        budget = float(os.environ.get('VERIF_BUDGET', '420' if tier == 'quick' else '780'))
        t0 = time.time()
        for ic, case in enumerate(mod.CASES):
            rec = Recorder()
            total = case.quick * (QUICK_FACTOR if case.quick >= 50 else 1) if tier == 'quick' else case.thorough
            mine = total // n + (1 if k < total % n else 0)
            tcase = time.time()
            try:
                if time.time() - t0 > budget:
                    res['labels']['budget-exhausted'] = res['labels'].get('budget-exhausted', 0) + 1
                    continue
                specs = list(case.examples) if k == 0 else []
                if case.enum is not None:
                    specs += case.enum(tier)[k::n]
                for spec in specs:
                    rec.run(case, spec)
                first = []
                if mine > 0 and case.strategy is not None:

                    @hypothesis.seed(seed * 7919 + ic * 101 + k)
                    @settings(
                        max_examples=mine + (k > 0),
                        deadline=None,
                        database=None,
                        phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=list(HealthCheck),
                        report_multiple_bugs=False,
                        print_blob=False,
                    )
                    @given(case.strategy)
                    def prop_test(spec):
                        if k > 0 and not first:  # Hypothesis starts with the simplest case: left to worker 0
                            first.append(canon(spec))
                        if first and canon(spec) == first[0]:
                            return
                        if rec.fail is None and time.time() - t0 > budget:
                            return  # inconclusive rest
                        rec.run(case, spec)

                    prop_test()
            except HarnessError:
                harness = traceback.format_exc()
            except BaseException:
                if rec.fail is not None:
                    # shrink result: last failing spec of the run
                    res['fails'].append(
                        {'case': case.name, 'spec': rec.fail, 'error': rec.fail_error, 'trace': rec.fail_trace, 'past': rec.fail_past}
                    )
                else:
                    harness = traceback.format_exc()
            if rec.harness and rec.fail is None:
                harness = rec.harness
            res['evaluations'] += rec.evaluations
            res['skipped'] += rec.skipped
            res['nontrivial'] += sorted(rec.nontrivial)
            res['samples'] += rec.samples[:2]
            for lab, c in rec.labels.items():
                lab = f'{case.name}:{lab}'
                res['labels'][lab] = res['labels'].get(lab, 0) + c
            res['cases'][case.name] = [rec.evaluations, round(time.time() - tcase, 2)]
            if harness:
                break
    except BaseException:
        harness = traceback.format_exc()
    res['harness'] = harness
    with open(out, 'w') as f:
        json.dump(res, f)
    return 0


def known_entries(prop):
    """lines  'known: property=<id> case=<case> spec=<sha of spec> <text>'"""
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith('known:') and f'property={prop} ' in line:
                out.append(line)
    return out


def replay(prop, path):
    mod = load(prop)
    data = json.loads(Path(path).read_text())
    case = {c.name: c for c in mod.CASES}[data['case']]
    rec = Recorder()
    with tempfile.TemporaryDirectory(prefix='verif_') as scratch:
        os.environ['VERIF_SCRATCH'] = scratch
        os.chdir(scratch)
        for spec in data.get('past', []):
            with contextlib.suppress(Exception, SystemExit):
                rec.run(case, spec)
        try:
            rec.run(case, data['spec'])
        except HarnessError:
            traceback.print_exc()
            return 2
        except (Exception, SystemExit):
            print(rec.fail_trace)
            print(f"VIOLATION property={prop} replay={path}")
            return 1
    print(f"replay of {path}: property {prop} holds")
    return 0


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--replay' in argv:
        return replay(prop, argv[argv.index('--replay') + 1])
    if '--worker' in argv:
        i = argv.index('--worker')
        k, n, out = int(argv[i + 1]), int(argv[i + 2]), argv[i + 3]
        return worker(prop, k, n, out, tier, seed)

    t0 = time.time()
    nw = int(os.environ.get('VERIF_WORKERS', '8'))
    base = tempfile.mkdtemp(prefix=f'verif_{prop}_')
    try:
        procs = []
        env = dict(os.environ)
        for k in range(nw):
            sc = os.path.join(base, f'w{k}')
            os.mkdir(sc)
            out = os.path.join(base, f'out{k}.json')
            e = dict(env, VERIF_SCRATCH=sc, MPLCONFIGDIR=sc, HOME=sc, TMPDIR=sc)
            log = open(os.path.join(base, f'log{k}'), 'w')
            p = subprocess.Popen(
                [sys.executable, str(VERIF / 'run.py'), prop, f'--{tier}', '--worker', str(k), str(nw), out],
                cwd=sc, env=e, stdout=log, stderr=subprocess.STDOUT,
            )
            procs.append((p, out, log))
        limit = t0 + (600 if tier == 'quick' else 860)
        results, broken = [], []
        for k, (p, out, log) in enumerate(procs):
            try:
                p.wait(timeout=max(1, limit - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                broken.append(f'worker {k} timed out')
            log.close()
            if os.path.exists(out):
                results.append(json.load(open(out)))
            else:
                broken.append(f'worker {k} exit {p.returncode}: ' + open(log.name).read()[-3000:])
        return conclude(prop, tier, seed, t0, results, broken)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def reruns(prop, path):
    """exit status of the replay of a file in another process"""
    try:
        return subprocess.run(
            [sys.executable, str(VERIF / 'run.py'), prop, '--replay', str(path)], timeout=100,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
        ).returncode
    except subprocess.TimeoutExpired:
        return None


def conclude(prop, tier, seed, t0, results, broken):
    mod = load(prop)
    evaluations = sum(r['evaluations'] for r in results)
    nontrivial = set().union(*[set(r['nontrivial']) for r in results]) if results else set()
    labels, cases, samples, fails = {}, {}, [], []
    for r in results:
        for lab, c in r['labels'].items():
            labels[lab] = labels.get(lab, 0) + c
        for c, (nb, dt) in r['cases'].items():
            a = cases.setdefault(c, [0, 0.0])
            a[0] += nb
            a[1] = round(max(a[1], dt), 2)
        samples += r['samples']
        fails += r['fails']
    known = known_entries(prop)
    new, seen_known = [], set()
    for f in fails:
        sig = hashlib.sha1((f['case'] + canon(f['spec'])).encode()).hexdigest()[:12]
        f['sig'] = sig
        hit = [line for line in known if f'spec={sig} ' in line]
        if hit:
            seen_known.add(hit[0])
        else:
            new.append(f)
    # one sample per case first
    pick, seen = [], set()
    for s in sorted(samples, key=lambda s: len(canon(s))):
        if s['case'] not in seen:
            seen.add(s['case'])
            pick.append(s)
    pick = (pick + [s for s in samples if s not in pick])[:8]
    def finite(x):  # strict JSON
        if isinstance(x, dict):
            return {k: finite(v) for k, v in x.items()}
        if isinstance(x, list):
            return [finite(v) for v in x]
        return str(x) if isinstance(x, float) and not math.isfinite(x) else x

    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(nontrivial),
            'rule': mod.RULE,
            'samples': finite(pick),
            'labels': dict(sorted(labels.items())),
            'cases': {c: {'evaluations': v[0], 'max_worker_s': v[1]} for c, v in cases.items()},
            'outside_domain': sum(r['skipped'] for r in results),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    (VERIF / 'evidence').mkdir(exist_ok=True)
    (VERIF / 'evidence' / f'{prop}.json').write_text(json.dumps(ev, indent=1, allow_nan=False) + '\n')
    for line in known:
        print('KNOWN-FINDING: ' + line[len('known:'):].strip())
    harness = [r['harness'] for r in results if r.get('harness')]
    if new:
        rdir = VERIF / 'replays'
        rdir.mkdir(exist_ok=True)
        done = set()
        for f in sorted(new, key=lambda f: len(canon(f['spec']))):
            if f['case'] in done:
                continue
            done.add(f['case'])
            path = rdir / f"{prop}_{f['case']}_{f['sig']}.json"
            past = f.pop('past', None)
            path.write_text(json.dumps({'property': prop, **f}, indent=1) + '\n')
            if past and reruns(prop, path) == 0:  # depends on previous cases: they are part of the reproduction
                path.write_text(json.dumps({'property': prop, **f, 'past': past}, indent=1) + '\n')
            print(f"--- {prop} case {f['case']}: {f['error']}")
            print(f['trace'])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if broken or harness:
        for b in broken + harness:
            print('HARNESS ERROR:', b)
        return 2
    print(
        f"{prop} {tier} seed={seed}: held on {evaluations} cases "
        f"({len(nontrivial)} distinct non-trivial) in {time.time() - t0:.1f}s  {cases}"
    )
    return 0


# ----------------------------------------------------------------- comparison helpers


def same_array(a, b, what, exact=True, rtol=0.0, atol=0.0):
    import numpy as np

    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {b.shape} instead of {a.shape}")
    if a.size == 0:
        return
    if exact:
        if a.dtype.kind == 'f' or b.dtype.kind == 'f':
            ok = np.array_equal(a.astype(float), b.astype(float), equal_nan=True)
            # signed zeros are values too
            sign = [np.signbit(x.astype(float)) & ~np.isnan(x.astype(float)) for x in (a, b)]
            ok = ok and np.array_equal(*sign)
        else:
            ok = np.array_equal(a, b)
    else:
        ok = np.allclose(b, a, rtol=rtol, atol=atol, equal_nan=True)
    if not ok:
        bad = np.argwhere(~((a == b) | ((a != a) & (b != b))))
        first = tuple(bad[0]) if len(bad) else ()
        raise Violation(
            f"{what}: differs at {first}: expected {a[first] if first else a!r}, got {b[first] if first else b!r}"
        )


def close(x, y, rtol=1e-12, atol=1e-12):
    return math.isclose(float(x), float(y), rel_tol=rtol, abs_tol=atol)

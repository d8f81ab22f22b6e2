"""Runner shared by all checks: observation of the code under test, verdicts and evidence.

A check drives the public API of rsbeams (imported from /repo's working tree) with generated workloads.
Everything that is executed goes through Ctx.call, which is the observation boundary:

 * call and return (or exception) are recorded, together with what was printed,
 * arguments are snapshotted before and compared after the call (`frozen` arguments must not change),
 * files opened for writing are recorded by an audit hook, descriptors left open are counted,
 * a sys.monitoring hook counts function entries and loop iterations (jumps and branches) inside of
   /repo/rsbeams only.  The count is the proof that the code under test was reached, and a budget on it is a
   deterministic (logical-step) hang detector.

Verdicts: held (exit 0), violated (exit 1 and a VIOLATION line), inconclusive (exit 3).
"""
import contextlib
import faulthandler
import hashlib
import io
import json
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PKG = os.path.join(REPO, 'rsbeams') + os.sep


class StepBudgetExceeded(BaseException):
    """The code under test used more logical steps than any terminating run needs."""


class Inconclusive(Exception):
    pass


class _Steps:
    """Counts function entries and backward/forward jumps of code in /repo/rsbeams."""
    TOOL = 3

    def __init__(self):
        self.count = 0
        self.limit = None
        self.functions = {}
        self.installed = False

    def install(self):
        if self.installed:
            return
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'rsbeams-monitor')
        ev = mon.events
        mon.register_callback(self.TOOL, ev.PY_START, self._start)
        mon.register_callback(self.TOOL, ev.PY_RESUME, self._resume)
        mon.register_callback(self.TOOL, ev.JUMP, self._jump)
        mon.register_callback(self.TOOL, ev.BRANCH, self._jump)
        mon.set_events(self.TOOL, ev.PY_START | ev.PY_RESUME | ev.JUMP | ev.BRANCH)
        self.installed = True

    def _tick(self, code):
        if not code.co_filename.startswith(PKG):
            return sys.monitoring.DISABLE
        self.count += 1
        if self.limit is not None and self.count > self.limit:
            self.limit = None
            raise StepBudgetExceeded(code.co_qualname)

    def _start(self, code, offset):
        if not code.co_filename.startswith(PKG):
            return sys.monitoring.DISABLE
        key = code.co_filename[len(PKG):] + ':' + code.co_qualname
        self.functions[key] = self.functions.get(key, 0) + 1
        return self._tick(code)

    def _resume(self, code, offset):
        return self._tick(code)

    def _jump(self, code, offset, dest):
        return self._tick(code)


STEPS = _Steps()


class _FileMonitor:
    """Audit hook: files opened for writing (and reading) while a call is observed."""

    def __init__(self):
        self.active = False
        self.written = []
        self.read = []
        self.other = []
        sys.addaudithook(self._hook)

    def _hook(self, event, args):
        if not self.active:
            return
        if event == 'open':
            path, mode, flags = args
            if isinstance(path, int):
                return
            write = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
            (self.written if write else self.read).append(os.fspath(path))
        elif event in ('os.remove', 'os.rename', 'os.rmdir', 'os.truncate', 'shutil.rmtree', 'os.mkdir'):
            self.other.append((event, str(args[0])))


class Outcome:
    """What was observed of one call."""
    __slots__ = ('value', 'error', 'stdout', 'steps', 'changed', 'written', 'read', 'removed', 'warnings', 'hang')

    def __init__(self):
        self.value = None
        self.error = None
        self.stdout = ''
        self.steps = 0
        self.changed = []
        self.written = []
        self.read = []
        self.removed = []
        self.warnings = []
        self.hang = None

    @property
    def ok(self):
        return self.error is None and self.hang is None

    def why(self):
        if self.hang:
            return 'does not terminate (step budget exceeded in %s)' % self.hang
        if self.error is not None:
            tb = traceback.extract_tb(self.error.__traceback__)
            where = [f for f in tb if f.filename.startswith(PKG)]
            w = ' at %s:%d' % (where[-1].filename[len(PKG):], where[-1].lineno) if where else ''
            return 'raises %s: %s%s' % (type(self.error).__name__, str(self.error)[:200], w)
        return 'ok'


def snapshot(value):
    """A value that compares equal to a later snapshot only if nothing observable changed."""
    import numpy as np
    if isinstance(value, np.ndarray):
        if value.dtype == object:
            return ('oarr', value.shape, tuple(snapshot(v) for v in value.ravel()))
        return ('arr', value.shape, value.dtype.str if value.dtype.names is None else str(value.dtype), value.tobytes())
    if isinstance(value, dict):
        return ('dict', type(value).__name__, tuple((snapshot(k), snapshot(v)) for k, v in value.items()))
    if isinstance(value, (list, tuple)):
        return (type(value).__name__, tuple(snapshot(v) for v in value))
    if isinstance(value, float):
        return ('float', value.hex() if value == value else 'nan')
    if isinstance(value, (str, bytes, int, bool, type(None))):
        return (type(value).__name__, value)
    if isinstance(value, np.generic):
        return ('np', str(value.dtype), value.tobytes())
    if hasattr(value, '_coordinates'):
        return ('species', snapshot({k: v for k, v in vars(value).items()}))
    return ('id', id(value))


class Ctx:
    STEP_LIMIT = 20_000_000

    def __init__(self, prop, tier, seed, level='exploration'):
        import numpy as np
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.thorough = tier == 'thorough'
        self.depth = 1
        self.t0 = time.monotonic()
        digest = hashlib.sha256(('%s/%s/%s' % (prop, tier, seed)).encode()).digest()
        self.rng = random.Random(digest)
        self.np = np.random.default_rng(list(digest))
        self.scratch = tempfile.mkdtemp(prefix='rsb-%s-' % prop)
        os.chdir(self.scratch)
        self.counters = {}
        self.required = {}
        self.keys = set()
        self.evaluations = 0
        self.samples = []
        self.rule = ''
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.known = load_known(prop)
        self.files = _FileMonitor()
        self.calls = 0
        self.steps_total = 0
        self.current = None
        self._file_no = 0
        self._dropped = []
        self._held = []
        self._again = []
        self.stop_after = 5
        STEPS.install()

    # -- workload -----------------------------------------------------------------------------------------------
    def cases(self, quick, thorough=None, seconds=None):
        """Yield case numbers: `quick` of them, or (thorough tier) as many more, within a generous time bound."""
        n = quick * (self.depth if quick >= 20 else 1) if not self.thorough else (thorough or quick * 15)
        limit = seconds if seconds is not None else (90 if not self.thorough else 400)
        t0 = time.monotonic()
        for i in range(n):
            if time.monotonic() - t0 > limit:
                self.count('stopped_by_time_bound')
                break
            if len(self.violations) >= self.stop_after:
                break
            yield i

    def size(self, common, large, chance=0.03):
        """One of the common sizes, and a large one now and then."""
        if self.rng.random() < chance:
            self.count('large_cases')
            return large
        return self.rng.choice(common)

    def interleave(self, case, *args):
        """One to three cases at once, which are generators, in a random order of their steps."""
        live = [case(self, *args) for _ in range(self.rng.choice([1, 1, 2, 3]))]
        self.count('cases_at_once', len(live) if len(live) > 1 else 0)
        while live and not self.violations:
            g = self.rng.choice(live)
            if next(g, self) is self:
                live.remove(g)
        for g in live:
            g.close()

    def path(self, suffix='.dat'):
        free = [p for p in self._dropped if p.endswith(suffix)]
        if free and self.rng.random() < 0.6:
            # a name that held another file before
            self._dropped.remove(free[-1])
            self.count('file_names_used_again')
            return free[-1]
        self._file_no += 1
        return os.path.join(self.scratch, 'f%d%s' % (self._file_no, suffix))

    def write(self, data, suffix='.dat'):
        p = self.path(suffix)
        with open(p, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode('latin-1'))
        return p

    def drop(self, *paths):
        for p in paths:
            if p.startswith(self.scratch) and os.path.exists(p):
                os.remove(p)
                self._dropped.append(p)

    def case(self, key, sample=None, nontrivial=True):
        """Register one evaluated case.  `key` identifies what makes it distinct."""
        self.evaluations += 1
        self.check_held()
        if nontrivial:
            self.keys.add(hashlib.sha1(repr(key).encode()).digest()[:10])
        if sample is not None and len(self.samples) < 6 and (self.evaluations in (1, 2, 5, 12, 30, 77)):
            self.samples.append(sample)
        self.current = sample if sample is not None else key

    def hold(self, mech, what, *values):
        """Results of finished cases: they have to stay what they are whatever else is done."""
        if len(self._held) >= 6:
            self._held.pop(self.rng.randrange(len(self._held)))
        self._held.append((mech, what, values, snapshot(values)))

    def check_held(self):
        if self._again and self.rng.random() < 0.5:
            entry = self.rng.choice(self._again)
            mech, what, fn, before = entry
            self.count('calls_repeated_later')
            out = self.call(fn)
            now = snapshot(out.value) if out.ok else out.why()
            if now != before:
                self._again = [e for e in self._again if e is not entry]
                self.check(False, mech, '%s: the same call gives something else later' % what + ('' if out.ok else ': ' + out.why()))
        for entry in list(self._held):
            mech, what, values, before = entry
            self.count('results_kept')
            if snapshot(values) != before:
                self._held = [e for e in self._held if e is not entry]
                self.check(False, mech, '%s changes when something else is done later' % what)

    def again(self, mech, what, fn):
        """A call without side effects of a finished case: repeated while other cases are evaluated."""
        out = self.call(fn)
        if not self.check(out.ok, mech, lambda: '%s: %s' % (what, out.why())):
            return
        if len(self._again) >= 5:
            self._again.pop(self.rng.randrange(len(self._again)))
        self._again.append((mech, what, fn, snapshot(out.value)))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def require(self, **minimum):
        """Counters below their minimum make the run inconclusive: the monitor was not reached."""
        self.required.update(minimum)

    # -- observation --------------------------------------------------------------------------------------------
    def call(self, fn, *args, frozen=(), steps=None, **kwargs):
        out = Outcome()
        before = [snapshot(a) for a in frozen]
        self.files.written, self.files.read, self.files.other = [], [], []
        buf = io.StringIO()
        start = STEPS.count
        STEPS.limit = start + (steps or self.STEP_LIMIT)
        self.calls += 1
        try:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                with contextlib.redirect_stdout(buf):
                    self.files.active = True
                    try:
                        out.value = fn(*args, **kwargs)
                    finally:
                        self.files.active = False
        except StepBudgetExceeded as err:
            out.hang = str(err)
        except (KeyboardInterrupt, MemoryError):
            raise
        except SystemExit as err:
            out.error = err
        except Exception as err:
            out.error = err
        finally:
            STEPS.limit = None
        out.warnings = [str(w.message) for w in caught] if 'caught' in locals() else []
        out.steps = STEPS.count - start
        self.steps_total += out.steps
        out.stdout = buf.getvalue()
        out.written, out.read, out.removed = self.files.written, self.files.read, self.files.other
        for i, (a, b) in enumerate(zip(frozen, before)):
            if snapshot(a) != b:
                out.changed.append(i)
        return out

    # -- verdict ------------------------------------------------------------------------------------------------
    def check(self, condition, mechanism, message, **detail):
        self.count('assertions')
        if not condition:
            self.fail(mechanism, message() if callable(message) else message, **detail)
        return bool(condition)

    def expect_ok(self, out, mechanism, what, **detail):
        """The call was valid: an exception or a hang is a violation, and so is a changed argument."""
        self.count('assertions')
        if not out.ok:
            self.fail(mechanism, '%s: %s' % (what, out.why()), **detail)
            return False
        if out.changed:
            self.fail(mechanism + '-mutates', '%s: changes its argument %s' % (what, out.changed), **detail)
            return False
        return True

    @contextlib.contextmanager
    def oracle(self, mechanism):
        """Comparison of observed results: a result the oracle cannot even take apart is a violation."""
        try:
            yield
        except (Inconclusive, KeyboardInterrupt, MemoryError):
            raise
        except Exception as err:
            tb = traceback.extract_tb(err.__traceback__)[-1]
            self.fail(mechanism + '-malformed', 'result is malformed: %s: %s (oracle line %d)'
                      % (type(err).__name__, str(err)[:200], tb.lineno))

    def fail(self, mechanism, message, **detail):
        for pattern, text in self.known:
            if re.fullmatch(pattern, mechanism):
                self.known_hit.setdefault(pattern, (text, message))
                return
        self.violations.append({'mechanism': mechanism, 'message': message, 'case': self.current, 'detail': detail})

    def finish(self):
        import numpy as np

        def clean(v):
            if isinstance(v, dict):
                return {str(k): clean(x) for k, x in v.items()}
            if isinstance(v, (list, tuple, set)):
                return [clean(x) for x in list(v)[:60]]
            if isinstance(v, np.ndarray):
                return clean(v.tolist()) if v.size <= 60 else 'array%s' % (v.shape,)
            if isinstance(v, (np.integer,)):
                return int(v)
            if isinstance(v, (np.floating, float)):
                return float(v) if np.isfinite(v) else repr(float(v))
            if isinstance(v, (str, int, bool, type(None))):
                return v if not isinstance(v, str) or len(v) < 3000 else v[:3000] + '...'
            return repr(v)[:600]

        self.check_held()
        os.chdir(VERIF)
        shutil.rmtree(self.scratch, ignore_errors=True)
        counters = dict(self.counters)
        missing = {k: (counters.get(k, 0), v) for k, v in self.required.items() if counters.get(k, 0) < v}
        if self.evaluations == 0 or STEPS.count == 0 or not self.keys:
            missing['evaluations'] = (self.evaluations, 1)
        funcs = {k: v for k, v in sorted(STEPS.functions.items()) if '<' not in k}
        evidence = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': {
                'evaluations': self.evaluations,
                'distinct_nontrivial': len(self.keys),
                'rule': self.rule,
                'samples': clean(self.samples) or [clean(self.current)],
                'observed_calls': self.calls,
                'observed_steps_in_rsbeams': self.steps_total,
                'rsbeams_functions_entered': funcs,
                'monitor_counters': counters,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.monotonic() - self.t0, 2),
            'violations': len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
        for pattern, (text, message) in self.known_hit.items():
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.prop, text, message[:200]))
        if self.violations:
            for i, v in enumerate(self.violations[:5]):
                rel = os.path.join('evidence', 'replay', '%s-%d.json' % (self.prop, i))
                with open(os.path.join(VERIF, rel), 'w') as f:
                    json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed,
                               'rerun': 'VERIF_SEED=%s VERIF_TIER=%s /opt/venv/bin/python run.py %s'
                                        % (self.seed, self.tier, self.prop), **clean(v)}, f, indent=1)
                print('%s: %s' % (v['mechanism'], v['message'][:600]))
                print('VIOLATION property=%s replay=%s' % (self.prop, os.path.join(VERIF, rel)))
            return 1
        if missing:
            print('INCONCLUSIVE property=%s monitors not reached: %s' % (self.prop, missing))
            return 3
        print('held: property=%s evaluations=%d distinct=%d calls=%d steps=%d counters=%s wall=%.1fs' % (
            self.prop, self.evaluations, len(self.keys), self.calls, self.steps_total, counters,
            time.monotonic() - self.t0))
        return 0


def load_known(prop):
    known = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) mechanism=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3).strip()))
    return known


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.environ['MPLBACKEND'] = 'Agg'
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ.setdefault(v, '1')
    os.environ['MPLCONFIGDIR'] = tempfile.mkdtemp(prefix='rsb-mpl-')
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    # Watchdog: generous wall clock bound, never a verdict
    signal.signal(signal.SIGALRM, lambda *_: (print('INCONCLUSIVE property=%s wall clock watchdog' % prop, flush=True),
                                              os._exit(3)))
    signal.alarm(850)
    import importlib
    ctx = None
    code = 3
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            import numpy as np
            check = importlib.import_module('checks.' + prop.lower())
            np.random.seed(seed % 2**32)
            random.seed(seed)
            ctx = Ctx(prop, tier, seed, getattr(check, 'LEVEL', 'exploration'))
            ctx.depth = getattr(check, 'DEPTH', 5)
            ctx.rule = check.RULE
            ctx.assumptions = list(getattr(check, 'ASSUMPTIONS', []))
            ctx.require(**getattr(check, 'REQUIRE', {}))
            import_guard(ctx, check)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    check.run(ctx)
            except Exception as err:
                # Set-up steps of a workload are valid uses too: an exception out of the code under test is a violation
                frames = traceback.extract_tb(err.__traceback__)
                if isinstance(err, Inconclusive) or not any(f.filename.startswith(PKG) for f in frames):
                    raise
                ctx.evaluations += 1
                ctx.fail('uncaught', 'valid use raises %s: %s (%s line %d)' % (
                    type(err).__name__, str(err)[:200], [f for f in frames if f.filename.startswith(PKG)][-1].filename, frames[-1].lineno))
        code = ctx.finish()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('INCONCLUSIVE property=%s harness error' % prop)
        if ctx is not None and ctx.violations:
            code = ctx.finish()
    finally:
        if ctx is not None:
            shutil.rmtree(ctx.scratch, ignore_errors=True)
        shutil.rmtree(os.environ['MPLCONFIGDIR'], ignore_errors=True)
    sys.stdout.flush()
    return code


def import_guard(ctx, check):
    """Import of the modules under test: a failing import of a module that should load is a violation."""
    import importlib
    for name in getattr(check, 'MODULES', []):
        out = ctx.call(importlib.import_module, name)
        if not out.ok:
            ctx.case(('import', name))
            ctx.fail('import', 'importing %s %s' % (name, out.why()))
            raise SystemExit(ctx.finish())
        assert out.value.__file__.startswith(PKG), out.value.__file__

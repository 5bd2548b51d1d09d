"""Property-based-testing harness shared by every check in /verif/checks.

A check module defines a `Check` and registers *sub-checks* on it.  A sub-check is (strategy, function): the strategy
draws a *plain* case (dict/list/tuple/str/bytes/number/None/ndarray -- nothing else, so that it can be written to a
replay file), the function builds the real objects from the case, drives the real code and compares it with an oracle.

Failures:
  * `fail(...)` / a failed `expect(...)`                                   -> violation
  * an exception that passed through a frame of the code under test        -> violation (unexpected exception)
  * any other exception                                                    -> harness error (exit 2)
Every random choice is drawn by Hypothesis, seeded from VERIF_SEED, with no example database.
"""
import base64
import contextlib
import hashlib
import io
import json
import math
import os
import pickle
import signal
import struct
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUT_DIR = None  # set by the runner: directory of the imported package


class Violation(AssertionError):
    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class HarnessError(Exception):
    pass


def fail(msg, sig=None):
    raise Violation(msg, sig)


def expect(cond, msg, sig=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig)


# ---------------------------------------------------------------------------------------------------------------------
# plain case <-> JSON
def encode(obj):
    if obj is None or isinstance(obj, (bool, str)):
        return obj
    if isinstance(obj, (int, np.integer)):
        return int(obj)
    if isinstance(obj, (float, np.floating)):
        f = float(obj)
        if math.isfinite(f):
            return f
        return {'$f': repr(f)}
    if isinstance(obj, (bytes, bytearray)):
        return {'$b': base64.b64encode(bytes(obj)).decode()}
    if isinstance(obj, np.ndarray):
        return {'$a': base64.b64encode(np.ascontiguousarray(obj).tobytes()).decode(), 'dtype': obj.dtype.str,
                'shape': list(obj.shape)}
    if isinstance(obj, tuple):
        return {'$t': [encode(o) for o in obj]}
    if isinstance(obj, (list, set, frozenset)):
        return [encode(o) for o in obj]
    if isinstance(obj, dict):
        if all(isinstance(k, str) and not k.startswith('$') for k in obj):
            return {k: encode(v) for k, v in obj.items()}
        return {'$d': [[encode(k), encode(v)] for k, v in obj.items()]}
    raise HarnessError(f'case is not plain: {type(obj)}')


def decode(obj):
    if isinstance(obj, list):
        return [decode(o) for o in obj]
    if isinstance(obj, dict):
        if '$f' in obj:
            return float(obj['$f'])
        if '$b' in obj:
            return base64.b64decode(obj['$b'])
        if '$a' in obj:
            return np.frombuffer(base64.b64decode(obj['$a']), dtype=obj['dtype']).reshape(obj['shape']).copy()
        if '$t' in obj:
            return tuple(decode(o) for o in obj['$t'])
        if '$d' in obj:
            return {decode(k): decode(v) for k, v in obj['$d']}
        return {k: decode(v) for k, v in obj.items()}
    return obj


def brief(obj, depth=0):
    """Readable, bounded rendering of a case for the evidence samples."""
    if isinstance(obj, dict):
        return {str(k): brief(v, depth + 1) for k, v in list(obj.items())[:25]}
    if isinstance(obj, (list, tuple)):
        out = [brief(v, depth + 1) for v in obj[:12]]
        if len(obj) > 12:
            out.append(f'... {len(obj) - 12} more')
        return out
    if isinstance(obj, (bytes, bytearray)):
        return f'<{len(obj)} bytes {bytes(obj[:12]).hex()}{"..." if len(obj) > 12 else ""}>'
    if isinstance(obj, np.ndarray):
        return f'<array {obj.shape} {obj.dtype}>'
    if isinstance(obj, float) and not math.isfinite(obj):
        return repr(obj)
    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, str) and len(obj) > 200:
        return obj[:200] + '...'
    return obj


# ---------------------------------------------------------------------------------------------------------------------
class Rec:
    """Collects what one process actually explored."""

    def __init__(self, known):
        self.known_sigs = known          # sig -> description, findings listed for this property
        self.evaluations = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.observed = {}
        self._nontrivial = False
        self._case = None

    def start(self, case):
        self.evaluations += 1
        self._nontrivial = False
        self._case = case

    def nontrivial(self, flag=True):
        if flag:
            self._nontrivial = True

    def label(self, *names):
        for n in names:
            self.labels[str(n)] = self.labels.get(str(n), 0) + 1

    def known(self, sig):
        """True (and recorded) when `sig` is a listed finding, so the caller may skip what follows from it."""
        if sig in self.known_sigs:
            self.observed[sig] = self.observed.get(sig, 0) + 1
            return True
        return False

    def finish(self):
        if self._nontrivial:
            key = hashlib.blake2b(pickle.dumps(self._case, protocol=4), digest_size=10).digest()
            if key not in self.distinct:
                self.distinct.add(key)
                if len(self.samples) < 2:
                    self.samples.append(brief(self._case))


class Sub:
    def __init__(self, name, func, strategy, quick, thorough, shards, tshards, examples, budget, tbudget, cpu_limit,
                 isolate):
        self.cpu_limit = cpu_limit
        self.isolate = isolate
        self.name = name
        self.func = func
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.tshards = tshards
        self.examples = examples
        self.budget = budget
        self.tbudget = tbudget


class Check:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.subs = {}

    def sub(self, name, strategy, quick=200, thorough=None, shards=1, tshards=None, examples=(), budget=150,
            tbudget=1200, cpu_limit=60, isolate=False):
        """cpu_limit: CPU seconds after which one case counts as never returning; isolate: the case is written down
        before it is run, so that a crash of the whole process is reported with the case that caused it"""
        def deco(func):
            if name in self.subs:
                raise HarnessError(f'duplicate sub-check {name}')
            self.subs[name] = Sub(name, func, strategy, quick, thorough if thorough is not None else quick * 20,
                                  shards, tshards if tshards is not None else max(2, shards), list(examples), budget,
                                  tbudget, cpu_limit, isolate)
            return func
        return deco


# ---------------------------------------------------------------------------------------------------------------------
def sut_in_traceback(tb):
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if SUT_DIR and os.path.realpath(fn).startswith(SUT_DIR + os.sep):
            return True
        tb = tb.tb_next
    return False


@contextlib.contextmanager
def quiet():
    """Silence warnings, numpy fp noise and progress bars of the code under test."""
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        yield


class TimedOut(BaseException):
    pass


@contextlib.contextmanager
def cpu_guard(seconds):
    """Raises TimedOut once the process has spent `seconds` of CPU time (not wall time) inside the block."""
    def handler(signum, frame):
        raise TimedOut()
    old = signal.signal(signal.SIGPROF, handler)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def unusable(e):
    """Whether an exception outside the code under test means that what it returned or wrote is not what it should be (None instead of
    an object, an array of other dimensions, no file): on code that holds the property the checks process every result. Errors that
    rather indicate a missing name or a full disk stay errors of the check."""
    if isinstance(e, (HarnessError, NameError, ImportError)):
        return False
    if isinstance(e, AttributeError):
        return not str(getattr(e, 'name', None) or '_').startswith('_')
    return isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError, FileNotFoundError, AssertionError, struct.error))


def execute(sub, case, rec):
    """Run one case; returns None or (message, sig)."""
    rec.start(case)
    if sub.isolate and os.environ.get('VERIF_CASE_FILE'):
        with open(os.environ['VERIF_CASE_FILE'], 'w') as f:
            json.dump(encode(case), f)
    t0 = time.process_time()
    try:
        try:
            with quiet(), cpu_guard(sub.cpu_limit):
                sub.func(case, rec)
        finally:
            slow = time.process_time() - t0
            if os.environ.get('VERIF_SLOW') and slow > float(os.environ['VERIF_SLOW']):
                with open('/tmp/verif_slow.log', 'a') as f:
                    f.write(f'{sub.name} {slow:.1f} s {brief(case)}\n')
    except TimedOut:
        rec.nontrivial()
        rec.finish()
        return f'did not return within {sub.cpu_limit} s of CPU time', None
    except Violation as e:
        if e.sig is not None and rec.known(e.sig):
            rec.finish()
            return None
        rec.nontrivial()
        rec.finish()
        return str(e), e.sig
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        if sut_in_traceback(e.__traceback__):
            tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
            rec.nontrivial()
            rec.finish()
            return f'unexpected exception {type(e).__name__}: {e}\n{tb}', None
        if unusable(e):
            tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
            rec.nontrivial()
            rec.finish()
            return f'the result is of another kind than documented, {type(e).__name__}: {e}\n{tb}', None
        raise
    rec.finish()
    return None


def run_sub(sub, seed, n, rec, budget):
    """Returns None or dict(case=..., message=...)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    for case in sub.examples:
        res = execute(sub, case, rec)
        if res is not None:
            return {'case': case, 'message': res[0], 'sig': res[1]}

    state = {'fail': None, 't_fail': None}
    t0 = time.monotonic()

    class Falsified(AssertionError):
        pass

    def test(case):
        now = time.monotonic()
        if state['fail'] is None:
            if now - t0 > budget:
                rec.label('skipped:budget')
                return
        elif now - state['t_fail'] > 60:
            return
        res = execute(sub, case, rec)
        if res is not None:
            if state['t_fail'] is None:
                state['t_fail'] = now
            state['fail'] = {'case': case, 'message': res[0], 'sig': res[1]}
            raise Falsified(res[0])

    strat = sub.strategy() if callable(sub.strategy) and not hasattr(sub.strategy, 'example') else sub.strategy
    wrapped = hypothesis.seed(seed)(
        settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                 print_blob=False, phases=(Phase.generate, Phase.shrink),
                 suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                        HealthCheck.large_base_example, HealthCheck.filter_too_much])(
            given(strat)(test)))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            wrapped()
    except Falsified:
        return state['fail']
    except BaseException:
        if state['fail'] is not None:
            # e.g. Flaky because the shrink budget ran out: the recorded failing case is what counts
            return state['fail']
        raise
    if state['fail'] is not None:
        return state['fail']
    return None


# ---------------------------------------------------------------------------------------------------------------------
# comparison helpers
def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, (bool, np.bool_)) or (
        isinstance(x, np.ndarray) and x.ndim == 0 and np.issubdtype(x.dtype, np.number))


def num(x, what='value', sig=None):
    expect(is_num(x), lambda: f'{what} is not a real number: {x!r}', sig)
    return float(x)


def close(a, b, what, rtol=1e-9, atol=0.0, sig=None):
    a = num(a, what, sig)
    b = float(b)
    if math.isnan(a) and math.isnan(b):
        return
    # an infinite value is close to itself only
    ok = (a == b) or math.isfinite(a) and math.isfinite(b) and abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    expect(ok, lambda: f'{what}: got {a!r}, expected {b!r} (difference {a - b!r}, rtol {rtol:g}, atol {atol:g})', sig)


def close_arr(a, b, what, rtol=1e-9, atol=0.0, sig=None):
    expect(isinstance(a, np.ndarray), lambda: f'{what} is not an array: {type(a)}', sig)
    b = np.asarray(b)
    expect(a.shape == b.shape, lambda: f'{what}: shape {a.shape}, expected {b.shape}', sig)
    a64 = a.astype('float64')
    b64 = b.astype('float64')
    na, nb = np.isnan(a64), np.isnan(b64)
    if not np.array_equal(na, nb):
        i = tuple(int(v) for v in np.argwhere(na != nb)[0])
        fail(f'{what}: NaN pattern differs at {i}: got {a64[i]!r}, expected {b64[i]!r} '
             f'({int((na != nb).sum())} positions)', sig)
    ok = ~na
    if not ok.any():
        return
    d = np.abs(a64[ok] - b64[ok])
    d[a64[ok] == b64[ok]] = 0.0
    tol = atol + rtol * np.maximum(np.abs(a64[ok]), np.abs(b64[ok]))
    bad = ~(d <= tol) | (np.isinf(a64[ok]) | np.isinf(b64[ok])) & (a64[ok] != b64[ok])
    if bad.any():
        idx = np.argwhere(ok)[np.argmax(np.where(bad, d, -1))]
        i = tuple(int(v) for v in idx)
        fail(f'{what}: differs at {i}: got {a64[i]!r}, expected {b64[i]!r} ({int(bad.sum())} of {bad.size} points, '
             f'rtol {rtol:g}, atol {atol:g})', sig)


def same_arr(a, b, what, sig=None):
    close_arr(a, b, what, rtol=0.0, atol=0.0, sig=sig)


def raises(func, exc=Exception):
    """Call func; return the exception if it raised `exc`, else None."""
    try:
        func()
    except exc as e:
        return e
    return None

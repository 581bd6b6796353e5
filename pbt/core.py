"""
Shared machinery of the property-based checks.

A check is a list of Tests.  Each Test has a Hypothesis strategy producing a
plain JSON-like *case* (configuration + operation list + injected faults) and a
`run(case, ctx)` oracle that raises Violation when the property is broken.
Because cases are plain data, a shrunk failure is saved as JSON and replayed
without Hypothesis (`./check ID --replay FILE`).
"""
import hashlib
import json
import logging
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
VTSITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
CASE_LIMIT_S = 100      # a case normally takes milliseconds

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if VTSITE not in sys.path:
    sys.path.append(VTSITE)

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)

import hypothesis                                     # noqa: E402
from hypothesis import HealthCheck, Phase, settings   # noqa: E402
import hypothesis.internal.conjecture.engine as _eng  # noqa: E402
if hasattr(_eng, 'MAX_SHRINKING_SECONDS'):
    _eng.MAX_SHRINKING_SECONDS = 45


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The machinery itself went wrong; never reported as a violation."""


class CaseHang(BaseException):
    """A case ran for CASE_LIMIT_S; aborts the search without shrinking."""


class Test:
    def __init__(self, name, strategy, run, quick, thorough=None, procs=4,
                 rule='', pinned=()):
        self.name = name
        self.strategy = strategy      # zero-argument callable -> strategy
        self.run = run                # run(case, ctx)
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.procs = procs
        self.rule = rule
        self.pinned = list(pinned)    # plain cases always run first


class Ctx:
    """What one case's run may use and report."""

    def __init__(self, known=()):
        self.known = set(known)
        self.labels = {}
        self.is_nontrivial = False
        self.known_hit = set()
        self._tmp = None
        self._cleanup = []

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def label(self, name, flag=True):
        if flag:
            self.labels[name] = self.labels.get(name, 0) + 1

    def fail(self, key, msg):
        """A violation that a known finding may cover; returns if it does."""
        if key in self.known:
            self.known_hit.add(key)
            return
        raise Violation(f'[{key}] {msg}')

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='pbt-', dir=scratch_root())
        return self._tmp

    def defer(self, fn):
        self._cleanup.append(fn)

    def close(self):
        for fn in reversed(self._cleanup):
            try:
                fn()
            except Exception:
                pass
        self._cleanup = []
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def scratch_root():
    return '/dev/shm' if os.access('/dev/shm', os.W_OK) else None


def require(cond, msg):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg())


def eq(got, want, what):
    if type(got) is bool and type(want) is not bool or got != want:
        raise Violation(f'{what}: got {short(got)}, expected {short(want)}')


def short(v, n=300):
    r = repr(v)
    return r if len(r) <= n else r[:n] + '...'


def outcome(fn, *a, **k):
    """('ok', value) or ('exc', exception) of a call into the code under test."""
    try:
        return 'ok', fn(*a, **k)
    except Exception as e:
        return 'exc', e


def must(fn, *a, what=None, **k):
    """The call must succeed."""
    try:
        return fn(*a, **k)
    except Violation:
        raise
    except Exception as e:
        raise Violation(
            f'{what or getattr(fn, "__name__", fn)} unexpectedly raised '
            f'{type(e).__name__}: {short(e)}') from e


def must_raise(excs, fn, *a, what=None, **k):
    try:
        v = fn(*a, **k)
    except excs as e:
        return e
    except Violation:
        raise
    except Exception as e:
        raise Violation(
            f'{what or getattr(fn, "__name__", fn)} raised '
            f'{type(e).__name__}: {short(e)} instead of {excs}') from e
    raise Violation(f'{what or getattr(fn, "__name__", fn)} returned '
                    f'{short(v)} instead of raising {excs}')


# what reading a result of the wrong shape raises in an oracle
MISSHAPEN = (LookupError, TypeError, AttributeError, ValueError,
             StopIteration)


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True, default=repr)


def digest(case):
    return hashlib.sha256(canon(case).encode()).digest()[:8]


def _classify(exc):
    """Violation, or the harness's own error?"""
    if isinstance(exc, Violation):
        return 'violation'
    if isinstance(exc, CaseHang):
        return 'violation'
    if isinstance(exc, HarnessError):
        return 'harness'
    frames = traceback.extract_tb(exc.__traceback__)
    files = [os.path.abspath(f.filename) for f in frames]
    last = files[-1] if files else ''
    if any(f.startswith(REPO + '/') for f in files) and \
            not last.startswith(HERE + '/'):
        return 'violation'
    # a library may have been called with it (json.loads of what is no text)
    mine = [f for f in files if f.startswith(HERE + '/')]
    last = mine[-1] if mine else last
    if isinstance(exc, MISSHAPEN) and (
            last.startswith(HERE + '/props/') or last == HERE + '/conc.py'):
        # an oracle that is total on every well-formed result could not read
        # this one (a key missing from a report, None where an object is due)
        return 'violation'
    return 'harness'


def _alarm(signum, frame):
    raise CaseHang(f'no result within {CASE_LIMIT_S} s')


def run_case(test, case, known):
    """Runs one case; returns ctx, or raises."""
    ctx = Ctx(known)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        test.run(case, ctx)
    except Exception as e:
        if _classify(e) == 'violation' and not isinstance(e, Violation):
            raise Violation('unexpected exception from the code under test, '
                            'or from reading what it returned: '
                            f'{type(e).__name__}: {short(e)}\n' +
                            ''.join(traceback.format_tb(e.__traceback__)[-4:])
                            ) from e
        raise
    finally:
        signal.alarm(0)
        ctx.close()
    return ctx


def run_chunk(test, seed, n, known, out_path):
    """
    One worker's share: the pinned cases (first chunk only asks for them via
    n<0), then n generated cases.  Writes a pickle of what happened.
    """
    res = {'evaluations': 0, 'hashes': set(), 'labels': {}, 'samples': [],
           'known_hit': set(), 'failure': None, 'harness': None}

    def save():
        tmp = out_path + '.tmp'
        with open(tmp, 'wb') as f:
            pickle.dump(res, f)
        os.replace(tmp, out_path)

    def one(case):
        res['evaluations'] += 1
        try:
            ctx = run_case(test, case, known)
        except Violation as e:
            first = res['failure'] is None
            res['failure'] = {'case': case, 'message': str(e)}
            if first:
                save()
            raise
        except CaseHang as e:
            res['failure'] = {'case': case, 'message': str(e)}
            save()
            raise
        except Exception:
            res['harness'] = traceback.format_exc()
            raise
        for k, v in ctx.labels.items():
            res['labels'][k] = res['labels'].get(k, 0) + 1
        res['known_hit'] |= ctx.known_hit
        if ctx.is_nontrivial:
            h = digest(case)
            if h not in res['hashes']:
                res['hashes'].add(h)
                if len(res['samples']) < 40:
                    res['samples'].append(case)

    if n < 0:
        for case in test.pinned:
            try:
                one(case)
            except BaseException:
                break
        save()
        return

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              phases=(Phase.generate, Phase.shrink),
              suppress_health_check=[HealthCheck.too_slow,
                                     HealthCheck.data_too_large,
                                     HealthCheck.large_base_example],
              report_multiple_bugs=False, print_blob=False)
    @hypothesis.given(test.strategy())
    def prop(case):
        one(case)

    try:
        prop()
    except Violation:
        res['harness'] = None
    except CaseHang:
        res['harness'] = None
    except BaseException:
        if res['failure'] is None and res['harness'] is None:
            res['harness'] = traceback.format_exc()
        elif res['failure'] is not None:
            # Hypothesis could not reproduce while shrinking, or the shrunk
            # variant tripped the harness: keep the recorded violation.
            res['harness'] = None
    save()

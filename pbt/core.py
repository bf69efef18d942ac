"""
The framework: sub-checks, the worker which runs one of them under
Hypothesis, replaying of failing cases.

A sub-check is a Hypothesis strategy making JSON-able cases, and a function
run(case, ctx) which drives the real code on that case and raises Violation
(or lets any other exception out) if the property doesn't hold.
"""
import contextlib
import hashlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
HYPOTHESIS_DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

CASE_CPU_LIMIT = 60     # seconds of CPU; anything normal is under one second
SHRINK_LIMIT = 30       # seconds


class Violation(Exception):
    """The property doesn't hold for this case."""


class HarnessError(Exception):
    """Something is wrong with the machinery, not with sangfroid."""


class HungCase(BaseException):
    pass


SUBS = {}       # property id -> list of Sub


class Sub:
    def __init__(self, prop, name, strategy, run, quick, thorough, rule):
        self.prop = prop
        self.name = name
        self.strategy = strategy    # callable returning a strategy
        self.run = run
        self.quick = quick          # examples, over all workers
        self.thorough = thorough
        self.rule = rule


def sub(prop, name, strategy, quick=400, thorough=None, rule=''):
    def inner(fn):
        SUBS.setdefault(prop, []).append(Sub(
            prop, name, strategy, fn, quick,
            thorough if thorough is not None else quick*25,
            rule))
        return fn
    return inner


class Ctx:
    """What a case needs from the framework."""
    def __init__(self):
        self._tmp = None
        self.labels = set()
        self.trivial = True

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='verif-case-')
        return self._tmp

    def path(self, name):
        return os.path.join(self.tmp, name)

    def nontrivial(self, label='nontrivial'):
        self.trivial = False
        self.labels.add(label)

    def label(self, label):
        self.labels.add(label)

    def close(self):
        if self._tmp is not None:
            for dirpath, dirs, files in os.walk(self._tmp):
                try:
                    os.chmod(dirpath, 0o700)
                except OSError:
                    pass
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def check(cond, *msg):
    if not cond:
        raise Violation(' '.join(m if isinstance(m, str) else repr(m)
                                 for m in msg))


def check_eq(got, want, what=''):
    if type(got) is float and type(want) is float:
        same = got == want
    else:
        same = (got == want)
    if not same:
        raise Violation(f'{what}: got {got!r}, expected {want!r}')


@contextlib.contextmanager
def must_raise(*types, what=''):
    """The body must raise one of the types (any Exception by default)."""
    types = types or (Exception,)
    try:
        yield
    except types:
        return
    except Violation:
        raise
    except Exception as e:
        raise Violation(
            f'{what}: raised {type(e).__name__}({e}), expected '
            + '/'.join(t.__name__ for t in types))
    raise Violation(f'{what}: should have raised '
                    + '/'.join(t.__name__ for t in types))


def _alarm(signum, frame):
    raise HungCase()


def run_case(subcheck, case):
    """
    Runs one case. Returns (ctx, None) or (ctx, description of failure).
    """
    ctx = Ctx()
    failure = None
    cwd = os.getcwd()
    old_umask = os.umask(0o022)
    out = io.StringIO()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with contextlib.redirect_stdout(out):
                subcheck.run(case, ctx)
    except HarnessError:
        raise
    except Violation as e:
        failure = str(e)
    except HungCase:
        failure = f'hung: more than {CASE_CPU_LIMIT} s of CPU time'
    except MemoryError:
        failure = 'ran out of memory'
    except RecursionError as e:
        failure = f'RecursionError: {e}'
    except Exception as e:
        if type(e).__module__.split('.')[0] == 'hypothesis':
            raise
        failure = (f'unexpected {type(e).__name__}: {e}\n'
                   + traceback.format_exc(limit=-6))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
        os.umask(old_umask)
        ctx.close()
    return ctx, failure


def dumps(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True,
                      separators=(',', ':'))


def import_repo():
    """Makes the code under test importable, and makes sure it's that."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import sangfroid
    where = os.path.realpath(sangfroid.__file__)
    if not where.startswith(os.path.realpath(REPO)+os.sep):
        raise HarnessError(f'sangfroid comes from {where}, not {REPO}')
    return sangfroid


def import_hypothesis():
    if HYPOTHESIS_DIR not in sys.path:
        sys.path.append(HYPOTHESIS_DIR)
    import hypothesis
    return hypothesis


def run_sub(subcheck, seed, examples, time_limit, report):
    """
    Searches for a case which fails. "report" is a dict which we fill in.
    Returns the smallest failing case we found, as a dict, or None.
    """
    import_hypothesis()
    from hypothesis import given, settings, seed as hseed, Phase, HealthCheck
    import hypothesis.errors

    state = {
        'best': None, 'first_failure': None, 'harness_error': None,
        'hung': False,
    }
    started = time.monotonic()
    seen = set()
    report.update(evaluations=0, nontrivial=0, labels={}, samples=[],
                  stopped_early=False)
    hashes = report.setdefault('hashes', [])

    class Stop(BaseException):
        pass

    def body(case):
        now = time.monotonic()
        if state['hung']:
            return
        if state['first_failure'] is not None:
            if now-state['first_failure'] > SHRINK_LIMIT:
                return
        elif now-started > time_limit:
            report['stopped_early'] = True
            raise Stop()

        encoded = dumps(case)
        # exactly what a replay would see
        plain = json.loads(encoded)

        ctx, failure = run_case(subcheck, plain)

        if state['first_failure'] is None:
            report['evaluations'] += 1
            for label in ctx.labels:
                report['labels'][label] = report['labels'].get(label, 0)+1
            if not ctx.trivial:
                h = hashlib.sha1(
                    (subcheck.name+encoded).encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    hashes.append(h)
                    n = len(seen)
                    if n in (1, 7, 40) and len(encoded) < 6000:
                        report['samples'].append(plain)

        if failure is not None:
            if state['first_failure'] is None:
                state['first_failure'] = now
            if (state['best'] is None or
                    (len(encoded), encoded) < state['best'][0]):
                state['best'] = ((len(encoded), encoded), plain, failure)
            if failure.startswith('hung'):
                state['hung'] = True
            raise Violation(failure)

    test = given(subcheck.strategy())(body)
    test = settings(
        max_examples=examples,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        print_blob=False,
    )(test)
    test = hseed(seed)(test)

    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            test()
    except Stop:
        pass
    except HarnessError:
        raise
    except BaseException as e:
        if state['best'] is None:
            if isinstance(e, hypothesis.errors.HypothesisException):
                raise HarnessError(
                    f'{subcheck.prop}/{subcheck.name}: {type(e).__name__}: {e}')
            raise

    report['nontrivial'] = len(seen)

    if state['best'] is None:
        return None

    _, plain, failure = state['best']
    return {'property': subcheck.prop, 'sub': subcheck.name,
            'case': plain, 'failure': failure}

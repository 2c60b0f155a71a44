"""The generic part of every check.

A check is a list of Test objects.  A Test has a Hypothesis strategy producing
plain JSON-able cases and a function run(case, ctx) that executes the case
against the real code and raises Violation if the property does not hold.
Everything random is inside the strategy, so a case *is* the replay.
"""
import gc
import hashlib
import json
import os
import signal
import sys
import time
import traceback


class Violation(Exception):
    """The property is broken by this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


def require(cond, msg, *args):
    if not cond:
        raise Violation(fmt(msg, args))


def fmt(msg, args):
    """msg % args, surviving operands that cannot be printed."""
    if not args:
        return msg
    try:
        return msg % args
    except BaseException:
        return '%s %% (%s)' % (msg, ', '.join(rep(a) for a in args))


def rep(x):
    try:
        return repr(x)[:300]
    except BaseException:
        return '<unprintable %s>' % type(x).__name__


class Lazy:
    """Something to be put into a message only if there is one."""

    def __init__(self, f, *args):
        self.f, self.args = f, args

    def __str__(self):
        return self.f(*self.args)
    __repr__ = __str__


class Test:
    def __init__(self, name, strategy, run, quick=400, thorough=None,
                 configs=('c', 'pure'), rule='', corpus=()):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.configs = configs
        self.rule = rule
        self.corpus = list(corpus)


class Ctx:
    """What a running case reports about itself."""

    def __init__(self, config, tier='quick'):
        self.config = config
        self.tier = tier
        self.pure = config.startswith('pure')
        self.labels = set()
        self.is_nontrivial = False
        self.steps = 0

    def label(self, *names):
        self.labels.update(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


def dumps(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def case_hash(text):
    return hashlib.sha1(text.encode('utf-8', 'surrogatepass')).hexdigest()[:16]


def in_code_under_test(tb, repo):
    """Did the exception pass through a frame of the library?"""
    root = os.path.realpath(os.path.join(repo, 'src', 'zope', 'security'))
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(root + os.sep):
            return True
        tb = tb.tb_next
    return False


CASE_CPU_LIMIT = 60     # seconds of CPU for one case; typical is milliseconds


class Runner:
    """Runs the tests of one check in one configuration, in this process."""

    def __init__(self, repo, config, tier, seed, current_fd=None, known=()):
        self.repo = repo
        self.config = config
        self.tier = tier
        self.seed = seed
        self.fd = current_fd
        self.known = set(known)
        self.results = []

    # -- one case --------------------------------------------------------
    def note_current(self, test, text):
        if self.fd is not None:
            data = (json.dumps({'test': test.name, 'config': self.config})
                    + '\n' + text + '\n').encode('utf-8', 'surrogatepass')
            os.ftruncate(self.fd, 0)
            os.pwrite(self.fd, data, 0)

    def run_case(self, test, case, text=None):
        """Run one case; return (ctx, violation or None).

        Raises only for errors of the harness itself.
        """
        if text is None:
            text = dumps(case)
        self.note_current(test, text)
        ctx = Ctx(self.config, self.tier)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
        try:
            test.run(case, ctx)
        except Violation as v:
            return ctx, v
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            # Anything the case did not account for.  Coming out of the
            # library it is a wrong answer of the library; otherwise the
            # harness is at fault.
            if type(e).__module__.startswith('hypothesis'):
                raise
            if in_code_under_test(e.__traceback__, self.repo):
                return ctx, Violation('unexpected %s: %s\n%s' % (
                    type(e).__name__, _safe(e),
                    ''.join(traceback.format_tb(e.__traceback__)[-4:])))
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return ctx, None

    # -- one test ---------------------------------------------------------
    def run_test(self, test, scale=1.0, shard=0):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        n = test.quick if self.tier == 'quick' else test.thorough
        n = max(1, int(n * scale))
        st = dict(test=test.name, config=self.config, evaluations=0,
                  nontrivial=set(), labels={}, samples=[], failure=None,
                  known={}, rule=test.rule, error=None)
        failures = {}
        shrink = dict(n=0, t=None)
        max_shrink, max_shrink_s = 1200, 60
        if any(r['failure'] for r in self.results):
            # there is something to report already: the rest is a bonus
            n = max(1, n // 4)
            max_shrink, max_shrink_s = 300, 10
        # what is there now is not looked at by later collections
        gc.collect()
        gc.freeze()

        def fail(msg):
            # always from here and without the frames of the case: one kind
            # of failure for the shrinker, and nothing kept alive by it
            raise Violation(msg)

        def execute(case):
            text = dumps(case)
            h = case_hash(text)
            if h in failures:
                fail(failures[h][1])
            if shrink['t'] is not None:
                shrink['n'] += 1
                if (shrink['n'] > max_shrink
                        or time.process_time() - shrink['t'] > max_shrink_s):
                    return      # out of shrinking budget: keep what we have
            ctx, v = self.run_case(test, case, text)
            st['evaluations'] += 1
            for lab in ctx.labels:
                st['labels'][lab] = st['labels'].get(lab, 0) + 1
            if ctx.is_nontrivial:
                if h not in st['nontrivial']:
                    st['nontrivial'].add(h)
                    k = len(st['nontrivial'])
                    if k in (1, 7, 50) and len(text) < 3000:
                        st['samples'].append(json.loads(text))
            if v is not None:
                if v.key is not None and v.key in self.known:
                    st['known'][v.key] = st['known'].get(v.key, 0) + 1
                    return
                msg = v.msg
                v = ctx = None
                failures[h] = (case, msg)
                if shrink['t'] is None:
                    shrink['t'] = time.process_time()
                st['failure'] = dict(case=json.loads(text), msg=msg)
                fail(msg)

        try:
            for case in (test.corpus if not shard else ()):
                execute(case)
            body = given(test.strategy)(lambda case: execute(case))
            sub = int(hashlib.sha1(('%s/%s/%s' % (
                self.seed, self.config, test.name)
                + ('/%d' % shard if shard else '')).encode()).hexdigest()[:8], 16)
            body = hypothesis.seed(sub)(body)
            body = settings(
                max_examples=n, database=None, deadline=None,
                phases=(Phase.generate, Phase.shrink),
                report_multiple_bugs=False, print_blob=False,
                suppress_health_check=[HealthCheck.too_slow,
                                       HealthCheck.data_too_large,
                                       HealthCheck.large_base_example],
            )(body)
            body()
        except Violation:
            pass
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            if st['failure'] is None:
                st['error'] = ''.join(traceback.format_exception(e))[-6000:]
        if failures:
            # the smallest failing case seen
            case, msg = min(failures.values(), key=lambda cv: (len(dumps(cv[0])), dumps(cv[0])))
            st['failure'] = dict(case=json.loads(dumps(case)), msg=msg)
        self.results.append(st)
        return st


def _safe(e):
    try:
        return str(e)
    except BaseException:
        return '<unprintable>'


def jsonable(st):
    st = dict(st)
    st['nontrivial'] = sorted(st['nontrivial'])
    return st


def load_check(prop):
    import importlib
    return importlib.import_module('checks.' + prop.lower())

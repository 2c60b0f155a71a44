"""C22: watching security checks never changes a security decision."""
META = {
    'configs': ['c', 'pure', 'watch', 'watch2', 'purewatch', 'diff'],
    'technique': 'differential testing of watching against plain checkers on '
                 'generated declarations, and of whole generated programs in '
                 'processes with and without ZOPE_WATCH_CHECKERS; the log is '
                 'counted against a model',
    'note': 'Exploration: checker trees of up to 5 parts, up to 10 requests '
            'each, verbosity 0 to 3; programs of up to 16 library calls.',
    'assumptions': ['names are strings of type str',
                    'the __repr__ of an object may raise any Exception but '
                    'does not itself cause checks'],
    'shards': {'quick': 1, 'thorough': 2},
}
import io                                               # noqa: E402
import os                                               # noqa: E402
import sys                                              # noqa: E402

from hypothesis import strategies as st                 # noqa: E402

from harness.core import Test, require                  # noqa: E402

DIFF = 'VERIF_EXT' in os.environ
if DIFF:
    from checks.c20 import api
    from harness import twin
else:
    import zope.security.checker as zc
    from zope.security.interfaces import ForbiddenAttribute, Unauthorized
    from zope.security.proxy import Proxy, getChecker

    from harness import perms as P
    from harness import universe as U
    from zope.security._compat import PURE_PYTHON
    if PURE_PYTHON:
        Plain = zc.CheckerPy
    else:
        from zope.security._zope_security_checker import Checker as Plain
    PlainCombined = next(
        c for c in zc.WatchingCombinedChecker.__mro__
        if c.__name__ == 'CombinedChecker'
        and not issubclass(c, zc.CheckerLoggingMixin))

NAMES = ['a', 'b', 'x', '__call__', '__len__', '__iter__', '__getitem__', '__add__',
         '__str__', '__repr__', '__eq__', '__name__', '__class__', '%s', '{0}', '{',
         '', 'é', '\udc80', '__hash__', '__foo__']


if not DIFF:
    class Thing:
        def __init__(self):
            self.a = [1]
            self.b = 2

        def __call__(self, *a):
            return [5]

        def __len__(self):
            return 3

        def __getitem__(self, k):
            if k > 3:
                raise IndexError(k)
            return (k,)

        def __add__(self, o):
            return {6: 7}

    class IterThing(Thing):
        def __iter__(self):
            return iter([[1]])

        def __repr__(self):
            return 'two\nlines'

        def __bool__(self):
            raise ValueError('bool')

        def __eq__(self, other):
            raise ValueError('eq')

        def __hash__(self):
            raise ValueError('hash')

    class Broken(Thing):
        exc = None

        def __repr__(self):
            if self.exc is None:
                return 5
            raise self.exc

        def __bool__(self):
            return False

    EXC = {'none': None, 'attr': AttributeError('r'), 'value': ValueError('r'),
           'unauth': Unauthorized('r'), 'forbidden': ForbiddenAttribute('r', 1),
           'recursion': RecursionError('r'), 'stop': StopIteration('r'),
           'uni': UnicodeError('r')}

    OPS = {
        'getattr': getattr, 'setattr': lambda p, n: setattr(p, n, 1),
        'delattr': delattr, 'len': lambda p, n: len(p), 'call': lambda p, n: p(),
        'item': lambda p, n: p[1], 'add': lambda p, n: p + 1,
        'iter': lambda p, n: iter(p), 'str': lambda p, n: str(p),
        'list': lambda p, n: U.limited(p, 4),
    }


class Case:
    def __init__(self, case):
        self.case = case
        self.nodes = {}

    def build(self, t, watching):
        """-> checker; also remembers plain ones for every node."""
        if t[0] == 'comb':
            a = self.build(t[1], watching)
            b = self.build(t[2], watching)
            cls = PlainCombined
            if watching and t[3]:
                cls = zc.WatchingCombinedChecker
            c = cls(a, b)
        else:
            get = {n: P.PERMS[k] for n, k in t[1]}
            set_ = {n: P.PERMS[k] for n, k in t[2]}
            cls = Plain
            if watching and t[3]:
                cls = zc.WatchingChecker
            c = cls(get, set_)
        if watching and t[3]:
            c.verbosity = t[4]
        if not watching:
            self.nodes[id(t)] = c
        return c

    def outcome(self, c, which, obj, n):
        try:
            getattr(c, which)(obj, n)
        except BaseException as e:
            return e
        return None

    def lines(self, t, which, obj, n):
        """-> kinds of lines the watching tree must write"""
        if t[0] == 'comb':
            out = self.lines(t[1], which, obj, n)
            e = self.outcome(self.nodes[id(t[1])], which, obj, n)
            if isinstance(e, (Unauthorized, ForbiddenAttribute)):
                out = out + self.lines(t[2], which, obj, n)
            return out
        if not t[3]:
            return []
        e = self.outcome(self.nodes[id(t)], which, obj, n)
        if isinstance(e, Unauthorized):
            return ['Unauthorized'] if t[4] >= 1 else []
        if isinstance(e, ForbiddenAttribute):
            return ['Forbidden'] if t[4] >= 1 else []
        if e is None and t[4] > 1:
            return ['+']
        return []


def same(a, b):
    if a is None or b is None:
        return a is b
    if type(a) is not type(b) or len(a.args) != len(b.args):
        return False
    return all(x is y or x == y and type(x) in (str, int)
               for x, y in zip(a.args, b.args))


def result(r):
    """What is comparable of an operation's result."""
    if type(r) is Proxy:
        c = getChecker(r)
        k = [dict(c.get_permissions), dict(c.set_permissions)] \
            if isinstance(c, Plain) else type(c).__name__
        return ['proxy', k, type(zc.removeSecurityProxy(r)).__name__]
    if isinstance(r, list):
        return [result(x) for x in r]
    return [type(r).__name__, r if type(r) in (int, str) else None]


def attempt(f, *args):
    try:
        return None, f(*args)
    except BaseException as e:
        e.__traceback__ = e.__context__ = None
        return e, None


def run(case, ctx):
    U.reset()
    objs = [Thing(), IterThing(), Broken(), [1, [2]]]
    if case['broken'] != 'none':
        objs[2].exc = EXC[case['broken']]

    def key(o):
        return next((str(i) for i, x in enumerate(objs) if x is o), '?')
    policy = P.Policy(case['policy'], case['default'], P.perm_key, key)
    if case['inter']:
        policy.install()
    k = Case(case)
    plain = k.build(case['tree'], False)
    watching = k.build(case['tree'], True)
    old = zc.CheckerLoggingMixin._file
    olderr = sys.stderr
    try:
        for op in case['ops']:
            what, i, n = op
            obj = objs[i]
            direct = what.startswith('check')
            if direct:
                f, g = getattr(plain, what), getattr(watching, what)
                args = args2 = (obj, n)
            elif what == 'proxy':
                f, g = plain.proxy, watching.proxy
                args = args2 = (obj,)
            elif what == 'permission_id':
                f, g = plain.permission_id, watching.permission_id
                args = args2 = (n,)
            else:
                f = g = OPS[what]
                args, args2 = (Proxy(obj, plain), n), (Proxy(obj, watching), n)
            state = [dict(o.__dict__) for o in objs[:3]]
            del policy.asked[:]
            e1, r1 = attempt(f, *args)
            asked1 = list(policy.asked)
            after1 = [dict(o.__dict__) for o in objs[:3]]
            for o, s in zip(objs, state):
                o.__dict__.clear()
                o.__dict__.update(s)
            del policy.asked[:]
            log = zc.CheckerLoggingMixin._file = io.StringIO()
            err = sys.stderr = io.StringIO()
            try:
                e2, r2 = attempt(g, *args2)
            finally:
                zc.CheckerLoggingMixin._file = old
                sys.stderr = olderr
            asked2 = list(policy.asked)
            after2 = [dict(o.__dict__) for o in objs[:3]]
            for o, s in zip(objs, state):
                o.__dict__.clear()
                o.__dict__.update(s)
            where = '%s of %r on %s' % (what, n, type(obj).__name__)
            require(same(e1, e2), '%s: plain gives %r, watching %r', where, e1, e2)
            require(result(r1) == result(r2), '%s: plain gives %r, watching %r',
                    where, result(r1), result(r2))
            require([(a, id(b)) for a, b in asked1] == [(a, id(b)) for a, b in asked2],
                    '%s: plain asks %d questions, watching %d', where,
                    len(asked1), len(asked2))
            require([sorted(s) for s in after1] == [sorted(s) for s in after2],
                    '%s: effects differ', where)
            text = log.getvalue()
            if err.getvalue():
                require(False, '%s: wrote %r to stderr', where, err.getvalue())
            got = [x for x in text.split('[CHK]')[1:]]
            if direct:
                want = k.lines(case['tree'], what, obj, n)
                require(len(got) == len(want), '%s: expected the lines %s, the log '
                        'is %r', where, want, text)
                for x, w in zip(got, want):
                    ctx.label('logged ' + w)
                    if w == '+':
                        require('Unauthorized' not in x.split(':')[0]
                                and 'Forbidden' not in x.split(':')[0],
                                '%s: granted, but the log is %r', where, text)
                    else:
                        require(w in x.split(':')[0], '%s: expected the lines %s, '
                                'the log is %r', where, want, text)
                    require(n in x, '%s: the name is not in the log %r', where, text)
                if want:
                    ctx.nontrivial()
            elif what in ('proxy', 'permission_id'):
                require(not text, '%s: wrote %r', where, text)
            else:
                name = {'len': '__len__', 'call': '__call__', 'item': '__getitem__',
                        'add': '__add__', 'iter': '__iter__', 'str': '__str__',
                        'list': '__iter__'}.get(what, n)
                which = ('check_setattr' if what in ('setattr', 'delattr') else
                         'check_getattr')
                want = k.lines(case['tree'], which, obj, name)
                if (what == 'list' or PURE_PYTHON and what == 'getattr'
                        and (isinstance(e1, AttributeError) or n[:2] == '__')):
                    # asks other things, too, or (names the pure
                    # implementation answers itself) nothing
                    if e1 is None or len(got) != len(want):
                        continue
                require(len(got) == len(want), '%s through a proxy: expected the '
                        'lines %s, the log is %r', where, want, text)
                for x, w in zip(got, want):
                    require(w == '+' or w in x.split(':')[0], '%s: expected the '
                            'lines %s, the log is %r', where, want, text)
                ctx.label('through a proxy')
            ctx.label(type(e1).__name__)
    finally:
        zc.CheckerLoggingMixin._file = old
        sys.stderr = olderr
        U.reset()


def run_programs(case, ctx):
    """The same program with and without the watch setting."""
    pure, level, prog = case
    a, b = twin.both('api', prog, variants=(
        ('pure' if pure else 'compiled', None),
        ('pure' if pure else 'compiled', level)))
    good = 0
    for n, (x, y) in enumerate(zip(a, b)):
        for what in x:
            if what == 'asked' and str(prog[n][0]).startswith('check'):
                continue    # the object may be a proxy, which is printed
            require(x[what] == y[what], 'call %d %s: %s: without watching %s, '
                    'with %s', n, prog[n], what, x[what], y[what])
        if type(x['out']) is not list or x['out'][:1] != ['exc']:
            good += 1
        else:
            ctx.label(x['out'][1])
    if good >= 4:
        ctx.nontrivial()


name = st.sampled_from(NAMES)
permkeys = st.sampled_from(['public', 'none', 'v', 'e', 'm', 'zp', 'empty', 'eq',
                            'like', 'public', 'v', 'v'])
decls = st.lists(st.tuples(name, permkeys).map(list), max_size=6)
leaf = st.tuples(st.just('leaf'), decls, decls, st.sampled_from([True, True, False]),
                 st.integers(0, 3)).map(list)
tree = st.recursive(leaf, lambda t: st.tuples(
    st.just('comb'), t, t, st.booleans(), st.integers(0, 3)).map(list), max_leaves=5)
answers = st.sampled_from(['T', 'F', 'F', 'T', '1', '0', 'None', 'bad', '!', '!attr',
                           '!unauth', '!key', 'yes', '!base', '!stop'])
whats = st.sampled_from(['check', 'check', 'check_getattr', 'check_setattr',
                         'permission_id', 'proxy', 'getattr', 'getattr', 'setattr',
                         'delattr', 'len', 'call', 'item', 'add', 'iter', 'str',
                         'list'])
cases = st.fixed_dictionaries({
    'tree': tree, 'broken': st.sampled_from(
        ['none', 'attr', 'value', 'unauth', 'forbidden', 'recursion', 'stop', 'uni']),
    'policy': st.dictionaries(st.tuples(
        permkeys, st.sampled_from(['', '0', '1', '2', '3'])).map('/'.join), answers,
        max_size=6),
    'default': answers, 'inter': st.sampled_from([True, True, True, False]),
    'ops': st.lists(st.tuples(whats, st.integers(0, 3), name).map(list), min_size=1,
                    max_size=10)})

if DIFF:
    TESTS = [Test('programs', st.tuples(st.integers(0, 1), st.sampled_from(
        ['1', '2', 'yes']), api()).map(list), run_programs, quick=6000,
        thorough=200000, configs=('diff',), rule='at least four calls succeeded')]
else:
    TESTS = [Test('decisions', cases, run, quick=3000, thorough=60000,
                  configs=('c', 'pure', 'watch', 'watch2', 'purewatch'),
                  rule='at least one line was to be written')]

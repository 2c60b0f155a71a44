"""C11: canAccess and canWrite predict what the operation would do."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'model-based and metamorphic property testing: the predicted '
                 'answer is compared with a reference decision and with '
                 'actually performing the operation',
    'note': 'Exploration: scripted, real, combined, registered and declared '
            'checkers over recording objects; the answer is compared with the '
            'table and then with the real read and write.',
    'assumptions': ['the decision about an undeclared __iter__ may look for '
                    'that attribute'],
}
from hypothesis import strategies as st                # noqa: E402
from harness import perms as P                         # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
import zope.security                                   # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security.interfaces import Forbidden, ForbiddenAttribute, Unauthorized  # noqa: E402
from zope.security.proxy import Proxy                  # noqa: E402


class Unauth2(Unauthorized):
    pass


class Forb2(ForbiddenAttribute):
    pass


SCRIPT = {
    'U': Unauthorized, 'F': ForbiddenAttribute, 'U2': Unauth2, 'F2': Forb2,
    'plainF': Forbidden, 'A': AttributeError, 'V': ValueError, 'K': KeyError,
    'odd': U.Odd, 'T': TypeError, 'S': StopIteration, 'R': RecursionError}
NAMES = ['a', 'b', 'x', 'é', '__iter__', '__call__', '__name__', '__repr__',
         '__len__', '__parent__', '']
name = st.sampled_from(NAMES)
outcome = st.sampled_from(['ok', 'ok', 'U', 'U', 'F', 'F', 'F'] + sorted(SCRIPT))
pk = st.sampled_from(['public', 'v', 'e', 'none', 'v', 'm'])
script = st.builds(lambda k, g, s, dg, ds: [k, g, s, dg, ds],
                   st.sampled_from(['script', 'alien']),
                   st.dictionaries(name, outcome, max_size=4),
                   st.dictionaries(name, outcome, max_size=4), outcome, outcome)
real = st.builds(lambda k, g, s: [k, g, s],
                 st.sampled_from(['real', 'real', 'comb']),
                 st.dictionaries(name, pk, max_size=5),
                 st.dictionaries(name, pk, max_size=5))
case = st.fixed_dictionaries({
    'checker': st.one_of(script, real, real),
    'how': st.sampled_from(['proxy', 'proxy', 'registered', 'declared', 'bare']),
    'kind': st.sampled_from(['plain', 'iterable', 'getattr']),
    'grants': st.dictionaries(st.sampled_from(['v', 'e', 'm']),
                              st.sampled_from(['T', 'T', 'F', 'F', '!', '!unauth', 'None']),
                              max_size=3),
    'inter': st.sampled_from([True, True, True, True, False]),
    'asks': st.lists(st.tuples(st.sampled_from(['access', 'write']), name).map(list),
                     min_size=1, max_size=6)})


def run(case, ctx):
    U.reset()
    touched = []
    spec = case['checker']

    class Target:
        def __init__(self):
            d = object.__getattribute__(self, '__dict__')
            for n in NAMES[:4]:
                d[n] = n

        def __getattribute__(self, n):
            touched.append(n)
            return object.__getattribute__(self, n)

        def __setattr__(self, n, v):
            touched.append('=' + n)

        def __call__(self):
            touched.append('()')

        def __len__(self):
            touched.append('len')
            return 0

        def __bool__(self):
            touched.append('bool')
            return False

        def __eq__(self, o):
            touched.append('eq')
            return self is o
        __hash__ = object.__hash__
        if case['kind'] == 'iterable':
            def __iter__(self):
                return iter(())
        if case['kind'] == 'getattr':
            def __getattr__(self, n):
                touched.append('?' + n)
                raise AttributeError(n)

    obj = Target()
    excs = {}

    def exc_of(which, n):
        code = spec[1 if which == 'get' else 2].get(n, spec[3 if which == 'get' else 4])
        if code == 'ok':
            return None
        if (which, n) not in excs:
            cls = SCRIPT[code]
            if issubclass(cls, Unauthorized):
                e = cls(obj, n, 'p')
            elif issubclass(cls, ForbiddenAttribute):
                e = cls(n, obj)
            else:
                e = cls('scripted')
            excs[which, n] = e
        return excs[which, n]

    asked = []
    if spec[0] in ('script', 'alien'):
        class Scripted(zc.Checker if spec[0] == 'script' else object):
            def check(self, o, n):
                asked.append(('get', o, n))
                e = exc_of('get', n)
                if e is not None:
                    raise e
            check_getattr = __setitem__ = check

            def check_setattr(self, o, n):
                asked.append(('set', o, n))
                e = exc_of('set', n)
                if e is not None:
                    raise e

            def proxy(self, v):
                return v
        c = Scripted({}, {}) if spec[0] == 'script' else Scripted()
    else:
        g = {n: P.PERMS[k] for n, k in spec[1].items()}
        s = {n: P.PERMS[k] for n, k in spec[2].items()}
        if spec[0] == 'comb':
            c = zc.CombinedChecker(zc.Checker({}, {}), zc.Checker(g, s))
        else:
            c = zc.Checker(g, s)
    policy = P.Policy({k + '/': v for k, v in case['grants'].items()}, 'F',
                      P.perm_key, lambda o: '0' if o is obj else '?')
    if case['inter']:
        policy.install()
    how = case['how']
    x = obj
    if how == 'proxy' or spec[0] == 'alien' and how == 'registered':
        how = 'proxy'
        x = Proxy(obj, c)
    elif how == 'registered':
        zc.defineChecker(Target, c)
    elif how == 'declared':
        Target.__Security_checker__ = c
    # 'bare': nothing declared at all, everything forbidden

    def verdict(which, n):
        """-> ok, U, F, or the other exception (or its class)"""
        if how == 'bare':
            k = 'none'
        elif spec[0] in ('script', 'alien'):
            e = exc_of(which, n)
            if e is None:
                return 'ok', None
            return ('U' if isinstance(e, Unauthorized) else
                    'F' if isinstance(e, ForbiddenAttribute) else 'other'), e
        else:
            k = spec[1 if which == 'get' else 2].get(n, 'none')
        if k == 'public':
            return 'ok', None
        if k == 'none' or how != 'bare' and spec[0] == 'comb' and which == 'get' and (
                n in P.AVAILABLE or n == '__iter__' and case['kind'] != 'iterable'):
            # (the first part of the combination declares nothing)
            if which == 'get' and (n in P.AVAILABLE or n == '__iter__'
                                   and case['kind'] != 'iterable'):
                return 'ok', None
            return 'F', None
        if not case['inter']:
            return 'other', None
        a = case['grants'].get(k, 'F')
        if a in P.RAISES:
            return ('U' if a == '!unauth' else 'other'), 'policy'
        return ('ok' if P.CLASS[a] else 'U'), None

    for what, n in case['asks']:
        want, e = verdict('get' if what == 'access' else 'set', n)
        if what == 'write' and want == 'F':
            want, e2 = verdict('get', n)
            ctx.label('write forbidden, read ' + want)
            if want in ('ok', 'U'):
                want = 'U'
            else:
                e = e2
        f = zc.canAccess if what == 'access' else zc.canWrite
        require(f is getattr(zope.security, f.__name__), 'another function')
        del touched[:], asked[:], policy.asked[:]
        got = exc = None
        try:
            got = f(x, n)
        except BaseException as err:
            exc = err
        seen = [t for t in touched if t not in ('__Security_checker__', '__class__')
                and t != '?__Security_checker__']
        if n == '__iter__':
            seen = [t for t in seen if t not in ('__iter__', '?__iter__')]
        where = '%s %r (%s): ' % (what, n, how)
        require(not seen, where + 'the object was touched: %r', seen)
        if want == 'ok':
            require(got is True, where + 'permitted, but answered %r %r', got, exc)
        elif want == 'U':
            require(got is False, where + 'unauthorized, but answered %r %r', got, exc)
        elif want == 'F':
            require(isinstance(exc, ForbiddenAttribute),
                    where + 'forbidden, but answered %r %r', got, exc)
            if e is not None and e != 'policy':
                require(exc is e, where + 'another error')
        else:
            require(exc is not None, where + 'an error became %r', got)
            require(not isinstance(exc, (Unauthorized, ForbiddenAttribute)),
                    where + '%r', exc)
            if isinstance(e, BaseException):
                require(exc is e, where + 'the error became %r', exc)
        for _, o, m in asked:
            require(o is obj and m == n, where + 'asked about something else')
        for _, o in policy.asked:
            require(o is obj, where + 'the policy was asked about something else')
        ctx.label(what + ' ' + want)
        ctx.nontrivial(want != 'ok' or bool(policy.asked))
        # and now the real thing
        if n in NAMES[:4] or n == '__iter__' and what == 'access':
            p = zc.ProxyFactory(x)
            err = None
            try:
                if what == 'write':
                    setattr(p, n, 1)
                elif n == '__iter__':
                    iter(p)
                else:
                    getattr(p, n)
            except BaseException as ee:
                err = ee
            if got is True:
                require(err is None or n == '__iter__' and type(err) in (
                    TypeError, AttributeError), where + 'promised, but doing it '
                    'raises %r', err)
            elif got is False:
                require(isinstance(err, Unauthorized) or what == 'write' and
                        isinstance(err, ForbiddenAttribute),
                        where + 'denied, but doing it gives %r', err)
            elif isinstance(exc, ForbiddenAttribute):
                require(isinstance(err, ForbiddenAttribute),
                        where + 'forbidden, but doing it gives %r', err)
            ctx.label('compared with the operation')


TESTS = [
    Test('predictions', case, run, quick=5000, thorough=100000,
         rule='some answer was not a plain public permission'),
]

"""C04: combining two checkers grants the union of what they grant."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'model-based property testing: generated trees of combined '
                 'checkers over scripted and real parts against the union rule',
    'note': 'Exploration: trees of combined checkers up to depth 4 with '
            'scripted leaves (granting, refusing or failing in any way) and '
            'real ones; verdict, exception and order of questions are '
            'compared with the documented table.',
    'assumptions': ['when both parts raise Unauthorized, either may be the '
                    'one the caller sees'],
}
from hypothesis import strategies as st                # noqa: E402
from harness import perms as P                         # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security.interfaces import Forbidden, ForbiddenAttribute, Unauthorized  # noqa: E402
from zope.security.proxy import Proxy, getChecker, removeSecurityProxy  # noqa: E402


class Unauth2(Unauthorized):
    pass


class Forb2(ForbiddenAttribute):
    pass


SCRIPT = {
    'U': Unauthorized, 'F': ForbiddenAttribute, 'U2': Unauth2, 'F2': Forb2,
    'plainF': Forbidden, 'A': AttributeError, 'V': ValueError, 'K': KeyError,
    'odd': U.Odd, 'T': TypeError, 'R': RecursionError, 'S': StopIteration,
}
NAMES = ['a', 'b', '__call__', '__len__', '__getitem__', '__iter__',
         '__add__', '__name__', '__repr__', 'é', '__class__']
name = st.sampled_from(NAMES)
outcome = st.sampled_from(['ok', 'ok', 'U', 'U', 'F', 'F', 'F', 'U'] + sorted(SCRIPT))
permkey = st.sampled_from(['public', 'v', 'e', 'm', 'none'])
script = st.builds(
    lambda kind, d, g, s: [kind, d[0], d[1], g, s],
    st.sampled_from(['script', 'script', 'alien']), st.tuples(outcome, outcome),
    st.dictionaries(name, outcome, max_size=3),
    st.dictionaries(name, outcome, max_size=2))
real = st.builds(
    lambda g, s: ['real', g, s],
    st.dictionaries(name, permkey, max_size=5),
    st.dictionaries(name, permkey, max_size=3))
tree = st.recursive(
    st.one_of(script, real),
    lambda t: st.builds(lambda k, a, b: ['comb', a, b, k],
                        st.sampled_from(['', '', 'sub']), t, t),
    max_leaves=5)
comb = st.builds(lambda k, a, b: ['comb', a, b, k],
                 st.sampled_from(['', '', 'sub']), tree, tree)
op = st.one_of(
    st.tuples(st.sampled_from(['check', 'check_getattr', 'setitem',
                               'check_setattr', 'check_setattr']),
              st.integers(0, 1), name).map(list),
    st.tuples(st.sampled_from(['getattr', 'setattr', 'delattr']),
              st.integers(0, 1), st.sampled_from(['a', 'b', 'é'])).map(list),
    st.tuples(st.sampled_from(['len', 'call', 'getitem', 'add']),
              st.integers(0, 1), st.just('')).map(list))
case = st.fixed_dictionaries({
    'tree': comb, 'grants': st.lists(st.sampled_from(
        ['v/0', 'v/1', 'e/0', 'e/1', 'm/0', 'm/1']), unique=True),
    'ops': st.lists(op, min_size=1, max_size=6)})


class Thing:
    def __init__(self):
        for n in ('a', 'b', 'é'):
            self.__dict__[n] = 1

    def __len__(self):
        return 2

    def __call__(self):
        return 7

    def __getitem__(self, k):
        return 8

    def __add__(self, other):
        return 9

    def __setattr__(self, n, v):
        pass

    def __delattr__(self, n):
        pass


class SubCombined(zc.CombinedChecker):
    pass


THROUGH = {'len': ('__len__', len), 'call': ('__call__', lambda p: p()),
           'getitem': ('__getitem__', lambda p: p[0]),
           'add': ('__add__', lambda p: p + 1)}


class Built:
    def __init__(self, case):
        self.objs = [Thing(), Thing()]
        self.log = []
        self.leaves = 0
        self.excs = {}
        self.grants = set(case['grants'])
        self.root = self.make(case['tree'])

    def exc(self, leaf, code, obj, n):
        k = (leaf, code, id(obj), n)
        if k not in self.excs:
            cls = SCRIPT[code]
            if issubclass(cls, Unauthorized):
                e = cls(obj, n, 'p%d' % leaf)
            elif issubclass(cls, ForbiddenAttribute):
                e = cls(n, obj)
            else:
                e = cls('leaf %d' % leaf)
            self.excs[k] = e
        return self.excs[k]

    def make(self, t):
        """-> (checker, model) ; model(which, obj, name) -> (log, outcomes)

        An outcome is 'ok' or a set of acceptable exceptions: instances, or
        (class, args) for those a real checker makes.
        """
        if t[0] == 'comb':
            a, b = self.make(t[1]), self.make(t[2])
            cls = SubCombined if t[3] else zc.CombinedChecker
            c = cls(a[0], b[0])

            def model(which, obj, n):
                log, r = a[1](which, obj, n)
                kind = kind_of(r)
                if kind not in ('U', 'F'):
                    return log, r
                log2, r2 = b[1](which, obj, n)
                kind2 = kind_of(r2)
                log = log + log2
                if kind == 'U' and kind2 == 'F':
                    return log, r
                if kind == kind2 == 'U':
                    return log, r + r2
                return log, r2
            return c, model
        leaf = self.leaves
        self.leaves += 1
        if t[0] == 'real':
            c = zc.Checker({n: P.PERMS[k] for n, k in t[1].items()},
                           {n: P.PERMS[k] for n, k in t[2].items()})

            def model(which, obj, n):
                pk = t[1 if which == 'get' else 2].get(n, 'none')
                if pk == 'public':
                    return [], 'ok'
                if pk == 'none':
                    if which == 'get' and n in P.AVAILABLE:
                        return [], 'ok'
                    if which == 'get' and n == '__iter__':
                        # Python iterates by the items
                        return model(which, obj, '__getitem__')
                    return [], [(ForbiddenAttribute, (n, obj))]
                q = [('policy', P.PERMS[pk], obj)]
                if '%s/%d' % (pk, self.objs.index(obj)) in self.grants:
                    return q, 'ok'
                return q, [(Unauthorized, (obj, n, P.PERMS[pk]))]
            return c, model
        built = self

        def ask(which, obj, n):
            built.log.append((leaf, which, obj, n))
            code = t[3 if which == 'get' else 4].get(n, t[1 if which == 'get' else 2])
            if code != 'ok':
                raise built.exc(leaf, code, obj, n)

        class Leaf(zc.Checker if t[0] == 'script' else object):
            def check(self, obj, n):
                ask('get', obj, n)
            check_getattr = __setitem__ = check

            def check_setattr(self, obj, n):
                ask('set', obj, n)
            if t[0] == 'alien':
                get_permissions = {}
                set_permissions = {}
        c = Leaf({}, {}) if t[0] == 'script' else Leaf()

        def model(which, obj, n):
            code = t[3 if which == 'get' else 4].get(n, t[1 if which == 'get' else 2])
            log = [(leaf, which, obj, n)]
            return log, 'ok' if code == 'ok' else [built.exc(leaf, code, obj, n)]
        return c, model


def kind_of(r):
    if r == 'ok':
        return 'ok'
    e = r[0]
    cls = e[0] if isinstance(e, tuple) else type(e)
    if issubclass(cls, ForbiddenAttribute):
        return 'F'
    if issubclass(cls, Unauthorized):
        return 'U'
    return 'other'


def matches(exc, alternatives):
    for a in alternatives:
        if isinstance(a, tuple):
            if type(exc) is a[0] and len(exc.args) == len(a[1]) and all(
                    x is y or x == y for x, y in zip(exc.args, a[1])):
                return True
        elif exc is a:
            return True
    return False


def run(case, ctx):
    U.reset()
    b = Built(case)
    c, model = b.root

    class Policy:
        def checkPermission(self, permission, obj):
            b.log.append(('policy', permission, obj))
            return '%s/%d' % (P.perm_key(permission), b.objs.index(obj)) in b.grants
    U.management.setSecurityPolicy(lambda *p: Policy())
    U.management.newInteraction()
    for what, oi, n in case['ops']:
        obj = b.objs[oi]
        if what in THROUGH:
            n, f = THROUGH[what]
        which = 'set' if what in ('check_setattr', 'setattr', 'delattr') else 'get'
        log, want = model(which, obj, n)
        b.log.clear()
        exc = None
        try:
            if what in ('check', 'check_getattr', 'check_setattr'):
                getattr(c, what)(obj, n)
            elif what == 'setitem':
                c[obj] = n
            else:
                p = Proxy(obj, c)
                if what == 'getattr':
                    getattr(p, n)
                elif what == 'setattr':
                    setattr(p, n, 1)
                elif what == 'delattr':
                    delattr(p, n)
                else:
                    f(p)
        except BaseException as e:
            exc = e
        if want == 'ok':
            require(exc is None, '%s of %r: one part grants but the result is %r',
                    what, n, exc)
        else:
            require(exc is not None, '%s of %r granted although no part grants it',
                    what, n)
            require(matches(exc, want), '%s of %r raised %r %r instead of %r',
                    what, n, type(exc), exc.args, want)
        got = list(b.log)
        if what == 'getattr' and ctx.pure and isinstance(exc, AttributeError):
            got = got[:len(log)]
        require(got == log, '%s of %r: questions %r, expected %r', what, n,
                got, log)
        ctx.label('granted' if want == 'ok' else kind_of(want))
        ctx.label('second asked' if len(log) > 1 else 'first decided')
        ctx.nontrivial(len(log) > 1)


class Unregistered:
    pass


class Registered:
    pass


class Declared:
    pass


VALUES = ['int', 'list', 'unreg', 'reg', 'decl', 'proxied', 'none', 'comb']


def run_proxy(case, ctx):
    """The proxying step is that of an ordinary checker."""
    U.reset()
    b = Built({'tree': case[0], 'grants': []})
    c = b.root[0]
    own = zc.NamesChecker(['a'])
    zc.defineChecker(Registered, own)
    d = Declared()
    d.__Security_checker__ = own2 = zc.NamesChecker(['b'])
    v = {'int': 5, 'list': [1], 'unreg': Unregistered(), 'reg': Registered(),
         'decl': d, 'none': None, 'comb': c}
    v['proxied'] = Proxy(v['unreg'], own)
    x = v[case[1]]
    plain = zc.Checker({}).proxy(x)
    for r in (c.proxy(x), c[x]) if hasattr(type(c), '__getitem__') else (c.proxy(x),):
        require(isinstance(r, Proxy) == isinstance(plain, Proxy),
                'proxying %s: %r', case[1], type(r))
        if isinstance(r, Proxy):
            require(removeSecurityProxy(r) is removeSecurityProxy(x),
                    'proxying %s changed the object', case[1])
            require(getChecker(r) is getChecker(plain),
                    'proxying %s: another checker', case[1])
        else:
            require(r is x, 'proxying %s: %r', case[1], r)
    if case[1] == 'decl':
        require(getChecker(plain) is own2, 'declared checker not used')
    ctx.nontrivial()


TESTS = [
    Test('union', case, run, quick=6000, thorough=150000,
         rule='at least one question went to a second part'),
    Test('proxying', st.tuples(comb, st.sampled_from(VALUES)).map(list),
         run_proxy, quick=300, thorough=3000, rule='every case'),
]

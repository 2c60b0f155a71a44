"""C18: decorators combine their own and the decorated object's protection."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'model-based testing: generated chains of decorators, '
                 'location proxies and security proxies over objects with '
                 'generated declarations, against a model computing the '
                 'verdict layer by layer',
    'note': 'Exploration: chains of up to 5 layers over 9 kinds of objects, '
            '7 names for reading and setting, all names compared by the '
            'checker, by canAccess-free operations and by the payload of the '
            'refusal.',
    'assumptions': ['exceptions are not decorated'],
}
from hypothesis import strategies as st                # noqa: E402
from harness import perms as P                         # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
from zope.location import LocationProxy                # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security import management                   # noqa: E402
from zope.security import decorator as zd              # noqa: E402
from zope.security._definitions import thread_local    # noqa: E402
from zope.security.interfaces import ForbiddenAttribute, Unauthorized  # noqa: E402
from zope.security.proxy import Proxy, ProxyFactory, getChecker  # noqa: E402
from zope.security.proxy import removeSecurityProxy    # noqa: E402

PERM = {'v': 'zope.View', 'e': 'zope.Edit', 'm': 'zope.Manage',
        'public': zc.CheckerPublic}
NAMES = ['a', 'b', 'c', 'own', '__len__', '__call__', '__name__']
name = st.sampled_from(NAMES)
table = st.dictionaries(name, st.sampled_from(sorted(PERM)), max_size=5)
spec = st.tuples(table, table).map(list)
# how a class is registered: not at all, with a checker, a function, as basic
how = st.sampled_from(['none', 'checker', 'checker', 'checker', 'func',
                       'nothing', 'basic', 'funcnone'])
base = st.one_of(
    st.tuples(st.sampled_from(['obj', 'obj', 'declared', 'declcls', 'both', 'declnone']),
              how, spec, spec).map(list),
    st.tuples(st.sampled_from(['list', 'str', 'none', 'type']), how, spec, spec).map(list))
layer = st.one_of(
    st.tuples(st.sampled_from(['deco', 'deco', 'secdeco', 'subdeco']), how, spec).map(list),
    st.tuples(st.sampled_from(['loc']), how, spec).map(list),
    st.tuples(st.just('proxy'), st.sampled_from(['checker', 'sub']), spec).map(list))
case = st.fixed_dictionaries({
    'base': base, 'layers': st.lists(layer, min_size=1, max_size=5),
    'sub': st.booleans(), 'falsy': st.sampled_from([False, False, True]),
    'granted': st.lists(st.sampled_from(['v', 'e', 'm']), unique=True)})


class SubProxy(Proxy):
    pass


class Base:
    def __init__(self):
        self.a, self.b, self.c = 'a', 'b', 'c'

    def __len__(self):
        return 3

    def __call__(self):
        return 'called'


class Deco(zd.DecoratorBase):
    def own(self):
        return 'own'


class SecDeco(zd.SecurityCheckerDecoratorBase):
    def own(self):
        return 'own'


LAYERS = {'deco': zd.DecoratorBase, 'secdeco': SecDeco, 'subdeco': Deco,
          'loc': LocationProxy}


class Falsy(zc.Checker):
    """A checker that is false and equal to others."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = zc.Checker.__hash__


MADE = [zc.Checker]


def make(spec):
    return MADE[0]({n: PERM[p] for n, p in spec[0].items()},
                      {n: PERM[p] for n, p in spec[1].items()})


def register(cls, how, spec):
    """-> the effective tables, or None for no protection"""
    if how == 'none':
        return ({}, {})
    c = make(spec)
    if how == 'checker':
        zc.defineChecker(cls, c)
    elif how == 'func':
        zc.defineChecker(cls, lambda o: c)
    elif how == 'funcnone':
        zc.defineChecker(cls, lambda o: None)
        return None
    elif how == 'nothing':
        zc.defineChecker(cls, zc.Checker({}))
        return ({}, {})
    else:
        zc.defineChecker(cls, zc.NoProxy)
        return None
    return tables(c)


def tables(c):
    return (dict(c.get_permissions), dict(c.set_permissions))


def verdict(t, which, n, granted):
    """('ok',) | ('unauth', permission) | ('forbid',) for one pair of tables"""
    p = t[which].get(n)
    if p is None:
        if which == 0 and n in P.AVAILABLE:
            return ('ok',)
        return ('forbid',)
    if p is zc.CheckerPublic or p in granted:
        return ('ok',)
    return ('unauth', p)


def combined(ts, which, n, granted):
    res = [verdict(t, which, n, granted) for t in ts]
    if ('ok',) in res:
        return ('ok',)
    un = [r for r in res if r[0] == 'unauth']
    if not un:
        return ('forbid',)
    return un


def ask(f, *args):
    try:
        f(*args)
    except Unauthorized as e:
        return ('unauth',) + tuple(e.args[2:3])
    except ForbiddenAttribute:
        return ('forbid',)
    except AttributeError:
        # what the pure implementation makes of a refusal further inside
        return ('forbid',)
    return ('ok',)


def agree(got, want):
    return got in want if isinstance(want, list) else got == want


def run(case, ctx):
    U.reset()
    MADE[0] = Falsy if case.get("falsy") else zc.Checker
    granted = {PERM[p] for p in case['granted']}

    class Policy:
        def checkPermission(self, p, o):
            return p in granted
    management.setSecurityPolicy(lambda *p: Policy())
    thread_local.__dict__.clear()
    management.newInteraction()
    kind, how, spec, decl = case['base']
    if kind in ('list', 'str', 'none', 'type'):
        obj = {'list': [1, 2], 'str': 'abc', 'none': None, 'type': Base}[kind]
        c = zc.selectChecker(obj)
        eff = [tables(c)] if c is not None else None
        if kind == 'type':
            eff = [tables(zc._typeChecker)]
    else:
        K = type('K', (Base,), {})
        obj = K()
        t = register(K, how, spec)
        eff = [t] if t is not None else None
        if kind in ('declared', 'declcls', 'both'):
            d = make(decl)
            if kind == 'declcls':
                K.__Security_checker__ = d
            else:
                obj.__Security_checker__ = d
            eff = [tables(d)]
        elif kind == 'declnone':
            obj.__Security_checker__ = None
    chain = [obj]
    effs = [eff]
    x = obj
    locs = []
    for n, (lk, lhow, lspec) in enumerate(case['layers']):
        if lk == 'proxy':
            # a security proxy in the middle, with a checker of its own
            if issubclass(type(x), Proxy):
                continue
            c = make(lspec)
            x = (SubProxy if lhow == 'sub' else Proxy)(x, c)
            eff = [tables(c)]
        else:
            if lk == 'loc' and not case['sub']:
                cls = LocationProxy
                if cls not in locs:
                    locs.append(cls)
                    loct = register(cls, lhow, lspec)
                t = loct
            else:
                cls = type('L%d' % n, (LAYERS[lk],), {})
                t = register(cls, lhow, lspec)
            x = cls(x)
            if lk == 'loc':
                x.__parent__, x.__name__ = None, 'located'
            eff = (([t] if t is not None else []) + (eff or [])) or None
        chain.append(x)
        effs.append(eff)
    ctx.label('depth %d' % len(case['layers']), kind)

    for i in range(1, len(chain)):
        x, eff = chain[i], effs[i]
        where = 'layer %d' % i
        if issubclass(type(x), Proxy):
            require(ProxyFactory(x) is x, '%s: protected again', where)
            continue
        if not frozen(x):
            require(False, '%s: __Security_checker__ can be assigned', where)
        made = [('ProxyFactory', ProxyFactory(x)),
                ('proxying', zc.Checker({}).proxy(x))]
        if eff is None:
            for how, p in made:
                require(p is x, '%s: %s protected what has no protection', where, how)
            require(zc.selectChecker(chain[0]) is None
                    or type(chain[0]) is type or kind == 'obj', 'bad model')
            ctx.label('no protection')
            continue
        if len(eff) > 1:
            ctx.nontrivial()
        for how, p in made:
            require(type(p) is Proxy and removeSecurityProxy(p) is x,
                    '%s: %s gave no proxy', where, how)
            c = getChecker(p)
            for n in NAMES:
                for which, f in ((0, c.check), (1, c.check_setattr)):
                    got = ask(f, x, n)
                    want = combined(eff, which, n, granted)
                    require(agree(got, want), '%s: %s %s %s: %r instead of %r',
                            where, how, ('reading', 'setting')[which], n, got, want)
                    ctx.label(got[0])
        operate(where, made[0][1], chain, effs, i, granted)


def inner_ok(chain, effs, i, which, n, granted):
    """The verdict of the security proxies below layer i on a name."""
    for k in range(i - 1, 0, -1):
        if issubclass(type(chain[k]), Proxy):
            v = combined(effs[k], which, n, granted)
            if v != ('ok',):
                return v
    return ('ok',)


def operate(where, p, chain, effs, i, granted):
    """Reading and setting through the protected decorator."""
    if not isinstance(chain[0], Base):
        return
    for n in 'abc':
        want = combined(effs[i], 0, n, granted)
        if want == ('ok',):
            want = inner_ok(chain, effs, i, 0, n, granted)
        got = ask(getattr, p, n)
        require(agree(got, want), '%s: reading %s through the proxy: %r '
                'instead of %r', where, n, got, want)
        want = combined(effs[i], 1, n, granted)
        if want == ('ok',):
            want = inner_ok(chain, effs, i, 1, n, granted)
        value = object()
        old = getattr(chain[0], n)
        got = ask(setattr, p, n, value)
        require(agree(got, want), '%s: setting %s through the proxy: %r '
                'instead of %r', where, n, got, want)
        require(getattr(chain[0], n) is (value if got == ('ok',) else old),
                '%s: setting %s had the wrong effect', where, n)
    x = chain[i]
    if (hasattr(type(x), 'own')
            and not any(issubclass(type(y), Proxy) for y in chain[:i])):
        want = combined(effs[i], 0, 'own', granted)
        got = ask(getattr, p, 'own')
        require(agree(got, want), '%s: own method: %r instead of %r', where,
                got, want)


def frozen(x):
    for v in (zc.Checker({}), None):
        try:
            x.__Security_checker__ = v
        except TypeError:
            continue
        return False
    return True


TESTS = [
    Test('chains', case, run, quick=5000, thorough=80000,
         rule='at least two checkers contribute to one decorator'),
]

"""C17: trusted and untrusted adapters keep protection and location right."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'model-based testing: generated sequences of adaptations '
                 '(factory variants, arguments, adapters, parents) against a '
                 'model of the documented protection and location rules',
    'note': 'Exploration: up to 6 calls per wrapped factory, 1 to 4 arguments '
            'of 12 kinds, 16 kinds of adapters; arguments, identity, parent, '
            'protection and its checker are compared.',
    'assumptions': ['a factory does not return None',
                    'an adapter that is already protected and has no parent '
                    'lets its parent be set, or does not provide ILocation',
                    'an adapter of a type registered as needing no '
                    'protection may be returned bare'],
}
from hypothesis import strategies as st                # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
from zope.interface import alsoProvides, implementer   # noqa: E402
from zope.location import ILocation, Location, LocationProxy  # noqa: E402
from zope.proxy import getProxiedObject                # noqa: E402
from zope.security import adapter as za                # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security.interfaces import ForbiddenAttribute  # noqa: E402
from zope.security.proxy import Proxy, ProxyFactory, getChecker  # noqa: E402
from zope.security.proxy import removeSecurityProxy    # noqa: E402

VARIANTS = {'loctrusted': za.LocatingTrustedAdapterFactory,
            'trusted': za.TrustedAdapterFactory,
            'locuntrusted': za.LocatingUntrustedAdapterFactory}


class Thing:
    pass


class Odd:
    """Equal to everything and false."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __bool__(self):
        return False
    __hash__ = object.__hash__


class Grumpy:
    def __eq__(self, other):
        raise ZeroDivisionError
    __ne__ = __bool__ = __len__ = __eq__
    __hash__ = object.__hash__


class Plain:
    def ok(self):
        return 'ok'

    def no(self):
        return 'no'


class Carrier(Plain):
    """Has a __parent__ but does not claim to be a location."""
    __parent__ = None


class Slotted(Plain):
    __slots__ = ('x',)


class Strict:
    """Cannot carry a location: no attributes of its own."""
    __slots__ = ()

    def ok(self):
        return 'ok'

    def no(self):
        return 'no'


@implementer(ILocation)
class Loc(Plain):
    __parent__ = None
    __name__ = None


@implementer(ILocation)
class LocProp(Plain):
    __name__ = None

    def __init__(self):
        self.p = None
        self.sets = []

    @property
    def __parent__(self):
        return self.p

    @__parent__.setter
    def __parent__(self, v):
        self.sets.append(v)
        self.p = v


class Falsy(Loc):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class EqLoc(Loc):
    def __eq__(self, other):
        return True
    __hash__ = object.__hash__


CLASSES = {'plain': Plain, 'carrier': Carrier, 'slotted': Slotted,
           'loc': Loc, 'prop': LocProp, 'falsy': Falsy, 'strict': Strict,
           'zloc': Location, 'eqloc': EqLoc}
BUILTIN = {'list': lambda: [1], 'dict': lambda: {'a': 1}, 'str': lambda: 'text',
           'int': lambda: 7, 'func': lambda: (lambda: 1)}
ARGS = ['plain', 'proxied', 'none', 'str', 'list', 'odd', 'grumpy', 'podd',
        'pgrumpy', 'plist', 'locproxy', 'plocproxy', 'locofproxy', 'pclass',
        'pfunc', 'pempty']
arg = st.sampled_from(['plain', 'plain', 'proxied', 'proxied'] + ARGS)
call = st.fixed_dictionaries({
    'args': st.lists(arg, min_size=1, max_size=4),
    'make': st.sampled_from(sorted(CLASSES) * 2 + sorted(BUILTIN) + [
        'locproxy', 'proxied', 'provided', 'first', 'last', 'raise', 'raise2']),
    'parent': st.sampled_from(['none', 'none', 'none', 'other', 'falsy',
                               'first', 'proxied', 'zero', 'odd', 'grumpy',
                               'self'])})
case = st.fixed_dictionaries({
    'variant': st.sampled_from(sorted(VARIANTS)),
    'callable': st.sampled_from(['func', 'class', 'inst']),
    'names': st.tuples(st.sampled_from(['f', 'my factory', 'é']),
                       st.sampled_from(['some.module', 'x'])).map(list),
    'calls': st.lists(call, min_size=1, max_size=6)})


class Boom(Exception):
    pass


def make_arg(kind):
    if kind == 'none':
        return None
    if kind == 'str':
        return 'text'
    if kind == 'locproxy':
        return LocationProxy(Thing())
    if kind == 'plocproxy':
        return Proxy(LocationProxy(Thing()), zc.NamesChecker(['a']))
    if kind == 'locofproxy':
        return LocationProxy(Proxy(Thing(), zc.NamesChecker(['a'])))
    x = {'plain': Thing, 'proxied': Thing, 'list': list, 'plist': list,
         'odd': Odd, 'podd': Odd, 'grumpy': Grumpy, 'pgrumpy': Grumpy,
         'pclass': lambda: Thing, 'pfunc': lambda: make_arg,
         'pempty': dict}[kind]()
    if kind in ('proxied', 'podd', 'pgrumpy', 'plist', 'pclass', 'pfunc', 'pempty'):
        return Proxy(x, zc.NamesChecker(['a']))
    return x


def run(case, ctx):
    U.reset()
    registered = {}
    for k in set(CLASSES.values()) - {Location}:
        registered[k] = zc.NamesChecker(['ok'], zc.CheckerPublic)
        zc.defineChecker(k, registered[k])
    seen = []
    todo = []

    def body(*args):
        seen.append(args)
        return todo[-1](*args)
    name, module = case['names']
    if case['callable'] == 'func':
        def factory(*args):
            return body(*args)
    elif case['callable'] == 'class':
        class factory:
            def __new__(cls, *args):
                return body(*args)
    else:
        class Callable:
            def __call__(self, *args):
                return body(*args)
        factory = Callable()
    factory.__name__ = name
    factory.__module__ = module
    wrapped = VARIANTS[case['variant']](factory)
    require(wrapped.__name__ == name and wrapped.__module__ == module,
            'the factory is called %r in %r', wrapped.__name__, wrapped.__module__)
    for n, c in enumerate(case['calls']):
        one(case['variant'], c, ctx, wrapped, seen, todo, registered, 'call %d' % n)


def parent_of(kind, args, adapter):
    return {'none': None, 'other': Plain(), 'falsy': Falsy(), 'zero': 0,
            'first': args[0], 'odd': Odd(), 'grumpy': Grumpy(), 'self': adapter,
            'proxied': Proxy(Thing(), zc.NamesChecker(['a']))}[kind]


def one(variant, c, ctx, wrapped, seen, todo, registered, where):
    args = [make_arg(k) for k in c['args']]
    bare = [removeSecurityProxy(a) if type(a) is Proxy else a for a in args]
    flags = [type(a) is Proxy for a in args]
    protected = any(flags)
    trusted = variant != 'locuntrusted'
    made = []
    error = Boom('made by the factory')

    def make(*given):
        k = c['make']
        if k == 'raise':
            raise error
        if k == 'raise2':
            raise AttributeError('__parent__')
        if k in CLASSES:
            a = CLASSES[k]()
            if k in ('loc', 'prop', 'falsy', 'zloc', 'eqloc'):
                a.__parent__ = parent_of(c['parent'], given, a)
                if k == 'prop':
                    del a.sets[:]
        elif k in BUILTIN:
            a = BUILTIN[k]()
        elif k == 'locproxy':
            a = LocationProxy(Plain())
            a.__parent__ = parent_of(c['parent'], given, a)
        elif k == 'provided':
            a = Plain()
            alsoProvides(a, ILocation)
            a.__parent__ = parent_of(c['parent'], given, a)
        elif k == 'proxied':
            b = Loc()
            b.__parent__ = Thing()
            a = Proxy(b, zc.NamesChecker(['ok']))
        else:
            a = given[0 if k == 'first' else -1]
        made.append((a, locate(a)))
        return a

    if c['make'] in ('first', 'last'):
        # the adapter is an argument: only where that is unambiguous
        a = bare[0 if c['make'] == 'first' else -1]
        if a is None or (type(a) is LocationProxy):
            return
    todo.append(make)
    del seen[:]
    try:
        result = wrapped(*args)
    except Boom as e:
        require(c['make'] == 'raise' and e is error, '%s: raised %r', where, e)
        result = None
    except AttributeError as e:
        require(c['make'] == 'raise2' and e.args == ('__parent__',),
                '%s: raised %r', where, e)
        result = None
    else:
        require(c['make'] not in ('raise', 'raise2'),
                '%s: the error of the factory was lost', where)
    require(len(seen) == 1, '%s: the factory was called %d times', where, len(seen))
    given = seen[0]
    require(len(given) == len(args), '%s: %d arguments', where, len(given))
    expected = bare if trusted else args
    for i, (x, y) in enumerate(zip(given, expected)):
        require(x is y, '%s: argument %d (%s) was not handed over %s', where, i,
                c['args'][i], 'bare' if trusted else 'untouched')
    ctx.label(variant, 'protected' if protected else 'unprotected')
    if not made:
        ctx.label('failed')
        return
    adapter, (is_loc, old_parent) = made[0]
    context = expected[0]
    ctx.nontrivial(protected)
    # -- protection
    basic = type(adapter) in (str, int)
    inner = result
    if trusted and protected:
        was = type(adapter) is Proxy
        if not (basic and type(result) is type(adapter)):
            require(type(result) is Proxy, '%s: the adapter is not protected', where)
            inner = removeSecurityProxy(result)
        if was:
            require(result is adapter, '%s: a protected adapter was changed', where)
            return
    elif type(adapter) is not Proxy:
        require(type(result) is not Proxy, '%s: the adapter got protected', where)
    # -- location
    wrap = not is_loc and variant != 'trusted' and (protected or not trusted)
    if wrap:
        require(type(inner) is LocationProxy and getProxiedObject(inner) is adapter,
                '%s: no location proxy around the adapter but %s', where, type(inner))
        require(inner.__parent__ is context, '%s: wrong parent', where)
        ctx.label('wrapped')
        if type(adapter) in (Plain, Carrier):
            require(adapter.__dict__.get('__parent__') is None,
                    '%s: parent set on the adapter itself', where)
    else:
        require(inner is adapter, '%s: another object is returned', where)
        if is_loc:
            p = locate(adapter)[1]
            if old_parent is None:
                require(p is context, '%s: no parent was set', where)
                if type(adapter) is LocProp:
                    require(len(adapter.sets) == 1, '%s: parent set twice', where)
                ctx.label('parent set')
            else:
                require(p is old_parent, '%s: the parent was replaced', where)
                if type(adapter) is LocProp:
                    require(not adapter.sets, '%s: parent set again', where)
                ctx.label('parent kept')
        elif c['make'] in ('plain', 'carrier'):
            require('__parent__' not in adapter.__dict__,
                    '%s: parent set on something that is no location', where)
    # -- the protection is the one the adapter's class has
    if trusted and protected and type(result) is Proxy and c['make'] in CLASSES:
        if not wrap and type(adapter) in registered:
            require(getChecker(result) is registered[type(adapter)],
                    '%s: wrong checker', where)
        if c['make'] != 'zloc':
            require(result.ok() == 'ok', '%s: permitted name', where)
        try:
            result.no
        except ForbiddenAttribute:
            pass
        else:
            require(False, '%s: an undeclared name is permitted', where)


def locate(a):
    if type(a) is Proxy:
        a = removeSecurityProxy(a)
    is_loc = ILocation.providedBy(a)
    return is_loc, (a.__parent__ if is_loc else None)


TESTS = [
    Test('calls', case, run, quick=6000, thorough=100000,
         rule='at least one adaptation had a protected argument and '
              'produced an adapter'),
]

"""C05: the proxy factory picks the right protection and never changes it."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'model-based property testing: generated registries, objects '
                 'and chains of protection calls against a reference choice',
    'note': 'Exploration: generated registrations (checkers, functions, chains '
            'of functions, basic types), objects (own checkers, lying classes, '
            'subclasses, built-ins) and histories of protection calls whose '
            'results are fed back.',
    'assumptions': ['a checker function returns a checker, a function, None '
                    'or the no-protection marker'],
}
import collections                                     # noqa: E402
import types                                           # noqa: E402
from hypothesis import strategies as st                # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
from zope.security import checker as zc                # noqa: E402
import zope.security.proxy as zp                       # noqa: E402
from zope.security.interfaces import ForbiddenAttribute, Unauthorized  # noqa: E402
from zope.security.proxy import Proxy, getChecker, removeSecurityProxy  # noqa: E402

NCLS = 6
checkerkind = st.sampled_from(['plain', 'sub', 'falsy', 'empty', 'equal', 'comb'])
entry = st.one_of(
    st.just(['none']), checkerkind.map(lambda k: ['chk', k]),
    checkerkind.map(lambda k: ['chk', k]),
    st.just(['noproxy']), st.just(['basic']),
    st.builds(lambda n, e, k: ['fun', n, e, k], st.integers(1, 3),
              st.sampled_from(['chk', 'none', 'noproxy', 'chk']), checkerkind))
own = st.one_of(st.just(['no']), st.just(['no']), st.just(['no']),
                st.tuples(st.sampled_from(['inst', 'class', 'prop', 'dyn']),
                          checkerkind).map(list),
                st.just(['inst', 'None']), st.just(['prop', 'AttributeError']),
                st.just(['class', 'None']))
cls = st.fixed_dictionaries({
    'entry': entry, 'own': own,
    'base': st.sampled_from(['object', 'object', '0', 'dict', 'list', 'int',
                             'str', 'tuple', 'meta']),
    'lie': st.sampled_from(['', '', '', '0', '1', 'int', 'proxy', 'checker'])})
builtin = st.sampled_from(['int', 'str', 'none', 'list', 'dict', 'tuple', 'set',
                           'func', 'module', 'gen', 'bool', 'bytes', 'type',
                           'deque', 'object', 'cls0', 'cls1', 'true', 'float',
                           'method', 'checker', 'exc', 'nonpub', 'range'])
obj = st.one_of(st.integers(0, NCLS - 1).map(lambda i: ['inst', i]),
                st.integers(0, NCLS - 1).map(lambda i: ['inst', i]),
                builtin.map(lambda b: ['std', b]),
                st.integers(0, 9).map(lambda i: ['res', i]),
                st.integers(0, 9).map(lambda i: ['res', i]))
given_ = st.one_of(st.just(['no']), st.just(['no']), st.just(['None']),
                   checkerkind.map(lambda k: ['chk', k]),
                   st.just(['foreign']), st.just(['same']), st.just(['same']))
op = st.one_of(
    st.tuples(st.sampled_from(['factory', 'factory', 'factory2']), obj, given_).map(list),
    st.tuples(st.sampled_from(['proxy', 'proxyitem', 'default']), obj,
              checkerkind.map(lambda k: ['chk', k])).map(list),
    st.tuples(st.just('select'), obj, st.just(['no'])).map(list))
case = st.fixed_dictionaries({
    'classes': st.lists(cls, min_size=NCLS, max_size=NCLS),
    'ops': st.lists(op, min_size=1, max_size=10)})


class SubChecker(zc.Checker):
    pass


class FalsyChecker(zc.Checker):
    def __bool__(self):
        return False


class EmptyChecker(zc.Checker):
    def __len__(self):
        return 0


class EqualChecker(zc.Checker):
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1


def new_checker(kind):
    if kind == 'comb':
        return zc.CombinedChecker(zc.Checker({}), zc.Checker({}))
    return {'plain': zc.Checker, 'sub': SubChecker, 'falsy': FalsyChecker,
            'empty': EmptyChecker, 'equal': EqualChecker}[kind]({'ok': zc.CheckerPublic})


class Foreign:
    """A checker of no known class."""

    def check(self, o, n):
        pass
    check_getattr = check_setattr = check

    def proxy(self, v):
        return v


class Meta(type):
    pass


class Lib:
    def __init__(self, case):
        self.calls = []
        self.classes = []
        self.entries = {}
        self.owns = {}
        bases = {'object': object, 'dict': dict, 'list': list, 'int': int,
                 'str': str, 'tuple': tuple}
        for i, spec in enumerate(case['classes']):
            meta = type
            b = spec['base']
            if b == 'meta':
                meta, base = Meta, object
            elif b == '0':
                base = (self.classes[0] if self.classes
                        and spec['own'][0] == 'no' else object)
            else:
                base = bases[b]
            ns = {}
            if spec['lie']:
                k = spec['lie']
                lie = {'int': int, 'proxy': Proxy, 'checker': zc.Checker}.get(k) or (self.classes[int(k)]
                                              if k.isdigit() and int(k) < i else None)
                if lie is not None:
                    ns['__class__'] = property(lambda self, lie=lie: lie)
            o = spec['own']
            own = None
            if o[0] == 'class':
                own = ns['__Security_checker__'] = (
                    None if o[1] == 'None' else new_checker(o[1]))
            elif o[0] in ('prop', 'dyn'):
                if o[1] == 'AttributeError':
                    def get(self):
                        raise AttributeError('nothing here')
                    own = None
                else:
                    own = new_checker(o[1])

                    def get(self, own=own):
                        return own
                if o[0] == 'prop':
                    ns['__Security_checker__'] = property(get)
                else:
                    def __getattr__(self, name, own=own):
                        if name == '__Security_checker__':
                            return own
                        raise AttributeError(name)
                    ns['__getattr__'] = __getattr__
            c = meta('C%d' % i, (base,), ns)
            self.classes.append(c)
            self.owns[c] = own
            self.entries[c] = self.enter(c, spec['entry'])
        self.instances = []
        for c, spec in zip(self.classes, case['classes']):
            x = c()
            if spec['own'][0] == 'inst':
                own = None if spec['own'][1] == 'None' else new_checker(spec['own'][1])
                x.__Security_checker__ = own
                self.owns[c] = own
            elif spec['own'][0] == 'no' and c.__mro__[1] in self.owns:
                # what it inherits, unless an instance had it
                b = c.__mro__[1]
                if '__Security_checker__' in vars(b) or '__getattr__' in vars(b):
                    self.owns[c] = self.owns[b]
            self.instances.append(x)

    def enter(self, c, e):
        """-> what selecting gives: a checker, 'bare', or 'default'"""
        if e[0] == 'none':
            return 'default', None
        if e[0] == 'chk':
            k = new_checker(e[1])
            zc.defineChecker(c, k)
            return 'chk', k
        if e[0] == 'noproxy':
            zc.defineChecker(c, zc.NoProxy)
            return 'bare', None
        if e[0] == 'basic':
            zc.BasicTypes[c] = zc.NoProxy
            return 'bare', None
        final = {'chk': new_checker(e[3]), 'none': None, 'noproxy': zc.NoProxy}[e[2]]
        f = final
        for level in range(e[1]):
            def fun(o, f=f):
                self.calls.append(o)
                return f
            f = fun
        zc.defineChecker(c, f)
        return ('chk', final, e[1]) if e[2] == 'chk' else ('bare', None, e[1])

    def std(self, k):
        def gen():
            yield 1
        return {
            'int': 5, 'str': 'abc', 'none': None, 'list': [1], 'dict': {1: 2},
            'tuple': (1,), 'set': {1}, 'func': gen, 'module': types,
            'gen': gen(), 'bool': False, 'bytes': b'', 'type': int,
            'deque': collections.deque(), 'object': object(), 'float': 0.0,
            'cls0': self.classes[0], 'cls1': self.classes[1], 'true': True,
            'method': [].append, 'checker': zc.Checker({}), 'exc': None,
            'nonpub': zc.CP_HACK_XXX, 'range': range(3)}[k]


BASIC = (int, str, type(None), bool, bytes, object, float)
UNKNOWN = (collections.deque, range, zc.Global, zc.Checker)


def forbids_everything(c, x):
    for name in ('ok', 'a', '__call__', '__getitem__', '__len__', '__str__',
                 '__setitem__', '__reduce__', '__dict__', '__init__'):
        for m in (c.check, c.check_getattr, c.check_setattr):
            try:
                m(x, name)
            except ForbiddenAttribute:
                continue
            except Unauthorized:
                return False
            return False
    return True


def run(case, ctx):
    U.reset()
    before = dict(zc.BasicTypes)
    try:
        play(case, ctx)
    finally:
        for t in [t for t in zc.BasicTypes if t not in before]:
            del zc.BasicTypes[t]


def play(case, ctx):
    lib = Lib(case)
    results = []
    for what, o, g in case['ops']:
        xclass = None
        if o[0] == 'res':
            if not results:
                continue
            x = results[o[1] % len(results)]
        elif o[0] == 'inst':
            x = lib.instances[o[1]]
        else:
            x = lib.std(o[1])
            if o[1] in ('cls0', 'cls1') and hasattr(x, '__Security_checker__'):
                continue        # also an attribute of the class itself
        was = getChecker(x) if issubclass(type(x), Proxy) else None
        g0 = g[0]
        args = ()
        given = None
        if g0 == 'None':
            args = (None,)
        elif g0 == 'chk':
            given = new_checker(g[1])
        elif g0 == 'foreign':
            given = Foreign()
        elif g0 == 'same' and was is not None:
            given = was
        if given is not None:
            args = (given,)
        asker = None
        if what in ('proxy', 'proxyitem', 'default'):
            asker = zc._defaultChecker if what == 'default' else given
            if what == 'proxyitem' and not hasattr(type(asker), '__getitem__'):
                what = 'proxy'
            given, args = None, ()
        del lib.calls[:]
        exc = r = None
        try:
            if what == 'factory':
                r = zc.ProxyFactory(x, *args)
            elif what == 'factory2':
                r = zp.ProxyFactory(x, *args)
            elif what == 'select':
                r = zc.selectChecker(x)
            elif what == 'proxyitem':
                r = asker[x]
            else:
                r = asker.proxy(x)
        except TypeError as e:
            exc = e
        where = '%s of %s (%s)' % (what, o, g0)
        if issubclass(type(x), Proxy) and what != 'select':
            if given is None or given is was:
                require(exc is None, '%s: refused %r', where, exc)
                require(r is x, '%s: protecting a protected object gave '
                        'another one', where)
                ctx.label('protected already')
            else:
                require(exc is not None, '%s: accepted another checker', where)
                ctx.label('change refused')
            require(getChecker(x) is was, '%s: its checker changed', where)
            ctx.nontrivial()
            if exc is None:
                results.append(r)
            continue
        require(exc is None, '%s: %r', where, exc)
        if issubclass(type(x), Proxy):
            require(r is None, 'select for a protected object: %r', r)
            continue
        # the reference choice
        if given is not None:
            kind, chk, n = 'chk', given, 0
        else:
            c = type(x)
            own = lib.owns.get(c) if what != 'select' else None
            if own is not None:
                kind, chk, n = 'chk', own, 0
                ctx.label('own checker')
            elif c in lib.entries:
                e = lib.entries[c]
                kind, chk, n = e[0], e[1], (e[2] if len(e) > 2 else 0)
            elif c in BASIC or c in UNKNOWN:
                kind, chk, n = 'bare' if c in BASIC else 'default', None, 0
            elif c is Meta:
                kind, chk, n = 'default', None, 0
            else:
                kind, chk, n = 'registered', zc.getCheckerForInstancesOf(c), 0
                if c is types.ModuleType:
                    kind, chk = 'named', None
        if what == 'select':
            if kind == 'bare':
                require(r is None, '%s: %r for a basic value', where, r)
            elif kind in ('chk', 'registered'):
                require(r is chk, '%s: another checker selected', where)
            elif kind == 'default':
                require(forbids_everything(r, x), '%s: not forbidding', where)
            require(len(lib.calls) == n and all(y is x for y in lib.calls),
                    '%s: %d function calls instead of %d', where,
                    len(lib.calls), n)
            continue
        if kind == 'bare':
            require(r is x, '%s: a basic value came back as %r', where, type(r))
            ctx.label('basic')
        else:
            require(issubclass(type(r), Proxy), '%s: not protected', where)
            require(removeSecurityProxy(r) is x, '%s: guards another object', where)
            k = getChecker(r)
            if kind == 'default':
                require(forbids_everything(k, x), '%s: does not forbid '
                        'everything', where)
            elif kind == 'named':
                require(k.permission_id('__name__') is zc.CheckerPublic
                        and len(k.get_permissions) == 1, '%s', where)
            else:
                require(k is chk, '%s: another checker (%s)', where, type(k))
            ctx.label('default' if kind == 'default' else 'chosen')
            ctx.nontrivial(n > 0 or o[0] == 'inst')
        require(len(lib.calls) == n and all(y is x for y in lib.calls),
                '%s: the checker functions were called %d times instead of %d',
                where, len(lib.calls), n)
        results.append(r)
    for r in results:
        if issubclass(type(r), Proxy):
            require(not issubclass(type(removeSecurityProxy(r)), Proxy)
                    or removeSecurityProxy(r) is zc.CheckerPublic,
                    'a protection was stacked on another')


TESTS = [
    Test('choice', case, run, quick=9000, thorough=200000,
         rule='protected an instance of a generated class, followed a checker '
              'function, or protected something protected'),
]

"""C21: nothing crashes, corrupts memory or leaks in the compiled parts."""
META = {
    'configs': ['asan', 'c'],
    'technique': 'fuzzing of a sanitizer build with generated hostile programs; '
                 'allocation and reference counting over repetitions; garbage '
                 'collection of generated cyclic structures',
    'note': 'Exploration: programs of up to 8 calls with hostile names, class '
            'metadata, checkers, policies and re-entrant actions under '
            'AddressSanitizer and UBSan; 30 to 120 repetitions per counted '
            'program; cyclic graphs of up to 10 nodes.',
    'assumptions': ['unbounded direct stacking of proxies on proxies is not '
                    'generated', 'the sanitizers see the two extension modules, '
                    'and all memory of the interpreter by its malloc'],
    'shards': {'quick': 4, 'thorough': 4},
}
import gc                                               # noqa: E402
import sys                                              # noqa: E402
import weakref                                          # noqa: E402

from hypothesis import strategies as st                 # noqa: E402

import zope.proxy                                       # noqa: E402
import zope.security.checker as zc                      # noqa: E402
import zope.security.management as M                    # noqa: E402
import zope.security.proxy as zp                        # noqa: E402
from zope.security._definitions import thread_local     # noqa: E402
from zope.security.interfaces import ForbiddenAttribute  # noqa: E402
from zope.security.interfaces import Unauthorized       # noqa: E402
from zope.security.proxy import Proxy                   # noqa: E402

from harness import gen                                 # noqa: E402
from harness import universe as U                       # noqa: E402
from harness.core import Test, require                  # noqa: E402


ncases = [0]


def settle():
    """Keep collections cheap: old objects are not looked at again."""
    if ncases[0] % 200 == 0:
        gc.collect()
        gc.freeze()
    ncases[0] += 1


# -- 1. ordinary generated programs, under the sanitizer ------------------

def run_program(case, ctx):
    U.reset()
    w = U.World(case)
    w.install_policy()
    for op in case['ops']:
        kind, value = w.run(op)
        if kind == 'exc':
            require(type(value) is not SystemError,
                    '%s: SystemError %r', op, value)
        ctx.label(kind)
        w.results.append(value if kind == 'ok' else None)
    if w.log:
        ctx.nontrivial()
    U.reset()


# -- 2. hostile programs -----------------------------------------------------

class Done(BaseException):
    pass


class StrSub(str):
    pass


class Hostile:
    """State of one hostile program."""

    def __init__(self, case):
        self.case = case
        self.depth = 0
        self.steps = 0
        self.ncalls = 0
        self.action = None
        self.armed = False
        self.perms = []             # permission tables of the real checkers
        self.checkers = []
        self.objs = []
        self.proxies = []
        for spec in case['classes']:
            self.objs.append(self.make_object(spec))
        for spec in case['checkers']:
            self.checkers.append(self.make_checker(spec))
        n = len(self.checkers)
        for i, o in enumerate(self.objs):
            self.proxies.append(Proxy(o, self.checkers[i % n]))
        self.values = []

    # a thing that may happen in the middle of something else
    def act(self):
        if not self.armed:
            return
        self.steps += 1
        if self.steps > 40:
            return
        for a in self.case['actions']:
            self.one_action(a)

    def one_action(self, a):
        if a == 'clear':
            for d in self.perms:
                d.clear()
        elif a == 'fill':
            for d in self.perms:
                for i in range(50):
                    d['x%d' % i] = object()
        elif a == 'reinit':
            for c in self.checkers:
                if isinstance(c, zc.Checker):
                    c.__init__({}, {})
        elif a == 'forget':
            self.perms[:] = []
        elif a == 'drop':
            self.proxies[:] = [None] * len(self.proxies)
            self.objs[:] = [None] * len(self.objs)
        elif a == 'dropcheckers':
            self.checkers[:] = [zc.Checker({})] * len(self.checkers)
        elif a == 'gc':
            gc.collect()
        elif a == 'end':
            M.endInteraction()
        elif a == 'unregister':
            zc._clear()
        elif a == 'registry':
            zc._checkers.clear()
            for k, v in zc._default_checkers.items():
                zc._checkers[k] = v
        elif a == 'recurse' and self.depth < 200:
            self.depth += 1
            try:
                self.call(self.current)
            except Exception:
                pass
            finally:
                self.depth -= 1
        elif a == 'deep':
            self.depth += 1
            try:
                if self.depth < 2000:
                    self.call(self.current)
            finally:
                self.depth -= 1
        elif a == 'junk':
            self.junk = [bytearray(n) for n in range(16, 700, 8)]
        elif a == 'raise':
            raise U.Custom('in the middle')
        elif a == 'clearlocal':
            thread_local.__dict__.clear()

    def text(self, spec):
        kind, s = spec
        world = self
        if kind == 's':
            return s
        if kind == 'sub':
            return StrSub(s)
        if kind == 'int':
            return len(s)
        if kind == 'none':
            return None
        if kind == 'bytes':
            return s.encode('utf-8', 'surrogatepass')
        if kind == 'list':
            return [s]
        if kind == 'long':
            return s * 1000

        class Name(str):
            def __eq__(self, other):
                world.act()
                if kind == 'eqraise' and world.armed:
                    raise U.Custom('eq')
                return str.__eq__(self, other)

            def __hash__(self):
                if kind == 'hashraise' and world.armed:
                    raise U.Custom('hash')
                if kind == 'hashact':
                    world.act()
                return str.__hash__(self)

            def __str__(self):
                world.act()
                if kind == 'strraise' and world.armed:
                    raise U.Custom('str')
                if kind == 'strodd':
                    return 5
                return str(str.__str__(self))
        return Name(s)

    def make_object(self, spec):
        world = self
        name, module, kind, attrs = spec
        ns = {}

        def method(n, what):
            def f(self, *args):
                world.act()
                world.ncalls += 1
                if world.ncalls > 60 and n in ('__getitem__', '__next__'):
                    raise (IndexError if n == '__getitem__' else StopIteration)
                if what == 'raise':
                    raise U.Custom('from the object')
                if what == 'self':
                    return self
                if what == 'odd':
                    return 'odd'
                if what == 'none':
                    return None
                if what == 'ni':
                    return NotImplemented
                return object()
            return f
        for n, what in attrs:
            if n == '__hash__' and what != 'none':
                what = 'raise'      # (Python leaks odd results of __hash__)
            ns[n] = method(n, what)

        if kind == 'classodd':
            def odd(self):
                world.act()
                if module[0] == 'eqraise':
                    raise U.Custom('class')
                return world.text(module)
            ns['__class__'] = property(odd)

        def get(cls):
            world.act()
            raise U.Custom('meta')
        meta = {}
        if kind == 'modraise':
            meta = {'__module__': property(get)}
        elif kind == 'modless':
            def lacks(cls):
                world.act()
                raise AttributeError('__module__')
            meta = {'__module__': property(lacks)}
        if kind == 'metaraise':
            meta = {'__module__': property(get), '__name__': property(get)}
        elif kind == 'metaodd':
            meta = {'__module__': property(
                        lambda cls: world.act() or world.text(module)),
                    '__name__': property(
                        lambda cls: world.act() or world.text(name))}
        Meta = type('Meta', (type,), meta)
        cls = Meta('C', (), ns)
        if kind in ('plain', 'classodd'):
            try:
                # (a name of a generated class would be an uncollectable cycle)
                cls.__name__ = StrSub(name[1]) if name[0] == 'sub' else name[1]
            except (TypeError, ValueError, UnicodeError):
                pass
            try:
                cls.__module__ = self.text(module)
            except (TypeError, ValueError, UnicodeError):
                pass
        if kind == 'nomodule':
            try:
                del cls.__module__
            except (TypeError, AttributeError):
                pass
        if kind == 'own':
            def own(self):
                world.act()
                if module[0] == 'none':
                    return None
                if module[0] == 'eqraise':
                    raise AttributeError
                if module[0] == 'strraise':
                    raise U.Custom('own checker')
                return zc.Checker({'a': 'p'}) if module[0] == 's' else object()
            cls.__Security_checker__ = property(own)
        self.kind = kind
        o = cls()
        o.__dict__['a'] = object()
        return o

    def perm(self, k):
        world = self
        if k == 'public':
            return zc.CheckerPublic
        if k == 'none':
            return None

        class Perm:             # known to nobody but the table
            def __eq__(self, other):
                world.act()
                return False
            __hash__ = object.__hash__
        return Perm()

    def make_checker(self, spec):
        world = self
        kind, table, behaviour = spec
        if kind in ('real', 'comb', 'sub', 'hold'):
            d = {self.text(n): self.perm(k) for n, k in table
                 if n[0] != 'list'}
            e = {self.text(n): self.perm(k) for n, k in table
                 if n[0] != 'list'}
            self.perms += [d, e]
            if kind == 'comb':
                return zc.CombinedChecker(zc.Checker(dict(d), dict(e)),
                                          zc.Checker(d, e))
            if kind == 'sub':
                class Sub(zc.Checker):
                    def check(self, obj, name):
                        world.act()
                        return zc.Checker.check(self, obj, name)

                    def proxy(self, value):
                        world.act()
                        return zc.Checker.proxy(self, value)
                return Sub(d, e)
            return zc.Checker(d, e)
        if kind == 'raw':
            return zc.Checker.__new__(zc.Checker)
        if kind == 'notchecker':
            return [object(), 5, 'text', [], {}, int, {'a': 1}, len, ()][len(table) % 9]

        def react(what, value=None):
            world.act()
            if what == 'raise':
                raise U.Custom('checker')
            if what == 'forbid':
                raise ForbiddenAttribute('a', world)
            if what == 'unauth':
                raise Unauthorized('a')
            if what == 'base':
                raise U.Odd('x')
            if what == 'same':
                return value
            if what == 'odd':
                return 5
            return None

        class Checker:
            def check(self, obj, name):
                react(behaviour[0])
            check_getattr = check

            def check_setattr(self, obj, name):
                react(behaviour[1])

            def proxy(self, value):
                return react(behaviour[2], value)
        if kind == 'mapping':
            Checker.__setitem__ = Checker.check
            Checker.__getitem__ = Checker.proxy
        elif kind == 'half':
            Checker.__getitem__ = Checker.proxy
        elif kind == 'del':
            Checker.__delitem__ = Checker.check
        elif kind == 'lacking':
            del Checker.check, Checker.proxy
        return Checker()

    def arg(self, a):
        k = a[0]
        if k == 'p':
            return self.proxies[a[1] % len(self.proxies)]
        if k == 'o':
            return self.objs[a[1] % len(self.objs)]
        if k == 'c':
            return self.checkers[a[1] % len(self.checkers)]
        if k == 'n':
            return self.text(a[1])
        if k == 'v':
            return self.values[a[1] % len(self.values)] if self.values else None
        if k == 'l':
            return [self.arg(x) for x in a[1]]
        return a[1]

    def call(self, call):
        self.current = call
        f = CALLS[call[0]]
        return f(*[self.arg(a) for a in call[1:]])

    def install(self, behaviour):
        world = self

        class Policy:
            def __init__(self, *parts):
                self.participations = list(parts)

            def add(self, p):
                pass
            remove = add

            @property
            def checkPermission(self):
                world.act()
                if behaviour == 'noattr':
                    raise AttributeError('checkPermission')
                return self.answer

            def answer(self, permission, obj):
                world.act()
                if behaviour == 'raise':
                    raise U.Custom('policy')
                if behaviour == 'badbool':
                    return BadBool(world)
                return behaviour == 'yes'
        if behaviour == 'nointeraction':
            return
        if behaviour == 'oddlocal':
            thread_local.interaction = 5
            return
        M.setSecurityPolicy(Policy)
        M.newInteraction()


class BadBool:
    def __init__(self, world):
        self.world = world

    def __bool__(self):
        self.world.act()
        raise U.Custom('bool')


def delchecker(c, o):
    del c[o]


def setchecker(c, o, n):
    c[o] = n


def newsub(o, c):
    class Sub(Proxy):
        __slots__ = ('x',)
    return Sub(o, c)


CALLS = {
    'getattr': getattr, 'setattr': setattr, 'delattr': delattr,
    'str': str, 'repr': repr, 'hash': hash, 'bool': bool, 'len': len,
    'int': int, 'iter': iter, 'next': next, 'call': lambda p, *a: p(*a),
    'getitem': lambda p, k: p[k], 'setitem': U.setop, 'delitem': U.delop,
    'contains': lambda p, x: x in p, 'add': lambda p, q: p + q,
    'iadd': lambda p, q: U.operator.iadd(p, q), 'pow3': pow,
    'eq': lambda p, q: p == q, 'lt': lambda p, q: p < q, 'neg': lambda p: -p,
    'index': U.operator.index, 'length_hint': U.operator.length_hint,
    'list': U.limited, 'sq_item': lambda p: U.c_getitem(p, 1000),
    'sq_set': lambda p, x: U.c_setitem(p, 1000, x),
    'sq_del': lambda p: U.c_delitem(p, 1000), 'format': format, 'isinstance':
        lambda p, q: isinstance(p, type(q)),
    'check': lambda c, o, n: c.check(o, n),
    'check_getattr': lambda c, o, n: c.check_getattr(o, n),
    'check_setattr': lambda c, o, n: c.check_setattr(o, n),
    'cproxy': lambda c, o: c.proxy(o), 'csub': lambda c, o: c[o],
    'cset': setchecker, 'cdel': delchecker,
    'pid': lambda c, n: c.permission_id(n),
    'spid': lambda c, n: c.setattr_permission_id(n),
    'gperms': lambda c: (c.get_permissions, c.set_permissions),
    'cinit': lambda c, *a: zc.Checker.__init__(c, *a),
    'checker': lambda *a: zc.Checker(*a),
    'checkerkw': lambda a: zc.Checker(get_permissions=a, foo=a),
    'cbare': lambda n: zc.Checker.check(zc.Checker.__new__(zc.Checker), n, n),
    'proxy': lambda *a: Proxy(*a), 'proxykw': lambda a: Proxy(a, wrong=a),
    'proxysub': newsub, 'pinit': lambda p, *a: Proxy.__init__(p, *a),
    'pnew': lambda *a: Proxy.__new__(Proxy, *a),
    'select': zc.selectChecker, 'factory': lambda o: zc.ProxyFactory(o),
    'factory2': lambda o, c: zp.ProxyFactory(o, c),
    'getChecker': zp.getChecker, 'getObject': zp.getObject,
    'remove': zp.removeSecurityProxy, 'same': zope.proxy.sameProxiedObjects,
    'pisinstance': lambda p, q: zp.isinstance(p, type(q)),
    'define': lambda o, c: zc.defineChecker(type(o), c),
    'defineraw': lambda o, c: zc._checkers.__setitem__(type(o), c),
    'definefunc': lambda o, c: zc._checkers.__setitem__(
        type(o), lambda x: c),
    'canAccess': zc.canAccess, 'canWrite': zc.canWrite,
    'reduce': lambda p: p.__reduce_ex__(2),
    'setstate': lambda p, v: Proxy.__setstate__(p, v),
    'objget': lambda p, n: object.__getattribute__(p, n),
    'objset': lambda p, n, v: object.__setattr__(p, n, v),
    'weakref': lambda p: weakref.ref(p)(),
    'copy': lambda p: __import__('copy').copy(p),
    'class': lambda p: p.__class__, 'setclass': lambda p, q: setattr(
        p, '__class__', type(q)),
    'typeget': lambda p, q: Proxy.__dict__['__getitem__'](p, q),
    'radd': lambda p, q: Proxy.__radd__(p, q),
    'rpow': lambda p, q: Proxy.__rpow__(p, q),
    'hint': lambda p: Proxy.__length_hint__(p),
    'unbound': lambda p: Proxy.__len__(p),
    'publicrepr': lambda: repr(zc.CheckerPublic),
    'public': lambda n: getattr(zc.CheckerPublic, n),
}
ARITY = {
    'getattr': 'pn', 'setattr': 'pnx', 'delattr': 'pn', 'str': 'p', 'repr': 'p',
    'hash': 'p', 'bool': 'p', 'len': 'p', 'int': 'p', 'iter': 'p', 'next': 'p',
    'call': 'px', 'getitem': 'px', 'setitem': 'pxx', 'delitem': 'px',
    'contains': 'px', 'add': 'xp', 'iadd': 'px', 'pow3': 'xpx', 'eq': 'xp',
    'lt': 'px', 'neg': 'p', 'index': 'p', 'length_hint': 'p', 'list': 'p',
    'sq_item': 'p', 'sq_del': 'p', 'sq_set': 'px', 'format': 'p', 'isinstance': 'po',
    'check': 'con', 'check_getattr': 'con', 'check_setattr': 'con',
    'cproxy': 'co', 'csub': 'co', 'cset': 'con', 'cdel': 'co', 'pid': 'cn',
    'spid': 'cn', 'gperms': 'c', 'cinit': 'cxx', 'checker': 'xx',
    'checkerkw': 'x', 'cbare': 'n', 'proxy': 'oc', 'proxykw': 'o',
    'proxysub': 'oc', 'pinit': 'pxx', 'pnew': 'xxx', 'select': 'o',
    'factory': 'o', 'factory2': 'oc', 'getChecker': 'x', 'getObject': 'x',
    'remove': 'x', 'same': 'xx', 'pisinstance': 'xo', 'define': 'oc',
    'defineraw': 'oc', 'definefunc': 'oc', 'canAccess': 'pn', 'canWrite': 'pn',
    'reduce': 'p', 'setstate': 'px', 'objget': 'pn', 'objset': 'pnx',
    'weakref': 'p', 'copy': 'p', 'class': 'p', 'setclass': 'po',
    'typeget': 'xx', 'radd': 'xx', 'rpow': 'xx', 'hint': 'x', 'unbound': 'x',
    'publicrepr': '', 'public': 'n',
}
assert set(CALLS) == set(ARITY)
strings = st.sampled_from(['a', 'b', '', '_', '__', '__iter__', '__len__', 'a\0b',
                           '\udc80', 'é', '\U0001f600', '__\udc80', '__call__',
                           '__getitem__', '__str__', '__repr__', '__add__',
                           '__Security_checker__', '__next__', '__class__'])
strings = st.sampled_from(['a', 'a', 'b', '__len__', '__call__']) | strings
texts = st.tuples(st.sampled_from(
    ['s', 's', 's', 's', 'sub', 'int', 'none', 'bytes', 'list', 'long', 'eqraise',
     'eqact', 'hashraise', 'hashact', 'strraise', 'strodd', 'eqact']),
    strings).map(list)
small = st.integers(0, 2)
PARTS = {
    'p': st.tuples(st.just('p'), small).map(list),
    'o': st.tuples(st.sampled_from(['o', 'o', 'o', 'v', 'p']), small).map(list),
    'c': st.tuples(st.just('c'), small).map(list),
    'n': st.tuples(st.just('n'), texts).map(list),
}
PARTS['x'] = st.one_of(
    PARTS['p'], PARTS['o'], PARTS['c'], PARTS['n'],
    st.tuples(st.just('v'), small).map(list),
    st.tuples(st.just('j'), st.sampled_from(
        [0, 1, -1, 2 ** 70, None, 1.5, [], {}, 'x', True])).map(list),
    st.tuples(st.just('l'), st.lists(PARTS['p'], max_size=2)).map(list))


GROUPS = [sorted(ARITY)] * 6 + [
    ['str', 'repr', 'format'],
    ['check', 'check_getattr', 'check_setattr', 'cproxy', 'csub', 'cset', 'cdel',
     'pid', 'spid', 'gperms', 'cinit', 'checker', 'checkerkw', 'cbare'],
    ['proxy', 'proxykw', 'proxysub', 'pinit', 'pnew', 'select', 'factory',
     'factory2', 'getChecker', 'getObject', 'remove', 'same', 'pisinstance'],
    ['define', 'defineraw', 'definefunc', 'select', 'factory', 'cproxy'],
    ['sq_item', 'sq_set', 'sq_del', 'getitem', 'setitem', 'delitem', 'contains',
     'len', 'iter', 'next', 'list'],
    ['add', 'radd', 'iadd', 'pow3', 'rpow', 'neg', 'eq', 'lt', 'hash', 'bool',
     'int', 'index', 'call', 'length_hint'],
    ['getattr', 'setattr', 'delattr', 'canAccess', 'canWrite', 'objget',
     'objset', 'class', 'reduce', 'setstate']]
assert all(n in ARITY for g in GROUPS for n in g)


@st.composite
def hostile(draw):
    special = st.sampled_from(
        ['__iter__', '__len__', '__call__', '__getitem__', '__add__', '__eq__',
         '__hash__', '__bool__', '__str__', '__repr__', '__index__', '__int__',
         '__next__', '__length_hint__', '__getattr__', '__setattr__',
         '__delattr__', '__radd__', '__pow__', '__contains__', '__iadd__',
         '__setitem__', '__delitem__', '__lt__', '__neg__', '__format__'])
    classes = draw(st.lists(st.tuples(
        texts, texts, st.sampled_from(['plain', 'plain', 'metaraise', 'metaodd',
                                       'modraise', 'modless', 'nomodule', 'classodd', 'own']),
        st.lists(st.tuples(special, st.sampled_from(
            ['raise', 'self', 'odd', 'none', 'ni', 'new'])).map(list), max_size=4)
        ).map(list), min_size=1, max_size=3))
    behaviours = st.sampled_from(['', '', '', 'raise', 'forbid', 'unauth', 'base',
                                  'same', 'same', 'odd'])
    checkers = draw(st.lists(st.tuples(
        st.sampled_from(['real', 'real', 'hold', 'comb', 'sub', 'raw', 'notchecker',
                         'py', 'py', 'mapping', 'half', 'del', 'lacking']),
        st.lists(st.tuples(texts, st.sampled_from(
            ['public', 'none', 'perm', 'perm', 'perm'])).map(list), max_size=6),
        st.tuples(behaviours, behaviours, behaviours).map(list)).map(list),
        min_size=1, max_size=3))
    names = draw(st.lists(st.sampled_from(draw(st.sampled_from(GROUPS))),
                          min_size=1, max_size=8))
    calls = [[n] + [draw(PARTS[k]) for k in ARITY[n]] for n in names]
    actions = draw(st.lists(st.sampled_from(
        ['clear', 'fill', 'reinit', 'forget', 'drop', 'dropcheckers', 'gc', 'end',
         'unregister', 'registry', 'recurse', 'deep', 'junk', 'raise',
         'clearlocal']), max_size=4))
    return {'classes': classes, 'checkers': checkers, 'calls': calls,
            'actions': actions, 'policy': draw(st.sampled_from(
                ['yes', 'yes', 'no', 'no', 'raise', 'badbool', 'noattr',
                 'nointeraction', 'oddlocal']))}


def run_hostile(case, ctx):
    settle()
    U.reset()
    h = Hostile(case)
    h.install(case['policy'])
    for call in case['calls']:
        h.steps = 0
        h.depth = h.ncalls = 0
        h.armed = True
        try:
            v = h.call(call)
            h.values.append(v)
            ctx.label('fine')
        except BaseException as e:
            require(type(e) is not SystemError, '%s: SystemError %s', call, e)
            require(type(e) is not KeyboardInterrupt, 'interrupted')
            ctx.label('exc', type(e).__name__)
            if type(e) is MemoryError:
                raise
        h.armed = False
        if h.steps:
            ctx.label('acted in the middle')
            ctx.nontrivial()
        ctx.label(call[0])
    U.reset()
    if len(case['actions']) > 1:
        del h, call
        v = e = None
        gc.collect()


# -- 3. nothing is left over --------------------------------------------------

def blocks(run, n):
    # the collection of the previous round's garbage is not this one's
    gc.collect()
    a = sys.getallocatedblocks()
    for _ in range(n):
        run()
    gc.collect()
    return sys.getallocatedblocks() - a


def steady(run, what):
    """Repeating run() must not grow memory."""
    gc.disable()
    try:
        blocks(run, 3)
        n = 6
        if blocks(run, n) < n * .6:
            return
        # confirm, with growing numbers, that it grows with each repetition
        for n in (8, 16, 32, 64, 128, 256, 400):
            got = blocks(run, n)
            if got < n * .8:
                return
        require(False, '%s: %d repetitions leave %d memory blocks', what, n, got)
    finally:
        gc.enable()


def run_steady(case, ctx):
    settle()
    def once():
        U.reset()
        w = U.World(case)
        w.install_policy()
        for op in case['ops']:
            kind, value = w.run(op)
            w.results.append(value if kind == 'ok' else None)
        if w.log:
            ctx.nontrivial()
    steady(once, case['ops'])
    U.reset()


def run_steady_hostile(case, ctx):
    settle()
    def once():
        U.reset()
        h = Hostile(case)
        h.install(case['policy'])
        for call in case['calls']:
            h.steps = h.depth = h.ncalls = 0
            h.armed = True
            try:
                h.values.append(h.call(call))
                ctx.nontrivial()
            except BaseException as e:
                require(type(e) is not KeyboardInterrupt, 'interrupted')
            h.armed = False
    steady(once, case['calls'])
    U.reset()


GLOBALS = [Proxy, zc.Checker, zc.CheckerPublic, ForbiddenAttribute, Unauthorized,
           zc._checkers, zc._available_by_default, thread_local, zc._defaultChecker,
           zc.NoProxy, zc.selectChecker, zc.CP_HACK_XXX, U.CHECKED]
GLOBALS += [s for s in zc._available_by_default]


def counts(objs):
    return [sys.getrefcount(o) for o in objs]


def run_counts(case, ctx):
    """Reference counts of everything involved, over repetitions."""
    settle()
    U.reset()
    w = U.World(case)
    w.install_policy()
    op = case['ops'][0]
    fixed = [w.value(a) if isinstance(a, list) else a for a in op[1:]]
    f = U.OPS[op[0]]
    watched = w.objs + w.checkers + w.proxies + fixed + GLOBALS
    for c in w.checkers:
        if isinstance(c, zc.Checker):
            watched += [c.get_permissions, c.set_permissions]
            watched += list(c.get_permissions.values())
    watched += [type(o) for o in w.objs]
    kept = len(w.keep)

    def once():
        try:
            f(*fixed)
        except BaseException as e:
            e.__traceback__ = None
            e.__context__ = None
        w.log.clear()
        w.nexts.clear()
        del w.keep[kept:]
        w.excs.clear()

    def clean():
        for o in w.objs:
            if id(o) in w.rec_ids:
                object.__getattribute__(o, '__dict__').clear()
            elif type(o) in (list, dict, set):
                o.clear()
        gc.collect()

    def growth(n):
        before = counts(watched) + [sys.getallocatedblocks()]
        for _ in range(n):
            once()
            clean()
        return [b - a for a, b in zip(
            before, counts(watched) + [max(sys.getallocatedblocks(), before[-1])])]
    if op[0] in ('imul', 'mul', 'repeat', 'ipow', 'pow'):
        n0 = 4
    else:
        n0 = 12
    gc.disable()
    try:
        growth(2)
        d = growth(n0)
        ctx.nontrivial()
        # (free lists of the interpreter fill up at times, up to some size:
        # memory blocks need a longer look)
        for r in (16, 32, 64, 128, 256):
            if all(abs(x) < n0 for x in d[:-1]) and d[-1] < n0 * .6:
                return
            d = growth(r)
            n0 = r
        for x, o in zip(d, watched):
            require(abs(x) < n0, '%s: %d repetitions change the reference count '
                    'of %s by %d', op, n0, type(o).__name__, x)
        require(d[-1] < n0 * .8, '%s: %d repetitions leave %d memory blocks',
                op, n0, d[-1])
    finally:
        gc.enable()
        U.reset()


class Chosen:
    pass


def run_functions(case, ctx):
    """Reference counts when checkers are found by functions."""
    settle()
    U.reset()
    chain, how = case
    obj, final = Chosen(), zc.Checker({'a': zc.CheckerPublic})
    error = U.Custom('function')

    def fail(o):
        raise error
    ends = {'none': lambda o: None, 'noproxy': lambda o: zc.NoProxy,
            'checker': lambda o: final, 'fail': fail, 'self': lambda o: o,
            'new': lambda o: zc.Checker({})}
    f = ends[chain[0]]
    made = [f]
    for _ in chain[1:]:
        f = (lambda g: lambda o: g)(f)
        made.append(f)
    zc.defineChecker(Chosen, f)
    calls = {'select': zc.selectChecker, 'factory': zc.ProxyFactory,
             'proxy': final.proxy, 'item': lambda o: zc.Checker({})[o],
             'read': lambda o: zc.Proxy([o], zc.NamesChecker(['__getitem__']))[0]}
    watched = [obj, final, error, Chosen] + made + GLOBALS

    def growth(n):
        before = counts(watched)
        for _ in range(n):
            try:
                calls[how](obj)
            except (U.Custom, TypeError) as e:
                e.__traceback__ = e.__context__ = None
        gc.collect()
        return [b - a for a, b in zip(before, counts(watched))]
    try:
        growth(2)
        for n in (12, 40):
            d = growth(n)
            if all(abs(x) < n for x in d):
                ctx.nontrivial()
                return
        for x, o in zip(d, watched):
            require(abs(x) < n, '%s of %s: %d repetitions change the reference '
                    'count of %r by %d', how, chain, n, type(o).__name__, x)
    finally:
        U.reset()


# -- 4. cycles ----------------------------------------------------------------

class Node:
    pass


def run_cycles(case, ctx):
    """Garbage with proxies and checkers in cycles goes away."""
    settle()
    U.reset()
    gc.collect()
    before = len([o for o in gc.get_objects()
                  if issubclass(type(o), (Proxy, zc.Checker))])
    alive = []
    finals = []

    def build():
        nodes = []
        for i, (kind, a, b) in enumerate(case['nodes']):
            def ref(k):
                return nodes[k % len(nodes)] if nodes else None
            if kind == 'node':
                n = Node()
                n.a, n.b = ref(a), ref(b)
                alive.append(weakref.ref(n))
            elif kind == 'del':
                class Del(Node):
                    def __del__(self):
                        # use what is being thrown away
                        for x in (self.a, self.b):
                            for f in (str, lambda x: x.a, len, hash):
                                try:
                                    finals.append(f(x))
                                except Exception:
                                    pass
                        del finals[:]
                n = Del()
                n.a, n.b = ref(a), ref(b)
                alive.append(weakref.ref(n))
            elif kind == 'list':
                n = [ref(a), ref(b)]
            elif kind == 'dict':
                n = {'a': ref(a), 'b': ref(b)}
            elif kind == 'proxy':
                c = ref(b)
                n = Proxy(ref(a), c if c is not None else zc.Checker({}))
            elif kind == 'psub':
                class Sub(Proxy):
                    pass
                n = Sub(ref(a), zc.Checker({}))
            elif kind == 'checker':
                n = zc.Checker({'a': ref(a)}, {'b': ref(b)})
            elif kind == 'subchecker':
                class C(zc.Checker):
                    pass
                n = C({'a': ref(a)}, {})
                n.extra = ref(b)
                alive.append(weakref.ref(n))
            elif kind == 'combined':
                n = zc.CombinedChecker(zc.Checker({'a': ref(a)}),
                                       zc.Checker({'b': ref(b)}))
            nodes.append(n)
        ncyc = 0
        for i, j, key in case['edges']:
            x, y = nodes[i % len(nodes)], nodes[j % len(nodes)]
            t = type(x)
            if issubclass(t, Node):
                setattr(x, key, y)
            elif t is list:
                x.append(y)
            elif t is dict:
                x[key] = y
            elif issubclass(t, zc.Checker):
                x.get_permissions[key] = y
                if key == 'c':
                    x.set_permissions[key] = y
            else:
                continue
            ncyc += 1
        return ncyc

    n = build()
    if n and len(case['nodes']) > 2:
        ctx.nontrivial()
    gc.collect()
    gc.collect()
    left = [r for r in alive if r() is not None]
    require(not left, '%d objects survive the garbage collection', len(left))
    after = len([o for o in gc.get_objects()
                 if issubclass(type(o), (Proxy, zc.Checker))])
    require(after <= before, '%d proxies or checkers are left over',
            after - before)


@st.composite
def graphs(draw):
    k = st.integers(0, 9)
    return {
        'nodes': draw(st.lists(st.tuples(st.sampled_from(
            ['node', 'node', 'del', 'list', 'dict', 'proxy', 'proxy',
             'psub', 'checker', 'checker', 'subchecker', 'combined']), k, k
            ).map(list), min_size=1, max_size=10)),
        'edges': draw(st.lists(st.tuples(
            k, k, st.sampled_from(['a', 'b', 'c'])).map(list), max_size=12))}


@st.composite
def single(draw):
    case = draw(st.one_of(
        gen.world(max_ops=1, default='ok', chain=False, builtin=False),
        gen.world(max_ops=1, default='ok', chain=False, builtin=False,
                  ops=('sq_item', 'sq_ass_item', 'sq_del_item', 'reversed',
                       'getitem', 'setitem', 'delitem', 'getattr', 'setattr',
                       'call', 'callkw', 'iter', 'list', 'pow3', 'iadd', 'add')),
        gen.world(max_ops=1), gen.matched()))
    case['ops'] = case['ops'][:1]
    return case


def usual(name):
    core = name.strip('_')
    if core in ('len', 'hash', 'int', 'index', 'length_hint'):
        return ['i', 7]
    return {'str': ['s', 'text'], 'repr': ['s', 'text'], 'bool': ['b', True],
            'float': ['f', 2.5], 'contains': ['b', True],
            'iter': ['iter', [['o'], ['i', 300]]]}.get(core, ['o'])


def each_operation():
    """Every operation once where it works and once where it is denied."""
    me, you = ['prox', 0], ['prox', 1]
    for name in gen.ALLOPS:
        sp = {n: usual(n) for n in gen.touched_by(name)}
        if name in gen.ARITY1:
            forms = [[name, me]]
        elif name in gen.ARITY2:
            forms = [[name, me, ['i', 3]], [name, me, you]]
            if name in gen.BIN:
                forms.append([name, ['n'], me])
        else:
            forms = {
                'setitem': [[name, me, ['i', 300], ['o']]],
                'getattr': [[name, me, 'a'], [name, me, '_p'], [name, me, '__len__']],
                'getattrd': [[name, me, 'a'], [name, me, 'nosuch']],
                'hasattr': [[name, me, 'a'], [name, me, 'nosuch']],
                'setattr': [[name, me, 'a', ['o']]], 'delattr': [[name, me, 'a']],
                'call': [[name, me], [name, me, ['i', 300], ['o']]],
                'callkw': [[name, me, ['o'], ['o']]],
                'pow3': [[name, me, ['i', 2], ['i', 5]]],
                'sq_item': [[name, me, 300]],
                'sq_ass_item': [[name, me, 300, ['o']]],
                'sq_del_item': [[name, me, 300]]}[name]
        for op in forms:
            for kind, default in (('real', 'ok'), ('real', 'Unauthorized'),
                                  ('rec', 'ok'), ('map', 'ok'),
                                  ('rec', 'ForbiddenAttribute')):
                yield {'targets': [['rec', sp, {'a': ['i', 7]}],
                                   ['rec', sp, {}]],
                       'checkers': [[kind, {}, {}, default, 'wrap']],
                       'ops': [op]}


TESTS = [
    Test('hostile', hostile(), run_hostile, quick=6000, thorough=150000,
         configs=('asan', 'c'),
         rule='generated code ran in the middle of an operation',
         corpus=[{
             'actions': ['forget', 'reinit', 'junk'],
             'calls': [[call] + args for call, args in (
                 ('check', [['c', 0], ['o', 0], ['n', ['eqact', 'a']]]),
                 ('check_setattr', [['c', 0], ['o', 0], ['n', ['eqact', 'a']]]),
                 ('pid', [['c', 0], ['n', ['eqact', 'a']]]),
                 ('spid', [['c', 0], ['n', ['eqact', 'a']]])) if call == which],
             'checkers': [['real', [[['s', 'a'], 'perm']], ['', '', '']]],
             'classes': [[['s', 'C'], ['s', 'm'], 'plain', []]],
             'policy': policy}
             for which in ('check', 'check_setattr', 'pid', 'spid')
             for policy in ('yes', 'no')]),
    Test('program', gen.world(), run_program, quick=3000, thorough=80000,
         configs=('asan',), rule='some question was asked or object touched'),
    Test('matched', gen.matched(), run_program, quick=3000, thorough=80000,
         configs=('asan',), rule='the same'),
    Test('steady', st.one_of(gen.world(max_ops=4), gen.matched()), run_steady,
         quick=400, thorough=8000, configs=('c',), rule='the same'),
    Test('steady hostile', hostile(), run_steady_hostile, quick=800,
         thorough=8000, configs=('c',), rule='some call succeeded'),
    Test('counts', single(), run_counts, quick=1200, thorough=20000,
         configs=('c',), rule='counted', corpus=each_operation()),
    Test('functions', st.tuples(
        st.lists(st.sampled_from(['none', 'noproxy', 'checker', 'fail', 'self', 'new']),
                 min_size=1, max_size=3).map(lambda x: [x[0]] + ['f'] * (len(x) - 1)),
        st.sampled_from(['select', 'factory', 'proxy', 'item', 'read'])).map(list),
         run_functions, quick=200, thorough=1000, configs=('c',), rule='counted'),
    Test('cycles', graphs(), run_cycles, quick=600, thorough=20000,
         configs=('c', 'asan'), rule='at least three nodes and one more edge'),
]

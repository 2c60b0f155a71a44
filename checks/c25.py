"""C25: the public marker keeps its identity everywhere."""
META = {
    'configs': ['c', 'pure', 'watch', 'purewatch'],
    'technique': 'property-based testing: generated structures with the marker '
                 'taken through chains of copying, pickling and protecting '
                 '(identity invariant), and generated declarations with the '
                 'marker and look-alikes (metamorphic: only the marker grants '
                 'without a question)',
    'note': 'Exploration: structures of up to 12 parts, chains of up to 6 '
            'steps; 20 kinds of permission through 16 ways to declare.',
    'assumptions': ['permissions given to declaration functions are strings, '
                    'the marker or objects that do not claim to be equal to '
                    'everything'],
}
import copy                                            # noqa: E402
import io                                              # noqa: E402
import pickle                                          # noqa: E402
import types                                           # noqa: E402

from hypothesis import strategies as st                # noqa: E402

import zope.component                                  # noqa: E402
import zope.interface                                  # noqa: E402
from zope.location import LocationProxy                # noqa: E402
from zope.proxy import ProxyBase                       # noqa: E402
from zope.security import canAccess, canWrite, checkPermission  # noqa: E402
from zope.security import adapter                      # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security import management                   # noqa: E402
from zope.security import metaconfigure                # noqa: E402
from zope.security import permission as zpermission    # noqa: E402
from zope.security import protectclass                 # noqa: E402
from zope.security import simplepolicies               # noqa: E402
from zope.security.checker import CheckerPublic        # noqa: E402
from zope.security.interfaces import ForbiddenAttribute, Unauthorized  # noqa: E402
from zope.security.proxy import Proxy, ProxyFactory, removeSecurityProxy  # noqa: E402
from zope.security._definitions import thread_local    # noqa: E402

from harness import zcml                               # noqa: E402
from harness.core import Test, require                 # noqa: E402

M = CheckerPublic
BARE = zc.CP_HACK_XXX


class Box:
    """Picklable; lets its marker be read in several ways."""

    def __init__(self, value=None, other=None):
        self.value = value
        self.other = other

    def get(self, *args, **kw):
        return self.value

    @property
    def prop(self):
        return self.value

    def __getitem__(self, k):
        return self.value

    def __call__(self, *args):
        return self.value

    def __iter__(self):
        yield self.value

    def __add__(self, o):
        return self.value
    __radd__ = __iadd__ = __or__ = __neg__ = lambda self, *a: self.value

    def __eq__(self, o):
        return self.value


ALL = zc.NamesChecker([
    'value', 'other', 'get', 'prop', '__getitem__', '__call__', '__iter__',
    '__add__', '__radd__', '__iadd__', '__or__', '__neg__', '__next__'])
WAYS = {
    'value': lambda x: x.value, 'get': lambda x: x.get(), 'prop': lambda x: x.prop,
    'item': lambda x: x[0], 'call': lambda x: x(1), 'iter': lambda x: next(iter(x)),
    'add': lambda x: x + 1, 'radd': lambda x: 1 + x, 'or': lambda x: x | 1,
    'neg': lambda x: -x, 'eq': lambda x: x == 5, 'list': lambda x: [y for y in x][0],
    'iadd': lambda x: iadd(x), 'getattr': lambda x: getattr(x, 'value'),
}


def iadd(x):
    x += 1
    return x


# -- identity ---------------------------------------------------------------
def build(s):
    k = s[0]
    if k == 'M':
        return M
    if k == 'i':
        return s[1]
    if k == 'l':
        return [build(x) for x in s[1]]
    if k == 't':
        return tuple(build(x) for x in s[1])
    if k == 'd':
        return {a: build(b) for a, b in s[1]}
    if k == 'kd':
        return {M: build(s[1])}
    if k == 'set':
        return {M, 1}
    if k == 'fs':
        return frozenset([M])
    if k == 'box':
        return Box(build(s[1]), build(s[1]))
    raise KeyError(k)


def visit(x, s, where, how, count):
    """Every M of the structure s is the marker in x."""
    k = s[0]
    if k == 'M':
        require(x is M, '%s: not the marker: %s %r', where, type(x).__name__, x)
        count.append(1)
    elif k in ('l', 't'):
        if how % 2:
            for n, (y, t) in enumerate(zip(x, s[1])):
                visit(y, t, where, how, count)
        else:
            for n, t in enumerate(s[1]):
                visit(x[n], t, where, how, count)
    elif k == 'd':
        got = (dict(x.items()) if how % 3 == 1 else None)
        vals = list(x.values()) if how % 3 == 2 else None
        seen = {}
        for n, (a, t) in enumerate(s[1]):
            seen[a] = t
        for n, (a, t) in enumerate(seen.items()):
            y = got[a] if got else vals[n] if vals else x.get(a)
            visit(y, t, where, how, count)
    elif k == 'kd':
        keys = list(x) if how % 2 else [a for a, _ in x.items()]
        require(len(keys) == 1 and keys[0] is M, '%s: key of a dict: %r', where, keys)
        require(M in x, '%s: the marker is no key', where)
        count.append(1)
        visit(x[M], s[1], where, how, count)
    elif k in ('set', 'fs'):
        require(any(y is M for y in x), '%s: not in the set', where)
        require(M in x, '%s: the marker is not in the set', where)
        count.append(1)
    elif k == 'box':
        ways = sorted(WAYS)
        visit(WAYS[ways[how % len(ways)]](x), s[1], where + '.' + ways[how % len(ways)],
              how, count)
        visit(x.other, s[1], where, how, count)


def pypickle(x, proto):
    f = io.BytesIO()
    pickle._Pickler(f, proto).dump(x)
    return pickle._Unpickler(io.BytesIO(f.getvalue())).load()


def run_identity(case, ctx):
    zcml.reset()
    s = case['structure']
    x = build(s)
    protected = False
    count = []
    zc.defineChecker(Box, ALL)
    for step, (how, n) in enumerate(case['steps']):
        where = 'step %d %s' % (step, how)
        if how in ('pickle', 'pypickle', 'copy', 'deepcopy', 'memo'):
            if protected and s[0] != 'M':
                continue
            if how == 'pickle':
                x = pickle.loads(pickle.dumps(x, n % 6))
            elif how == 'pypickle':
                x = pypickle(x, n % 6)
            elif how == 'copy':
                x = copy.copy(x)
            elif how == 'deepcopy':
                x = copy.deepcopy(x)
            else:
                a, b = pickle.loads(pickle.dumps((M, [M]), n % 6))
                require(a is M and b[0] is M, '%s: twice in a pickle', where)
        else:
            if how == 'factory':
                x = ProxyFactory(x)
            elif how == 'checker':
                x = zc.Checker({}).proxy(x)
            elif how == 'combined':
                x = zc.CombinedChecker(zc.Checker({}), ALL).proxy(x)
            elif how == 'zc factory':
                x = zc.ProxyFactory(x)
            elif how == 'given':
                if s[0] == 'box' and not protected:
                    x = ProxyFactory(x, ALL)
                elif s[0] == 'M':
                    e = None
                    try:
                        y = ProxyFactory(x, ALL)
                    except TypeError as exc:
                        e = exc
                    require(e is not None, '%s: the marker got another checker: %r',
                            where, e if e is not None else y)
                else:
                    continue
            elif how == 'box':
                x = ProxyFactory(Box(x)).value
            elif how == 'list':
                x = ProxyFactory([1, x])[1]
            elif how == 'adapt':
                if protected:
                    continue
                made = []
                f = adapter.TrustedAdapterFactory(made.append)
                try:
                    f(ProxyFactory(x))
                except AttributeError:
                    pass
                if s[0] == 'M':
                    continue
                require(made and made[0] is x, '%s: adapted something else', where)
            protected = type(x) is Proxy
        ctx.label(how)
        visit(x, s, where, n, count)
    # what everything rests on
    require(zc.selectChecker(M) is None, 'the marker has a checker of its own')
    require(removeSecurityProxy(M) is BARE, 'the marker guards something else')
    ctx.nontrivial(len(count) >= 2)


# -- granting ---------------------------------------------------------------
class SubGlobal(zc.Global):
    pass


class Like:
    __name__ = 'CheckerPublic'
    __module__ = 'zope.security.checker'

    def __reduce__(self):
        return 'CheckerPublic'

    def __repr__(self):
        return repr(M)


class StrLike:
    id = title = __name__ = name = 'zope.Public'

    def __str__(self):
        return 'zope.Public'
    __repr__ = __fspath__ = __str__

    def __len__(self):
        return 11

    def lower(self):
        return 'zope.public'

    def strip(self, *args):
        return 'zope.Public'

    def startswith(self, *args):
        return True


class Falsy(str):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


PERM = {
    'strlike': StrLike(), 'empty': '', 'zero': 0, 'false': False, 'falsy': Falsy('p.Some'),
    'permission': zpermission.Permission('zope.Public', 'Public'), 'list': [],
    'upper': 'ZOPE.PUBLIC', 'newline': 'zope.Public\n', 'prefix': 'zope.Publi',
    'long': 'zope.Public.zope.Public', 'longer': 'my.zope.Public',
    'M': M, 'pickled': M, 'read back': M, 'copied': M,
    'str': 'zope.Public', 'sub': type('S', (str,), {})('zope.Public'),
    'bare': BARE, 'global': zc.Global('CheckerPublic', 'zope.security.checker'),
    'subglobal': SubGlobal('CheckerPublic', 'zope.security.checker'),
    'reproxied': Proxy(BARE, zc.Checker({'__reduce__': M, '__module__': M})),
    'proxied like': Proxy(zc.Global('CheckerPublic', 'zope.security.checker'),
                          zc.Checker({})),
    'like': Like(), 'located': LocationProxy(M), 'based': ProxyBase(M),
    'near': 'zope.public', 'space': ' zope.Public', 'name': 'CheckerPublic',
    'other': 'zope.Publicity', 'bytes': b'zope.Public', 'tuple': ('zope.Public',),
    'true': True, 'checker': ALL, 'class': zc.Global, 'module': zc,
    'noproxy': zc.NoProxy,
}
MARKERS = ('M', 'pickled', 'read back', 'copied')
IDS = ('str', 'sub')       # the id, where ids are meant


class Target:
    a = 1
    b = 2

    def __len__(self):
        return 3


class ITarget(zope.interface.Interface):
    a = zope.interface.Attribute('a')

    def __len__():
        pass


def fresh():
    return type('Target', (Target,), {})


def perm(k):
    if k == 'pickled':
        return pickle.loads(pickle.dumps(M, 2))
    if k == 'copied':
        return copy.deepcopy([M])[0]
    if k == 'read back':
        return zc.NamesChecker(['x']).permission_id('x')
    return PERM[k]


def by_directive(p, setting):
    """Class directive; -> checker of a new class, or None if no such id"""
    if not isinstance(p, str) or '.' not in p:
        return None
    C = zcml.fake_module(Target=fresh()).Target
    C.__module__ = zcml.MODNAME
    define = '' if p == 'zope.Public' else '<permission%s />' % zcml.attrs(
        id=p.strip(), title='t')
    zcml.run(define + '<class%s><require%s /></class>' % (
        zcml.attrs(**{'class': zcml.MODNAME + '.Target'}),
        zcml.attrs(permission=p.strip(), **{
            'set_attributes' if setting else 'attributes': 'a __len__'})))
    return zc.getCheckerForInstancesOf(C)


def by_protect(p, setting):
    C = fresh()
    f = protectclass.protectSetAttribute if setting else protectclass.protectName
    f(C, 'a', p)
    f(C, '__len__', p)
    return zc.getCheckerForInstancesOf(C)


def by_module(p, setting):
    m = types.ModuleType('verif_c25')
    metaconfigure.protectModule(m, 'a', p)
    metaconfigure.protectModule(m, '__len__', p)
    return zc.moduleChecker(m)


def by_like(p, setting):
    C, D = fresh(), fresh()
    f = protectclass.protectSetAttribute if setting else protectclass.protectName
    f(D, 'a', p)
    f(D, '__len__', p)
    protectclass.protectLikeUnto(C, D)
    return zc.getCheckerForInstancesOf(C)


def by_define(p, setting):
    C = fresh()
    zc.defineChecker(C, by_dict(p, setting))
    return zc.getCheckerForInstancesOf(C)


def by_dict(p, setting):
    t = {'a': p, '__len__': p}
    return zc.Checker({}, t) if setting else zc.Checker(t)


# way -> (takes ids, can declare setting)
DECLARE = {
    'Checker': (by_dict, False, True),
    'defineChecker': (by_define, False, True),
    'protect': (by_protect, True, True),
    'like': (by_like, True, True),
    'module': (by_module, True, False),
    'directive': (by_directive, True, True),
    'NamesChecker': (lambda p, s: zc.NamesChecker(['a', '__len__'], p), False, False),
    'NamesChecker kw': (lambda p, s: zc.NamesChecker([], a=p, __len__=p), False, False),
    'InterfaceChecker': (lambda p, s: zc.InterfaceChecker(ITarget, p), False, False),
    'InterfaceChecker kw': (lambda p, s: zc.InterfaceChecker(
        zope.interface.Interface, a=p, __len__=p), False, False),
    'MultiChecker': (lambda p, s: zc.MultiChecker(
        [(ITarget, p)]), False, False),
    'MultiChecker names': (lambda p, s: zc.MultiChecker(
        [(['a', '__len__'], p)]), False, False),
    'MultiChecker dict': (lambda p, s: zc.MultiChecker(
        [{'a': p, '__len__': p}]), False, False),
    'combined': (lambda p, s: zc.CombinedChecker(zc.Checker({}), by_dict(p, s)),
                 False, True),
    'combined first': (lambda p, s: zc.CombinedChecker(by_dict(p, s), zc.Checker({})),
                       False, True),
}


class Recorder:
    def __init__(self, *participations):
        self.participations = []
        self.asked = []

    def checkPermission(self, permission, obj):
        self.asked.append((permission, obj))
        return False


def run_grants(case, ctx):
    zcml.reset()
    p = perm(case['perm'])
    f, ids, can_set = DECLARE[case['declare']]
    setting = case['set'] and can_set
    checker = f(p, setting)
    if checker is None:
        return
    public = case['perm'] in MARKERS or ids and case['perm'] in IDS
    if case['declare'] == 'directive' and case['perm'] in ('space', 'newline'):
        p = 'zope.Public'       # the schema strips spaces
        public = True
    asks = []
    if case['inter']:
        policy = Recorder()
        management.setSecurityPolicy(lambda *a: policy)
        thread_local.__dict__.clear()
        management.newInteraction()
        asks = policy.asked
    o = Target()
    q = Proxy(o, checker)
    if setting:
        ways = {
            'check_setattr': lambda: checker.check_setattr(o, 'a'),
            'setattr': lambda: setattr(q, 'a', 5),
            'canWrite': lambda: canWrite(q, 'a'),
            'read back': lambda: checker.setattr_permission_id('a'),
        }
    else:
        ways = {
            'check': lambda: checker.check(o, 'a'),
            'check_getattr': lambda: checker.check_getattr(o, 'a'),
            'getattr': lambda: q.a, 'len': lambda: len(q),
            'canAccess': lambda: canAccess(q, 'a'),
            'read back': lambda: checker.permission_id('a'),
        }
    way = sorted(ways)[case['way'] % len(ways)]
    what = '%s as %s, %s' % (case['perm'], case['declare'], way)
    try:
        e, r = None, ways[way]()
    except Exception as exc:
        e, r = exc, None
    ctx.label(way, case['declare'], case['perm'])
    if way == 'read back':
        if case['declare'].startswith('combined'):
            return
        if public:
            require(r is M, '%s: %r', what, r)
        else:
            require(r is not M, '%s: became the marker', what)
            require(r is p or case['declare'] == 'directive' and r == p.strip(),
                    '%s: %r', what, r)
        ctx.nontrivial()
        return
    if public:
        require(e is None, '%s: %r', what, e)
        require(not asks, '%s: asked %d questions', what, len(asks))
        if way in ('canAccess', 'canWrite'):
            require(r is True, '%s: %r', what, r)
    else:
        if not case['inter']:
            require(e is not None, '%s: granted without interaction', what)
        elif way in ('canAccess', 'canWrite'):
            require(e is None and r is False, '%s: %r %r', what, e, r)
        else:
            require(isinstance(e, Unauthorized), '%s: granted (%r)', what, e)
        if case['inter']:
            require(len(asks) >= 1, '%s: not asked', what)
            for x, obj in asks:
                require(x is p or case['declare'] == 'directive' and x == p.strip(),
                        '%s: asked for %r', what, x)
        # and nothing was changed
        require(o.__dict__ == {}, '%s: had an effect', what)
    ctx.nontrivial()


def run_asking(case, ctx):
    """Functions that are given a permission themselves."""
    zcml.reset()
    p = perm(case['perm'])
    public = case['perm'] in MARKERS
    policy = Recorder()
    if case['inter']:
        management.setSecurityPolicy(lambda *a: policy)
        thread_local.__dict__.clear()
        management.newInteraction()
    how = case['how']
    what = '%s of %s' % (how, case['perm'])
    ctx.label(how)
    if how == 'checkPermission':
        try:
            r = checkPermission(p, Target())
        except Exception as e:
            r = e
        if public:
            require(r is True, '%s: %r', what, r)
            require(not policy.asked, '%s: asked', what)
        elif case['inter']:
            require(r is False, '%s: %r', what, r)
            require([x for x, _ in policy.asked] == [p]
                    and policy.asked[0][0] is p, '%s: asked %d', what,
                    len(policy.asked))
        else:
            require(type(r).__name__ == 'NoInteraction', '%s: %r', what, r)
    elif how == 'given interaction':
        r = checkPermission(p, Target(), policy)
        require(r is public and bool(policy.asked) is not public, '%s: %r', what, r)
    elif how == 'paranoid':
        class Part:
            principal = None
            interaction = None
        i = simplepolicies.ParanoidSecurityPolicy(Part())
        r = i.checkPermission(p, Target())
        require(r is public, '%s: %r', what, r)
    else:
        try:
            zpermission.checkPermission(None, p)
            ok = True
        except ValueError:
            ok = False
        except TypeError:       # not even an id
            ok = None
        require((ok is True) is public, '%s: %r', what, ok)
    ctx.nontrivial()


leaf = st.one_of(st.just(['M']), st.just(['M']), st.integers(0, 3).map(
    lambda n: ['i', n]), st.just(['set']), st.just(['fs']))
structure = st.one_of(st.just(['M']), st.recursive(leaf, lambda s: st.one_of(
    st.lists(s, max_size=3).map(lambda l: ['l', l]),
    st.lists(s, max_size=3).map(lambda l: ['t', l]),
    st.lists(st.tuples(st.sampled_from('abc'), s).map(list), max_size=3
             ).map(lambda d: ['d', d]),
    s.map(lambda x: ['kd', x]), s.map(lambda x: ['box', x]),
    s.map(lambda x: ['box', x])), max_leaves=6))
steps = st.lists(st.tuples(st.sampled_from(
    ['pickle', 'pypickle', 'copy', 'deepcopy', 'memo', 'factory', 'checker',
     'combined', 'zc factory', 'given', 'box', 'list', 'adapt']),
    st.integers(0, 60)).map(list), min_size=1, max_size=6)
perms = st.sampled_from(sorted(PERM))
TESTS = [
    Test('identity', st.fixed_dictionaries({'structure': structure, 'steps': steps}),
         run_identity, quick=5000, thorough=100000,
         configs=('c', 'pure', 'watch'), rule='the marker was met at least twice'),
    Test('grants', st.fixed_dictionaries({
        'perm': perms, 'declare': st.sampled_from(sorted(DECLARE)),
        'set': st.booleans(), 'inter': st.booleans(), 'way': st.integers(0, 5)}),
        run_grants, quick=3000, thorough=30000,
        configs=('c', 'pure', 'watch', 'purewatch'), rule='a permission was used'),
    Test('asking', st.fixed_dictionaries({
        'perm': perms, 'inter': st.booleans(), 'how': st.sampled_from(
            ['checkPermission', 'given interaction', 'paranoid', 'permission'])}),
        run_asking, quick=600, thorough=1000, configs=('c', 'pure'),
        rule='every case'),
]

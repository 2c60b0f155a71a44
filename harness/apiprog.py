"""Programs over the functions of the library, told as plain data.

A program is a list of calls [function, argument...]; integers refer to the
pools of classes, objects, checkers modulo their size.  The result is a trace
that mentions no address and nothing of the implementation.
"""
import datetime
import re

import zope.interface
import zope.proxy
from zope.security import canAccess, canWrite, checkPermission
from zope.security import checker as K
from zope.security import management as M
from zope.security import protectclass
from zope.security import proxy as P
from zope.security.adapter import (LocatingTrustedAdapterFactory,
                                   LocatingUntrustedAdapterFactory,
                                   TrustedAdapterFactory)
from zope.security.interfaces import ForbiddenAttribute, Unauthorized

from harness import universe as U

NAMES = ('a', 'b', 'm', 'n', '__call__', '__len__', '__getitem__', '__iter__',
         '__str__', '__add__')


# the classes of plain checkers, watching or not
CHECKERS = set(K.WatchingChecker.__mro__[:-1]) | {K.Checker, K.CheckerPy}


class Part:
    interaction = None

    def __init__(self, principal):
        self.principal = principal


def build():
    class C0:
        """Ordinary class."""

        def __init__(self, n=0):
            self.a = n
            self.b = [n, [n]]

        def m(self, x=None):
            return x

        def n(self):
            return self

        def __getitem__(self, k):
            if k == 3:
                raise IndexError(k)
            return (k,)

        def __len__(self):
            return 3

        def __str__(self):
            return 'C0 object'

        def __add__(self, other):
            return [self, other]

        def __call__(self, *args):
            return args

    class C1(C0):
        def m(self, x=None):
            raise ValueError('from the object')

    class C2:
        __Security_checker__ = None
        a = 1

        def __iter__(self):
            return iter([1, [2]])

    class C3(dict):
        a = 5

    class I0(zope.interface.Interface):
        a = zope.interface.Attribute('a')

        def m(x):
            pass

    class I1(I0):
        b = zope.interface.Attribute('b')

    class I2(zope.interface.Interface):
        def n():
            pass

        def __call__():
            pass

    zope.interface.classImplements(C0, I0)
    zope.interface.classImplements(C2, I2)
    del C2.__Security_checker__
    return [C0, C1, C2, C3], [I0, I1, I2]


def run(case, pure):
    U.reset()
    return Run(case).run()


class Run:
    def __init__(self, case):
        self.case = case
        self.classes, self.ifaces = build()
        C0, C1, C2, C3 = self.classes
        own = C1(2)
        self.objs = [C0(1), own, C2(), C3(k=[1]), [1, [2]], {'a': [1]}, (1, []),
                     'text', 5, {1, 2}, len, self.classes[0], None,
                     frozenset([3]), datetime.date(2020, 1, 2), iter([1, []]),
                     C0(1).n, {'x': []}.items(), slice(1), self.ifaces[0],
                     lambda *a: a, (x for x in [1, []]), 1.5, b'by', Ellipsis,
                     ValueError, range(3), object(), re.compile('a')]
        self.nobjs = len(self.objs)
        self.checkers = []
        self.policy = None
        self.granted = set()
        self.asked = []
        self.trace = []

    # -- references ------------------------------------------------------
    def obj(self, k):
        return self.objs[k % len(self.objs)]

    def cls(self, k):
        # also standard classes
        cs = self.classes + [list, dict, type(iter([])), int, type(None)]
        return cs[k % len(cs)]

    def checker(self, k):
        if k is None:
            return None
        if not self.checkers:
            return K.Checker({}, {})
        return self.checkers[k % len(self.checkers)]

    def perm(self, p):
        return K.CheckerPublic if p == 'PUBLIC' else p

    def perms(self, table):
        return {n: self.perm(p) for n, p in table.items()}

    # -- what is reported ---------------------------------------------------
    def canon(self, x, depth=0):
        if x is K.CheckerPublic:
            return 'PUBLIC'
        if type(x) is P.Proxy:
            return ['P', self.canon(P.getChecker(x), depth + 1),
                    self.canon(P.removeSecurityProxy(x), depth + 1)]
        for i, o in enumerate(self.objs[:self.nobjs]):
            if o is x and type(x) is not P.Proxy:
                return ['obj', i]
        for i, c in enumerate(self.checkers):
            if c is x:
                return ['checker', i]
        t = type(x)
        if depth > 6:
            return ['deep', t.__name__]
        if t in CHECKERS:
            return ['Checker', self.canon(x.get_permissions, depth + 1),
                    self.canon(x.set_permissions, depth + 1)]
        if t is str:
            return re.sub('0x[0-9a-fA-F]+', 'ADDR', x)
        if t in (int, bool, type(None), float, bytes):
            return x if t is not bytes else repr(x)
        if t in (list, tuple):
            return [t.__name__] + [self.canon(y, depth + 1) for y in x]
        if t is dict:
            items = [[self.canon(a, depth + 1), self.canon(b, depth + 1)]
                     for a, b in x.items()]
            return ['dict', sorted(items, key=repr)]
        if t in (set, frozenset):
            return [t.__name__, sorted(repr(self.canon(y, depth + 1)) for y in x)]
        if isinstance(x, BaseException):
            return self.exc(x, depth + 1)
        if t in self.classes:
            return ['instance', t.__name__, self.canon(x.__dict__, depth + 1)]
        if isinstance(x, type):
            return ['type', re.sub('Py$|^Watching', '', x.__name__)]
        return ['other', re.sub('Py$|^Watching', '', t.__name__)]

    def exc(self, e, depth=0):
        out = ['exc', type(e).__name__]
        if isinstance(e, (ForbiddenAttribute, Unauthorized)):
            out += [self.canon(a, depth + 1) for a in e.args]
        elif isinstance(e, K.DuplicationError) or e.args == ('from the object',):
            out.append(len(e.args))
        return out

    def stacked_iter(self, x):
        """A pure proxy always has an attribute __iter__ itself."""
        return type(x) is P.Proxy and not hasattr(
            type(P.removeSecurityProxy(x)), '__iter__') or \
            type(P.removeSecurityProxy(x)) is P.Proxy

    # -- the calls -----------------------------------------------------------
    def run(self):
        for n, call in enumerate(self.case):
            del self.asked[:]
            f = getattr(self, 'do_' + call[0])
            try:
                r = f(*call[1:])
                out = self.canon(r)
                if len(self.objs) < 60 and not isinstance(
                        P.removeSecurityProxy(r), tuple(CHECKERS)):
                    self.objs.append(r)
            except Exception as e:
                out = self.exc(e)
            self.trace.append({'out': out, 'asked': [
                list(x) for i, x in enumerate(self.asked)
                if self.asked[i - 1:i] != [x]],
                               'state': [self.canon(P.removeSecurityProxy(
                                   self.objs[i]).__dict__) for i in (0, 1, 2)]
                               + [self.canon(list(self.objs[4])),
                                  self.canon(dict(self.objs[5])),
                                  self.canon(dict(self.objs[3]))]})
        U.reset()
        return self.trace

    def add(self, c):
        self.checkers.append(c)
        return c

    def do_checker(self, get, set_):
        return self.add(K.Checker(self.perms(get), self.perms(set_)))

    def do_checker1(self, get):
        return self.add(K.Checker(self.perms(get)))

    def do_names(self, names, perm, kw):
        return self.add(K.NamesChecker(names, self.perm(perm), **self.perms(kw)))

    def do_iface(self, i, perm, kw):
        return self.add(K.InterfaceChecker(self.ifaces[i % 3], self.perm(perm),
                                           **self.perms(kw)))

    def do_multi(self, specs):
        arg = []
        for s in specs:
            if s[0] == 'i':
                arg.append((self.ifaces[s[1] % 3], self.perm(s[2])))
            elif s[0] == 'n':
                arg.append((tuple(s[1]), self.perm(s[2])))
            else:
                arg.append(self.perms(s[1]))
        return self.add(K.MultiChecker(arg))

    def do_combined(self, a, b):
        return self.add(K.CombinedChecker(self.checker(a), self.checker(b)))

    def do_define(self, c, k):
        return K.defineChecker(self.cls(c), self.checker(k))

    def do_undefine(self, c):
        return K.undefineChecker(self.cls(c))

    def do_getCheckerFor(self, c):
        return K.getCheckerForInstancesOf(self.cls(c))

    def do_select(self, o):
        return K.selectChecker(self.obj(o))

    def do_factory(self, o, k):
        return P.ProxyFactory(self.obj(o), self.checker(k)) if k is not None \
            else K.ProxyFactory(self.obj(o))

    def do_proxy(self, o, k):
        return P.Proxy(self.obj(o), self.checker(k))

    def do_kproxy(self, k, o):
        return self.checker(k).proxy(self.obj(o))

    def do_check(self, k, o, n):
        if n == '__iter__' and self.stacked_iter(self.obj(o)):
            return None
        return self.checker(k).check(self.obj(o), n)

    def do_check_getattr(self, k, o, n):
        if n == '__iter__' and self.stacked_iter(self.obj(o)):
            return None
        return self.checker(k).check_getattr(self.obj(o), n)

    def do_check_setattr(self, k, o, n):
        return self.checker(k).check_setattr(self.obj(o), n)

    def do_permission_id(self, k, n):
        return self.checker(k).permission_id(n)

    def do_setattr_permission_id(self, k, n):
        return self.checker(k).setattr_permission_id(n)

    def do_canAccess(self, o, n):
        if n == '__iter__' and type(P.removeSecurityProxy(self.obj(o))) is P.Proxy:
            return None
        if self.obj(o) is None:     # has no checker
            return None
        return canAccess(self.obj(o), n)

    def do_canWrite(self, o, n):
        if self.obj(o) is None:
            return None
        return canWrite(self.obj(o), n)

    def do_protectName(self, c, n, p):
        return protectclass.protectName(self.classes[c % 4], n, p)

    def do_protectSet(self, c, n, p):
        return protectclass.protectSetAttribute(self.classes[c % 4], n, p)

    def do_protectLike(self, c, d):
        return protectclass.protectLikeUnto(self.classes[c % 4], self.classes[d % 4])

    def do_setPolicy(self, granted):
        run = self
        granted = set(granted)

        class Policy:
            def __init__(self, *parts):
                self.participations = []
                for p in parts:
                    self.add(p)

            def add(self, p):
                p.interaction = self
                self.participations.append(p)

            def remove(self, p):
                self.participations.remove(p)
                p.interaction = None

            def checkPermission(self, permission, obj):
                run.asked.append((permission, run.canon(obj)))
                return permission in granted
        M.setSecurityPolicy(Policy)

    def do_new(self, n):
        return M.newInteraction(*[Part(None) for i in range(n)])

    def do_end(self):
        return M.endInteraction()

    def do_query(self):
        return M.queryInteraction() is not None

    def do_restore(self):
        return M.restoreInteraction()

    def do_checkPermission(self, p, o):
        return checkPermission(self.perm(p), self.obj(o))

    def do_getattr(self, o, n):
        x = self.obj(o)
        if n[:2] == '__' and not hasattr(type(P.removeSecurityProxy(x)), n):
            return None         # the pure proxy class has these itself
        return getattr(x, n)

    def do_setattr(self, o, n, v):
        x = self.obj(o)
        if isinstance(x, type):
            return None
        return setattr(x, n, self.obj(v))

    def do_delattr(self, o, n):
        x = self.obj(o)
        if isinstance(x, type):
            return None
        return delattr(x, n)

    def do_call(self, o, *args):
        x = self.obj(o)
        b = P.removeSecurityProxy(x)
        if isinstance(b, type) or type(b) in (object, type(re.compile(''))):
            return None
        return x(*[self.obj(a) for a in args])

    def do_str(self, o):
        return str(self.obj(o))

    def do_repr(self, o):
        return repr(self.obj(o))

    def do_list(self, o):
        if type(P.removeSecurityProxy(self.obj(o))) is P.Proxy:
            return None
        return U.limited(self.obj(o), 6)

    def do_next(self, o):
        return next(self.obj(o))

    def do_getitem(self, o, i):
        return self.obj(o)[i]

    def do_len(self, o):
        return len(self.obj(o))

    def do_add(self, o, q):
        return self.obj(o) + self.obj(q)

    def do_eq(self, o, q):
        return self.obj(o) == self.obj(q)

    def do_contains(self, o, q):
        return self.obj(q) in self.obj(o)

    def do_bool(self, o):
        return bool(self.obj(o))

    def do_hash(self, o):
        return type(hash(self.obj(o))).__name__

    def do_isinstance(self, o, c):
        return [isinstance(self.obj(o), self.cls(c)),
                P.isinstance(self.obj(o), self.cls(c)),
                self.obj(o).__class__.__name__]

    def do_same(self, o, q):
        return zope.proxy.sameProxiedObjects(self.obj(o), self.obj(q))

    def do_remove(self, o):
        return P.removeSecurityProxy(self.obj(o))

    def do_getChecker(self, o):
        if self.obj(o) is None:
            return None
        return P.getChecker(self.obj(o))

    def do_provides(self, o, i):
        return self.ifaces[i % 3].providedBy(self.obj(o))

    def do_adapter(self, kind, k, o):
        made = []

        class Adapter:
            __parent__ = None

            def __init__(self, context):
                self.context = context
                made.append(self)
        f = (TrustedAdapterFactory, LocatingTrustedAdapterFactory,
             LocatingUntrustedAdapterFactory)[kind % 3]
        a = f(Adapter)(self.obj(o))
        bare = made[0]
        return [type(a) is P.Proxy, self.canon(bare.context),
                self.canon(bare.__parent__)]

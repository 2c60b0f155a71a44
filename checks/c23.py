"""C23: untrusted code gets no bare objects and no unauthorised effects."""
META = {
    'configs': ['c', 'pure', 'watch2'],
    'technique': 'generated attack programs over generated protected worlds; '
                 'invariants after every step (only protected, basic or own '
                 'values; no object changes that its protection does not '
                 'grant), and comparison of two runs in worlds that differ '
                 'in denied attributes only (non-interference)',
    'note': 'Exploration: worlds of 8 connected objects in 4 classes with '
            'generated declarations, programs of up to 25 of about 150 '
            'operations.',
    'assumptions': ['untrusted code defines no special methods and no '
                    'callbacks, does not look at exceptions, and in pure '
                    'Python has no access to object.__getattribute__ and the '
                    'like; the protected classes themselves do not hand out '
                    'objects by mutating what they are given'],
}
import collections                                     # noqa: E402
import copy                                            # noqa: E402
import datetime                                        # noqa: E402
import functools                                       # noqa: E402
import inspect                                         # noqa: E402
import itertools                                       # noqa: E402
import json                                            # noqa: E402
import marshal                                         # noqa: E402
import math                                            # noqa: E402
import operator                                        # noqa: E402
import pickle                                          # noqa: E402
import pprint                                          # noqa: E402
import re                                              # noqa: E402
import string                                          # noqa: E402
import types                                           # noqa: E402
import weakref                                         # noqa: E402

from hypothesis import strategies as st                # noqa: E402

from zope.location import LocationProxy                # noqa: E402
from zope.security import adapter                      # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security import management                   # noqa: E402
from zope.security._definitions import thread_local    # noqa: E402
from zope.security.proxy import Proxy, ProxyFactory, removeSecurityProxy  # noqa: E402

from harness import universe as U                      # noqa: E402
from harness.core import Test, Violation, rep          # noqa: E402
from checks.c24 import BASIC                           # noqa: E402

MUTATORS = ('bump', '__setitem__', '__delitem__', '__iadd__', '__ior__',
            '__imul__', '__ipow__', 'close')
PLAIN = ('a', 'b', 'c', 'd', 'e')
SECRETS = ('s0', 's1', 's2')
METHODS = ('me', 'peer', 'make', 'items', 'echo', 'fn', 'cls', 'its', 'views',
           'nested', 'bound', 'part', 'stat', 'klass', 'prop', 'late', 'adapted',
           'located', 'ref', 'mod', 'frozen', 'raw')
SPECIAL = ('__call__', '__getitem__', '__iter__', '__next__', '__len__',
           '__contains__', '__add__', '__radd__', '__sub__', '__rsub__',
           '__mul__', '__rmul__', '__matmul__', '__truediv__', '__rtruediv__',
           '__floordiv__', '__mod__', '__rmod__', '__divmod__', '__rdivmod__',
           '__pow__', '__rpow__', '__lshift__', '__rlshift__', '__and__',
           '__rand__', '__or__', '__ror__', '__xor__', '__neg__', '__pos__',
           '__abs__', '__invert__', '__int__', '__float__', '__index__',
           '__str__', '__enter__', '__exit__', '__copy__',
           '__deepcopy__', '__format__', '__reversed__', '__bytes__',
           '__round__', '__isub__', '__iand__', '__dir__', '__fspath__',
           '__await__', '__bool__', '__missing__')
DECLARABLE = PLAIN + SECRETS + METHODS + SPECIAL + MUTATORS
READ = DECLARABLE + (
    '__dict__', '__class__', '__module__', '__name__', '__parent__', '__repr__',
    '__init__', '__new__', '__reduce__', '__getstate__', '__getattribute__', '__getattr__', '__setattr__',
    '__reduce_ex__', '__subclasshook__', '__weakref__', '__self__', '__func__',
    '__globals__', '__closure__', '__code__', '__defaults__', '__wrapped__',
    '__mro__', '__bases__', '__subclasses__', '__builtins__', 'gi_frame',
    'gi_code', 'gi_yieldfrom', 'f_locals', 'f_back', 'f_globals', 'cell_contents',
    'mro', 'func', 'args', 'keywords', '__call__', '__get__', '__eq__', '__lt__',
    '__hash__', '__ne__', '__length_hint__', 'append', 'pop', 'get', 'keys',
    'values', 'items', 'copy', 'update', 'setdefault', 'index', 'count',
    'union', 'add', 'mapping', '__context__', 'context', 'x', '_wrapped',
    '_checker', '__Security_checker__', '__implemented__', '__conform__',
    '__callback__', '__set__', 'm_bump', 'real', 'numerator')
USUAL = PLAIN + METHODS + SECRETS + MUTATORS
LEVELS = {'public': zc.CheckerPublic, 'granted': 'zope.Granted',
          'denied': 'zope.Denied', 'none': None}
GRANTS = ('public', 'granted')
NAMESPACE = types.ModuleType('verif_attacked')


class Policy:
    def __init__(self, *parts):
        self.participations = []

    def checkPermission(self, permission, obj):
        return permission == 'zope.Granted'


def special(name, kind):
    """A special method; kinds say what it returns."""
    def method(self, *args):
        return result(self, kind, args)
    method.__name__ = name
    return method


def result(o, kind, args):
    return {'self': lambda: o, 'c': lambda: o.__dict__['c'],
            'list': lambda: [o.__dict__['c'], [1, o]],
            'dict': lambda: {'k': o, 1: [o]}, 'args': lambda: args,
            'tuple': lambda: (o, 2), 'int': lambda: 3, 'gen': lambda: gen(o),
            'fn': lambda: functools.partial(same, o), 'lam': lambda: lambda: o,
            'notimpl': lambda: NotImplemented, 'str': lambda: 'text',
            'new': lambda: type(o)(o.w), 'set': lambda: {o, 1},
            'iter': lambda: iter([o, [o]]), 'bare': lambda: Bare(o),
            }[kind]()


def gen(o):
    yield o
    yield [o, 1]


def same(x):
    return x


class Bare:
    """Has no declarations at all."""

    def __init__(self, x):
        self.x = x


KINDS = ('self', 'c', 'list', 'dict', 'args', 'tuple', 'int', 'gen', 'fn', 'lam',
         'notimpl', 'str', 'new', 'set', 'iter', 'bare')


def build_class(w, i, kinds):
    class Base:
        def __init__(self, world, idx=None):
            d = self.__dict__
            d['w'] = world
            d['idx'] = idx if idx is not None else 99
            d.update(a=i, b=[1, [2]], c=None, d={'k': [3]}, e=(1, [4]))
            for n in MUTATORS:
                d['m_' + n] = 0
            for n in SECRETS:
                d[n] = 0

        def __hash__(self):
            return self.__dict__['idx']

        def me(self):
            return self

        def peer(self):
            return self.__dict__['c']

        def make(self, *args):
            return type(self)(self.w)

        def items(self):
            return gen(self)

        def echo(self, *args, **kw):
            return args, kw

        def fn(self):
            def inner(*args):
                return self, args
            return inner

        def cls(self):
            return type(self)

        def its(self):
            return [iter([self]), iter({1: self}.values()), enumerate([self]),
                    zip([self]), map(same, [self]), itertools.chain([self]),
                    reversed([self]), itertools.count(1), iter((self,)),
                    itertools.repeat(self, 2), itertools.groupby([self])]

        def views(self):
            d = {self: self, 'k': [self]}
            o = collections.OrderedDict(d)
            return [d.keys(), d.values(), d.items(), types.MappingProxyType(d),
                    o, o.values(), collections.ChainMap(d), o.items()]

        def nested(self):
            return [[self, {'x': (self, [self])}], {self}, frozenset([self]),
                    collections.deque([self]), bytearray(b'x')]

        def bound(self):
            return [self.me, self.b.copy, type(self).me, self.echo,
                    self.__str__, [].__len__, object.__repr__, self.__reduce_ex__]

        def part(self):
            return [functools.partial(self.echo, self),
                    operator.methodcaller('me'), property(same),
                    functools.lru_cache(same), staticmethod(same)]

        @staticmethod
        def stat():
            return w.objs[i % len(w.objs)]

        @classmethod
        def klass(cls, *args):
            return cls

        @property
        def prop(self):
            return self.__dict__['c']

        def late(self):
            return [weakref.ref(self), weakref.proxy(w.objs[0]),
                    types.SimpleNamespace(x=self), slice(self, None)]

        def adapted(self):
            class Adapter:
                def __init__(self, context):
                    self.context = context
            return adapter.TrustedAdapterFactory(Adapter)(self), Adapter(self)

        def located(self):
            return [LocationProxy(self), LocationProxy([self])]

        def ref(self):
            return weakref.ref(self)

        def mod(self):
            return [NAMESPACE, types, math]

        def frozen(self):
            return datetime.date(2020, 1, 1), ProxyFactory(self), 2.5

        def raw(self):
            return Bare(self)

        def bump(self, *args):
            self.__dict__['m_bump'] += 1
            return self

        def close(self):
            self.__dict__['m_close'] += 1

        def __setitem__(self, k, v):
            self.__dict__['m___setitem__'] += 1

        def __delitem__(self, k):
            self.__dict__['m___delitem__'] += 1

        def __getattr__(self, name):
            if name == 'x':
                return self.__dict__['c']
            raise AttributeError(name)

    ns = {}
    for n in SPECIAL:
        if n in kinds:
            ns[n] = special(n, kinds[n])
    for n in MUTATORS:
        if n.startswith('__i') and n in kinds:
            def method(self, other, n=n):
                self.__dict__['m_' + n] += 1
                return result(self, kinds[n], (other,))
            ns[n] = method
    for n in ('__eq__', '__lt__', '__length_hint__'):
        if n in kinds:
            ns[n] = special(n, kinds[n])
    if '__eq__' in ns:
        ns['__hash__'] = Base.__hash__
    if '__next__' in ns:
        def __next__(self):
            self.w.nexts += 1
            if self.w.nexts > 20:
                raise StopIteration
            return result(self, kinds['__next__'], ())
        ns['__next__'] = __next__
    if '__getitem__' in ns:
        def __getitem__(self, k):
            if k == 4:
                raise IndexError(k)
            return result(self, kinds['__getitem__'], (k,))
        ns['__getitem__'] = __getitem__
    return type('C%d' % i, (Base,), ns)


class World:
    def __init__(self, case, variant):
        self.case = case
        self.variant = variant
        self.nexts = 0
        self.objs = []
        self.classes = [build_class(self, i, case['kinds'][i])
                        for i in range(len(case['kinds']))]
        n = len(self.classes)
        self.objs = [self.classes[k % n](self, i)
                     for i, k in enumerate(case['objects'])]
        for i, o in enumerate(self.objs):
            nxt = self.objs[(i * 3 + 1) % len(self.objs)]
            o.__dict__['c'] = nxt
            o.__dict__['b'] = [nxt, [o], 1]
            o.__dict__['d'] = {'k': nxt, nxt: 1, 'n': {'x': o}}
            o.__dict__['e'] = (o, gen, [nxt])
        tables = []
        for k, cls in enumerate(self.classes):
            get, set_, how = case['decls'][k]
            c = zc.Checker({n: LEVELS[l] for n, l in get.items()},
                           {n: LEVELS[l] for n, l in set_.items()})
            if how == 'none':
                get, set_ = {}, {}
            elif how == 'own':
                cls.__Security_checker__ = c
            elif how == 'combined':
                c2 = zc.Checker({n: LEVELS[l] for n, l in get.items() if l != 'public'},
                                {n: LEVELS[l] for n, l in set_.items()})
                zc.defineChecker(cls, zc.CombinedChecker(c2, c))
            elif how == 'function':
                zc.defineChecker(cls, lambda o, c=c: c)
            else:
                zc.defineChecker(cls, c)
            tables.append(([n for n, l in get.items() if l in GRANTS],
                           [n for n, l in set_.items() if l in GRANTS]))
        self.read = [set(tables[self.classes.index(type(o))][0]) for o in self.objs]
        self.write = [set(tables[self.classes.index(type(o))][1]) for o in self.objs]
        self.roots = []
        for i, (get, set_) in case['roots']:
            i %= len(self.objs)
            if get is None:
                self.roots.append(ProxyFactory(self.objs[i]))
            else:
                c = zc.Checker({n: LEVELS[l] for n, l in get.items()},
                               {n: LEVELS[l] for n, l in set_.items()})
                self.roots.append(Proxy(self.objs[i], c))
                self.read[i] |= {n for n, l in get.items() if l in GRANTS}
                self.write[i] |= {n for n, l in set_.items() if l in GRANTS}
        self.own = [[1, 2], {'k': 1, 'n': 2}, (1, 'a'), 'text', 3, 0, 1.5, None,
                    lambda *a: a, types.SimpleNamespace(y=1), len, {1, 2}, b'by',
                    slice(1), 'a', -1]
        self.world_ids = {id(o) for o in self.objs}
        for o in self.objs:
            for n in 'bde':
                self.world_ids.add(id(o.__dict__[n]))
        if variant:
            # other values for what nobody may read
            for i, o in enumerate(self.objs):
                for n in SECRETS:
                    if n not in self.read[i]:
                        o.__dict__[n] = [5, 'secret', [o], o, None, len][
                            (i + SECRETS.index(n)) % 6]
        self.allowed = [self.effects(i) for i in range(len(self.objs))]

    def effects(self, i):
        out = set(self.write[i])
        out |= {'m_' + n for n in MUTATORS if n in self.read[i]}
        return out

    def snapshot(self):
        out = []
        for o in self.objs:
            d = o.__dict__
            s = {}
            for n, v in d.items():
                s[n] = id(v) if type(v) is not int else v
            out.append((s, shape(d.get('b')), shape(d.get('d'))))
        return out


def shape(x, depth=0):
    if depth > 3:
        return 0
    if type(x) is list:
        return [id(x)] + [shape(y, depth + 1) for y in x]
    if type(x) is dict:
        return [id(x)] + [(id(k), shape(v, depth + 1)) for k, v in x.items()]
    return id(x)


# -- the operations of untrusted code -------------------------------------
def first(x, n=5):
    return list(itertools.islice(x, n))


def small(*args):
    for a in args:
        a = removeSecurityProxy(a)
        if isinstance(a, int) and abs(a) > 64 or isinstance(
                a, (str, bytes, list, tuple)) and len(a) > 64:
            raise U.Skip


def ioper(f):
    def op(x, y, n):
        small(x, y)
        return f(x, y)
    return op


def match_statement(x, y, n):
    match x:
        case {'k': v}:
            return v
        case [v, *w]:
            return [v, w]
        case int() | str():
            return 1
        case types.SimpleNamespace(y=v):
            return v
        case types.FunctionType(__globals__=v) if type(x) is Proxy:
            return v
    return None


def with_statement(x, y, n):
    with x as v:
        return v


def unpack2(x, y, n):
    v, *w = x
    return [v, w]


def own_gen(x, y, n):
    def g():
        yield from x
    return first(g())


def call_kw(x, y, n):
    return x(**{'k': y})


def set_item(x, y, n):
    x[n % 5] = y


def del_item(x, y, n):
    del x[n % 5]


def key_item(x, y, n):
    return x['k']


def fill(x, y, n):
    if type(x) in (list,):
        x.append(y)
    elif type(x) is dict:
        x['n'] = y
    return x


OPS = {}        # name -> (function, does it build containers of its own?)


def op(name, builds=False):
    def deco(f):
        OPS[name] = (f, builds)
        return f
    return deco


def simple():
    A = OPS
    for name in ('add', 'sub', 'mul', 'matmul', 'truediv', 'floordiv', 'mod', 'pow',
                 'lshift', 'rshift', 'and_', 'or_', 'xor', 'iadd', 'isub', 'imul',
                 'ior', 'iand', 'ipow', 'ixor', 'imod', 'eq', 'ne', 'lt', 'le', 'gt',
                 'ge', 'contains', 'countOf', 'indexOf', 'concat', 'iconcat',
                 'getitem', 'delitem', 'is_'):
        A[name] = (ioper(getattr(operator, name)), False)
    for name in ('neg', 'pos', 'abs', 'invert', 'index', 'not_', 'truth'):
        A[name] = (lambda x, y, n, f=getattr(operator, name): f(x), False)
    for f in (str, repr, int, float, complex, bool, len, ascii, format, bytes, bin,
              hex, ord, chr, round, math.floor, math.ceil, math.trunc, math.fsum,
              math.prod, math.sqrt, json.dumps, marshal.dumps, pprint.pformat,
              operator.length_hint, next, iter, callable, inspect.isclass,
              memoryview, datetime.timedelta,
              min, max, any, all, sum, copy.copy, copy.deepcopy):
        A['f:' + f.__name__] = (lambda x, y, n, f=f: f(x), False)
    for f in (list, tuple, dict, sorted, dir, vars, enumerate, zip,
              reversed, collections.deque, collections.Counter,
              collections.OrderedDict, collections.ChainMap, itertools.chain,
              itertools.accumulate, itertools.pairwise, itertools.permutations,
              itertools.product, itertools.cycle, bytearray,
              itertools.chain.from_iterable, types.MappingProxyType):
        A['b:' + f.__name__] = (lambda x, y, n, f=f: first(f(x)), True)
    A['b:set'] = (lambda x, y, n: set(first(x)), True)
    A['b:frozenset'] = (lambda x, y, n: frozenset(first(x)), True)
    A['divmod'] = (lambda x, y, n: divmod(x, y), False)
    A['pow3'] = (lambda x, y, n: small(x, y) or pow(x, y, 7), False)
    A['type3'] = (lambda x, y, n: isinstance(x, y), False)
    A['issubclass'] = (lambda x, y, n: issubclass(x.__class__, y.__class__), False)
    A['hash'] = (lambda x, y, n: type(hash(x)).__name__, False)
    A['getattr'] = (lambda x, y, n: getattr(x, READ[n % len(READ)]), False)
    A['getattr default'] = (
        lambda x, y, n: getattr(x, READ[n % len(READ)], None), False)
    A['hasattr'] = (lambda x, y, n: hasattr(x, READ[n % len(READ)]), False)
    A['attrgetter'] = (lambda x, y, n: operator.attrgetter(
        READ[n % len(READ)])(x), False)
    A['attrgetter2'] = (lambda x, y, n: operator.attrgetter(
        READ[n % len(READ)] + '.__class__')(x), False)
    A['get'] = (lambda x, y, n: getattr(x, USUAL[n % len(USUAL)]), False)
    A['do'] = (lambda x, y, n: getattr(x, METHODS[n % len(METHODS)])(), False)
    A['do1'] = (lambda x, y, n: getattr(x, ('make', 'echo', 'klass')[n % 3])(y), False)
    A['do item'] = (lambda x, y, n: getattr(x, METHODS[n % len(METHODS)])()[n % 3],
                    False)
    A['do iter'] = (lambda x, y, n: first(getattr(x, METHODS[n % len(METHODS)])()),
                    True)
    A['set'] = (lambda x, y, n: setattr(x, PLAIN[n % len(PLAIN)], y), False)
    A['methodcaller'] = (lambda x, y, n: operator.methodcaller(
        READ[n % len(READ)])(x), False)
    A['method'] = (lambda x, y, n: getattr(x, READ[n % len(DECLARABLE)])(), False)
    A['method1'] = (lambda x, y, n: getattr(x, READ[n % len(READ)])(y), False)
    A['method2'] = (lambda x, y, n: getattr(x, READ[n % len(READ)])(y, x), False)
    A['itemgetter'] = (lambda x, y, n: operator.itemgetter(n % 4)(x), False)
    A['itemgetter2'] = (lambda x, y, n: operator.itemgetter(0, 1)(x), True)
    A['item'] = (lambda x, y, n: x[n % 5 - 1], False)
    A['key item'] = (key_item, False)
    A['slice'] = (lambda x, y, n: x[n % 3:], False)
    A['item of'] = (lambda x, y, n: x[y], False)
    A['call'] = (lambda x, y, n: x(), False)
    A['call1'] = (lambda x, y, n: x(y), False)
    A['call2'] = (lambda x, y, n: x(y, x), False)
    A['call kw'] = (call_kw, False)
    A['call star'] = (lambda x, y, n: x(*first(y)), False)
    A['call kwstar'] = (lambda x, y, n: x(**y), False)
    A['partial'] = (lambda x, y, n: functools.partial(x, y)(), False)
    A['set item'] = (set_item, False)
    A['del item'] = (del_item, False)
    A['setattr'] = (lambda x, y, n: setattr(x, READ[n % len(DECLARABLE)], y), False)
    A['setattr2'] = (lambda x, y, n: setattr(x, READ[n % len(READ)], y), False)
    A['delattr'] = (lambda x, y, n: delattr(x, READ[n % len(DECLARABLE)]), False)
    A['unpack'] = (unpack2, True)
    A['star'] = (lambda x, y, n: [*first(x)], True)
    A['comprehension'] = (lambda x, y, n: [i for i in first(x)], True)
    A['dict comprehension'] = (lambda x, y, n: {i: j for i, j in x.items()}, True)
    A['kwargs'] = (lambda x, y, n: {**x}, True)
    A['own function'] = (lambda x, y, n: (lambda *a, **k: [a, k])(*first(x), k=y), True)
    A['yield from'] = (own_gen, True)
    A['for'] = (lambda x, y, n: next(i for i in x), False)
    A['map'] = (lambda x, y, n: first(map(x, [y])), True)
    A['map2'] = (lambda x, y, n: first(map(same, x)), True)
    A['filter'] = (lambda x, y, n: first(filter(None, x)), True)
    A['starmap'] = (lambda x, y, n: first(itertools.starmap(x, [(y,)])), True)
    A['takewhile'] = (lambda x, y, n: first(itertools.takewhile(x, [y])), True)
    A['reduce'] = (lambda x, y, n: small(x) or functools.reduce(operator.add, first(x)),
                   False)
    A['sort key'] = (lambda x, y, n: sorted([y, y], key=x), True)
    A['max key'] = (lambda x, y, n: max([y], key=x), False)
    A['zip2'] = (lambda x, y, n: first(zip(x, y)), True)
    A['list+'] = (lambda x, y, n: [] + x, False)
    A['list +='] = (lambda x, y, n: operator.iadd([], x), True)
    A['list[:]='] = (lambda x, y, n: slice_assign(x), True)
    A['tuple+'] = (lambda x, y, n: () + x, False)
    A['dict|'] = (lambda x, y, n: {} | x, False)
    A['dict |='] = (lambda x, y, n: operator.ior({}, x), True)
    A['set|'] = (lambda x, y, n: set() | x, False)
    A['union'] = (lambda x, y, n: set().union(x), True)
    A['update'] = (lambda x, y, n: dict_update({}, x), True)
    A['fromkeys'] = (lambda x, y, n: dict.fromkeys(x, y), True)
    A['extend'] = (lambda x, y, n: extend([], x), True)
    A['fill'] = (fill, True)
    A['build list'] = (lambda x, y, n: [x, y], True)
    A['build dict'] = (lambda x, y, n: {'k': x, 'n': y}, True)
    A['build set'] = (lambda x, y, n: {x, y}, True)
    A['join'] = (lambda x, y, n: ''.join(x), False)
    A['%'] = (lambda x, y, n: small(x) or '%s|%r' % (x, y), False)
    A['%x'] = (lambda x, y, n: '%s' % x, False)
    A['%()'] = (lambda x, y, n: '%(k)s' % x, False)
    A['format attr'] = (lambda x, y, n: ('{0.%s}' % READ[n % len(READ)]).format(x), False)
    A['format item'] = (lambda x, y, n: '{0[0]}|{0[k]}'.format(x), False)
    A['format_map'] = (lambda x, y, n: '{k}'.format_map(x), False)
    A['f-string'] = (lambda x, y, n: f'{x!s:>20}{x!r}{x}', False)
    A['format spec'] = (lambda x, y, n: format(x, '>3'), False)
    A['template'] = (lambda x, y, n: string.Template('$k').substitute(x), False)
    A['Formatter'] = (lambda x, y, n: string.Formatter().vformat(
        '{0.__class__}', [x], {}), False)
    A['translate'] = (lambda x, y, n: 'k'.translate(x), False)
    A['re.sub'] = (lambda x, y, n: re.sub('k', x, 'k'), False)
    A['match'] = (match_statement, True)
    A['with'] = (with_statement, False)
    A['pickle'] = (lambda x, y, n: pickle.loads(pickle.dumps(x, n % 6)), True)
    A['pickle list'] = (lambda x, y, n: pickle.loads(pickle.dumps([x], n % 6)), True)
    A['deepcopy list'] = (lambda x, y, n: copy.deepcopy([x]), True)
    A['copy.replace'] = (lambda x, y, n: copy.copy([x]), True)
    A['weakref'] = (lambda x, y, n: weakref.ref(x)(), False)
    A['getmembers'] = (lambda x, y, n: first(inspect.getmembers(x)), True)
    A['getattr_static'] = (lambda x, y, n: inspect.getattr_static([x], 'append') and 0,
                           False)
    A['iter sentinel'] = (lambda x, y, n: first(iter(x, 5)), True)
    A['namedtuple'] = (lambda x, y, n: collections.UserList(x).data, True)
    A['userdict'] = (lambda x, y, n: collections.UserDict(x).data, True)
    A['singledispatch'] = (lambda x, y, n: functools.singledispatch(same)(x), False)
    A['cmp_to_key'] = (lambda x, y, n: sorted([x, y], key=functools.cmp_to_key(
        lambda a, b: 0)), True)
    A['throw'] = (lambda x, y, n: x.throw(ValueError), False)
    A['send'] = (lambda x, y, n: x.send(None), False)
    A['class call'] = (lambda x, y, n: x.__class__(), False)
    A['class call2'] = (lambda x, y, n: x.__class__(y), False)
    A['proxy again'] = (lambda x, y, n: ProxyFactory(x), False)
    A['slice in'] = (lambda x, y, n: y[x:], True)
    A['exec'] = (lambda x, y, n: run_code('r = x.%s' % READ[n % len(READ)], x), False)
    # what goes around __getattribute__: must not help with the compiled proxies
    for name, f in (
            ('object.getattr', lambda x, y, n: object.__getattribute__(x, READ[
                n % len(READ)])),
            ('object.setattr', lambda x, y, n: object.__setattr__(x, READ[
                n % len(READ)], y)),
            ('object.delattr', lambda x, y, n: object.__delattr__(x, READ[
                n % len(READ)])),
            ('object.reduce', lambda x, y, n: object.__reduce_ex__(x, n % 6)),
            ('object.getstate', lambda x, y, n: object.__getstate__(x)),
            ('object.dir', lambda x, y, n: len(object.__dir__(x))),
            ('super', lambda x, y, n: getattr(super(Proxy, x), READ[n % len(READ)])),
            ('type getattr', lambda x, y, n: Proxy.__getattribute__(x, READ[
                n % len(READ)])),
            ('slot', lambda x, y, n: getattr(Proxy, READ[n % len(READ)])(x)),
            ('slot1', lambda x, y, n: getattr(Proxy, READ[n % len(READ)])(x, y)),
            ('slot2', lambda x, y, n: getattr(Proxy, READ[n % len(READ)])(x, y, y)),
            ('list slot', lambda x, y, n: getattr(list, READ[n % len(READ)])(x, y)),
            ('dict slot', lambda x, y, n: getattr(dict, READ[n % len(READ)])(x, y))):
        A['raw ' + name] = (f, False)


def run_code(src, x):
    d = {'x': x}
    exec(src, d)
    return d['r']


def slice_assign(x):
    r = [None]
    r[:] = x
    return r


def dict_update(d, x):
    d.update(x)
    return d


def extend(r, x):
    r.extend(x)
    return r


simple()
RAW = {n for n in OPS if n.startswith('raw ')}
NAMES = sorted(OPS)
# of its own objects, untrusted code can have all attributes
ATTRIBUTES = {n for n in OPS if n[:2] in ('do', 'ge', 'ha', 'at', 'me', 'cl', 'ex')
              or n == 'format attr' or n == 'partial'} - {'getitem'}
AIMED = {n for n in OPS if n[:2] in ('do', 'me') or n in (
    'get', 'set', 'add', 'iadd', 'neg', 'setattr', 'delattr', 'hash', 'imul')}
AIMED_AT = {n: (lambda z: hasattr(type(z), '__getitem__')) for n in (
    'item', 'key item', 'slice', 'itemgetter', 'itemgetter2', 'item of', 'match')}
AIMED_AT.update({n: (lambda z: hasattr(type(z), '__iter__')) for n in (
    'for', 'star', 'unpack', 'comprehension', 'b:list', 'b:dict', 'yield from')})
AIMED_AT.update({n: callable for n in ('call', 'call1', 'call2', 'map', 'call kw')})
SAFE = [n for n in NAMES if n not in RAW]


# -- judging ---------------------------------------------------------------
OWNTYPES = (list, tuple, dict, set, frozenset, collections.deque)


class Judge:
    def __init__(self, w, own):
        self.w = w
        self.own = {id(x) for x in own}
        self.keep = list(own)

    def legal(self, x, builds, depth=0):
        """None, or what is wrong."""
        t = type(x)
        if t is Proxy or t in BASIC or id(x) in self.own:
            return None
        if t is type and x in BASIC:        # the class of a basic value
            return None
        if id(x) in self.w.world_ids:
            return 'a bare %s of the protected world' % t.__name__
        if builds and t in OWNTYPES and depth < 6:
            parts = list(x.items()) if t is dict else list(x)
            for y in parts:
                if t is dict:
                    bad = (self.legal(y[0], True, depth + 1)
                           or self.legal(y[1], True, depth + 1))
                else:
                    bad = self.legal(y, True, depth + 1)
                if bad:
                    return bad + ' in a ' + t.__name__
            return None
        if builds and t in (slice, range):
            return None
        if builds and t is types.SimpleNamespace:
            return self.legal(vars(x), True, depth + 1)
        return 'a bare %s' % t.__name__

    def raw(self, x):
        """The same, for what the machinery of the proxy class gives."""
        if type(x) in (types.MethodWrapperType, types.BuiltinFunctionType) \
                and (type(x.__self__) in (Proxy, super)
                     or isinstance(x.__self__, type)):
            return None
        if isinstance(x, type) and x in (Proxy, object, type, list, dict):
            return None
        if type(x) in (list, tuple):
            for y in x:
                bad = self.raw(y)
                if bad:
                    return bad
            return None
        if getattr(x, '__module__', '') == 'copyreg':
            return None
        if x is NotImplemented:
            return None
        return self.legal(x, True)

    def adopt(self, x):
        if type(x) is not Proxy:
            self.own.add(id(x))
            self.keep.append(x)


def canon(w, x, depth=0):
    t = type(x)
    if t is Proxy:
        return ['P', canon(w, removeSecurityProxy(x), depth + 1)]
    for i, o in enumerate(w.objs):
        if o is x:
            return ['obj', i]
    if depth > 4:
        return t.__name__
    if t is str:
        return re.sub(r'0x[0-9a-fA-F]+|\d{10,}', 'ADDR', x)
    if t is int and abs(x) > 10 ** 9:       # address
        return 'INT'
    if t in (int, float, bool, bytes, type(None)):
        return [t.__name__, repr(x)]
    if t in (list, tuple, collections.deque):
        return [t.__name__] + [canon(w, y, depth + 1) for y in x]
    if t is dict:
        return ['dict'] + [[canon(w, a, depth + 1), canon(w, b, depth + 1)]
                           for a, b in list(x.items())]
    if t in (set, frozenset):
        return [t.__name__, sorted(repr(canon(w, y, depth + 1)) for y in x)]
    return t.__name__


def attack(case, variant, ctx):
    U.reset()
    management.setSecurityPolicy(Policy)
    thread_local.__dict__.clear()
    management.newInteraction()
    w = World(case, variant)
    proxies = list(w.roots)
    pool = []
    judge = Judge(w, w.own)
    trace = []
    before = w.snapshot()
    got = 0
    for step, (name, i, j, n) in enumerate(case['program']):
        if ctx.pure and name in RAW:
            continue
        f, builds = OPS[name]
        everything = proxies + pool + w.own
        # mostly recent protected results
        if i % 5:
            x = proxies[-1 - i % min(len(proxies), 7)]
        else:
            x = everything[i * 7 % len(everything)]
        if name in AIMED:
            some = [z for z in proxies
                    if type(removeSecurityProxy(z)) in w.classes]
            x = some[-1 - i % min(len(some), 5)]
        elif name in AIMED_AT:
            some = [z for z in proxies[-12:] if AIMED_AT[name](removeSecurityProxy(z))]
            x = some[-1 - i % min(len(some), 4)] if some and i % 4 else x
        y = everything[j % len(everything)]
        if (name in RAW or name in ATTRIBUTES) and type(x) is not Proxy:
            continue
        involved = type(x) is Proxy or type(y) is Proxy
        try:
            r = f(x, y, n)
        except U.Skip:
            continue
        except Exception as e:
            e.__traceback__ = e.__context__ = e.__cause__ = None
            out = ['exc', type(e).__name__]
            r = None
        else:
            if involved:
                bad = judge.raw(r) if name in RAW else judge.legal(r, builds)
                if bad and type(x) is not Proxy:
                    # what becomes of its own things is its own, too
                    bad = None if hasattr(type(r), '__next__') else judge.legal(
                        r, True)
                if bad:
                    raise Violation('step %d: %s of %s with %s gives %s' % (
                        step, name + (' ' + READ[n % len(READ)] if 'attr' in name
                                      or name[:6] == 'method' else ''),
                        kind(x), kind(y), bad))
                if type(r) is Proxy:
                    got += 1
            out = canon(w, r)
            if name not in RAW and len(proxies) + len(pool) < 40:
                found = ()
                if type(r) is Proxy:
                    found = [r]
                elif type(r) in (list, tuple, dict, collections.deque):
                    pool.append(r)
                    if builds:
                        found = list(r.values()) if type(r) is dict else list(r)
                elif type(r) not in (set, frozenset) + BASIC:
                    pool.append(r)
                proxies.extend([z for z in found if type(z) is Proxy][:2])
                judge.adopt(r)
            ctx.label(name)
        trace.append([step, name, out])
        after = w.snapshot()
        if after != before:
            for k, (a, b) in enumerate(zip(before, after)):
                if a == b:
                    continue
                for attr in set(a[0]) | set(b[0]):
                    if a[0].get(attr) != b[0].get(attr):
                        if attr not in w.allowed[k]:
                            raise Violation(
                                'step %d: %s of %s with %s changed attribute %s of '
                                'object %d' % (step, name, kind(x), kind(y), attr, k))
                        ctx.label('permitted change')
                for n_, which in ((1, 'b'), (2, 'd')):
                    if a[n_] != b[n_] and a[0].get(which) == b[0].get(which) \
                            and which in a[0] and id_of(w, k, which) not in judge.own:
                        raise Violation(
                            'step %d: %s of %s changed the contents of %s of object %d'
                            % (step, name, kind(x), which, k))
            before = after
    return trace, got


def id_of(w, k, which):
    return id(w.objs[k].__dict__.get(which))


def kind(x):
    if type(x) is Proxy:
        return 'a protected ' + type(removeSecurityProxy(x)).__name__
    return rep(x)[:40]


def run_attack(case, ctx):
    try:
        trace, got = attack(case, 0, ctx)
        other, _ = attack(case, 1, ctx)
    finally:
        U.reset()
    for a, b in zip(trace, other):
        if a != b:
            raise Violation('step %d %s: %r, but %r if what may not be read has '
                            'another value' % (a[0], a[1], a[2], b[2]))
    ctx.nontrivial(got >= 4)


def run_frames(case, ctx):
    """Functions with a local variable called self."""
    o = Bare([1])
    p = Proxy(o, zc.Checker({}, {}))
    name = case['name']

    def read(self):
        return getattr(self, name) if case['getattr'] else (
            self._wrapped if name == '_wrapped' else self._checker)

    def write(self):
        self._wrapped = Bare([2])
        return None
    f = write if case['write'] else read
    try:
        r = f(p)
    except Exception:
        r = None
    if removeSecurityProxy(p) is not o:
        raise Violation('a proxy was made to guard another object',
                        key='pure-frame-self')
    if r is o or r is not None and type(r) not in (Proxy,) + BASIC:
        raise Violation('%s was read from outside: %s' % (name, type(r).__name__),
                        key='pure-frame-self')
    ctx.nontrivial()


# -- strategies --------------------------------------------------------------
level = st.sampled_from(['public', 'public', 'public', 'granted', 'granted',
                         'denied', 'none'])
setlevel = st.sampled_from(['public', 'granted', 'granted', 'denied'])


@st.composite
def table(draw, names, levels, most):
    """Declarations; the bulk of them from one number, to keep cases small."""
    out = {}
    for n in draw(st.lists(st.sampled_from(names), max_size=most)):
        out[n] = draw(levels)
    return out


@st.composite
def declared(draw):
    how = draw(st.sampled_from(['most'] * 6 + ['methods'] * 2 + ['some']))
    if how == 'most':
        base = {n: 'public' for n in PLAIN + METHODS + SPECIAL}
    elif how == 'methods':
        base = {n: 'granted' for n in METHODS + PLAIN}
    else:
        base = {}
    base.update(draw(table(DECLARABLE, level, 12)))
    return [base, draw(table(DECLARABLE + PLAIN * 12, setlevel, 6)), draw(st.sampled_from(
        ['registered'] * 6 + ['own', 'own', 'combined', 'combined', 'function',
                              'none']))]


@st.composite
def kinds(draw):
    out = {}
    most = draw(st.booleans())
    default = draw(st.sampled_from(KINDS))
    for n in SPECIAL + ('__eq__', '__lt__', '__length_hint__') + MUTATORS[3:7]:
        if most and n not in ('__eq__', '__lt__', '__length_hint__', '__next__'):
            out[n] = default
    for n in draw(st.lists(st.sampled_from(SPECIAL + (
            '__eq__', '__lt__', '__length_hint__') + MUTATORS[3:7]), max_size=12)):
        out[n] = draw(st.sampled_from(KINDS))
    out.setdefault('__str__', 'str')
    for n, k in (('__int__', 'int'), ('__index__', 'int'), ('__len__', 'int'),
                 ('__str__', 'str'), ('__bool__', None), ('__length_hint__', 'int')):
        if n in out and k:
            out[n] = k
    out.pop('__bool__', None)
    return out


roots = st.lists(st.tuples(st.integers(0, 7), st.one_of(
    st.just([None, None]), st.just([None, None]), st.just([None, None]),
    declared().map(lambda d: d[:2]))).map(list), min_size=1, max_size=4)
USEFUL = ['get', 'get', 'do', 'do', 'do', 'do1', 'do item', 'do iter', 'item', 'item',
          'b:list', 'key item', 'set', 'set', 'call', 'call', 'call1', 'for', 'for',
          'star', 'getattr', 'method', 'unpack', 'iadd', 'add', 'b:dict', 'add',
          'comprehension', 'neg', 'slice', 'getattr', 'setattr', 'method1', 'delattr']
opname = st.sampled_from(NAMES + SAFE + USEFUL * (2 * len(NAMES) // len(USEFUL)))
program = st.lists(st.tuples(
    opname, st.integers(0, 12), st.integers(0, 30), st.integers(0, 250)).map(list),
    min_size=12, max_size=30)
cases = st.fixed_dictionaries({
    'kinds': st.lists(kinds(), min_size=2, max_size=4),
    'decls': st.lists(declared(), min_size=4, max_size=4),
    'objects': st.lists(st.integers(0, 3), min_size=3, max_size=8),
    'roots': roots, 'program': program})
TESTS = [
    Test('attack', cases, run_attack, quick=2500, thorough=60000,
         configs=('c', 'pure', 'watch2'),
         rule='at least four results were protected objects'),
    Test('frames', st.fixed_dictionaries({
        'name': st.sampled_from(['_wrapped', '_checker']),
        'getattr': st.booleans(), 'write': st.booleans()}), run_frames,
        quick=20, thorough=20, configs=('c', 'pure'), rule='every case'),
]

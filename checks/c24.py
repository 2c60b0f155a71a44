"""C24: standard types have read-only protection that works by default."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'differential testing of generated protected standard values '
                 'against unprotected twins; exhaustive attribute sweep; '
                 'generated attempts to change them with a snapshot oracle',
    'note': 'Exploration: nested values of the registered types up to ten '
            'parts, up to eight read operations or attempted changes each; '
            'every attribute of the type is tried on each value.',
    'assumptions': ['the table of permitted names per type is the one '
                    'documented in zope.security.checker',
                    'advancing an iterator is reading'],
}
import bisect                                          # noqa: E402
import collections                                     # noqa: E402
import copy                                            # noqa: E402
import datetime                                        # noqa: E402
import decimal                                         # noqa: E402
import functools                                       # noqa: E402
import heapq                                           # noqa: E402
import io                                              # noqa: E402
import itertools                                       # noqa: E402
import json as json_                                   # noqa: E402
import operator                                        # noqa: E402
import random                                          # noqa: E402
import re                                              # noqa: E402
import types                                           # noqa: E402
import weakref                                         # noqa: E402

from hypothesis import strategies as st                # noqa: E402

import BTrees                                          # noqa: E402
import pytz                                            # noqa: E402
from zope.i18nmessageid import Message                 # noqa: E402
from zope.security.interfaces import ForbiddenAttribute  # noqa: E402
from zope.security.proxy import Proxy, ProxyFactory, removeSecurityProxy  # noqa: E402

from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
from harness.perms import AVAILABLE                    # noqa: E402

BASIC = (object, int, float, complex, type(None), str, bytes, Message, bool,
         datetime.timedelta, datetime.datetime, datetime.date, datetime.time,
         datetime.tzinfo, type(pytz.UTC))

CALLABLE = {'__str__', '__name__', '__call__'}
TYPE = {'__str__', '__name__', '__module__', '__bases__', '__mro__',
        '__implemented__'}
ITER = {'next', '__next__', '__iter__', '__len__', '__length_hint__'}
SET = {'__iter__', '__len__', '__str__', '__contains__', 'copy', 'difference',
       'intersection', 'issubset', 'issuperset', 'symmetric_difference',
       'union', '__and__', '__or__', '__sub__', '__xor__', '__rand__',
       '__ror__', '__rsub__', '__rxor__', '__eq__', '__ne__', '__lt__',
       '__gt__', '__le__', '__ge__'}
VIEW = {'__iter__', '__len__', '__str__', '__contains__', 'isdisjoint',
        '__and__', '__or__', '__sub__', '__xor__', '__rand__', '__ror__',
        '__rsub__', '__rxor__'}
DICT = {'__getitem__', '__len__', '__iter__', 'get', 'has_key', 'copy',
        '__str__', 'keys', 'values', 'items', 'iterkeys', 'iteritems',
        'itervalues', '__contains__'}
LIST = {'__getitem__', '__len__', '__iter__', '__contains__', 'index', 'count',
        '__str__', '__add__', '__radd__'}
TUPLE = {'__getitem__', '__add__', '__radd__', '__contains__', '__len__',
         '__iter__', '__str__'}
DECIMAL = {'__bool__', '__cmp__', '__eq__', '__ne__', '__hash__', '__str__',
           '__neg__', '__pos__', '__abs__', '__add__', '__radd__', '__sub__',
           '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__',
           '__divmod__', '__rdivmod__', '__mod__', '__rmod__', '__floordiv__',
           '__rfloordiv__', '__float__', '__int__', '__pow__', '__rpow__',
           'adjusted', 'as_tuple', 'compare', 'max', 'min', 'normalize',
           'quantize', 'remainder_near', 'same_quantum', 'sqrt',
           'to_eng_string', 'to_integral'}

GROUPS = [
    (LIST, [list]), (TUPLE, [tuple]), (DICT, [dict]), (SET, [set, frozenset]),
    (VIEW, [type({}.keys()), type({}.values()), type({}.items())]),
    (DECIMAL, [decimal.Decimal]),
    (CALLABLE, [types.FunctionType, types.MethodType,
                types.BuiltinFunctionType, type(io.BytesIO().getbuffer),
                type(().__repr__)]),
    (TYPE, [type]), ({'__name__'}, [types.ModuleType]),
    ({'__call__'}, [weakref.ref]),
]
TABLE = {t: names for names, ts in GROUPS for t in ts}


def allowed(t):
    """The documented names of a type; iterators are everything else."""
    return TABLE.get(t, ITER)


# -- values --------------------------------------------------------------
class Leaf:
    """Has no protection at all."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'Leaf(%d)' % self.n

    def __eq__(self, other):
        other = removeSecurityProxy(other)
        return isinstance(other, Leaf) and other.n == self.n

    def __hash__(self):
        return self.n

    def method(self, *args):
        return [self, args]


class Seq:
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class SubStr(str):
    pass


class SubInt(int):
    pass


class SubList(list):
    pass


SUBS = [SubStr('ab'), SubInt(3), SubList([1]), bytearray(b'ab'), range(3),
        collections.deque([1]), collections.OrderedDict(n=1)]


FUNCS = {'list': list, 'args': lambda *a: a, 'deep': lambda *a: [[a]],
         'len': len, 'sorted': sorted}
CLASSES = [Leaf, int, dict, SubStr]
MODULES = [json_, operator]


def hashable(x):
    try:
        hash(x)
    except TypeError:
        return repr(x)
    return x


def same(x):
    return x


def build(v):
    k = v[0]
    if k in ('i', 'f', 's', 'b'):
        return v[1]
    if k == 'n':
        return None
    if k == 'y':
        return v[1].encode('latin1')
    if k == 'basic':
        return BASICS[v[1] % len(BASICS)]
    if k == 'sub':
        return SUBS[v[1] % len(SUBS)]
    if k == 'leaf':
        return Leaf(v[1])
    if k == 'l':
        return [build(x) for x in v[1]]
    if k == 't':
        return tuple(build(x) for x in v[1])
    if k == 'set':
        return {hashable(build(x)) for x in v[1]}
    if k == 'fs':
        return frozenset(hashable(build(x)) for x in v[1])
    if k == 'd':
        return {hashable(build(a)): build(b) for a, b in v[1]}
    if k == 'view':
        d = build(['d', v[2]])
        if v[1] > 2:
            d = collections.OrderedDict(d)
        return [d.keys, d.values, d.items][v[1] % 3]()
    if k == 'iter':
        return iter(build(v[1]))
    if k == 'seq':
        return iter(Seq(build(['l', v[1]])))
    if k == 'gen':
        items = build(['l', v[1]])
        return (x for x in items)
    if k == 'bt':
        t = btree(v)
        return [t.keys, t.values, t.items, t.iterkeys, t.itervalues,
                t.iteritems][v[4] % 6]()
    if k == 'it':
        return itertool(v[1], build(['l', v[2]]))
    if k == 'dec':
        return decimal.Decimal(v[1])
    if k == 'func':
        return FUNCS[v[1]]
    if k == 'meth':
        x = build(v[2])
        return getattr(x, v[1]) if hasattr(type(x), v[1]) else x.__repr__
    if k == 'class':
        return CLASSES[v[1] % len(CLASSES)]
    if k == 'module':
        return MODULES[v[1] % len(MODULES)]
    if k == 'buf':
        return io.BytesIO(b'abc').getbuffer
    raise KeyError(k)


def btree(v):
    fam = [BTrees.family32, BTrees.family64][v[1] % 2]
    name = ['IF', 'II', 'IO', 'OI', 'OO'][v[2] % 5]
    cls = getattr(fam, name).BTree
    d = {}
    for a, b in v[3]:
        d[a if name[0] == 'I' else 'k%d' % a] = (
            build(b) if name[1] == 'O' else float(len(repr(b)))
            if name[1] == 'F' else len(repr(b)))
    return cls(d)


def key(x):
    return type(x).__name__


ITERTOOLS = {
    'groupby': lambda l: itertools.groupby(l, key),
    'grouper': lambda l: next(iter(itertools.groupby(l or [1], key)))[1],
    'count': lambda l: itertools.count(len(l)),
    'cycle': itertools.cycle,
    'dropwhile': lambda l: itertools.dropwhile(lambda x: not x, l),
    'islice': lambda l: itertools.islice(l, 3),
    'permutations': lambda l: itertools.permutations(l[:3]),
    'product': lambda l: itertools.product(l[:2], l[:2]),
    'repeat': lambda l: itertools.repeat(l, 3),
    'starmap': lambda l: itertools.starmap(lambda *a: list(a), [(x,) for x in l]),
    'takewhile': lambda l: itertools.takewhile(lambda x: True, l),
    'tee': lambda l: itertools.tee(l)[0],
    'zip_longest': lambda l: itertools.zip_longest(l, l[1:]),
    'accumulate': lambda l: itertools.accumulate(l, lambda a, b: [a, b]),
    'compress': lambda l: itertools.compress(l, [1, 0, 1, 1]),
    'combinations': lambda l: itertools.combinations(l, 2),
    'combinations_with_replacement':
        lambda l: itertools.combinations_with_replacement(l, 2),
}
ENDLESS = ('count', 'cycle')


def itertool(name, l):
    return ITERTOOLS[name](l)


BASICS = [object(), 65536, -1.4142, -1.4142j, None, b'abc', True, 'text',
          datetime.timedelta(3), datetime.datetime(2003, 1, 1),
          datetime.date(2003, 1, 1), datetime.time(23, 58),
          Message('message', domain='hello'), pytz.UTC, 10 ** 30, '', 0,
          datetime.datetime(2003, 1, 1, tzinfo=pytz.UTC), float('inf')]


# -- comparing -------------------------------------------------------------
def plain(s):
    return re.sub('0x[0-9a-fA-F]+', 'ADDR', s)


SUBTYPES = [type(x) for x in SUBS]


class Match:
    def __init__(self, ctx, ordered=True):
        self.ctx = ctx
        self.depth = 0
        self.ordered = ordered      # are sets built in the same order?

    def __call__(self, p, b, where):
        """p is the right, properly protected equivalent of the bare b."""
        t = type(b)
        if t in BASIC:
            require(type(p) is t, '%s: %s where %r is right', where,
                    type(p).__name__, b)
            require(p is b or p == b or p != p and b != b,
                    '%s: %r where %r is right', where, p, b)
            return
        require(type(p) is Proxy, '%s: %s is bare', where, t.__name__)
        x = removeSecurityProxy(p)
        require(type(x) is t, '%s: a protected %s where %s is right', where,
                type(x).__name__, t.__name__)
        if self.depth > 5:
            return
        self.depth += 1
        self.ctx.label(t.__name__)
        try:
            if t is Leaf or t in SUBTYPES:
                require(x == b, '%s: %r where %r is right', where, x, b)
                self.closed(p, where)
            elif t is decimal.Decimal:
                require(str(p) == str(b), '%s: %s where %s is right', where, p, b)
            elif TABLE.get(t) in (CALLABLE, TYPE):
                require(p.__name__ == b.__name__, '%s: %r', where, p)
            elif t is types.ModuleType or t is weakref.ref:
                pass
            elif t in (set, frozenset) and not self.ordered:
                require(x == b, '%s: %r where %r is right', where, x, b)
                for y in p:
                    require(type(y) is Proxy or type(y) in BASIC,
                            '%s: an element is bare', where)
            elif iterable(t):
                self.iterate(p, b, where)
        finally:
            self.depth -= 1

    def closed(self, p, where):
        for n in ('n', 'method', '__init__', '__dict__', 'upper', '__len__',
                  '__str__', '__getitem__', 'append'):
            try:
                getattr(p, n)
            except ForbiddenAttribute:
                pass
            else:
                require(False, '%s: %s of an unregistered type is readable',
                        where, n)
        e, r = attempt(list, p)
        require(isinstance(e, ForbiddenAttribute if hasattr(type(
            removeSecurityProxy(p)), '__iter__') else Exception),
            '%s: an unregistered type can be iterated (%r)', where, e)

    def iterate(self, p, b, where, limit=8):
        pi, bi = iter(p), iter(b)
        for n in range(limit):
            try:
                y = next(bi)
            except StopIteration:
                try:
                    x = next(pi)
                except StopIteration:
                    return n
                require(False, '%s: more than %d elements', where, n)
            try:
                x = next(pi)
            except StopIteration:
                require(False, '%s: only %d elements', where, n)
            self(x, y, '%s element %d' % (where, n))
        return limit


def iterable(t):
    """Is iteration over it registered?"""
    return t in TABLE and '__iter__' in TABLE[t] or hasattr(
        t, '__next__') or t.__module__.startswith('BTrees') or t.__name__[:5] == 'odict'


def attempt(f, *args):
    try:
        return None, f(*args)
    except Exception as e:
        return e, None


def compare(match, f, g, where):
    """f() on the protected, g() on the bare value"""
    eb, rb = attempt(g)
    ep, rp = attempt(f)
    if eb is not None:
        require(type(ep) is type(eb), '%s: %r where %r is right', where,
                ep if ep is not None else rp, eb)
        return False
    require(ep is None, '%s: %r where %r is right', where, ep, rb)
    if rb is NotImplemented:
        return False
    match(rp, rb, where)
    return True


# -- reading ---------------------------------------------------------------
STYLES = {
    'for': None,
    'list': list, 'tuple': tuple, 'star': lambda x: [*x],
    'extend': lambda x: functools.reduce(lambda l, i: l.extend(i) or l, [x], []),
    'call': lambda x: (lambda *a: list(a))(*x),
    'comprehension': lambda x: [i for i in x],
    'map': lambda x: list(map(same, x)),
    'zip': lambda x: [i for (i,) in zip(x)],
    'enumerate': lambda x: [i for n, i in enumerate(x)],
    'chain': lambda x: list(itertools.chain(x, ())),
    'iter': lambda x: list(iter(x)),
    'deque': lambda x: list(collections.deque(x)),
    'unpack': lambda x: (lambda h, *t: [h] + t)(*x),
    'yield from': lambda x: list((lambda: (yield from x))()),
    'slice': lambda x: [i for i in itertools.islice(x, 9)],
    'assign': lambda x: functools.reduce(
        lambda l, i: l.__setitem__(slice(None), i) or l, [x], [None]),
}


def run_iterate(case, ctx):
    U.reset()
    b, v = build(case['value']), build(case['value'])
    match = Match(ctx)
    p = ProxyFactory(v)
    where = 'iterating %s by %s' % (type(b).__name__, case['style'])
    f = STYLES[case['style']]
    if f is None or spec_endless(case['value']) or type(b) is itertools.groupby:
        n = match.iterate(p, b, where)
        ctx.nontrivial(n >= 2)
    else:
        wanted = attempt(f, b)
        got = attempt(f, p)
        require(type(wanted[0]) is type(got[0]), '%s: %r where %r is right',
                where, got[0], wanted[0])
        if wanted[0] is None:
            require(len(wanted[1]) == len(got[1]), '%s: %d elements where %d are '
                    'right', where, len(got[1]), len(wanted[1]))
            for n, (x, y) in enumerate(zip(got[1], wanted[1])):
                match(x, y, '%s element %d' % (where, n))
            ctx.nontrivial(len(wanted[1]) >= 2)
    ctx.label('style ' + case['style'], type(b).__name__)


def spec_endless(v):
    return v[0] == 'it' and v[1] in ENDLESS


def arg(a, x, p):
    """An argument: given, or one of the elements as x hands them out."""
    if a[0] == 'own':
        l = [i for _, i in zip(range(4), x)]
        return l[a[1] % len(l)] if l else None
    if a[0] == 'sl':
        return slice(*a[1:])
    if a[0] == 'prot':
        r = build(a[1])
        return ProxyFactory(r) if p and type(r) in TABLE else r
    return build(a)


def op_of(op, p):
    """The operation as a function of the (un)protected object."""
    what = op[0]

    def args(x):
        return [arg(a, x, p) for a in op[2]]
    if what == 'meth':
        return lambda x: getattr(x, op[1])(*args(x))
    if what == 'special':
        return lambda x: getattr(x, op[1])(*args(x))
    if what == 'item':
        return lambda x: x[args(x)[0]]
    if what == 'contains':
        return lambda x: args(x)[0] in x
    if what == 'fn':
        return lambda x: FNS[op[1]](x)
    if what == 'bin':
        return lambda x: getattr(operator, op[1])(x, *args(x)[:1])
    if what == 'rbin':
        return lambda x: getattr(operator, op[1])(args(x)[0], x)
    if what == 'call':
        return lambda x: x(*args(x))
    raise KeyError(what)


FNS = {
    'len': len, 'str': lambda x: plain(str(x)), 'repr': lambda x: plain(repr(x)),
    'bool': bool, 'hash': hash, 'float': float, 'int': int, 'abs': abs,
    'neg': operator.neg, 'pos': operator.pos, 'format': lambda x: plain('%s' % (x,)),
    'any': any, 'min': min, 'sorted': lambda x: plain(repr(sorted(x))),
    'length_hint': operator.length_hint, 'bases': lambda x: x.__bases__,
    'mro': lambda x: x.__mro__, 'name': lambda x: x.__name__,
    'dict': lambda x: plain(repr(dict(x))),
    'kw': lambda x: plain(repr({**x})),
    'class': lambda x: x.__class__.__name__,
}
METHODS = {
    'list': ['index', 'count'], 'tuple': [],
    'dict': ['get', 'copy', 'keys', 'values', 'items'],
    'set': ['copy', 'difference', 'intersection', 'issubset', 'issuperset',
            'symmetric_difference', 'union'],
    'view': ['isdisjoint'],
    'decimal': ['adjusted', 'as_tuple', 'compare', 'max', 'min', 'normalize',
                'quantize', 'remainder_near', 'same_quantum', 'sqrt',
                'to_eng_string'],
}
SETOPS = ['and_', 'or_', 'sub', 'xor']
NUMOPS = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow']
REFLECTED = {'add': '__radd__'}


def run_read(case, ctx):
    U.reset()
    b, v = build(case['value']), build(case['value'])
    p = ProxyFactory(v)
    match = Match(ctx, False)
    done = 0
    for op in case['ops']:
        where = '%s: %s' % (type(b).__name__, op[:2])
        f, g = op_of(op, True), op_of(op, False)
        if not permitted(b, op):
            continue
        if compare(match, lambda: f(p), lambda: g(b), where):
            done += 1
            ctx.label(type(b).__name__ + ' ' + str(op[1]))
    ctx.nontrivial(done >= 2)


def permitted(b, op):
    """Is the operation one of those the table is about?"""
    names = allowed(type(b))
    what = op[0]
    if type(b) is type({}.items()) and op[2] and op[2][0][0] == 'own':
        return False    # Python wants real tuples there
    need = {'item': '__getitem__', 'contains': '__contains__',
            'call': '__call__'}.get(what, op[1])
    if what == 'bin':
        need = '__%s__' % op[1].strip('_')
    elif what == 'rbin':
        need = '__r%s__' % op[1].strip('_')
    elif what == 'fn':
        need = {'len': ['__len__'], 'str': ['__str__'], 'repr': [],
                'bool': [], 'hash': [], 'format': ['__str__'],
                'float': ['__float__'], 'int': ['__int__'], 'abs': ['__abs__'],
                'neg': ['__neg__'], 'pos': ['__pos__'],
                'length_hint': ['__length_hint__'], 'bases': ['__bases__'],
                'mro': ['__mro__'], 'name': [], 'dict': ['keys', '__getitem__'],
                'kw': ['keys', '__getitem__'], 'class': [],
                }.get(op[1], ['__iter__'])
        return all(n in names for n in need)
    if what in ('bin', 'rbin') and need not in (
            SET if isinstance(b, (set, frozenset)) else names):
        return False
    return need in names


def run_callable(case, ctx):
    """Functions, methods and classes."""
    U.reset()
    b, v = build(case['value']), build(case['value'])
    p = ProxyFactory(v)
    match = Match(ctx)
    where = 'calling %s' % getattr(b, '__name__', type(b).__name__)
    args = [build(a) for a in case['args']]
    args2 = [build(a) for a in case['args']]
    if TABLE[type(b)] is CALLABLE:
        ctx.nontrivial(compare(match, lambda: p(*args), lambda: b(*args2), where))
    else:
        e, r = attempt(lambda: p(*args))
        require(isinstance(e, ForbiddenAttribute), '%s: %r, %r', where, e, r)
    for n in ('__name__', '__module__', '__bases__', '__mro__'):
        if n == '__name__' or n in TABLE[type(b)]:
            ctx.nontrivial()
            compare(match, lambda: getattr(p, n), lambda: getattr(b, n),
                    n + ' of ' + where)
    if TABLE[type(b)] is not TABLE[types.ModuleType]:
        require(plain(str(p)) == plain(str(b)), 'str of %s: %s', where, str(p))


# -- everything else is closed -------------------------------------------
# names the pure-Python proxy class answers itself
PURE_OWN = {'__slots__', '__doc__', '_wrapped', '_checker'}


def run_names(case, ctx):
    U.reset()
    v = build(case['value'])
    if type(v) in BASIC:
        require(ProxyFactory(v) is v, 'ProxyFactory changed the basic %r', v)
        return
    p = ProxyFactory(v)
    ok = allowed(type(v)) | AVAILABLE
    for n in sorted(set(dir(type(v))) | {'__dict__', 'x', '__iadd__', '__reduce__',
                                         '__self__', '__func__', '__globals__'}):
        if ctx.pure and n in PURE_OWN:
            continue
        e, r = attempt(getattr, p, n)
        where = '%s of %s' % (n, type(v).__name__)
        if n in ok:
            require(not isinstance(e, ForbiddenAttribute), '%s is forbidden', where)
            if e is None and type(removeSecurityProxy(r)) not in BASIC \
                    and n not in ('__providedBy__', '__implements__', '__hash__') \
                    and not (ctx.pure and hasattr(Proxy, n)):
                require(type(r) is Proxy, '%s is bare', where)
        elif isinstance(e, ForbiddenAttribute):
            pass
        else:
            require(False, '%s: %s', where, 'readable' if e is None else repr(e))
        for f in (lambda: setattr(p, n, 1), lambda: delattr(p, n)):
            e, r = attempt(f)
            if ctx.pure and n in ('__doc__', '__slots__'):
                continue
            require(isinstance(e, ForbiddenAttribute), '%s: setting or deleting it '
                    'gives %r', where, e)
    ctx.nontrivial(type(v) not in BASIC)
    ctx.label(type(v).__name__)


# -- changing --------------------------------------------------------------
def snapshot(x, depth=0):
    """All there is to a container; iterators by themselves."""
    t = type(x)
    if depth > 6:
        return '...'
    if t is Proxy:
        return ('P', id(removeSecurityProxy(x)))
    if t in (list, tuple):
        return (t.__name__, id(x), [snapshot(y, depth + 1) for y in x])
    if isinstance(x, dict):
        return (t.__name__, id(x), [(snapshot(a, depth + 1), snapshot(c, depth + 1))
                                    for a, c in x.items()])
    if t in (set, frozenset):
        return (t.__name__, id(x), [snapshot(y, depth + 1) for y in x])
    if t is Leaf:
        return ('Leaf', id(x), dict(x.__dict__))
    if t in BASIC:
        return (t.__name__, repr(x))
    return (t.__name__, id(x))


def run_change(case, ctx):
    """Tries to change a container in many spellings."""
    U.reset()
    v = build(case['value'])
    p = ProxyFactory(v)
    before = snapshot(v)
    tried = 0
    for step, how in enumerate(case['how']):
        x, where = p, type(v).__name__
        for i in how['path']:
            # go to a part, as untrusted code can
            e, y = attempt(lambda: [z for _, z in zip(range(5), x)])
            if e is not None and not isinstance(e, ForbiddenAttribute):
                break
            if e is None and y and type(y[i % len(y)]) is Proxy:
                x = y[i % len(y)]
                where += '/' + type(removeSecurityProxy(x)).__name__
        args = [build(a) for a in how['args']]
        if type(x) is not Proxy:
            continue
        f = CHANGES[how['do']]
        e, r = attempt(f, x, *args)
        ctx.label(how['do'])
        tried += e is not None
        after = snapshot(v)
        require(after == before, 'step %d: %s changed %s (outcome %s)', step,
                how['do'], where, type(e).__name__)
        if how['do'] in MUSTFAIL:
            require(e is not None, 'step %d: %s of %s was permitted', step,
                    how['do'], where)
    ctx.nontrivial(tried >= 2)


def iop(name):
    def f(x, a, *rest):
        return getattr(operator, name)(x, a)
    return f


def setitem(x, k, v):
    x[k] = v


def delitem(x, k, *v):
    del x[k]


def setslice(x, k, *v):
    x[:] = [k]


def delslice(x, *v):
    del x[:]


def starassign(x, k, *v):
    x[0], *x[1:] = [k, k]


def forassign(x, k, *v):
    for x[0] in [k]:
        pass


def walrus(x, k, *v):
    with_ = types.SimpleNamespace(x=x)
    with_.x += [k]


def unpack_add(x, k, *v):
    x[0] += k


CHANGES = {
    'setitem': setitem, 'delitem': delitem, 'setslice': setslice,
    'delslice': delslice, 'starassign': starassign, 'forassign': forassign,
    'attribute +=': walrus, 'item +=': unpack_add,
    'heappush': lambda x, a, *r: heapq.heappush(x, a),
    'heapify': lambda x, *r: heapq.heapify(x),
    'heappop': lambda x, *r: heapq.heappop(x),
    'insort': lambda x, a, *r: bisect.insort(x, a),
    'shuffle': lambda x, *r: random.Random(1).shuffle(x),
    'setattr': lambda x, a, *r: setattr(x, 'n', a),
    'delattr': lambda x, *r: delattr(x, 'n'),
    'object.__setattr__': lambda x, a, *r: object.__setattr__(x, 'n', a),
    'type.__setattr__': lambda x, a, *r: type.__setattr__(x, 'n', a),
    'self of a method': lambda x, a, *r: x.__iter__.__self__.append(a),
    'copy.copy': lambda x, *r: copy.copy(x).append(1),
    'copy.deepcopy': lambda x, *r: copy.deepcopy(x).append(1),
    'class': lambda x, a, *r: x.__class__.append(x, a),
    'exec': lambda x, a, *r: exec('x += [a]', {'x': x, 'a': a}),
    'vars': lambda x, a, *r: vars(x).update(n=a),
    'operator.methodcaller': lambda x, a, *r: operator.methodcaller('append', a)(x),
    'operator.attrgetter': lambda x, a, *r: operator.attrgetter('add')(x)(a),
    'ChainMap': lambda x, a, *r: collections.ChainMap(x).update({a: 1}),
    'UserDict': lambda x, a, *r: setattr(collections.UserDict(), 'data', x),
    'deque': lambda x, a, *r: collections.deque(x).append(a),
    'reversed': lambda x, *r: reversed(x),
    'send': lambda x, a, *r: x.send(a),
    'throw': lambda x, a, *r: x.throw(ValueError),
    'close': lambda x, *r: x.close(),
    'setstate': lambda x, a, *r: x.__setstate__(a),
    'init': lambda x, a, *r: x.__init__([a]),
    'copy then change': lambda x, a, *r: x.copy().update({a: 1}),
}
for _n in ('iadd', 'imul', 'ior', 'iand', 'isub', 'ixor', 'iconcat', 'imod',
           'ifloordiv', 'ipow', 'ilshift', 'imatmul', 'itruediv'):
    CHANGES['operator.' + _n] = iop(_n)
for _t, _ns in ((list, 'append clear extend insert pop remove reverse sort '
                 '__setitem__ __delitem__ __iadd__ __imul__ __init__'),
                (dict, 'clear pop popitem setdefault update __setitem__ '
                 '__delitem__ __ior__ __init__'),
                (set, 'add clear difference_update discard intersection_update '
                 'pop remove symmetric_difference_update update __iand__ '
                 '__ior__ __isub__ __ixor__ __init__')):
    for _n in _ns.split():
        # as an attribute of the protected object, of its type, and through
        # the class the object claims
        CHANGES['.' + _n] = (lambda n: lambda x, *a: getattr(x, n)(*a))(_n)
        CHANGES['%s.%s' % (_t.__name__, _n)] = (
            lambda t, n: lambda x, *a: getattr(t, n)(x, *a))(_t, _n)
        CHANGES['.__class__.' + _n] = (
            lambda n: lambda x, *a: getattr(x.__class__, n)(x, *a))(_n)
# must not merely change nothing: permitted they may not be
MUSTFAIL = {n for n in CHANGES if n[0] == '.' and n != '.__class__.__init__'} | {
    'setitem', 'delitem', 'setslice', 'delslice', 'starassign', 'forassign',
    'setattr', 'delattr', 'send', 'throw', 'close', 'setstate', 'init',
    'operator.methodcaller', 'operator.attrgetter', 'copy then change', 'vars',
    'object.__setattr__', 'type.__setattr__', 'self of a method'}


# -- strategies ---------------------------------------------------------
scalar = st.one_of(
    st.integers(-2, 5).map(lambda n: ['i', n]),
    st.sampled_from([1.5, -2.0, 1e300]).map(lambda n: ['f', n]),
    st.sampled_from(['', 'a', 'é', 'n']).map(lambda n: ['s', n]),
    st.just(['n']), st.booleans().map(lambda b: ['b', b]),
    st.sampled_from(['', 'ab']).map(lambda n: ['y', n]),
    st.integers(0, len(BASICS) - 1).map(lambda n: ['basic', n]))
decimals = st.sampled_from(['0', '1', '-1.5', '2.25', '1E+5', '100', '3', 'Infinity']
                           ).map(lambda s: ['dec', s])
leaf = st.one_of(st.integers(0, 5).map(lambda n: ['leaf', n]), st.integers(
    0, len(SUBS) - 1).map(lambda n: ['sub', n]))
atom = st.one_of(scalar, scalar, leaf, decimals)


def containers(inner):
    ls = st.lists(inner, max_size=4)
    ds = st.lists(st.tuples(atom, inner).map(list), max_size=3)
    con = st.one_of(
        ls.map(lambda l: ['l', l]), ls.map(lambda l: ['t', l]),
        st.lists(atom, max_size=4).map(lambda l: ['set', l]),
        st.lists(atom, max_size=4).map(lambda l: ['fs', l]),
        ds.map(lambda d: ['d', d]))
    return st.one_of(
        con, con,
        st.tuples(st.just('view'), st.integers(0, 5), ds).map(list),
        st.tuples(st.just('iter'), st.one_of(con, st.tuples(
            st.just('view'), st.integers(0, 5), ds).map(list))).map(list),
        st.tuples(st.just('seq'), ls).map(list),
        st.tuples(st.just('gen'), ls).map(list),
        st.tuples(st.just('bt'), st.integers(0, 1), st.integers(0, 4), st.lists(
            st.tuples(st.integers(-5, 5), inner).map(list), max_size=4),
            st.integers(0, 5)).map(list),
        st.tuples(st.just('it'), st.sampled_from(sorted(ITERTOOLS)), ls).map(list))


value = containers(st.recursive(atom, containers, max_leaves=5))


def endless(v):
    return type(v) is list and (v[:1] == ['it'] and v[1] in ENDLESS
                                or any(endless(x) for x in v))


finite = value.map(lambda v: ['l', [['i', 1]]] if endless(v) else v)
# Decimal asks an abstract base class about the (protected) other operand
atom2 = st.one_of(scalar, scalar, leaf)
con = st.recursive(atom2, lambda i: st.one_of(
    st.lists(i, max_size=4).map(lambda l: ['l', l]),
    st.lists(i, max_size=4).map(lambda l: ['t', l]),
    st.lists(atom2, max_size=4).map(lambda l: ['set', l]),
    st.lists(st.tuples(atom2, i).map(list), max_size=3).map(lambda d: ['d', d])),
    max_leaves=5)
arg_ = st.one_of(con, atom2, st.tuples(st.just('own'), st.integers(0, 3)).map(list),
                 st.tuples(st.just('own'), st.integers(0, 3)).map(list))


def fn(*names):
    return st.tuples(st.just('fn'), st.sampled_from(names), st.just([])).map(list)


def op(what, names, *args):
    return st.tuples(st.just(what), st.sampled_from(names),
                     st.tuples(*args).map(list)).map(list)


none = st.just(None)
index = st.one_of(st.integers(-4, 4).map(lambda n: ['i', n]), st.tuples(
    st.just('sl'), *[st.one_of(none, st.integers(-3, 3))] * 2).map(list))
common = fn('len', 'str', 'repr', 'bool', 'format', 'class', 'any')
seq_ops = st.one_of(
    common, op('item', ['[]'], index), op('contains', ['in'], arg_),
    op('meth', METHODS['list'], arg_), op('bin', ['add'], con),
    op('rbin', ['add'], con),
    op('special', ['__getitem__'], index), op('special', ['__contains__'], arg_),
    op('special', ['__len__', '__iter__', '__str__']), fn('min', 'sorted'))
dict_ops = st.one_of(
    common, op('item', ['[]'], arg_), op('contains', ['in'], arg_),
    op('meth', ['get'], arg_), op('meth', ['get'], arg_, con),
    op('meth', ['copy', 'keys', 'values', 'items']), fn('dict', 'kw'),
    op('special', ['__getitem__', '__contains__'], arg_))
others = st.one_of(
    st.lists(atom2, max_size=4).map(lambda l: ['set', l]),
    st.lists(atom2, max_size=4).map(lambda l: ['fs', l]), con)
set_ops = st.one_of(
    common, op('contains', ['in'], arg_), op('meth', METHODS['set'], others),
    op('meth', ['copy']), op('bin', SETOPS, others), op('rbin', SETOPS, others),
    op('bin', ['lt', 'le', 'gt', 'ge', 'eq', 'ne'], others),
    op('meth', METHODS['set'], st.tuples(st.just('prot'), others).map(list)),
    op('meth', METHODS['view'], others), op('special', ['__len__', '__iter__']))
numbers = st.one_of(decimals, st.integers(-3, 3).map(lambda n: ['i', n]))
dec_ops = st.one_of(
    fn('str', 'repr', 'bool', 'hash', 'float', 'int', 'abs', 'neg', 'pos', 'format'),
    op('bin', NUMOPS, numbers), op('rbin', NUMOPS, numbers),
    op('meth', ['adjusted', 'as_tuple', 'normalize', 'sqrt', 'to_eng_string']),
    op('meth', ['compare', 'max', 'min', 'quantize', 'remainder_near',
                'same_quantum'], decimals),
    op('bin', ['lt', 'eq', 'ge', 'ne'], numbers))


def with_ops(values, ops):
    return st.fixed_dictionaries({'value': values, 'ops': st.lists(
        ops, min_size=2, max_size=8)})


lists = st.lists(con, max_size=4)
dicts = st.lists(st.tuples(atom2, con).map(list), max_size=4)
reads = st.one_of(
    with_ops(st.tuples(st.sampled_from(['l', 't']), lists).map(list), seq_ops),
    with_ops(st.tuples(st.just('d'), dicts).map(list), dict_ops),
    with_ops(st.one_of(
        st.tuples(st.sampled_from(['set', 'fs']), st.lists(atom2, max_size=5)).map(list),
        st.tuples(st.just('view'), st.sampled_from([0, 0, 1, 2]), dicts).map(list)),
        set_ops),
    with_ops(decimals, dec_ops),
    with_ops(finite, st.one_of(common, fn('length_hint', 'len', 'any'))))
callables = st.one_of(
    st.sampled_from(sorted(FUNCS)).map(lambda n: ['func', n]),
    st.tuples(st.just('meth'), st.sampled_from(
        ['copy', 'index', 'method', '__repr__', 'union', 'get', '__len__', 'append']),
        st.one_of(con, leaf)).map(list),
    st.integers(0, 3).map(lambda n: ['class', n]),
    st.integers(0, 1).map(lambda n: ['module', n]), st.just(['buf']))
change = st.fixed_dictionaries({
    'path': st.lists(st.integers(0, 4), max_size=2),
    'do': st.sampled_from(sorted(CHANGES)),
    'args': st.lists(con, min_size=0, max_size=2)})

TESTS = [
    Test('iterate', st.fixed_dictionaries({
        'value': value, 'style': st.sampled_from(sorted(STYLES))}), run_iterate,
        quick=7000, thorough=150000, rule='at least two elements'),
    Test('read', reads, run_read, quick=8000, thorough=200000,
         rule='at least two operations succeeded'),
    Test('callable', st.fixed_dictionaries({
        'value': callables, 'args': st.lists(con, max_size=2)}), run_callable,
        quick=1200, thorough=30000, rule='the callable could be used'),
    Test('names', st.fixed_dictionaries({'value': st.one_of(
        value, callables, decimals, scalar, leaf.map(lambda x: ['l', [x]]))}),
        run_names, quick=2000, thorough=30000,
        rule='the value is not basic (all attributes of its type are tried)'),
    Test('change', st.fixed_dictionaries({
        'value': finite, 'how': st.lists(change, min_size=2, max_size=8)}),
        run_change, quick=7000, thorough=150000,
        rule='at least two attempts were refused'),
]

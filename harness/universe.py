"""Recording targets, recording checkers and a table of operations.

Everything is built from plain JSON data:

value   ["i",n] ["f",x] ["s",str] ["y",latin1] ["n"] ["b",bool] ["l",[..]]
        ["t",[..]] ["d",[[k,v]..]] ["set",[..]] ["fs",[..]] ["ba",latin1]
        ["raw",k] ["prox",k] ["res",k] ["o"] ["sl",a,b,c] ["E"] ["ni"]
target  ["rec", {special: behaviour}, {attr: value}] or a value
checker [kind, {name: verdict}, {name: verdict}, default, proxymode]
verdict "ok" or the name of an exception of EXC
op      [opname, operand...]
"""
import operator

from zope.security.checker import Checker
from zope.security.checker import CombinedChecker
from zope.security.checker import _clear as checker_clear
from zope.security.interfaces import ForbiddenAttribute
from zope.security.interfaces import Unauthorized
from zope.security import management
from zope.security._definitions import thread_local
from zope.security.proxy import Proxy
from zope.security.proxy import removeSecurityProxy

from harness.names import ATTRS, BIN, CMP, CONV, EXCNAMES, IOPS, METHODS, SPECIALS, UN


def reset():
    """Forget everything an earlier case left in the library's state."""
    checker_clear()
    management._clear()
    thread_local.__dict__.clear()

# what a checker's check returns, which is of no importance
CHECKED = ['checked']


class Odd(BaseException):
    """Not an Exception."""


class Custom(Exception):
    pass


class Denied2(ForbiddenAttribute):
    pass


EXC = {
    'Unauthorized': Unauthorized, 'ForbiddenAttribute': ForbiddenAttribute,
    'AttributeError': AttributeError, 'TypeError': TypeError,
    'ValueError': ValueError, 'KeyError': KeyError, 'IndexError': IndexError,
    'StopIteration': StopIteration, 'RuntimeError': RuntimeError,
    'KeyboardInterrupt': KeyboardInterrupt, 'GeneratorExit': GeneratorExit,
    'MemoryError': MemoryError, 'RecursionError': RecursionError,
    'OverflowError': OverflowError, 'NotImplementedError': NotImplementedError,
    'ZeroDivisionError': ZeroDivisionError, 'Odd': Odd, 'Custom': Custom,
    'Denied2': Denied2, 'LookupError': LookupError,
}

assert set(EXC) == set(EXCNAMES)
# never ask the checker
UNCHECKED = {'__%s__' % c for c in CMP} | {'__hash__', '__bool__',
                                           '__length_hint__'}


def op_of(b):
    return getattr(operator, b + '_' if b in ('and', 'or') else b)


BINF = {b: (divmod if b == 'divmod' else op_of(b)) for b in BIN}
IOPF = {b: getattr(operator, 'i' + b) for b in IOPS}


class Skip(BaseException):
    """The operation would take too long."""


class Plain:
    """A fresh object of no particular interest."""

    def __init__(self, n=0):
        self.n = n

    def __repr__(self):
        return '<Plain %d>' % self.n


class PlainIter(Plain):
    def __init__(self, items, n=0):
        Plain.__init__(self, n)
        self.items = list(items)

    def __iter__(self):
        return self

    def __next__(self):
        if not self.items:
            raise StopIteration
        return self.items.pop(0)


class Token:
    """What a token checker gives instead of the real result."""

    def __init__(self, value):
        self.value = value

    def __iter__(self):
        return self

    def __next__(self):
        raise StopIteration

    def __repr__(self):
        return '<Token>'


BASIC = (int, float, str, bytes, bool, complex, type(None))


class World:
    """The objects of one case, and the log of what happened to them."""

    def __init__(self, case, pure=False):
        self.case = case
        self.pure = pure
        self.log = []
        self.mute = 0
        self.nfresh = 0
        self.nexts = {}
        self.objs = []
        self.checkers = []
        self.proxies = []
        self.results = []
        self.rec_ids = set()
        self.keep = []
        self.excs = {}
        for i, t in enumerate(case['targets']):
            if t[0] == 'rec':
                o = self.make_rec(t, i)
            elif t[0] == 'iterator':
                o = iter(self.value(t[1]))
            else:
                o = self.value(t)
            self.objs.append(o)
        for i, c in enumerate(case['checkers']):
            self.checkers.append(self.make_checker(c, i))
        for i, o in enumerate(self.objs):
            c = self.checkers[i % len(self.checkers)]
            self.proxies.append(Proxy(o, c))

    # -- values ----------------------------------------------------------
    def value(self, v):
        k = v[0]
        if k in ('i', 'f', 's', 'b'):
            return v[1]
        if k == 'n':
            return None
        if k == 'y':
            return v[1].encode('latin1')
        if k == 'ba':
            return bytearray(v[1].encode('latin1'))
        if k == 'l':
            return [self.value(x) for x in v[1]]
        if k == 't':
            return tuple(self.value(x) for x in v[1])
        if k == 'set':
            return {self.hashable(x) for x in v[1]}
        if k == 'fs':
            return frozenset(self.hashable(x) for x in v[1])
        if k == 'd':
            return {self.hashable(a): self.value(b) for a, b in v[1]}
        if k == 'raw':
            return self.objs[v[1] % len(self.objs)]
        if k == 'prox':
            return self.proxies[v[1] % len(self.proxies)]
        if k == 'res':
            if not self.results:
                return None
            return self.results[v[1] % len(self.results)]
        if k == 'o':
            return self.fresh()
        if k == 'sl':
            return slice(*[self.value(x) for x in v[1:]])
        if k == 'E':
            return Ellipsis
        if k == 'ni':
            return NotImplemented
        if k == 'it':
            return PlainIter([self.value(x) for x in v[1]])
        raise KeyError(k)

    def hashable(self, v):
        x = self.value(v)
        try:
            hash(x)
        except BaseException:
            return repr(v)
        return x

    def fresh(self):
        self.nfresh += 1
        return Plain(self.nfresh)

    # -- recording targets -------------------------------------------------
    def touch(self, obj, name):
        if not self.mute:
            self.log.append(('touch', obj, name))

    def make_rec(self, spec, index):
        world = self
        ns = {'__slots__': ('__dict__', '__weakref__')}

        def special(name, behaviour):
            def method(self, *args):
                if name == '__getattr__' and args[0] == '__Security_checker__':
                    raise AttributeError(args[0])
                world.touch(self, name)
                if name == '__next__':
                    world.nexts[index] = world.nexts.get(index, 0) + 1
                    if world.nexts[index] > 30:
                        raise StopIteration
                elif name == '__getitem__':
                    if type(args[0]) is int and 20 < args[0] < 100:
                        raise IndexError(args[0])
                r = world.behave(behaviour, self, args)
                if not world.mute:
                    world.log.append(('ret', self, name, r))
                return r
            method.__name__ = name
            return method

        for name, behaviour in spec[1].items():
            ns[name] = special(name, behaviour)
        if '__eq__' in ns and '__hash__' not in ns:
            ns['__hash__'] = object.__hash__

        def __getattribute__(self, name):
            world.touch(self, '.' + name)
            return object.__getattribute__(self, name)

        def __setattr__(self, name, value):
            world.touch(self, '=' + name)
            object.__setattr__(self, name, value)

        def __delattr__(self, name):
            world.touch(self, '!' + name)
            object.__delattr__(self, name)

        ns['__getattribute__'] = __getattribute__
        ns['__setattr__'] = __setattr__
        ns['__delattr__'] = __delattr__
        cls = type('Rec%d' % index, (), ns)
        o = cls()
        for n, v in spec[2].items():
            object.__setattr__(o, n, self.value(v))
        self.rec_ids.add(id(o))
        self.keep.append(o)
        return o

    def behave(self, b, me, args):
        k = b[0]
        if k == 'self':
            return me
        if k == 'arg':
            return args[-1] if args else None
        if k == 'notimpl':
            return NotImplemented
        if k == 'raise':
            raise EXC[b[1]]('from the object')
        if k == 'same':        # the same fresh object every time
            d = object.__getattribute__(me, '__dict__')
            if '_same' not in d:
                d['_same'] = self.fresh()
            return d['_same']
        if k == 'iter':
            return PlainIter([self.value(x) for x in b[1]])
        return self.value(b)

    # -- recording checkers -------------------------------------------------
    def exc(self, kind, ci, name, obj):
        """The one exception checker ci raises for this name and object."""
        key = (ci, kind, name if isinstance(name, str) else repr(name), id(obj))
        e = self.excs.get(key)
        if e is None:
            self.keep.append(obj)
            cls = EXC[kind]
            if issubclass(cls, Unauthorized):
                e = cls(obj, name, 'perm')
            elif issubclass(cls, ForbiddenAttribute):
                e = cls(name, obj)
            else:
                e = cls('denied', name)
            self.excs[key] = e
        e.__traceback__ = None
        e.__context__ = None
        return e

    def make_checker(self, spec, ci):
        kind, get, set_, default, mode = spec
        world = self

        def verdict(table, which, obj, name):
            v = table.get(name, default)
            world.log.append(('chk', which, obj, name, v))
            if v != 'ok':
                e = world.exc(v, ci, name, obj)
                world.log.append(('exc', e))
                raise e

        def child(value):
            if isinstance(value, Proxy) or type(value) in BASIC:
                return value
            if mode == 'ident':
                return value
            if mode == 'token':
                return Token(value)
            return Proxy(value, me[0])

        def do_proxy(value):
            world.mute += 1
            try:
                r = child(value)
            finally:
                world.mute -= 1
            world.log.append(('proxy', value, r))
            return r

        me = []
        if kind in ('rec', 'map'):
            class RecChecker:
                def check(self, obj, name):
                    verdict(get, 'get', obj, name)
                    return CHECKED

                def check_getattr(self, obj, name):
                    verdict(get, 'get', obj, name)
                    return CHECKED

                def check_setattr(self, obj, name):
                    verdict(set_, 'set', obj, name)
                    return CHECKED

                def proxy(self, value):
                    return do_proxy(value)

                if kind == 'map':
                    __setitem__ = check
                    __getitem__ = proxy
            c = RecChecker()
        elif kind == 'sub':
            class SubChecker(Checker):
                def check(self, obj, name):
                    verdict(get, 'get', obj, name)
                    return CHECKED
                __setitem__ = check

                def check_getattr(self, obj, name):
                    verdict(get, 'get', obj, name)
                    return CHECKED

                def check_setattr(self, obj, name):
                    verdict(set_, 'set', obj, name)
                    return CHECKED

                def proxy(self, value):
                    return do_proxy(value)
                __getitem__ = proxy
            c = SubChecker({}, {})
        elif kind in ('real', 'comb'):
            c = Checker(NameMap(get, default, 'g%d:' % ci),
                        NameMap(set_, default, 's%d:' % ci))
            if kind == 'comb':
                refuse = {n: 'x:' + n for n in ALLNAMES | set(get) | set(set_)}
                c = CombinedChecker(Checker(refuse, dict(refuse)), c)
        else:
            raise KeyError(kind)
        me.append(c)
        return c

    def install_policy(self):
        """An interaction answering for the 'real' checkers."""
        world = self

        class Policy:
            def __init__(self, *p):
                pass

            def checkPermission(self, permission, obj):
                which, name = permission.split(':', 1)
                if which == 'x':
                    return False
                ci = int(which[1:])
                spec = world.case['checkers'][ci]
                v = spec[1 if which[0] == 'g' else 2].get(name, spec[3])
                kind = 'get' if which[0] == 'g' else 'set'
                world.log.append(('chk', kind, obj, name, v))
                return v == 'ok'

        management.setSecurityPolicy(Policy)
        management.newInteraction()

    # -- operations -----------------------------------------------------------
    def run(self, op):
        """-> ('ok', value) or ('exc', exception)."""
        f = OPS[op[0]]
        args = [self.value(a) if isinstance(a, list) else a for a in op[1:]]
        self.args = args
        try:
            return 'ok', f(*args)
        except Skip:
            return 'skip', None
        except BaseException as e:
            if type(e) is KeyboardInterrupt and e.args != () and \
                    e.args[0] not in ('denied', 'from the object'):
                raise
            return 'exc', e


class NameMap(dict):
    """name -> permission naming the checker, the path and the name.

    A real checker reads it with plain dictionary lookups, so all names are
    put in beforehand.
    """

    def __init__(self, table, default, prefix):
        dict.__init__(self)
        for n in ALLNAMES | set(table):
            self[n] = prefix + n


ALLNAMES = (set(SPECIALS) | set(ATTRS)
            | {'__class__', '__dict__', '__doc__', '__module__', '__3pow__',
               '__reduce__', '__reduce_ex__', '__bytes__', '__format__',
               '__getstate__', '__copy__', '__deepcopy__', '__name__',
               '__complex__', '__round__', '__reversed__', '__index__',
               '__fspath__', '__missing__', '__sizeof__', '__providedBy__',
               '__provides__', '__conform__', '__enter__', '__exit__',
               '__await__', '__init__', '__new__', '__set_name__', '__get__',
               '__foo__'} | {m for l in METHODS.values() for m in l})


def c_getitem(o, i):
    import ctypes
    f = ctypes.pythonapi.PySequence_GetItem
    f.restype = ctypes.py_object
    f.argtypes = [ctypes.py_object, ctypes.c_ssize_t]
    return f(ctypes.py_object(o), i)


def c_setitem(o, i, v):
    import ctypes
    f = ctypes.pythonapi.PySequence_SetItem
    f.restype = ctypes.c_int
    f.argtypes = [ctypes.py_object, ctypes.c_ssize_t, ctypes.py_object]
    f(ctypes.py_object(o), i, ctypes.py_object(v))


def c_delitem(o, i):
    import ctypes
    f = ctypes.pythonapi.PySequence_DelItem
    f.restype = ctypes.c_int
    f.argtypes = [ctypes.py_object, ctypes.c_ssize_t]
    f(ctypes.py_object(o), i)


def star(o):
    def f(*a):
        return a
    return f(*o)


def starstar(o):
    def f(**a):
        return a
    return f(**o)


def unpack(o):
    a, *b = o
    return b


def limited(it, n=20):
    out = []
    for x in it:
        out.append(x)
        if len(out) >= n:
            break
    return out


def pow3(a, b, c):
    n = removeSecurityProxy(b)
    if removeSecurityProxy(c) is None and type(n) is int and n > 40:
        raise Skip
    return pow(a, b, c)


def setop(o, k, v):
    o[k] = v


def delop(o, k):
    del o[k]


OPS = {
    'getattr': lambda o, n: getattr(o, n),
    'getattrd': lambda o, n: getattr(o, n, None),
    'hasattr': lambda o, n: hasattr(o, n),
    'setattr': lambda o, n, v: setattr(o, n, v),
    'delattr': lambda o, n: delattr(o, n),
    'call': lambda o, *a: o(*a),
    'callkw': lambda o, *a: o(*a[:-1], key=a[-1]),
    'getitem': lambda o, k: o[k],
    'setitem': setop,
    'delitem': delop,
    'iter': lambda o: iter(o),
    'next': lambda o: next(o),
    'len': lambda o: len(o),
    'contains': lambda o, x: x in o,
    'hash': lambda o: hash(o),
    'bool': lambda o: bool(o),
    'str': lambda o: str(o),
    'repr': lambda o: repr(o),
    'int': lambda o: int(o),
    'float': lambda o: float(o),
    'index': lambda o: operator.index(o),
    'pow3': pow3,
    'length_hint': lambda o: operator.length_hint(o, 7),
    # C level entries with slots of their own
    'sq_item': c_getitem,
    'sq_ass_item': c_setitem,
    'sq_del_item': c_delitem,
    # compound ones
    'list': lambda o: limited(o),
    'unpack': unpack,
    'tuple': lambda o: tuple(zip(o, range(20))),
    'star': lambda o: star(zip(o, range(20))),
    'starstar': starstar,
    'dict': lambda o: dict(o),
    'subscript_of': lambda o: list(range(10))[o],
    'slice_of': lambda o: list(range(10))[o:],
    'range': lambda o: tuple(range(o)[:3]),
    'hex': lambda o: hex(o),
    'chr': lambda o: chr(o),
    'repeat': lambda o: [0] * o,
    'concat': lambda o: [0] + o,
    'percent_d': lambda o: '%d' % o,
    'percent_s': lambda o: '%s' % o,
    'format': lambda o: format(o),
    'fstring': lambda o: f'{o!r}{o!s}',
    'formatattr': lambda o: '{0.a}'.format(o),
    'formatitem': lambda o: '{0[a]}'.format(o),
    'join': lambda o: ','.join(x for x, _ in zip(o, range(20))),
    'sum': lambda o: sum(x for x, _ in zip(o, range(20))),
    'isinstance': lambda o: isinstance(o, Plain),
    'countOf': lambda o, x: operator.countOf(zip(o, range(20)), x),
    'reversed': lambda o: limited(reversed(o)),
    'round': lambda o: round(o),
    'floor': lambda o: __import__('math').floor(o),
    'sqrt': lambda o: __import__('math').sqrt(o),
    'bytes': lambda o: bytes(limited(o)),
    'complexpair': lambda o: complex(1.0, o),
    'divmodr': lambda o: divmod(7, o),
    'iconcat': lambda o, x: operator.iconcat(o, x),
    'opconcat': lambda o, x: operator.concat(o, x),
}


def bounded(f, b):
    def g(x, y):
        m, n = removeSecurityProxy(x), removeSecurityProxy(y)
        for q in (m, n):
            if type(q) is int and not -3000 < q < 3000:
                raise Skip
        if b == 'pow' and type(n) is int and n > 40:
            raise Skip
        return f(x, y)
    return g


for _b in BIN:
    OPS[_b] = BINF[_b]
for _b in IOPS:
    OPS['i' + _b] = IOPF[_b]
for _b in ('pow', 'ipow', 'lshift', 'ilshift', 'mul', 'imul'):
    OPS[_b] = bounded(OPS[_b], _b.lstrip('i') if _b != 'imul' else 'mul')
for _c in CMP:
    OPS[_c] = getattr(operator, _c)
for _u in UN:
    OPS[_u] = getattr(operator, _u)

# operation -> the name its first question must carry, for an operand of the
# given position being the proxy that is asked
FIRST = {'call': '__call__', 'callkw': '__call__', 'getitem': '__getitem__',
         'setitem': '__setitem__', 'delitem': '__delitem__',
         'iter': '__iter__', 'next': '__next__', 'len': '__len__',
         'contains': '__contains__', 'str': '__str__', 'repr': '__repr__',
         'int': '__int__', 'float': '__float__', 'index': '__index__',
         'pow3': '__pow__', 'sq_item': '__getitem__',
         'sq_ass_item': '__setitem__', 'sq_del_item': '__delitem__',
         'list': '__iter__', 'unpack': '__iter__', 'tuple': '__iter__',
         'star': '__iter__', 'subscript_of': '__index__',
         'slice_of': '__index__', 'range': '__index__', 'hex': '__index__',
         'chr': '__index__', 'repeat': '__rmul__', 'concat': '__radd__',
         'percent_s': '__str__', 'format': '__str__', 'fstring': '__repr__',
         'formatattr': 'a', 'formatitem': '__getitem__', 'join': '__iter__',
         'sum': '__iter__', 'countOf': '__iter__', 'sqrt': '__float__',
         'divmodr': '__rdivmod__', 'bytes': '__iter__'}
for _b in BIN + UN:
    FIRST[_b] = '__%s__' % _b
for _b in IOPS:
    FIRST['i' + _b] = '__i%s__' % _b
PRIMITIVE = set(BIN) | {'i' + b for b in IOPS} | set(UN) | {
    'getattr', 'setattr', 'delattr', 'call', 'callkw', 'getitem', 'setitem',
    'delitem', 'iter', 'next', 'len', 'contains', 'int', 'float', 'index',
    'pow3', 'sq_item', 'sq_ass_item', 'sq_del_item'}


def reached_by(which, name):
    """What an allowed question lets happen to the object."""
    if which == 'set':
        return {'=' + name, '!' + name}
    s = {name, '.' + name, '__getattr__'}
    core = name[2:-2] if name[:2] == name[-2:] == '__' else ''
    if core in ('mul', 'imul', 'rmul'):
        s |= {'__index__'}      # repeats a sequence
    if name == '__3pow__':
        s |= {'__pow__'}
    if core[:1] == 'i' and core[1:] in IOPS:
        # an in-place operator falls back on the others
        s |= {'__%s__' % core[1:]}
    elif core[:1] == 'r' and core[1:] in BIN:
        # the same object on both sides: only the forward method is tried
        s |= {'__%s__' % core[1:]}
    elif name == '__contains__':
        s |= {'__iter__', '__next__', '__getitem__'}
    elif name == '__iter__':
        s |= {'__getitem__'}
    elif name == '__str__':
        s |= {'__repr__'}
    elif name in ('__int__', '__float__'):
        s |= {'__index__'}
    elif name in ('__getitem__', '__setitem__', '__delitem__'):
        s |= {'__len__'}        # negative positions given at C level
    return s

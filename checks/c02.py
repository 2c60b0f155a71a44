"""C02: what a permitted operation returns is itself protected."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'property-based testing: generated operation programs, '
                 'identity of results with what the checker\'s proxying gave',
    'note': 'Exploration: every result of generated operations is traced to '
            'the value the target returned and to what the checker made of '
            'it; compiled and pure.  Trusts the recording targets.',
    'assumptions': ['an operation on two bare operands is not judged'],
}
from harness.core import Lazy, Test, rep, require      # noqa: E402
from harness import gen                                # noqa: E402
from harness import universe as U                      # noqa: E402
from hypothesis import strategies as st                # noqa: E402
import zope.security.checker as zc                     # noqa: E402
from zope.security.proxy import Proxy, ProxyFactory, getChecker, removeSecurityProxy  # noqa: E402

PROXIED = set(U.BIN) | set(U.UN) | {'getattr', 'call', 'callkw', 'getitem',
                                    'iter', 'next', 'pow3', 'sq_item',
                                    'repeat', 'concat', 'divmodr'}
PLAIN_RESULT = {'len': int, 'hash': int, 'bool': bool, 'contains': bool,
                'length_hint': int, 'int': int, 'index': int, 'float': float,
                'str': str, 'repr': str, 'format': str, 'fstring': str,
                'hasattr': bool, 'isinstance': bool, 'setattr': type(None),
                'delattr': type(None), 'setitem': type(None),
                'delitem': type(None), 'sq_ass_item': type(None),
                'sq_del_item': type(None)}


def bare(x, depth=0):
    """Something bare in x, which the caller may have put together itself."""
    if isinstance(x, Proxy) or type(x) in U.BASIC or depth > 4:
        return None
    if type(x) in (list, tuple):
        for y in x:
            b = bare(y, depth + 1)
            if b is not None:
                return b
        return None
    if type(x) is dict:
        return bare(list(x.keys()), depth) or bare(list(x.values()), depth)
    if type(x) in (range, type(Ellipsis), type(NotImplemented)):
        return None
    return [x]


def show(events):
    return ' '.join('%s:%s' % (e[0], rep(e[2:])) for e in events
                    if e[0] in ('ret', 'proxy'))[:500]


def judged(w, op):
    """Is the first question of the operation one for a protected object?"""
    a = w.args
    if isinstance(a[0], Proxy):
        return True
    return (len(a) > 1 and isinstance(a[1], Proxy)
            and type(a[0]) in (int, float, type(None))
            and (op[0] in U.BIN or op[0][1:] in U.IOPS or op[0] in U.CMP))


def run(case, ctx):
    U.reset()
    w = U.World(case, ctx.pure)
    w.install_policy()
    for op in case['ops']:
        start = len(w.log)
        kind, value = w.run(op)
        events = w.log[start:]
        for i, p in enumerate(w.proxies):
            require(removeSecurityProxy(p) is w.objs[i],
                    '%s made proxy %d guard another object', op[0], i)
            require(getChecker(p) is w.checkers[i % len(w.checkers)],
                    '%s changed the checker of proxy %d', op[0], i)
        if kind != 'ok' or not judged(w, op):
            continue
        w.results.append(value)
        name = op[0]
        spec = case['checkers'][0]
        loose = any(c[4] == 'ident' for c in case['checkers'])
        recording = all(
            any(getChecker(a) is c for c in w.checkers)
            and case['checkers'][w.checkers.index(getChecker(a))][0] in ('rec', 'map', 'sub')
            for a in w.args if isinstance(a, Proxy)) and spec
        prox = [e for e in events if e[0] == 'proxy']
        p = w.args[0]
        if name in PLAIN_RESULT and isinstance(p, Proxy):
            require(type(value) is PLAIN_RESULT[name]
                    or name in ('str', 'repr', 'format', 'int', 'float', 'index')
                    and type(value) in (str, int, float),
                    '%s gave %r', name, value)
            continue
        if name in U.CMP:
            if value is True or value is False:
                continue
            ctx.label('comparison with a non-boolean')
        if name[:1] == 'i' and name[1:] in U.IOPS and isinstance(p, Proxy):
            target = removeSecurityProxy(p)
            if value is p:
                rets = [e for e in events if e[0] == 'ret' and e[2] in (
                    '__%s__' % name, '__%s__' % name[1:])]
                if id(target) in w.rec_ids and rets:
                    require(any(e[3] is target or e[3] is p for e in rets),
                            '%s returned the same proxy although the object '
                            'returned %r', name, rets[-1][3])
                ctx.label('in place, same object')
                ctx.nontrivial()
                continue
            rets = [e for e in events if e[0] == 'ret' and e[1] is target]
            if rets and rets[-1][3] is target and events.index(rets[-1]) == len(events) - 1:
                require(False, '%s: the object returned itself but the caller '
                        'got %r', name, value)
            ctx.label('in place, new object')
        if recording and (name in PROXIED or name in U.CMP or name[1:] in U.IOPS):
            require(prox, '%s: the result %r never went through the checker',
                    name, value)
            require(prox[-1][2] is value, '%s: the caller got %r, not what the '
                    'checker made of the result (%s)', name, value, Lazy(show, events))
            # and what the checker was given is what the object gave
            rets = [e for e in events if e[0] == 'ret']
            first = prox[0]
            if rets and name not in ('iter', 'getattr', 'concat', 'repeat') and \
                    rets[-1][2] not in U.CONV:
                before = [e for e in events[:events.index(first)] if e[0] == 'ret']
                if before and before[-1][2].strip('_').lstrip('r').lstrip('i') in name:
                    require(before[-1][3] is first[1],
                            '%s: the object returned %r but the checker was '
                            'given %r', name, before[-1][3], first[1])
                    ctx.label('result traced to the object')
            if name == 'getattr' and id(removeSecurityProxy(p)) in w.rec_ids:
                d = object.__getattribute__(removeSecurityProxy(p), '__dict__')
                if op[2] in d and op[2] != '__class__':
                    require(prox[-1][1] is d[op[2]], 'getattr: checker was '
                            'given %r instead of the attribute', prox[-1][1])
            ctx.nontrivial()
            ctx.label(name)
        if not loose and not any(c[4] == 'token' for c in case['checkers']):
            if name in ('sum', 'countOf', 'getattrd'):
                continue
            b = bare(value)
            if b is not None and not any(b[0] is a for a in w.args):
                require(False, '%s handed out %s bare', name, Lazy(rep, b[0]))
            ctx.nontrivial(not type(value) in U.BASIC)
            ctx.label('protected result' if isinstance(value, Proxy) else 'other')


# -- results in disguise ------------------------------------------------------

LIES = {'Proxy': Proxy, 'int': int, 'str': str, 'bool': bool, 'tuple': tuple,
        'NoneType': type(None), 'Exception': Exception, 'type': type,
        'Checker': zc.Checker, 'object': object, 'float': float, 'dict': dict}
BASES = {'object': object, 'int': int, 'str': str, 'list': list, 'dict': dict,
         'tuple': tuple, 'float': float, 'bytes': bytes, 'set': set,
         'frozenset': frozenset}


class Meta(type):
    """Its classes are said to be the class of everything."""

    def __instancecheck__(cls, x):
        return True

    def __subclasscheck__(cls, x):
        return True


def disguised(spec):
    """An object that makes itself look like something else."""
    base, lie, how, traits = spec
    ns = {}
    if 'eq' in traits:
        ns['__eq__'] = lambda self, other: True
        ns['__ne__'] = lambda self, other: False
        ns['__hash__'] = lambda self: hash(None)
    if 'false' in traits:
        ns['__bool__'] = lambda self: False
    if 'nohash' in traits:
        ns['__hash__'] = None
    if 'getattr' in traits:
        def answer(self, name):
            if name == '__Security_checker__':
                raise AttributeError(name)
            return LIES[lie]
        ns['__getattr__'] = answer
    if 'nochecker' in traits:
        ns['__Security_checker__'] = None
    if 'name' in traits:
        ns['__module__'] = LIES[lie].__module__
        ns['__qualname__'] = LIES[lie].__qualname__
    if how == 'property':
        ns['__class__'] = property(lambda self: LIES[lie])
    elif how == 'class':
        ns['__class__'] = LIES[lie]
    cls = (Meta if 'meta' in traits else type)(
        LIES[lie].__name__ if 'name' in traits else 'R', (BASES[base],), ns)
    return cls()


class Holder:
    """Gives one and the same thing for everything that may be done with it."""

    def __init__(self, thing):
        self.thing = thing
        self.__module__ = thing
        self.left = 1

    def method(self, *args, **kw):
        return self.thing

    def __iter__(self):
        return iter([self.thing])

    def __next__(self):
        return self.thing

    def __getattr__(self, name):
        if name == '__Security_checker__':
            raise AttributeError(name)
        return self.thing


for _n in ('__call__ __getitem__ __neg__ __pos__ __abs__ __invert__ __pow__ '
           '__rpow__ __eq__ __ne__ __lt__ __le__ __gt__ __ge__').split() + [
               '__%s%s__' % (a, b) for b in U.BIN for a in ('', 'r')] + [
               '__i%s__' % b for b in U.IOPS]:
    setattr(Holder, _n, lambda self, *args, **kw: self.thing)
Holder.__hash__ = object.__hash__


class Left:
    """Leaves a protected modulus to the one who protects it."""

    def __init__(self, thing):
        self.thing = thing

    def __pow__(self, other, modulus=None):
        if issubclass(type(modulus), Proxy):
            return NotImplemented
        return self.thing


GIVES = {'getattr': lambda p, h: p.thing, 'dynamic': lambda p, h: p.whatever,
         'module': lambda p, h: p.__module__, 'call': lambda p, h: p(),
         'callkw': lambda p, h: p(1, a=2), 'method': lambda p, h: p.method(),
         'getitem': lambda p, h: p[0], 'slice': lambda p, h: p[0:1],
         'sq_item': lambda p, h: U.c_getitem(p, 1000),
         'iter': lambda p, h: next(iter(p)), 'next': lambda p, h: next(p),
         'pow3': lambda p, h: pow(p, 2, 3), 'rpow3': lambda p, h: pow(2, p, 3),
         'modulus': lambda p, h: pow(Left(h.thing), 2, p),
         'proxy': lambda p, h: getChecker(p).proxy(h.thing),
         'factory': lambda p, h: ProxyFactory(h.thing),
         'again': lambda p, h: ProxyFactory(ProxyFactory(h.thing))}
for _n in U.BIN:
    GIVES[_n] = lambda p, h, f=U.BINF[_n]: f(p, 7)
    GIVES['r' + _n] = lambda p, h, f=U.BINF[_n]: f(None, p)
    GIVES['2' + _n] = lambda p, h, f=U.BINF[_n]: f(p, p)
for _n in U.IOPS:
    GIVES['i' + _n] = lambda p, h, f=U.IOPF[_n]: f(p, 7)
for _n in U.CMP:
    GIVES[_n] = lambda p, h, f=U.op_of(_n): f(p, 7)
for _n in ('neg', 'pos', 'abs', 'invert'):
    GIVES[_n] = lambda p, h, f=getattr(U.operator, _n): f(p)


def all_names():
    return zc.Checker(dict.fromkeys(
        ['thing', 'whatever', 'method', '__module__', '__3pow__', '__iter__',
         '__next__'] + [n for n in dir(Holder) if n.startswith('__')],
        zc.CheckerPublic))


CHECKERS = {
    'plain': all_names, 'default': lambda: zc.MultiChecker([(
        list(all_names().get_permissions), zc.CheckerPublic)]),
    'combined': lambda: zc.CombinedChecker(zc.Checker({}), all_names()),
    'sub': lambda: type('Sub', (zc.Checker,), {})(all_names().get_permissions),
}


def run_disguised(case, ctx):
    U.reset()
    thing = disguised(case['thing'])
    for how in case['ops']:
        if how == 'modulus' and ctx.pure:
            continue                    # (only the compiled proxies have it)
        h = Holder(thing)
        p = Proxy(h, CHECKERS[case['checker']]())
        try:
            r = GIVES[how](p, h)
        except TypeError as e:
            # (None does not know how)
            require(how[0] == 'r', '%s: %s', how, Lazy(rep, e))
            continue
        require(issubclass(type(r), Proxy), '%s handed out %s bare', how,
                Lazy(rep, case['thing']))
        require(removeSecurityProxy(r) is thing,
                '%s protects something else than %s', how,
                Lazy(rep, case['thing']))
        require(getChecker(r) is not None and getChecker(r) is not
                getChecker(p), '%s: checked by %s', how, Lazy(rep, getChecker(r)))
        ctx.label(how)
        ctx.nontrivial()
    ctx.label(case['thing'][0], 'as ' + case['thing'][1])


disguises = st.fixed_dictionaries({
    'thing': st.tuples(
        st.sampled_from(sorted(BASES)), st.sampled_from(sorted(LIES)),
        st.sampled_from(['no', 'property', 'property', 'class']),
        st.lists(st.sampled_from(['eq', 'false', 'nohash', 'getattr',
                                  'nochecker', 'name', 'meta']), max_size=3,
                 unique=True)).map(list),
    'checker': st.sampled_from(sorted(CHECKERS)),
    'ops': st.lists(st.sampled_from(sorted(GIVES)), min_size=1, max_size=5)})


TESTS = [
    Test('disguised', disguises, run_disguised, quick=4000, thorough=60000,
         rule='a result that lies about its class, is equal to everything, '
              'false, derived from a basic type or the like came out of an '
              'operation'),
    Test('program', gen.world(default='ok', modes=('wrap', 'token', 'wrap')),
         run, quick=8000, thorough=250000,
         rule='program of 1-6 mostly permitted operations; counted if at '
              'least one result went through a checker, was an in-place '
              'result, or was found protected'),
    Test('matched', gen.matched(default='ok', modes=('wrap', 'token', 'wrap')),
         run, quick=8000, thorough=150000,
         rule='a built-in object and operations that suit it; counted like '
              'the programs'),
]

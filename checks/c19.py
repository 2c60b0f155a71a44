"""C19: a proxy is transparent where permitted, and unwraps exactly."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'differential testing: the same generated program on bare '
                 'objects and on their protected twins',
    'note': 'Exploration: programs of up to 6 operations on recording and '
            'built-in objects, once bare and once protected with everything '
            'permitted (results, exception types, states compared) or with '
            'anything denied (comparisons, hash, truth, strings, unwrapping).',
    'assumptions': ['operations for which Python consults the type of the '
                    'operand itself (round, reversed, str methods with '
                    'protected arguments) are not compared'],
}
import re                                              # noqa: E402
from hypothesis import strategies as st                # noqa: E402
from harness import gen                                # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Lazy, Test, rep, require      # noqa: E402
from zope.location import LocationProxy                # noqa: E402
from zope.proxy import ProxyBase                       # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security import proxy as zp                  # noqa: E402
from zope.security.interfaces import ForbiddenAttribute  # noqa: E402
from zope.security.proxy import Proxy, getChecker, removeSecurityProxy  # noqa: E402

LEFT_OUT = ('round', 'reversed', 'iconcat', 'opconcat', 'percent_d',
            'isinstance', 'complexpair', 'floor', 'bytes')
OPS = tuple(o for o in gen.ALLOPS if o not in LEFT_OUT)
UNCHECKED = tuple(U.CMP) + ('hash', 'bool', 'str', 'repr')


class Bare(U.World):
    """The same world without protection."""

    def __init__(self, case, pure):
        U.World.__init__(self, case, pure)
        self.proxies = list(self.objs)


def canon(w, x, depth=0):
    """What x is, whichever of the two worlds it lives in."""
    x = removeSecurityProxy(x)
    for i, o in enumerate(w.objs):
        if x is o:
            return ('obj', i)
    t = type(x)
    if depth > 5:
        return ('deep', t.__name__)
    if t is str:
        return ('str', re.sub('0x[0-9a-fA-F]+|(?<=<Plain )[0-9]+',
                              'ADDR', x))
    if t is float and x != x:
        return ('nan',)
    if t in (int, float, bool, complex, bytes, type(None), bytearray, range,
             slice, type(Ellipsis), type(NotImplemented)):
        return (t.__name__, repr(x) if t is not slice else [
            canon(w, y, depth + 1) for y in (x.start, x.stop, x.step)])
    if t in (list, tuple):
        return (t.__name__, [canon(w, y, depth + 1) for y in x])
    if t in (set, frozenset):
        return (t.__name__, sorted((repr(canon(w, y, depth + 1)) for y in x)))
    if t is dict:
        return (t.__name__, [(canon(w, a, depth + 1), canon(w, b, depth + 1))
                             for a, b in x.items()])
    if t in (U.Plain, U.PlainIter):
        return (t.__name__, x.n if x.n <= w.built else 'new')
    if t in (type([].append), type(w.run)):
        return ('method', x.__name__, canon(w, x.__self__, depth + 1))
    if t is type:
        return ('type', x.__name__)
    return ('other', t.__name__)


def state(w):
    out = []
    for o in w.objs:
        if id(o) in w.rec_ids:
            d = object.__getattribute__(o, '__dict__')
            out.append(sorted((k, repr(canon(w, v))) for k, v in d.items()))
        elif type(o) in (list, tuple, dict, set, frozenset, bytearray):
            out.append([type(o).__name__, canon_inside(w, o)])
        else:
            out.append(type(o).__name__)
    return out


def canon_inside(w, o):
    if type(o) is dict:
        return [(canon(w, a), canon(w, b)) for a, b in o.items()]
    if type(o) is bytearray:
        return bytes(o)
    if type(o) in (set, frozenset):
        return sorted(repr(canon(w, x)) for x in o)
    return [canon(w, x) for x in o]


def exctype(e):
    for t in (KeyError, IndexError):
        if type(e) is t:
            return t.__name__
    return type(e).__name__


SEQUENCE = (list, tuple, str, bytes, bytearray)


def comparable(w, op):
    """Does Python give a protected operand the chance to be transparent?"""
    args = [a for a in w.args]
    first = removeSecurityProxy(args[0])
    rest = [a for a in args[1:] if isinstance(a, Proxy)]
    name = op[0]
    if name in ('sq_item', 'sq_ass_item', 'sq_del_item'):
        return type(first) in SEQUENCE
    if name in ('call', 'callkw', 'contains', 'getitem', 'setitem', 'delitem',
                'setattr'):
        # the real object gets the protected operand
        return not rest or id(first) in w.rec_ids
    if name == 'percent_s' and type(first) in (tuple, dict):
        return False        # Python treats these in a way of its own
    if (name in ('mod', 'imod') and rest
            and type(first) in (str, bytes, bytearray)):
        return False        # formatting sees the protected operand
    if name[:1] == 'i' and name[1:] in U.IOPS and rest:
        # in-place methods of built-in types want built-in operands
        return id(first) in w.rec_ids
    if name == 'pow3' and rest:
        return False        # a protected modulus or exponent
    if name == 'slice_of' and first is None:
        return False        # no bound at all
    if name == 'sqrt' and type(first) in (str, bytes, bytearray):
        return False        # a conversion for the proxy, refused for a string
    if (name in ('getattr', 'getattrd', 'hasattr') and w.pure
            and op[2][:2] == '__' and hasattr(Proxy, op[2])):
        return False        # the pure proxy has these itself
    return True


def one(a, b, op, where, ctx):
    """Run op in both worlds; -> False if they cannot be compared any more"""
    before = [state(a), state(b)]
    ka, va = a.run(op)
    if not comparable(a, op):
        kb, vb = b.run(op)
        return state(a) == state(b)
    kb, vb = b.run(op)
    if ka == 'skip' or kb == 'skip':
        return True
    require(ka == kb, '%s: %s gives %s %s but bare %s %s', where, op,
            ka, Lazy(rep, va), kb, Lazy(rep, vb))
    if ka == 'exc':
        ta, tb = exctype(va), exctype(vb)
        if not (ta == tb or a.pure and ta == 'AttributeError'
                and isinstance(vb, AttributeError)):
            require(False, '%s: %s raises %s %s but bare %s %s', where, op,
                    ta, Lazy(rep, va), tb, Lazy(rep, vb))
        ctx.label('error')
    else:
        ca, cb = canon(a, va), canon(b, vb)
        if op[0] == 'hash' and ca != cb:
            # identity hashes differ between the two worlds
            o = removeSecurityProxy(a.args[0])
            if '__hash__' not in type(o).__dict__ or id(o) not in a.rec_ids \
                    or type(o).__hash__ is object.__hash__:
                cb = ('int', repr(hash(o)))
        require(ca == cb, '%s: %s gives %s but bare %s', where, op, ca, cb)
        ctx.label(op[0])
        if op[0] not in ('getattrd', 'hasattr', 'isinstance'):
            ctx.nontrivial()
        # an in-place operator on the object itself stays with the proxy
        if op[0][:1] == 'i' and op[0][1:] in U.IOPS and isinstance(a.args[0], Proxy):
            if vb is b.args[0] and not isinstance(a.args[1], Proxy):
                require(va is a.args[0], '%s: %s lost the proxy', where, op)
    sa, sb = state(a), state(b)
    require(sa == sb, '%s: %s leaves %s but bare %s (before %s)', where, op,
            sa, sb, before)
    keep = (ka == 'ok' and op[0] != 'hash'
            and not any(type(v) is str and ('0x' in v or '<Plain' in v) for v in (va, vb)))
    a.results.append(va if keep else None)
    b.results.append(vb if keep else None)
    return True


def own_results(t):
    """Objects that do not return protected ones by themselves."""
    if t[0] != 'rec':
        return t
    return ['rec', {n: ['o'] if b[0] == 'prox' else b for n, b in t[1].items()}, t[2]]


def run_twin(case, ctx):
    U.reset()
    case = dict(case, checkers=[[c[0], {}, {}, 'ok', 'wrap'] for c in case['checkers']],
                targets=[own_results(t) for t in case['targets']])
    a = U.World(case, ctx.pure)
    a.built = a.nfresh
    b = Bare(case, ctx.pure)
    b.built = b.nfresh
    for n, op in enumerate(case['ops']):
        if not one(a, b, op, 'step %d' % n, ctx):
            return


def run_denied(case, ctx):
    """Whatever the checker says."""
    U.reset()
    a = U.World(case, ctx.pure)
    a.install_policy()
    a.built = a.nfresh
    b = Bare(case, ctx.pure)
    b.built = b.nfresh
    for i, p in enumerate(a.proxies):
        o, c = a.objs[i], a.checkers[i % len(a.checkers)]
        n = len(a.log)
        require(removeSecurityProxy(p) is o, 'proxy %d unwraps to something else', i)
        require(getChecker(p) is c, 'proxy %d has another checker', i)
        require(removeSecurityProxy(o) is o, 'unwrapping changed a bare object')
        for f in (zp.getObject,) if hasattr(zp, 'getObject') else ():
            require(f(p) is o, 'getObject gives something else')
        for cls in (type(o), int, list, str, dict, Proxy, object, U.Plain,
                    (type(o), int), (int, str)):
            require(zp.isinstance(p, cls) is isinstance(o, cls)
                    and zp.isinstance(o, cls) is isinstance(o, cls),
                    'isinstance(proxy %d, %s)', i, cls)
        seen = [e for e in a.log[n:] if e[0] == 'chk']
        require(not seen, 'unwrapping asked the checker: %s', seen)
    for n, op in enumerate(case['ops']):
        where = 'step %d' % n
        if op[0] in ('str', 'repr'):
            if op[1][0] != 'prox':
                continue
            p = a.value(op[1])
            if not isinstance(p, Proxy):
                continue
            o = removeSecurityProxy(p)
            k = op[1][1] % len(a.proxies)
            spec = case['checkers'][k % len(case['checkers'])]
            v = spec[1].get('__%s__' % op[0], spec[3])
            if v == 'ok':
                one(a, b, op, where, ctx)
                continue
            if v not in ('Unauthorized', 'ForbiddenAttribute', 'Denied2'):
                continue
            start = len(a.log)
            kind, text = a.run(op)
            touched = [e[2] for e in a.log[start:] if e[0] == 'touch'
                       and e[1] is o and e[2] != '.__class__']
            require(not touched, '%s: a denied %s touched %s', where, op[0], touched)
            cls = type(o)
            want = '%s.%s' % (cls.__module__, cls.__name__)
            require(kind == 'ok', '%s: a denied %s raised %r', where, op[0], text)
            m = re.fullmatch(r'<security proxied (\S+) instance at 0x0*([0-9a-fA-F]+)>', text)
            require(m and m.group(1) == want and int(m.group(2), 16) == id(o),
                    '%s: a denied %s gives %r', where, op[0], text)
            ctx.label('placeholder')
            ctx.nontrivial()
            continue
        # results of comparisons may be anything and are protected then
        if not one(a, b, op, where, ctx):
            return


# -- unwrapping anything -----------------------------------------------------
class Sub(Proxy):
    __slots__ = ()


class Liar:
    """Claims to be a proxy."""

    @property
    def __class__(self):
        return Proxy


class Dull:
    def __eq__(self, other):
        raise ZeroDivisionError
    __bool__ = __eq__
    __hash__ = None


VALUES = {
    'int': lambda: 5, 'none': lambda: None, 'str': lambda: 'x' * 3,
    'list': lambda: [1], 'dict': dict, 'tuple': lambda: (1,), 'liar': Liar,
    'dull': Dull, 'type': lambda: Proxy, 'checker': lambda: zc.Checker({}),
    'exc': lambda: ValueError('x'), 'func': lambda: canon, 'gen': lambda: (i for i in ()),
    'notimpl': lambda: NotImplemented, 'object': object}
unwrap_case = st.tuples(
    st.sampled_from(sorted(VALUES)),
    st.lists(st.sampled_from(['proxy', 'proxy', 'sub', 'loc', 'zproxy', 'factory',
                              'again', 'tuple']), max_size=4)).map(list)


class Comb(zc.CombinedChecker):
    pass


CHECKERS = [lambda: zc.Checker({}), lambda: zc.NamesChecker(['a']),
            lambda: Comb(zc.Checker({}), zc.Checker({})), object, lambda: 'text',
            lambda: [], lambda: 0, lambda: Liar(), lambda: Dull()]


def outcome(f, *args):
    try:
        return f(*args)
    except Exception as e:
        return type(e)


def isinstance_of(x, cls):
    return issubclass(type(x), cls)


def run_unwrap(case, ctx):
    U.reset()
    x = VALUES[case[0]]()
    keep = []
    for n, w in enumerate(case[1]):
        inner = x
        c = CHECKERS[(n + len(case[0])) % len(CHECKERS)]()
        if w in ('proxy', 'sub'):
            x = (Proxy if w == 'proxy' else Sub)(inner, c)
            require(removeSecurityProxy(x) is inner, 'layer %d unwraps to '
                    'something else', n)
            require(getChecker(x) is c, 'layer %d: another checker', n)
            ctx.nontrivial()
        elif w == 'factory':
            if isinstance_of(inner, Proxy):
                continue
            x = zc.ProxyFactory(inner, zc.Checker({}))
            require(removeSecurityProxy(x) is inner, 'layer %d unwraps to '
                    'something else', n)
        elif w == 'again':
            if not isinstance_of(inner, Proxy):
                continue
            x = zc.ProxyFactory(inner)
            require(x is inner, 'protected again')
        else:
            x = {'loc': LocationProxy, 'zproxy': ProxyBase,
                 'tuple': lambda o: (o,)}[w](inner)
            require(removeSecurityProxy(x) is x, 'something bare was unwrapped')
        keep.append((x, inner))
        for y in (x, inner):
            for cls in (Proxy, int, (Proxy, list), object, type(inner), Liar):
                u = removeSecurityProxy(y)
                if isinstance_of(u, Proxy):
                    continue
                require(outcome(zp.isinstance, y, cls) == outcome(isinstance, u, cls),
                        'isinstance disagrees with the original')
    if not case[1]:
        require(removeSecurityProxy(x) is x, 'a bare value was unwrapped')
    for bad in (x, 5, None, 'x'):
        if type(bad) not in (Proxy, Sub):
            try:
                c = getChecker(bad)
            except (TypeError, AttributeError):
                pass
            else:
                # transparent proxies pass it on
                require(type(bad) in (LocationProxy, ProxyBase),
                        'a bare %s has a checker', Lazy(rep, bad))
    for bad in ((5,), (5, None), (), (1, 2, 3)):
        try:
            Proxy(*bad)
        except (TypeError, ValueError):
            pass
        else:
            require(False, 'Proxy%r', bad)


KINDS = ('rec', 'map', 'sub')
TESTS = [
    Test('twin', gen.world(ops=OPS, kinds=KINDS, modes=('wrap',), default='ok'),
         run_twin, quick=8000, thorough=200000,
         rule='an operation on protected operands was compared with the bare one'),
    Test('matched', gen.matched(kinds=KINDS, modes=('wrap',), default='ok').filter(
        lambda c: not {o[0] for o in c['ops']} & set(LEFT_OUT)),
        run_twin, quick=8000, thorough=150000,
        rule='the same with operations that suit a built-in object'),
    Test('denied', gen.world(ops=UNCHECKED, modes=('wrap',), chain=False, max_ops=4),
         run_denied, quick=6000, thorough=100000,
         rule='a comparison, hash, truth value or string was compared'),
    Test('unwrap', unwrap_case, run_unwrap, quick=800, thorough=10000,
         rule='some layer is a protection'),
]

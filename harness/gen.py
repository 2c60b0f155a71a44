"""Hypothesis strategies for the universe of harness.universe (JSON data)."""
import functools

from hypothesis import strategies as st

from harness.names import ATTRS, BIN, CMP, CONV, EXCNAMES, IOPS, METHODS, SPECIALS, UN

cache = functools.lru_cache(maxsize=20000)


@cache
def pick(seq):
    return st.sampled_from(seq)


i_ = st.integers(-3, 12)
big = st.sampled_from([0, 1, -1, 2, 7, 10 ** 20, -2 ** 63, 255])
text = st.sampled_from(['', 'a', 'b', 'key', 'é', '\udc80', '%s', '{0}', '3'])

scalar = st.one_of(
    i_.map(lambda n: ['i', n]), big.map(lambda n: ['i', n]),
    st.sampled_from([0.0, 1.5, -2.25, 1e300]).map(lambda x: ['f', x]),
    text.map(lambda s: ['s', s]), st.sampled_from(['', 'a', 'xyz']).map(lambda s: ['y', s]),
    st.just(['n']), st.booleans().map(lambda b: ['b', b]))


def container(inner, n=3):
    return st.one_of(
        st.lists(inner, max_size=n).map(lambda l: ['l', l]),
        st.lists(inner, max_size=n).map(lambda l: ['t', l]),
        st.lists(st.tuples(scalar, inner).map(list), max_size=n).map(lambda l: ['d', l]),
        st.lists(scalar, max_size=n).map(lambda l: ['set', l]),
        st.lists(scalar, max_size=n).map(lambda l: ['fs', l]),
        st.sampled_from(['', 'abc']).map(lambda s: ['ba', s]))


plainvalue = st.recursive(st.one_of(scalar, scalar, st.just(['o'])), container,
                          max_leaves=5)
builtin_target = st.one_of(
    container(st.one_of(scalar, st.just(['o']))), scalar,
    container(scalar).map(lambda c: ['iterator', c]))

excname = st.sampled_from(EXCNAMES)
objexc = st.sampled_from(['ValueError', 'TypeError', 'AttributeError',
                          'KeyError', 'StopIteration', 'Custom',
                          'IndexError', 'OverflowError', 'Odd',
                          'ForbiddenAttribute', 'Unauthorized'])
anyresult = st.one_of(
    scalar, scalar, st.just(['o']), st.just(['self']), st.just(['arg']),
    st.just(['same']), st.just(['notimpl']),
    st.integers(0, 2).map(lambda k: ['prox', k]),
    container(st.one_of(scalar, st.just(['o']))),
    objexc.map(lambda e: ['raise', e]))
int_result = st.one_of(st.integers(0, 5).map(lambda n: ['i', n]),
                       objexc.map(lambda e: ['raise', e]))
str_result = st.one_of(st.sampled_from(['', 'text', 'é']).map(lambda s: ['s', s]),
                       objexc.map(lambda e: ['raise', e]))
bool_result = st.one_of(st.booleans().map(lambda b: ['b', b]),
                        objexc.map(lambda e: ['raise', e]))


@cache
def behaviour_for(name):
    core = name.strip('_')
    if core in ('len', 'hash'):
        return int_result
    if core == 'length_hint':
        return st.one_of(int_result, st.just(['notimpl']))
    if core in ('int', 'index'):
        return st.one_of(int_result, anyresult)
    if core == 'float':
        return st.one_of(st.just(['f', 2.5]), anyresult)
    if core in ('str', 'repr'):
        return st.one_of(str_result, str_result, st.just(['i', 3]))
    if core == 'bool':
        return bool_result
    if core == 'contains':
        return st.one_of(bool_result, st.just(['o']))
    if core in CMP:
        return st.one_of(bool_result, st.just(['notimpl']), anyresult)
    if core == 'iter':
        return st.one_of(
            st.lists(st.one_of(scalar, st.just(['o'])), max_size=3).map(lambda l: ['iter', l]),
            st.lists(st.one_of(scalar, st.just(['o'])), max_size=3).map(lambda l: ['iter', l]),
            st.just(['self']), anyresult)
    if core == 'getattr':
        return st.one_of(st.just(['raise', 'AttributeError']), anyresult)
    return anyresult


three = st.integers(0, 3)
some_specials = st.lists(st.sampled_from(SPECIALS), max_size=6)
some_attrs = st.dictionaries(st.sampled_from(ATTRS), plainvalue, max_size=3)


@cache
@st.composite
def rec_target(draw, boost=()):
    """A recording target; `boost` are specials it gets with probability."""
    names = set(draw(some_specials))
    for b in boost:
        if draw(three):
            names.add(b)
    sp = {n: draw(behaviour_for(n)) for n in sorted(names)}
    attrs = draw(some_attrs)
    return ['rec', sp, attrs]


def touched_by(op):
    """Specials worth defining on an operand of `op`."""
    if op in BIN:
        return ['__%s__' % op, '__r%s__' % op]
    if op[:1] == 'i' and op[1:] in IOPS:
        return ['__%s__' % op, '__%s__' % op[1:], '__r%s__' % op[1:]]
    if op in CMP:
        return ['__%s__' % o for o in CMP]
    if op in UN + CONV:
        return ['__%s__' % op]
    return {
        'call': ['__call__'], 'callkw': ['__call__'], 'getitem': ['__getitem__'],
        'setitem': ['__setitem__'], 'delitem': ['__delitem__'],
        'iter': ['__iter__'], 'next': ['__next__'], 'len': ['__len__'],
        'contains': ['__contains__', '__iter__'], 'hash': ['__hash__'],
        'bool': ['__bool__', '__len__'], 'str': ['__str__', '__repr__'],
        'repr': ['__repr__'], 'pow3': ['__pow__', '__rpow__'],
        'length_hint': ['__len__', '__length_hint__'],
        'sq_item': ['__getitem__'], 'sq_ass_item': ['__setitem__'],
        'sq_del_item': ['__delitem__'],
        'subscript_of': ['__index__'], 'slice_of': ['__index__'],
        'range': ['__index__'], 'hex': ['__index__'], 'chr': ['__index__'],
        'repeat': ['__rmul__', '__index__'], 'concat': ['__radd__', '__iter__'],
        'percent_d': ['__int__', '__index__'], 'percent_s': ['__str__'],
        'format': ['__str__'], 'fstring': ['__str__', '__repr__'],
        'formatattr': ['__getattr__'], 'formatitem': ['__getitem__'],
        'reversed': ['__len__', '__getitem__'], 'round': ['__index__'],
        'floor': ['__float__', '__index__'], 'sqrt': ['__float__'],
        'divmodr': ['__rdivmod__'], 'iconcat': ['__iadd__', '__add__', '__getitem__'],
        'opconcat': ['__add__', '__getitem__'],
        'dict': ['__iter__', '__getitem__'], 'starstar': ['__iter__', '__getitem__'],
    }.get(op, ['__iter__', '__next__', '__len__'])


ARITY1 = (['iter', 'next', 'len', 'hash', 'bool', 'str', 'repr', 'int',
           'float', 'index', 'length_hint', 'list', 'unpack', 'tuple', 'star',
           'starstar', 'dict', 'subscript_of', 'slice_of', 'range', 'hex',
           'chr', 'repeat', 'concat', 'percent_d', 'percent_s', 'format',
           'fstring', 'formatattr', 'formatitem', 'join', 'sum', 'isinstance',
           'reversed', 'round', 'floor', 'sqrt', 'bytes', 'complexpair',
           'divmodr'] + UN)
ARITY2 = (BIN + ['i' + b for b in IOPS] + CMP
          + ['contains', 'getitem', 'delitem', 'countOf', 'iconcat', 'opconcat'])
ALLOPS = ARITY1 + ARITY2 + ['setitem', 'getattr', 'getattrd', 'hasattr',
                            'setattr', 'delattr', 'call', 'callkw', 'pow3',
                            'sq_item', 'sq_ass_item', 'sq_del_item']
GETNAMES = ATTRS + ['__class__', '__dict__', '__len__', '__iter__',
                    '__call__', '__add__', '__getitem__', '__module__',
                    '__reduce__', '__str__', '__setitem__', '__index__',
                    '__length_hint__', '__next__', '__repr__', '__contains__',
                    '__iadd__', '__reduce_ex__', '__name__', '__providedBy__']


@cache
def operand(k):
    return st.one_of(
        scalar, st.integers(0, k - 1).map(lambda n: ['prox', n]),
        st.integers(0, k - 1).map(lambda n: ['prox', n]),
        st.integers(0, k - 1).map(lambda n: ['raw', n]),
        st.just(['l', [['i', 1]]]), st.just(['o']))


@cache
def subject(k, chain):
    opts = [st.integers(0, k - 1).map(lambda n: ['prox', n])] * 4
    if chain:
        opts.append(st.integers(0, 5).map(lambda n: ['res', n]))
    return st.one_of(*opts)


boolean = st.booleans()
upto2 = st.integers(0, 2)
tenth = st.integers(0, 9)
# (numbers from 257 on are objects of their own)
place = st.one_of(upto2, st.sampled_from([300, 1000, 2 ** 40]))
getname = st.sampled_from(GETNAMES)
delname = st.sampled_from(ATTRS + ['__dict__', '__iadd__'])
setname = st.sampled_from(ATTRS + ['__foo__', '__iadd__'])
subscript = st.one_of(scalar, st.just(['sl', ['n'], ['i', 2], ['n']]),
                      st.just(['sl', ['i', 0], ['n'], ['i', 1]]), st.just(['E']))


@cache
def operands(k, lo=0, hi=3):
    return st.lists(operand(k), min_size=lo, max_size=hi)


@cache
@st.composite
def operation(draw, name, k, chain=False):
    a = draw(subject(k, chain))
    if name in ARITY1:
        return [name, a]
    if name in ARITY2:
        b = draw(operand(k))
        if name in ('getitem', 'delitem') and draw(boolean):
            b = draw(subscript)
        elif a[0] == 'prox' and draw(tenth) == 0:
            b = ['raw', a[1]]       # the very object behind the proxy
        if name in BIN + CMP and draw(three) == 0:
            a, b = b, a
        return [name, a, b]
    if name == 'setitem':
        return [name, a, draw(operand(k)), draw(operand(k))]
    if name in ('getattr', 'getattrd', 'hasattr'):
        return [name, a, draw(getname)]
    if name == 'delattr':
        return [name, a, draw(delname)]
    if name == 'setattr':
        return [name, a, draw(setname), draw(operand(k))]
    if name == 'call':
        return [name, a] + draw(operands(k))
    if name == 'callkw':
        return [name, a] + draw(operands(k, 1, 2))
    if name == 'pow3':
        return [name, a, draw(operand(k)), draw(operand(k))]
    if name in ('sq_item', 'sq_del_item'):
        return [name, a, draw(place)]
    if name == 'sq_ass_item':
        return [name, a, draw(place), draw(operand(k))]
    raise KeyError(name)


@cache
def verdict(p_ok=2):
    return st.one_of(*([st.just('ok')] * p_ok + [excname]))


realverdict = st.sampled_from(['ok', 'ok', 'Unauthorized'])
chknames = st.lists(st.sampled_from(SPECIALS + ATTRS), max_size=4)
setmaps = {r: st.dictionaries(st.sampled_from(ATTRS), realverdict if r else verdict(),
                              max_size=3) for r in (True, False)}
defaults = {r: st.sampled_from(['ok', 'ok', 'ok', 'Unauthorized' if r
                                else 'ForbiddenAttribute']) for r in (True, False)}
KINDS = ('rec', 'map', 'sub', 'real', 'comb')
MODES = ('wrap', 'ident', 'token')


@cache
@st.composite
def checker(draw, kinds=KINDS, modes=MODES, names=(), default=None):
    kind = draw(pick(kinds))
    real = kind in ('real', 'comb')
    v = realverdict if real else verdict()
    get = {n: draw(v) for n in draw(chknames)}
    for n in names:
        if draw(boolean):
            get[n] = draw(v)
    set_ = draw(setmaps[real])
    d = default or draw(defaults[real])
    return [kind, get, set_, d, 'wrap' if real else draw(pick(modes))]


anytarget = builtin_target


@cache
@st.composite
def world(draw, ops=None, max_ops=6, kinds=KINDS, modes=MODES, builtin=True,
          default=None, chain=True):
    names = [draw(pick(ops or tuple(ALLOPS)))
             for _ in range(draw(count(max_ops)))]
    boost = tuple(sorted({t for n in names for t in touched_by(n)})[:8])
    k = draw(count(3))
    return {
        'targets': [draw(builtin_target) if builtin and not draw(three)
                    else draw(rec_target(boost)) for _ in range(k)],
        'checkers': [draw(checker(kinds, modes, boost, default))
                     for _ in range(draw(count(k)))],
        'ops': [draw(operation(n, k, chain)) for n in names],
    }


@cache
def count(n):
    return st.integers(1, n)


# -- operations that make sense on the target ------------------------------
inner = st.one_of(scalar, st.just(['o']), st.just(['o']))
small = st.integers(-2, 3).map(lambda n: ['i', n])
bound = st.one_of(small, st.just(['n']))
aslice = st.tuples(bound, bound, st.sampled_from(
    [['n'], ['n'], ['i', 1], ['i', 2], ['i', -1]])).map(lambda t: ['sl'] + list(t))
SEQS = {'l': st.lists(inner, max_size=4), 't': st.lists(inner, max_size=4),
        's': st.sampled_from(['', 'abc', 'é名']), 'y': st.sampled_from(['', 'xyz']),
        'ba': st.sampled_from(['', 'abc']), 'it': st.lists(inner, max_size=3)}
SETS = {'set': st.lists(scalar, max_size=4), 'fs': st.lists(scalar, max_size=4)}


@st.composite
def fitting(draw):
    """-> target, operations"""
    kind = draw(pick(('l', 't', 's', 'y', 'ba', 'it', 'd', 'd', 'set', 'fs',
                      'i', 'f', 'b')))
    me = ['prox', 0]
    if kind in SEQS:
        target = [kind, draw(SEQS[kind])]
        op = draw(pick(('index', 'slice', 'slice', 'add', 'radd', 'iadd', 'mul',
                        'imul', 'iter', 'contains', 'cmp', 'list', 'reversed',
                        'len', 'setitem', 'setslice', 'delitem', 'delslice',
                        'method', 'unpack', 'star', 'mod', 'sq')))
        other = [kind, draw(SEQS[kind])] if draw(three) else draw(scalar)
        ops = {
            'index': lambda: ['getitem', me, draw(small)],
            'slice': lambda: ['getitem', me, draw(aslice)],
            'sq': lambda: ['sq_item', me, draw(place)],
            'add': lambda: ['add', me, other],
            'radd': lambda: ['add', other, me],
            'iadd': lambda: ['iadd', me, other],
            'mul': lambda: ['mul', me, draw(small)],
            'imul': lambda: ['imul', me, draw(small)],
            'mod': lambda: ['mod', me, draw(scalar)],
            'setitem': lambda: ['setitem', me, draw(small), draw(inner)],
            'delitem': lambda: ['delitem', me, draw(small)],
            'setslice': lambda: ['setitem', me, draw(aslice), other],
            'delslice': lambda: ['delitem', me, draw(aslice)],
        }
    elif kind == 'd':
        items = draw(st.lists(st.tuples(scalar, inner).map(list), max_size=4))
        target = ['d', items]
        keys = [k for k, _ in items] or [['i', 1]]
        k = draw(pick(tuple(map(repr, keys)))) if draw(three) else None
        key = keys[[repr(x) for x in keys].index(k)] if k else draw(scalar)
        other = ['d', draw(st.lists(st.tuples(scalar, inner).map(list), max_size=2))]
        op = draw(pick(('index', 'setitem', 'delitem', 'or', 'ior', 'iter',
                        'contains', 'cmp', 'list', 'len', 'method', 'dict',
                        'starstar', 'reversed')))
        ops = {
            'index': lambda: ['getitem', me, key],
            'setitem': lambda: ['setitem', me, key, draw(inner)],
            'delitem': lambda: ['delitem', me, key],
            'or': lambda: ['or', me, other] if draw(boolean) else ['or', other, me],
            'ior': lambda: ['ior', me, other],
        }
    elif kind in SETS:
        target = [kind, draw(SETS[kind])]
        other = [draw(pick(('set', 'fs'))), draw(SETS['set'])]
        op = draw(pick(('and', 'or', 'sub', 'xor', 'rand', 'ror', 'rsub',
                        'rxor', 'iand', 'ior', 'isub', 'ixor', 'iter', 'cmp',
                        'contains', 'list', 'len', 'method')))
        ops = {}
        for n in ('and', 'or', 'sub', 'xor'):
            ops[n] = lambda n=n: [n, me, other]
            ops['r' + n] = lambda n=n: [n, other, me]
            ops['i' + n] = lambda n=n: ['i' + n, me, other]
    else:
        target = draw({'i': i_.map(lambda n: ['i', n]),
                       'f': st.sampled_from([1.5, -2.0, 0.0]).map(lambda x: ['f', x]),
                       'b': boolean.map(lambda b: ['b', b])}[kind])
        other = draw(st.one_of(small, st.just(['f', 2.5]), st.just(['prox', 0])))
        op = draw(pick(tuple(BIN) + tuple('i' + b for b in IOPS) + tuple(UN)
                       + tuple(CONV) + ('cmp', 'pow3', 'round', 'divmodr',
                                        'hex', 'range', 'subscript_of')))
        ops = {b: (lambda b=b: [b, me, other] if draw(three) else [b, other, me])
               for b in BIN}
        ops.update({'i' + b: (lambda b=b: ['i' + b, me, other]) for b in IOPS})
        ops['pow3'] = lambda: ['pow3', me, draw(small), draw(small)]
    ops['contains'] = lambda: ['contains', me, draw(scalar)]
    ops['cmp'] = lambda: ([draw(pick(tuple(CMP))), me, other] if draw(boolean)
                          else [draw(pick(tuple(CMP))), other, me])
    ops['method'] = lambda: ['getattr', me, draw(pick(tuple(METHODS[kind]) or ('__iter__',)))]
    first = ops[op]() if op in ops else [op, me]
    out = [first]
    if op == 'method':
        out.append(['call', ['res', 0]] + draw(st.lists(inner, max_size=2)))
        out.append(['list', ['res', 1]])
    elif op == 'iter':
        out += [['next', ['res', 0]], ['next', ['res', 0]]]
    elif draw(three) == 0:
        out.append([draw(pick(('list', 'len', 'str', 'bool'))), me])
    return target, out


@cache
@st.composite
def matched(draw, kinds=KINDS, modes=MODES, default=None):
    target, ops = draw(fitting())
    return {'targets': [target],
            'checkers': [draw(checker(kinds, modes, (), default))],
            'ops': ops}


ANYNAMES = sorted(set(
    GETNAMES + SPECIALS + dir(object) + [
        '__complex__', '__matmul__', '__copy__', '__deepcopy__', '__slots__',
        '__doc__', '__wrapped__', '__Security_checker__', '__conform__',
        '__implements__', '__parent__', '__cmp__', '__unicode__', '__long__',
        '__nonzero__', '__coerce__', '__enter__', '__exit__', '__get__',
        '__set__', '__missing__', '__round__', '__fspath__', '__await__',
        '__3pow__', '__weakref__', '__del__', '__reversed__', '__bytes__',
        '_wrapped_', '_checker_', '__check__', '__', '_', '__a', '__a__']))


@cache
@st.composite
def attributes(draw, kinds=KINDS, modes=MODES):
    """Reading, setting, deleting attributes of any name."""
    some = pick(tuple(ANYNAMES))
    ops = []
    for _ in range(draw(count(3))):
        name = draw(some)
        op = draw(pick(('getattr', 'getattr', 'getattr', 'getattrd', 'hasattr',
                        'setattr', 'delattr')))
        if op[3:] == 'attr' and name in ('__dict__', '__class__'):
            op = 'getattr'
        ops.append([op, ['prox', 0], name] + (
            [draw(scalar)] if op == 'setattr' else []))
    names = tuple(op[2] for op in ops if op[2] in SPECIALS)
    return {'targets': [draw(builtin_target) if draw(boolean)
                        else draw(rec_target(names[:4]))],
            'checkers': [draw(checker(kinds, modes, names))], 'ops': ops}

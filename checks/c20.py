"""C20: the compiled and the pure-Python implementation agree."""
META = {
    'configs': ['diff'],
    'technique': 'differential testing: the same generated program in a '
                 'compiled and a pure process, complete traces compared',
    'note': 'Exploration: programs of up to 6 operations on up to 3 protected '
            'objects, and programs of up to 14 calls of the declaration, '
            'checker, proxy and interaction functions; values, exceptions, '
            'protection of every result, effects and questions compared.',
    'assumptions': ['attribute reads of the object by the implementations '
                    'themselves, repeated identical questions and texts of '
                    'interpreter errors are not compared'],
}
from hypothesis import strategies as st            # noqa: E402

from harness import gen, twin                          # noqa: E402
from harness.core import Test, require                 # noqa: E402

# special names the pure proxy has itself, whatever the object has
DUNDER = ('getattr', 'getattrd', 'hasattr', 'setattr', 'delattr')
UNCOMPARED = ('__cmp__', '__hash__', '__bool__', '__lt__', '__le__', '__eq__',
              '__ne__', '__ge__', '__gt__', '__doc__', '__slots__')


def comparable(op, step):
    prot = step['protected']
    if op[0] == 'pow3' and (prot[1] or prot[2]):
        return False
    if op[0] == 'complexpair':
        return False
    if op[0] in DUNDER and op[2][:2] == '__':
        if op[2] in UNCOMPARED:
            return False
        # what the object has not, the pure proxy may have
        refused = any(e[0] == 'chk' and e[4] != 'ok' for e in step['log'][-1:])
        if not refused and step['out'] != ['ok', True] and (
                op[0] in ('getattrd', 'hasattr') or step['out'][0] == 'exc'):
            return False
    return True


READS = ('getattr', 'formatattr', 'dict', 'starstar')


def same_exc(op, log, c, p):
    """Types and payloads.

    When the object itself has no such attribute, pure Python reports a plain
    AttributeError, whatever subclass the object (or an inner proxy) raised.
    """
    if c == p:
        return True
    refused = any(e[0] == 'chk' and e[4] != 'ok' for e in log[-1:])
    return op[0] in READS and not refused and p == ['AttributeError'] and \
        c[0] in ('AttributeError', 'ForbiddenAttribute', 'Denied2')


def run_world(case, ctx):
    c, p = twin.both('world', case)
    for n, (x, y) in enumerate(zip(c, p)):
        op = case['ops'][n]
        if not comparable(op, x):
            if (x['out'], x['state']) != (y['out'], y['state']):
                return
            continue
        where = 'step %d %s' % (n, op)
        a, b = x['out'], y['out']
        require(a[0] == b[0], '%s: compiled %s, pure %s', where, a, b)
        if a[0] == 'exc':
            require(same_exc(op, x['log'], a[1], b[1]), '%s: compiled raises %s, pure %s',
                    where, a[1], b[1])
        else:
            require(a == b, '%s: compiled gives %s, pure %s', where, a, b)
        require(x['log'] == y['log'], '%s: compiled does %s, pure %s', where,
                x['log'], y['log'])
        require(x['state'] == y['state'], '%s: compiled leaves %s, pure %s',
                where, x['state'], y['state'])
        ctx.label(op[0], 'same ' + a[0])
        if x['log']:
            ctx.nontrivial()


def run_api(case, ctx):
    c, p = twin.both('api', case)
    good = 0
    for n, (x, y) in enumerate(zip(c, p)):
        for what in x:
            require(x[what] == y[what], 'call %d %s: %s: compiled %s, pure %s',
                    n, case[n], what, x[what], y[what])
        kind = x['out'][:2] if type(x['out']) is list else 'basic'
        if kind[0] == 'exc':
            ctx.label(case[n][0], *kind)
        else:
            ctx.label(case[n][0], 'fine')
            good += 1
    if good >= 4:
        ctx.nontrivial()


# the given objects, or results of earlier calls
ref = st.integers(0, 28) | st.integers(29, 42)
aname = st.sampled_from(('a', 'b', 'm', 'n', 'n', 'm', 'keys', 'append', 'index',
                         'items', 'get', 'foo', 'isoformat', 'pop', '__call__',
                         '__len__', '__getitem__', '__iter__', '__str__',
                         '__add__', '__next__', '__repr__', '__contains__'))
perm = st.sampled_from(('PUBLIC', 'p0', 'p1', 'p2', 'p0', 'zope.Public'))
table = st.dictionaries(aname, perm, max_size=7)
kw = st.dictionaries(st.sampled_from(('a', 'b', 'm', 'n', 'foo')), perm, max_size=2)
k = st.integers(0, 8)


def call(name, *args):
    return st.tuples(st.just(name), *args).map(list)


MAKE = [
    call('checker', table, table), call('checker1', table),
    call('names', st.lists(aname, max_size=5), perm, kw),
    call('iface', k, perm, kw), call('combined', k, k),
    call('multi', st.lists(st.one_of(
        st.tuples(st.just('i'), k, perm), st.tuples(
            st.just('n'), st.lists(aname, max_size=3), perm),
        st.tuples(st.just('d'), kw)).map(list), max_size=3)),
]
REGISTER = [
    call('define', k, k), call('undefine', k), call('getCheckerFor', k),
    call('protectName', k, aname, perm), call('protectSet', k, aname, perm),
    call('protectLike', k, k),
]
WRAP = [
    call('factory', ref, st.none() | k), call('factory', ref, st.none()),
    call('proxy', ref, k), call('kproxy', k, ref), call('select', ref),
]
ASK = [
    call('check', k, ref, aname), call('check_getattr', k, ref, aname),
    call('check_setattr', k, ref, aname), call('permission_id', k, aname),
    call('setattr_permission_id', k, aname), call('canAccess', ref, aname),
    call('canWrite', ref, aname), call('checkPermission', perm, ref),
]
INTER = [
    call('setPolicy', st.lists(st.sampled_from(('p0', 'p1', 'p2')), max_size=3)),
    call('new', st.integers(0, 2)), call('end'), call('query'), call('restore'),
]
USE = [
    call('getattr', ref, aname), call('getattr', ref, aname),
    call('setattr', ref, st.sampled_from(('a', 'b', 'x')), ref),
    call('delattr', ref, st.sampled_from(('a', 'b', 'x'))),
    call('call', ref), call('call', ref, ref), call('str', ref),
    call('repr', ref), call('list', ref), call('next', ref),
    call('getitem', ref, st.integers(0, 3) | st.sampled_from(('a', 'k'))),
    call('len', ref), call('add', ref, ref), call('eq', ref, ref),
    call('contains', ref, ref), call('bool', ref), call('hash', ref),
    call('isinstance', ref, k), call('same', ref, ref), call('remove', ref),
    call('getChecker', ref), call('provides', ref, k),
    call('adapter', k, k, ref),
]


def api():
    start = st.tuples(
        call('setPolicy', st.lists(st.sampled_from(('p0', 'p1', 'p2')), max_size=3)),
        call('new', st.integers(0, 2)), *[st.one_of(MAKE)] * 2).map(list)
    body = st.lists(st.one_of(
        st.one_of(MAKE), st.one_of(REGISTER), st.one_of(WRAP), st.one_of(WRAP),
        st.one_of(ASK), st.one_of(INTER), st.one_of(USE), st.one_of(USE),
        st.one_of(USE)), min_size=3, max_size=16)
    return st.tuples(start, body).map(lambda t: t[0] + t[1])


TESTS = [
    Test('api', api(), run_api, quick=8000, thorough=200000, configs=('diff',),
         rule='at least four calls succeeded'),
    Test('program', gen.world(modes=('wrap', 'token', 'ident', 'wrap')), run_world,
         quick=10000, thorough=200000, configs=('diff',),
         rule='some question was asked in some compared operation'),
    Test('attributes', gen.attributes(modes=('wrap', 'token', 'ident', 'wrap')),
         run_world, quick=4000, thorough=100000, configs=('diff',),
         rule='the same'),
    Test('matched', gen.matched(modes=('wrap', 'token', 'ident', 'wrap')), run_world,
         quick=8000, thorough=150000, configs=('diff',),
         rule='the same'),
]

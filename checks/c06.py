"""C06: the checker registry behaves like a write-once map."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'stateful model-based testing: generated histories of '
                 'definitions, removals, basic-type changes and resets '
                 'against a dictionary model',
    'note': 'Exploration: histories of up to 25 steps over classes, standard '
            'types, modules and invalid keys; after every step all answers of '
            'the public lookups are compared with the model.',
    'assumptions': ['basic types are changed by item assignment, deletion '
                    'and update'],
}
import decimal                                         # noqa: E402
import types                                           # noqa: E402
from hypothesis import strategies as st                # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
from zope.exceptions import DuplicationError           # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security.proxy import Proxy, getChecker      # noqa: E402
import zope.security.interfaces                        # noqa: E402
import zope.security.checker                           # noqa: E402

U.reset()


class Meta(type):
    pass


class A:
    pass


class B(A):
    pass


class C(metaclass=Meta):
    pass


class L(list):
    pass


class S(str):
    pass


MOD1 = types.ModuleType('mod_one')
MOD2 = types.ModuleType('mod_one')       # same name, another module


class ModSub(types.ModuleType):
    pass


MOD3 = ModSub('mod_sub')
CLASSES = [A, B, C, L, S, Meta]
STD = [int, str, list, dict, object, decimal.Decimal, type(None), bool,
       types.FunctionType, types.ModuleType, type, frozenset, tuple]
MODULES = [MOD1, MOD2, MOD3, types]
KEYS = CLASSES + STD + MODULES
INVALID = ['A', 5, None, A(), lambda: 1, [], (A,), 3.5, A().__init__,
           zope.security.interfaces.IChecker, {}]
BASE = dict(zc.BasicTypes)
WATCHED = list(KEYS)
for _t in list(getattr(zc, '_checkers', {})):
    if _t not in WATCHED:
        WATCHED.append(_t)
INITIAL = {t: zc.getCheckerForInstancesOf(t) for t in WATCHED
           if zc.getCheckerForInstancesOf(t) is not None}
INSTANCE = {A: A(), B: B(), C: C(), L: L(), S: S(), Meta: C, int: 5, str: 'x',
            list: [1], dict: {}, object: object(), bool: True, tuple: (),
            decimal.Decimal: decimal.Decimal(1), frozenset: frozenset()}
VALUES = [zc.NamesChecker(['a']), zc.NamesChecker(['a']), zc.NoProxy,
          zc.Checker({}), lambda o: VALUES[0], zc.NamesChecker([]),
          zc.NamesChecker(['b']), None]

key = st.integers(0, len(KEYS) - 1)
fewkeys = st.sampled_from([0, 1, 2, len(CLASSES), len(CLASSES) + 2,
                           len(KEYS) - 4, len(KEYS) - 3])
k = st.one_of(key, fewkeys, fewkeys)
v = st.integers(0, len(VALUES) - 1)
step = st.one_of(
    st.tuples(st.just('define'), k, v).map(list),
    st.tuples(st.just('define'), k, v).map(list),
    st.tuples(st.just('undefine'), k).map(list),
    st.tuples(st.just('badkey'), st.integers(0, len(INVALID) - 1), v).map(list),
    st.tuples(st.just('badun'), st.integers(0, len(INVALID) - 1)).map(list),
    st.tuples(st.just('basic'), st.integers(0, len(CLASSES) + len(STD) - 1),
              st.sampled_from([2, 2, 2, 0])).map(list),
    st.tuples(st.just('unbasic'), st.integers(0, len(CLASSES) + len(STD) - 1)).map(list),
    st.tuples(st.just('update'), st.lists(st.integers(
        0, len(CLASSES) + len(STD) - 1), max_size=3)).map(list),
    st.just(['clear']), st.just(['reset']), st.just(['cleanup']))


def expect(model, where):
    for t in WATCHED:
        got = zc.getCheckerForInstancesOf(t)
        want = model.get(t)
        require(got is want, '%s: the checker of %r is %r instead of %r',
                where, t, got, want)
    for m in MODULES:
        require(zc.moduleChecker(m) is model.get(m),
                '%s: the checker of module %r is %r', where, m, zc.moduleChecker(m))
    for c, x in INSTANCE.items():
        e = model.get(c)
        if e is None and c in model:
            continue        # defined as None: nothing can be protected
        depth = 0
        while isinstance(e, types.FunctionType) and depth < 3:
            e = e(x)
            depth += 1
        s = zc.selectChecker(x)
        if e is zc.NoProxy:
            require(s is None and zc.ProxyFactory(x) is x,
                    '%s: an instance of %r is proxied', where, c)
        elif e is not None:
            require(s is e, '%s: selecting for a %r found %r, not %r',
                    where, c, s, e)
            require(getChecker(zc.ProxyFactory(x)) is e, '%s: %r', where, c)
        else:
            p = zc.ProxyFactory(x)
            require(isinstance(p, Proxy), '%s: an instance of the '
                    'unregistered %r is bare', where, c)
            require(s is not None and not s.get_permissions,
                    '%s: %r gets %r', where, c, s)
    for m in (MOD1, MOD2):
        e = model.get(types.ModuleType)
        if e is INITIAL[types.ModuleType]:
            own = model.get(m)
            r = zc.selectChecker(m)
            if own is None and m in model:
                pass
            elif own is None:
                require(list(r.get_permissions) == ['__name__'],
                        '%s: undeclared module gives %r', where, r)
            elif own is zc.NoProxy:
                require(r is None, '%s: module %r', where, r)
            elif not isinstance(own, types.FunctionType):
                require(r is own, '%s: module gives %r', where, r)


def run(case, ctx):
    U.reset()
    model = dict(INITIAL)
    basic = dict(BASE)
    try:
        for i, s in enumerate(case):
            what = s[0]
            where = 'after step %d %r' % (i, s)
            if what == 'define':
                t, c = KEYS[s[1]], VALUES[s[2]]
                try:
                    zc.defineChecker(t, c)
                except DuplicationError:
                    require(t in model, '%s: refused as a duplicate', where)
                    ctx.label('duplicate')
                    ctx.nontrivial()
                else:
                    require(t not in model, '%s: defined twice', where)
                    model[t] = c
                    ctx.label('defined')
            elif what == 'undefine':
                t = KEYS[s[1]]
                try:
                    zc.undefineChecker(t)
                except KeyError:
                    require(t not in model, '%s: not found', where)
                    ctx.label('absent')
                else:
                    require(t in model, '%s: removed what was not there', where)
                    del model[t]
                    ctx.label('removed')
                    ctx.nontrivial()
            elif what == 'badkey':
                x = INVALID[s[1]]
                try:
                    zc.defineChecker(x, VALUES[s[2]])
                except TypeError:
                    ctx.label('invalid key')
                else:
                    require(False, '%s: accepted %r', where, x)
            elif what == 'badun':
                x = INVALID[s[1]]
                try:
                    zc.undefineChecker(x)
                except (KeyError, TypeError):
                    pass
                else:
                    require(False, '%s: removed %r', where, x)
            elif what == 'basic':
                t = KEYS[s[1]]
                zc.BasicTypes[t] = VALUES[s[2]]
                basic[t] = model[t] = VALUES[s[2]]
                ctx.label('basic added')
            elif what == 'unbasic':
                t = KEYS[s[1]]
                try:
                    del zc.BasicTypes[t]
                except KeyError:
                    # (its checker may have been undefined before)
                    require(t not in basic or t not in model,
                            '%s: not found', where)
                    if t not in zc.BasicTypes:
                        basic.pop(t, None)
                    ctx.label('basic absent')
                else:
                    require(t in basic and t in model, '%s: removed', where)
                    del basic[t], model[t]
                    ctx.label('basic removed')
                    ctx.nontrivial()
            elif what == 'update':
                d = {KEYS[j]: zc.NoProxy for j in s[1]}
                zc.BasicTypes.update(d)
                basic.update(d)
                model.update(d)
            elif what == 'clear':
                try:
                    zc.BasicTypes.clear()
                except NotImplementedError:
                    pass
                else:
                    require(False, 'basic types were cleared')
            elif what in ('reset', 'cleanup'):
                if what == 'reset':
                    zc._clear()
                else:
                    from zope.testing.cleanup import cleanUp
                    cleanUp()
                model = {t: c for t, c in INITIAL.items() if t not in BASE}
                model.update(basic)
                ctx.label('reset')
            require(dict(zc.BasicTypes) == basic, '%s: basic types %r', where,
                    zc.BasicTypes)
            expect(model, where)
    finally:
        for t in list(zc.BasicTypes):
            if t not in BASE:
                dict.__delitem__(zc.BasicTypes, t)
        dict.update(zc.BasicTypes, BASE)
        U.reset()


TESTS = [
    Test('history', st.lists(step, min_size=1, max_size=25), run, quick=8000,
         thorough=150000,
         rule='the history removed something or attempted a duplicate'),
]

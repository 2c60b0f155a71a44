"""C03: a name is allowed exactly when its declared permission grants it."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'model-based property testing: generated declarations, '
                 'policies and question histories against a reference decision',
    'note': 'Exploration of generated declaration maps, policies and histories '
            'against an independent decision table, direct and through '
            'proxies, compiled and pure.',
    'assumptions': ['names handed to a checker directly are strings',
                    'objects whose attribute lookup fails with something '
                    'other than AttributeError are not asked for __iter__'],
}
from hypothesis import strategies as st                # noqa: E402
from harness import gen                                # noqa: E402
from harness import perms as P                         # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
from harness.names import ATTRS, CMP, SPECIALS         # noqa: E402
from zope.security.checker import Checker, CheckerPy   # noqa: E402
from zope.security.interfaces import ForbiddenAttribute, Unauthorized  # noqa: E402
from zope.security.proxy import Proxy                  # noqa: E402


class Sub(Checker):
    pass


class SubPy(CheckerPy):
    pass


class Thing:
    def __init__(self):
        self.a = 1
        self.b = [1]

    def __call__(self, *a):
        return 5

    def __len__(self):
        return 3

    def __getitem__(self, k):
        if type(k) is int and k > 3:
            raise IndexError(k)
        return 4

    def __add__(self, o):
        return 6


class IterThing(Thing):
    def __iter__(self):
        return iter(())


class Flat:
    """Neither an iterator nor a sequence."""


KINDS = {'Checker': Checker, 'Sub': Sub, 'Py': CheckerPy, 'SubPy': SubPy}
SPECIAL_OPS = {
    'call': ('__call__', lambda p: p()), 'len': ('__len__', len),
    'getitem': ('__getitem__', lambda p: p[0]), 'iter': ('__iter__', iter),
    'add': ('__add__', lambda p: p + 1), 'neg': ('__neg__', lambda p: -p),
    'int': ('__int__', int), 'radd': ('__radd__', lambda p: 1 + p),
    'delitem': ('__delitem__', lambda p: p.__class__ and U.delop(p, 0)),
    'contains': ('__contains__', lambda p: 1 in p),
    'index': ('__index__', lambda p: U.operator.index(p)),
    'iadd': ('__iadd__', lambda p: U.operator.iadd(p, 1)),
    'getslice': ('__getitem__', lambda p: p[1:2]),
    'divmod': ('__divmod__', lambda p: divmod(p, 2)),
    'next': ('__next__', next),
}
SPECIAL_OPS['delitem'] = ('__delitem__', lambda p: U.delop(p, 0))

permkeys = st.sampled_from(sorted(P.PERMS) + ['public', 'v', 'v', 'e', 'none'])
names = st.one_of(
    st.sampled_from(ATTRS + SPECIALS + sorted(P.AVAILABLE)
                    + ['__iter__', '__iter__', '__dict__', '__doc__', '_', '__',
                       '__Lt__', '__lt', 'lt__', '__parent', 'zope.View',
                       '__reduce__', '__init__', '__setattr__', '__3pow__']),
    st.text(max_size=4))
decl = st.lists(st.tuples(names, permkeys).map(list), max_size=6)
answers = st.sampled_from(sorted(P.ANSWERS) + ['T', 'F'] * 6 + sorted(P.RAISES))


@st.composite
def case(draw):
    get = draw(decl)
    set_ = draw(st.one_of(decl, decl, st.none()))
    declared = [n for n, _ in get + (set_ or [])]
    name = st.one_of(names, st.sampled_from(declared)) if declared else names
    nobj = 5
    obj = st.integers(0, nobj - 1)
    spec = sorted(SPECIAL_OPS)
    op = st.one_of(
        st.tuples(st.sampled_from(['check', 'check_getattr', 'check_setattr']),
                  obj, name).map(list),
        st.tuples(st.sampled_from(['check', 'check_getattr', 'check_setattr']),
                  obj, name).map(list),
        st.tuples(st.sampled_from(['getattr', 'setattr', 'delattr']),
                  obj, name).map(list),
        st.tuples(st.just('special'), obj, st.sampled_from(spec)).map(list),
        st.tuples(st.just('permission_id'), st.sampled_from(['get', 'set']),
                  name).map(list),
        st.tuples(st.just('declare'), st.sampled_from(['get', 'set']), name,
                  permkeys).map(list),
        st.tuples(st.just('undeclare'), st.sampled_from(['get', 'set']),
                  name).map(list),
        st.tuples(st.just('interaction'), st.booleans()).map(list))
    table = draw(st.dictionaries(
        st.tuples(permkeys, st.sampled_from(['', '0', '1', '2', '3'])).map('/'.join),
        answers, max_size=6))
    special_decl = draw(st.lists(st.tuples(
        st.sampled_from([SPECIAL_OPS[s][0] for s in spec]), permkeys).map(list),
        max_size=4))
    return {
        'kind': draw(st.sampled_from(sorted(KINDS))),
        'get': get + special_decl, 'set': set_,
        'policy': table, 'default': draw(answers),
        'inter': draw(st.sampled_from([True, True, True, False])),
        'ops': draw(st.lists(op, min_size=1, max_size=10)),
    }


def decide(decls, available, obj, name, policy, inter, objkey):
    """-> (verdict, question or None); verdict: ok, unauth, forbidden,
    nointer, or ('error', key)"""
    pk = decls.get(name, 'none')
    perm = P.PERMS[pk]
    if perm is not None:
        if pk == 'public':
            return 'ok', None
        if not inter:
            return 'nointer', None
        a = policy.answer(pk, objkey)
        q = (perm, obj)
        if a in P.RAISES:
            return ('raise', a), q
        if a == 'bad':
            return 'badbool', q
        return ('ok' if P.CLASS[a] else 'unauth'), q
    if available and name in P.AVAILABLE:
        return 'ok', None
    if available and name == '__iter__' and not hasattr(type(obj), '__iter__'):
        if hasattr(type(obj), '__getitem__'):
            # Python iterates by the items
            return decide(decls, available, obj, '__getitem__', policy, inter,
                          objkey)
        return 'through', None
    return 'forbidden', None


def run(case, ctx):
    U.reset()
    objs = [Thing(), IterThing(), Flat(), [1, 2], 'text']

    def obj_key(o):
        for i, x in enumerate(objs):
            if x is o:
                return str(i)
        return '?'

    policy = P.Policy(case['policy'], case['default'], P.perm_key, obj_key)
    get = {n: P.PERMS[k] for n, k in case['get']}
    gk = {n: k for n, k in case['get']}
    cls = KINDS[case['kind']]
    if case['set'] is None:
        set_, sk = None, {}
        checker = cls(get)
    else:
        set_ = {n: P.PERMS[k] for n, k in case['set']}
        sk = {n: k for n, k in case['set']}
        checker = cls(get, set_)
    require(checker.get_permissions is get, 'get_permissions is another dict')
    if set_ is not None:
        require(checker.set_permissions is set_, 'set_permissions is another dict')
    else:
        set_ = checker.set_permissions
        require(set_ == {}, 'no set declarations given, but %r', set_)
    inter = case['inter']
    if inter:
        policy.install()
    for op in case['ops']:
        what = op[0]
        if what == 'declare':
            (get if op[1] == 'get' else set_)[op[2]] = P.PERMS[op[3]]
            (gk if op[1] == 'get' else sk)[op[2]] = op[3]
            continue
        if what == 'undeclare':
            (get if op[1] == 'get' else set_).pop(op[2], None)
            (gk if op[1] == 'get' else sk).pop(op[2], None)
            continue
        if what == 'interaction':
            inter = op[1]
            if inter:
                policy.install()
            else:
                U.management.endInteraction()
                U.thread_local.__dict__.clear()
            continue
        if what == 'permission_id':
            d = gk if op[1] == 'get' else sk
            m = (checker.permission_id if op[1] == 'get'
                 else checker.setattr_permission_id)
            want = P.PERMS[d.get(op[2], 'none')]
            require(m(op[2]) is want, 'permission of %r (%s) is %r, not %r',
                    op[2], op[1], m(op[2]), want)
            continue
        obj = objs[op[1]]
        name = op[2]
        if what == 'special':
            name, f = SPECIAL_OPS[op[2]]
        writing = what in ('check_setattr', 'setattr', 'delattr')
        if what in ('getattr', 'setattr', 'delattr') and (
                name in ('_wrapped', '_checker', '__class__', '__dict__')
                or (what == 'getattr' and ctx.pure and
                    name in ['__%s__' % c for c in CMP] + ['__hash__', '__bool__'])):
            continue
        want, q = decide(sk if writing else gk, not writing, obj, name, policy,
                         inter, str(op[1]))
        del policy.asked[:]
        got = exc = None
        try:
            if what.startswith('check'):
                require(getattr(checker, what)(obj, name) is None,
                        '%s returned a value', what)
            else:
                p = Proxy(obj, checker)
                if what == 'getattr':
                    getattr(p, name)
                elif what == 'setattr':
                    setattr(p, name, 1)
                elif what == 'delattr':
                    delattr(p, name)
                else:
                    f(p)
        except BaseException as e:
            exc = e
        where = '%s(%s) of %r declared %s, %s' % (
            what, type(obj).__name__, name,
            (sk if writing else gk).get(name), 'interaction' if inter else 'none')
        asked = policy.asked
        ctx.nontrivial()
        # iteration refused for want of the items may name either
        named = [name]
        if name == '__iter__' and not writing and gk.get(name, 'none') == 'none':
            named.append('__getitem__')
        if isinstance(want, tuple):
            require(exc is policy.errors.get(want[1]) and exc is not None,
                    '%s: the policy raised but the caller got %r', where, exc)
            ctx.label('policy error')
        elif want == 'badbool':
            require(type(exc) is ZeroDivisionError, '%s: answer without truth '
                    'value gave %r', where, exc)
        elif want == 'nointer':
            require(exc is not None and not isinstance(exc, Unauthorized),
                    '%s: without interaction: %r', where, exc)
            require(type(exc) is not ForbiddenAttribute, '%s: %r', where, exc)
            if what.startswith('check'):
                require(exc is not None, '%s granted without interaction', where)
        elif want == 'unauth':
            require(type(exc) is Unauthorized, '%s: expected Unauthorized, got %r',
                    where, exc)
            require(len(exc.args) == 3 and exc.args[0] is obj
                    and exc.args[1] in named and exc.args[2] is q[0],
                    '%s: Unauthorized carries %r', where, exc.args)
            ctx.label('unauthorized')
        elif want == 'forbidden':
            require(type(exc) is ForbiddenAttribute, '%s: expected '
                    'ForbiddenAttribute, got %r', where, exc)
            require(len(exc.args) == 2 and exc.args[0] in named
                    and exc.args[1] is obj, '%s: ForbiddenAttribute carries %r',
                    where, exc.args)
            ctx.label('forbidden')
        else:       # allowed, or fell through
            require(type(exc) not in (ForbiddenAttribute, Unauthorized),
                    '%s: expected permission, got %r', where, exc)
            if what.startswith('check'):
                require(exc is None, '%s: expected permission, got %r', where, exc)
            if want == 'through':
                ctx.label('iteration falls through')
            ctx.label('granted by policy' if q else 'granted without policy')
        if q is None:
            require(not asked, '%s: asked the policy %r', where, asked)
        else:
            n = len(asked)
            require(n == 1 or (n > 0 and ctx.pure and what == 'getattr'
                               and isinstance(exc, AttributeError)),
                    '%s: the policy was asked %d times', where, n)
            for perm, o in asked:
                require(perm is q[0] and o is obj,
                        '%s: the policy was asked %r about %r', where, perm, o)


bad = st.one_of(gen.scalar, gen.container(gen.scalar))


def run_ctor(case, ctx):
    """Only dictionaries can declare."""
    U.reset()
    w = U.World({'targets': [], 'checkers': []})
    g, s = [w.value(v) for v in case[1:]]
    cls = KINDS[case[0]]
    ctx.nontrivial(not isinstance(g, dict) or not isinstance(s, dict))
    try:
        c = cls(g, s)
    except TypeError:
        if s is None and isinstance(g, dict):
            return      # saying "nothing for setting" explicitly is optional
        require(not isinstance(g, dict) or not (s is None or isinstance(s, dict)),
                'dictionaries were refused')
        return
    require(isinstance(g, dict) and (s is None or isinstance(s, dict)),
            '%s accepted %r, %r', case[0], g, s)
    require(c.get_permissions is g, 'another dict')


TESTS = [
    Test('decisions', case(), run, quick=6000, thorough=200000,
         rule='history with at least one decided question'),
    Test('constructor', st.tuples(st.sampled_from(sorted(KINDS)), bad, bad).map(list),
         run_ctor, quick=400, thorough=3000,
         rule='at least one argument is not a dictionary'),
]

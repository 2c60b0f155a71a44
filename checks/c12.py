"""C12: protection declarations for a class accumulate exactly as declared."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'stateful model-based testing: generated histories of '
                 'declarations over related classes against two dictionaries '
                 'per class',
    'note': 'Exploration: histories of up to 25 declarations over 5 classes '
            '(with inheritance, some with checkers made by hand); after every '
            'step every class and name is compared, and decisions through '
            'proxies at the end.',
    'assumptions': ['classes do not share one checker object'],
}
from hypothesis import strategies as st                # noqa: E402
from harness import perms as P                         # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security import protectclass as pc           # noqa: E402
from zope.security.interfaces import ForbiddenAttribute, Unauthorized  # noqa: E402
from zope.security.proxy import Proxy                  # noqa: E402


class StrSub(str):
    pass


# given permission -> what it means
PERM = {
    'v': 'zope.View', 'e': 'zope.Edit', 'm': 'zope.Manage',
    'zp': 'zope.Public', 'zp2': 'zope.' + ''.join(['Pub', 'lic']),
    'zpsub': StrSub('zope.Public'), 'public': zc.CheckerPublic,
    'case': 'zope.public', 'space': 'zope.Public ', 'bare': zc.CP_HACK_XXX,
    'none': None, 'empty': '', 'long': 'zope.Public.More'}
PUBLIC = ('zp', 'zp2', 'zpsub', 'public')
NAMES = ['a', 'b', 'c', '__call__', '__name__', '__len__', 'é']
N = 5
cls = st.integers(0, N - 1)
name = st.sampled_from(NAMES)
perm = st.sampled_from(['v', 'e', 'm', 'zp', 'zp', 'v'] + sorted(PERM))
step = st.one_of(
    st.tuples(st.just('name'), cls, name, perm).map(list),
    st.tuples(st.just('name'), cls, name, perm).map(list),
    st.tuples(st.just('set'), cls, name, perm).map(list),
    st.tuples(st.just('set'), cls, name, perm).map(list),
    st.tuples(st.just('like'), cls, cls).map(list),
    st.tuples(st.just('like'), cls, cls).map(list),
    st.tuples(st.just('use'), cls, name).map(list))
first = st.one_of(
    st.just(['no']), st.just(['no']),
    st.tuples(st.just('names'), st.lists(name, max_size=3, unique=True),
              st.sampled_from(['v', 'public'])).map(list),
    st.tuples(st.just('multi'), st.dictionaries(name, st.sampled_from(['v', 'e']), max_size=3)).map(list),
    st.tuples(st.just('chk'), st.dictionaries(name, st.sampled_from(['v', 'e']), max_size=3),
              st.dictionaries(name, st.sampled_from(['v', 'e']), max_size=3)).map(list),
    st.tuples(st.just('chk1'), st.dictionaries(name, st.sampled_from(['v', 'e']), max_size=3)).map(list))
case = st.fixed_dictionaries({
    'first': st.lists(first, min_size=N, max_size=N),
    'bases': st.lists(st.integers(-1, N - 2), min_size=N, max_size=N),
    'granted': st.lists(st.sampled_from(['v', 'e', 'm']), unique=True),
    'steps': st.lists(step, min_size=1, max_size=25)})


def meaning(pk):
    return zc.CheckerPublic if pk in PUBLIC else PERM[pk]


def run(case, ctx):
    U.reset()
    classes = []
    for i, b in enumerate(case['bases']):
        base = (classes[b],) if 0 <= b < i else ()
        classes.append(type('K%d' % i, base, {}))
    get = [None] * N        # None: nothing declared
    set_ = [None] * N
    made = [None] * N
    for i, f in enumerate(case['first']):
        if f[0] == 'no':
            continue
        get[i], set_[i] = {}, {}
        if f[0] == 'names':
            c = zc.NamesChecker(f[1], PERM[f[2]])
            get[i] = {n: PERM[f[2]] for n in f[1]}
        elif f[0] == 'multi':
            get[i] = {n: PERM[p] for n, p in f[1].items()}
            c = zc.MultiChecker([dict(get[i])])
        else:
            get[i] = {n: PERM[p] for n, p in f[1].items()}
            if f[0] == 'chk':
                set_[i] = {n: PERM[p] for n, p in f[2].items()}
                c = zc.Checker(dict(get[i]), dict(set_[i]))
            else:
                c = zc.Checker(dict(get[i]))
        made[i] = c
        zc.defineChecker(classes[i], c)

    def verify(where):
        for i, k in enumerate(classes):
            c = zc.getCheckerForInstancesOf(k)
            if get[i] is None:
                require(c is None, '%s: class %d got a checker', where, i)
                continue
            require(c is not None, '%s: class %d has no checker', where, i)
            if made[i] is not None:
                require(c is made[i], '%s: checker of class %d replaced', where, i)
            for n in NAMES:
                require(c.permission_id(n) is get[i].get(n),
                        '%s: class %d needs %r to read %s instead of %r',
                        where, i, c.permission_id(n), n, get[i].get(n))
                require(c.setattr_permission_id(n) is set_[i].get(n),
                        '%s: class %d needs %r to set %s instead of %r',
                        where, i, c.setattr_permission_id(n), n, set_[i].get(n))
            require(set(c.get_permissions) == set(get[i])
                    and set(c.set_permissions) == set(set_[i]),
                    '%s: class %d declares other names', where, i)

    granted = {PERM[p] for p in case['granted']}

    class Policy:
        def checkPermission(self, p, o):
            return p in granted
    U.management.setSecurityPolicy(lambda *a: Policy())
    U.management.newInteraction()

    def use(i, n, where):
        o = zc.ProxyFactory(classes[i]())
        require(isinstance(o, Proxy), '%s: bare', where)
        for which, table in (('get', get[i] or {}), ('set', set_[i] or {})):
            p = table.get(n)
            want = ('ok' if p is zc.CheckerPublic else
                    'F' if p is None else 'ok' if p in granted else 'U')
            if p is None and which == 'get' and n in P.AVAILABLE:
                want = 'ok'
            got = 'ok'
            try:
                if which == 'get' and n in ('a', 'b', 'c', 'é'):
                    getattr(o, n)
                elif which == 'set' and n in ('a', 'b', 'c', 'é'):
                    setattr(o, n, 1)
                else:
                    c = zc.getChecker(o)
                    (c.check_getattr if which == 'get' else c.check_setattr)(o, n)
            except ForbiddenAttribute:
                got = 'F'
            except Unauthorized:
                got = 'U'
            except AttributeError:
                pass
            require(got == want, '%s: %s of %s on an instance of class %d is '
                    '%s, not %s', where, which, n, i, got, want)

    verify('start')
    for j, s in enumerate(case['steps']):
        where = 'step %d %r' % (j, s)
        i = s[1]
        if s[0] in ('name', 'set'):
            f = pc.protectName if s[0] == 'name' else pc.protectSetAttribute
            f(classes[i], s[2], PERM[s[3]])
            if get[i] is None:
                get[i], set_[i] = {}, {}
            (get if s[0] == 'name' else set_)[i][s[2]] = meaning(s[3])
            ctx.label(s[0])
        elif s[0] == 'like':
            pc.protectLikeUnto(classes[i], classes[s[2]])
            if get[s[2]] is None:
                ctx.label('like an undeclared class')
            else:
                if get[i] is None:
                    get[i], set_[i] = {}, {}
                get[i].update(get[s[2]])
                set_[i].update(set_[s[2]])
                ctx.label('like')
                ctx.nontrivial(i != s[2] and bool(get[s[2]] or set_[s[2]]))
        else:
            use(i, s[2], where)
        verify(where)
    for i in range(N):
        for n in ('a', '__call__'):
            use(i, n, 'at the end')


TESTS = [
    Test('history', case, run, quick=4000, thorough=80000,
         rule='at least one class was protected like another declared one'),
]

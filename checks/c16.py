"""C16: permission listings reflect exactly the registered permissions."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'stateful model-based testing: generated histories of '
                 'registrations in a global and two nested local registries '
                 'against dictionaries',
    'note': 'Exploration: histories of up to 20 registrations, removals and '
            'site changes over 12 ids; all four listings, all lookups and all '
            'contexts are compared after every step.',
    'assumptions': ['a permission is registered under its own id'],
}
from hypothesis import strategies as st                # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
import zope.component                                  # noqa: E402
from zope.component import hooks                       # noqa: E402
from zope.interface import Interface, implementer  # noqa: E402
from zope.interface.registry import Components         # noqa: E402
from zope.security import permission as zp             # noqa: E402
from zope.security.checker import CheckerPublic        # noqa: E402
from zope.security.interfaces import IPermission       # noqa: E402

IDS = ['b.One', 'a.One', 'zope.Public', 'B.one', 'zope.public', 'b.One.more',
       'zope.Publicity', 'Public', 'zope.Privat', 'a', '10.x', '9.x', 'b.Öne',
       'zope.security.Public']


class ISpecial(IPermission):
    pass


class IOther(Interface):
    pass


class Falsy(zp.Permission):
    def __bool__(self):
        return False


class Empty(zp.Permission):
    def __len__(self):
        return 0


@implementer(ISpecial)
class Special:
    def __init__(self, id, title, description):
        self.id, self.title, self.description = id, title, description


KINDS = {'plain': zp.Permission, 'falsy': Falsy, 'empty': Empty,
         'special': Special}
id_ = st.integers(0, len(IDS) - 1)
reg = st.sampled_from([0, 0, 0, 1, 2])
kind = st.sampled_from(['plain', 'plain'] + sorted(KINDS))
step = st.one_of(
    st.tuples(st.just('add'), reg, id_, kind, st.integers(0, 3)).map(list),
    st.tuples(st.just('add'), reg, id_, kind, st.integers(0, 3)).map(list),
    st.tuples(st.just('add'), reg, id_, kind, st.integers(0, 3)).map(list),
    st.tuples(st.just('del'), reg, id_).map(list),
    st.tuples(st.just('delold'), reg, st.integers(0, 9)).map(list),
    st.tuples(st.just('other'), reg, id_).map(list),
    st.tuples(st.just('site'), st.sampled_from([None, 1, 2])).map(list))
case = st.fixed_dictionaries({
    'initial': st.lists(st.tuples(id_, reg, kind).map(list), max_size=8),
    'steps': st.lists(step, min_size=1, max_size=20),
    'ask': st.lists(id_, max_size=3)})
TITLES = ['', 'Zeta', 'alpha', 'Public']


class Site:
    def __init__(self, sm):
        self.sm = sm

    def getSiteManager(self):
        return self.sm


def run(case, ctx):
    U.reset()
    g = zope.component.getGlobalSiteManager()
    for u in list(g.registeredUtilities()):
        if u.provided.isOrExtends(IPermission) or u.provided is IOther:
            g.unregisterUtility(u.component, u.provided, u.name)
    r1 = Components('one', bases=(g,))
    r2 = Components('two', bases=(r1,))
    regs = [g, r1, r2]
    own = [{}, {}, {}]
    hooks.setHooks()
    hooks.setSite(None)
    try:
        go(case, ctx, regs, own)
    finally:
        hooks.setSite(None)
        hooks.resetHooks()
        for u in list(g.registeredUtilities()):
            if u.provided.isOrExtends(IPermission) or u.provided is IOther:
                g.unregisterUtility(u.component, u.provided, u.name)


def go(case, ctx, regs, own):
    site = 0
    others = 0
    steps = [['add', r, i, k, 0] for i, r, k in case['initial']] + case['steps']
    for n, s in enumerate(steps):
        if n < len(case['initial']) - 1:
            check = ()
        else:
            check = (None, 0, 1, 2)
        where = 'step %d' % n
        if s[0] == 'add':
            name = IDS[s[2]]
            p = KINDS[s[3]](name, TITLES[s[4]], 'about')
            iface = ISpecial if s[3] == 'special' else IPermission
            # one registration per id and registry, whatever its interface
            old = own[s[1]].pop(name, None)
            if old is not None:
                regs[s[1]].unregisterUtility(*old, name)
            regs[s[1]].registerUtility(p, iface, name)
            own[s[1]][name] = (p, iface)
        elif s[0] in ('del', 'delold'):
            if s[0] == 'del':
                name = IDS[s[2]]
            else:
                if not own[s[1]]:
                    continue
                name = sorted(own[s[1]])[s[2] % len(own[s[1]])]
                ctx.label('removed')
            old = own[s[1]].pop(name, None)
            if old is not None:
                regs[s[1]].unregisterUtility(*old, name)
        elif s[0] == 'other':
            regs[s[1]].registerUtility(zp.Permission('x'), IOther, IDS[s[2]])
            others += 1
        else:
            site = s[1] or 0
            hooks.setSite(Site(regs[site]) if site else None)
            ctx.label('site')
        for context in check:
            k = site if context is None else context
            want = {}
            for i in range(k + 1):
                want.update({name: v[0] for name, v in own[i].items()})
            verify(where + ' registry %d' % k, want,
                   None if context is None else regs[context], case['ask'],
                   context is None)
            if context == 2 and len(want) > 1:
                ctx.nontrivial()
    if 'zope.Public' in own[0]:
        ctx.label('public')


def verify(where, want, context, ask, short):
    # -- checking an id
    for name in [IDS[i] for i in ask] + sorted(want)[:4] + ['zope.Public']:
        for given in {name, ''.join(list(name))}:
            try:
                r = zp.checkPermission(context, given)
                ok = True
            except ValueError as e:
                ok = False
                require(given in e.args, '%s: the error does not name %r: %r',
                        where, given, e.args)
            require(ok == (name in want), '%s: checkPermission(%r) %s', where,
                    name, 'accepted' if ok else 'refused')
            if ok:
                require(r is None, '%s: checkPermission returned %r', where, r)
    try:
        zp.checkPermission(context, CheckerPublic)
    except ValueError:
        require(False, '%s: the public marker is refused', where)
    # -- listing
    calls = [((context,), {}), ((), {'context': context})]
    if context is None:
        calls.append(((), {}))
    for a, kw in calls[-2:] if short else calls[:1]:
        got = list(zp.allPermissions(*a, **kw))
        require(len(got) == len(set(got)) and
                set(got) == set(want) - {'zope.Public'},
                '%s: allPermissions gives %r, not %r', where, sorted(got),
                sorted(want))
        v = zp.PermissionsVocabulary(*a, **kw)
        terms = list(v)
        require(len(terms) == len(v) == len(want),
                '%s: %d terms for %d permissions', where, len(terms), len(want))
        require(sorted(token(t.token) for t in terms) == sorted(map(token, want)),
                '%s: tokens %r, not %r', where, [t.token for t in terms], sorted(want))
        for name, p in want.items():
            require(p in v, '%s: %r is not in the vocabulary', where, name)
            t = v.getTerm(p)
            require(t.value is p and token(t.token) == token(name),
                    '%s: term of %r is %r', where, name, t.token)
            require(v.getTermByToken(t.token) is t,
                    '%s: token %r leads elsewhere', where, t.token)
        lookup_fails(where, v, zp.Permission('b.One'), 'no.such')
        # -- ids
        v = zp.PermissionIdsVocabulary(*a, **kw)
        terms = list(v)
        names = sorted(n for n in want if n != 'zope.Public')
        exp = [(n, n, n) for n in names]
        if 'zope.Public' in want:
            exp.insert(0, (CheckerPublic, 'zope.Public', 'Public'))
        got = [(t.value, t.token, t.title) for t in terms]
        require(len(got) == len(exp) and all(
            (x[0] is y[0] if y[0] is CheckerPublic else
             x[0] is not CheckerPublic and x[0] == y[0])
            and token(x[1]) == token(y[1]) and x[2] == y[2]
            for x, y in zip(got, exp)),
            '%s: ids %r, not %r', where, got, exp)
        require(len(v) == len(exp), '%s: %d ids', where, len(v))
        for t in terms:
            require(t.value in v and v.getTerm(t.value) is t
                    and v.getTermByToken(t.token) is t,
                    '%s: lookups of %r do not agree', where, t.token)
        require('zope.Public' not in v, '%s: the public id is a value', where)
        if 'zope.Public' not in want:
            require(CheckerPublic not in v, '%s: unregistered public listed', where)
        lookup_fails(where, v, 'no.such', 'no.such')


def token(t):
    """Tokens of ids that are not ASCII are spelled by zope.schema."""
    return t.encode('ascii', 'backslashreplace')


def lookup_fails(where, v, value, tok):
    require(value not in v, '%s: a stranger is in the vocabulary', where)
    for f, x in ((v.getTerm, value), (v.getTermByToken, tok)):
        try:
            f(x)
        except LookupError:
            pass
        else:
            require(False, '%s: found a stranger', where)


TESTS = [
    Test('histories', case, run, quick=4000, thorough=60000,
         rule='more than one permission was registered at some point'),
]

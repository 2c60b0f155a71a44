"""C14: module directives protect exactly the declared module names."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'model-based testing: generated configuration texts of module '
                 'directives, judged by reading and setting every name of the '
                 'protected modules',
    'note': 'Exploration: up to two configurations of up to 6 module '
            'directives over 3 modules and 3 related interfaces, in up to 4 '
            'files; rejected texts must change nothing.',
    'assumptions': ['zope.configuration orders and resolves actions as '
                    'documented'],
}
import itertools                                       # noqa: E402
import sys                                             # noqa: E402
from hypothesis import strategies as st                # noqa: E402
from harness import perms as P                         # noqa: E402
from harness import zcml as Z                          # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
from zope.configuration.config import ConfigurationConflictError  # noqa: E402
from zope.configuration.exceptions import ConfigurationError  # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security.interfaces import ForbiddenAttribute, Unauthorized  # noqa: E402
from zope.security.proxy import Proxy                  # noqa: E402

NAMES = ['a', 'b', 'c', 'd', '_p', 'f', '__len__']
PROBES = NAMES + ['missing', '__name__', '__dict__', '__file__', '__path__',
                  '__class__', '__loader__', '__repr__', '__getattr__']
PERM = {'v': 'verif.View', 'e': 'verif.Edit', 'm': 'verif.Manage',
        'zp': 'zope.Public'}
N = 3
name = st.sampled_from(NAMES + ['missing', '__name__', '__file__'])
names = st.one_of(st.none(), st.lists(name, min_size=1, max_size=3, unique=True),
                  st.lists(name, min_size=1, max_size=2, unique=True),
                  st.lists(name, max_size=4))
perm = st.sampled_from(['v', 'e', 'm', 'zp'])
ifs = st.one_of(st.none(), st.none(), st.none(),
                st.lists(st.integers(0, 2), min_size=1, max_size=2))
member = st.tuples(st.sampled_from(NAMES), st.sampled_from(
    ['attr', 'method', 'ro', 'field'])).map(list)
ifaces = st.lists(st.tuples(
    st.lists(member, max_size=3, unique_by=lambda m: m[0]),
    st.lists(st.integers(0, 1), max_size=2)).map(list), min_size=3, max_size=3)
sub = st.one_of(
    st.tuples(st.just('allow'), names, ifs).map(list),
    st.tuples(st.just('require'), names, ifs, perm).map(list),
    st.tuples(st.just('require'), names, ifs, st.sampled_from(
        ['v', 'e', 'm', 'zp', 'v', 'e', 'm', 'v', 'e', 'm', None])).map(list))
directive = st.fixed_dictionaries({
    'mod': st.integers(0, N - 1), 'group': st.sampled_from([0, 0, 0, 1]),
    'inner': st.sampled_from([0, 0, 0, 1]),
    'subs': st.lists(sub, max_size=2)})
config = st.lists(st.tuples(st.sampled_from([0, 0, 0, 1, 2, 3]), directive).map(list),
                  min_size=1, max_size=4)
common = dict(
    ifaces=ifaces,
    granted=st.lists(st.sampled_from(['v', 'e', 'm']), unique=True),
    before=st.lists(st.sampled_from(['no', 'no', 'no', 'chk', 'empty']), min_size=N, max_size=N))
case = st.fixed_dictionaries(dict(
    configs=st.lists(config, min_size=1, max_size=2), **common))


@st.composite
def sparse(draw):
    """Texts in which no name of a module is declared twice."""
    todo = draw(st.permutations([(m, n) for m in range(N) for n in NAMES]))
    cfg, i = [], 0
    for _ in range(draw(st.integers(1, 5))):
        m, subs = todo[i][0], []
        for _ in range(draw(st.integers(1, 3))):
            own = []
            for m2, n in todo[i:i + draw(st.integers(1, 4))]:
                i += 1
                if m2 == m:
                    own.append(n)
            if i >= len(todo) - 6:
                break
            if draw(st.booleans()) and own:
                own = own + own[:1]         # repeated within the directive
            subs.append(draw(st.sampled_from([
                ['allow', own, None], ['require', own, None, 'v'],
                ['require', own, None, 'e'], ['require', own, None, 'zp']])))
        cfg.append([draw(st.sampled_from([0, 0, 1, 2, 3])),
                    dict(mod=m, group=0, inner=0, subs=subs)])
        if i >= len(todo) - 6:
            break
    return dict({k: draw(s) for k, s in common.items()}, configs=[cfg])


PATH = {0: (), 1: (1,), 2: (2,), 3: (2, 3)}
MODS = ['verif_m0', 'verif_pkg.m1', 'verif_pkg']


def dotted(ns):
    return None if ns is None else ' '.join('%s.I%d' % (Z.MODNAME, n) for n in ns)


def words(ns):
    return None if ns is None else ' '.join(ns)


def render(d):
    out = []
    for s in d['subs']:
        out.append('<%s%s/>' % (s[0], Z.attrs(
            attributes=words(s[1]), interface=dotted(s[2]),
            permission=None if s[0] == 'allow' or s[3] is None else PERM[s[3]])))
    text = '\n'.join(out)
    if d['inner']:
        text = '<configure>%s</configure>' % text
    text = '<module module="%s">\n%s\n</module>' % (MODS[d['mod']], text)
    if d['group']:
        text = '<configure>%s</configure>' % text
    return text


def run(case, ctx):
    Z.reset()
    I, allnames, settable = Z.interfaces(case['ifaces'])
    Z.fake_module(**{'I%d' % i: x for i, x in enumerate(I)})
    mods = []
    for m in MODS:
        x = Z.fake_module(m, **{n: 'value of ' + n for n in NAMES if n[0] != '_' or n == '_p'})
        x.__file__ = m
        if m == 'verif_pkg':
            x.__path__ = []
        mods.append(x)
    sys.modules['verif_pkg'].m1 = sys.modules['verif_pkg.m1']
    values = [dict(x.__dict__) for x in mods]
    table = [None] * N
    for i, b in enumerate(case['before']):
        if b == 'chk':
            zc.defineChecker(mods[i], zc.Checker({'f': PERM['m']}, {}))
            table[i] = {'f': PERM['m']}
        elif b == 'empty':
            zc.defineChecker(mods[i], zc.Checker({}, {}))
            table[i] = {}
    Z.run(''.join('<permission id="%s" title="t"/>' % PERM[p] for p in 'vem'))
    granted = {PERM[p] for p in case['granted']}
    asked = []

    class Policy:
        def checkPermission(self, p, o):
            asked.append((p, o))
            return p in granted
    U.management.setSecurityPolicy(lambda *a: Policy())
    U.management.newInteraction()

    held = {}       # proxies of modules made at an earlier time

    def probe(where):
        for i, x in enumerate(mods):
            fresh = zc.ProxyFactory(x)
            require(type(fresh) is Proxy, '%s: module %d is bare', where, i)
            if table[i] is not None:
                held.setdefault(i, fresh)
            for n, p in itertools.product(PROBES, {id(q): q for q in (
                    fresh, held.get(i, fresh))}.values()):
                decl = (table[i] if table[i] is not None
                        else {'__name__': zc.CheckerPublic}).get(n)
                want = ('ok' if decl is zc.CheckerPublic else
                        ('ok' if decl in granted else 'U') if decl is not None
                        else 'ok' if n in P.AVAILABLE else 'F')
                del asked[:]
                got, v = 'ok', None
                try:
                    v = getattr(p, n)
                except ForbiddenAttribute:
                    got = 'F'
                except Unauthorized:
                    got = 'U'
                except AttributeError:
                    require(n not in x.__dict__, '%s: module %d has no %s', where, i, n)
                require(got == want, '%s: reading %s of module %d is %s, not %s',
                        where, n, i, got, want)
                if want in 'U' or decl in granted:
                    require(asked and all(q[0] == decl and q[1] is x for q in asked),
                            '%s: for %s of module %d the interaction was asked %r',
                            where, n, i, [q[0] for q in asked])
                else:
                    require(not asked, '%s: asked about public %s', where, n)
                if got == 'ok' and n in NAMES and n in x.__dict__:
                    require(v == 'value of ' + n, '%s: %s is %r', where, n, v)
                try:
                    setattr(p, n, 1)
                    got = 'ok'
                except ForbiddenAttribute:
                    got = 'F'
                require(got == 'F', '%s: %s of module %d could be set', where, n, i)
            require({k: v for k, v in x.__dict__.items()} == values[i],
                    '%s: module %d changed', where, i)
            c = zc.moduleChecker(x)
            require((c is None) == (table[i] is None), '%s: checker of module '
                    '%d: %r', where, i, c)

    probe('before')
    for n, cfg in enumerate(case['configs']):
        texts = {0: [], 1: [], 2: [], 3: []}
        acts = {0: [], 1: [], 2: [], 3: []}
        invalid = False
        for where, d in cfg:
            texts[where].append(render(d))
            for s in d['subs']:
                p = 'zp' if s[0] == 'allow' else s[3]
                if p is None:
                    invalid = True
                    continue
                ns = []
                for m in s[1] or ():
                    if m not in ns:
                        ns.append(m)
                for i in s[2] or ():
                    for m in sorted(allnames[i]):
                        if m not in ns:
                            ns.append(m)
                if len(ns) < len(s[1] or ()) + sum(len(allnames[i]) for i in s[2] or ()):
                    ctx.label('repeated within a directive')
                for m in ns:
                    acts[where].append(((d['mod'], m), PATH[where], (d['mod'], m, p)))
        f3 = Z.write('\n'.join(texts[3]))
        f2 = Z.write('<include file="%s"/>\n%s' % (f3, '\n'.join(texts[2])))
        f1 = Z.write('\n'.join(texts[1]))
        text = '\n'.join(['<include file="%s"/>' % f1] + texts[0]
                         + ['<include file="%s"/>' % f2])
        conflict, effects = Z.resolve(acts[1] + acts[0] + acts[3] + acts[2])
        where = 'configuration %d' % n
        why = ''
        try:
            Z.run(text)
            got = 'ok'
        except ConfigurationConflictError:
            got = 'conflict'
        except ConfigurationError as e:
            got, why = 'invalid', str(e)
        want = 'invalid' if invalid else 'conflict' if conflict else 'ok'
        require(got == want, '%s: %s instead of %s:\n%s\n%s', where, got, want,
                text, why)
        ctx.label(want)
        if want == 'ok':
            for m, nm, p in effects:
                if table[m] is None:
                    table[m] = {}
                table[m][nm] = zc.CheckerPublic if p == 'zp' else PERM[p]
            ctx.nontrivial(len(effects) >= 2)
        else:
            ctx.nontrivial(want == 'conflict')
        probe('after ' + where)


TESTS = [
    Test('texts', case, run, quick=2000, thorough=40000,
         rule='a conflict was found, or at least two names were declared'),
    Test('sparse', sparse(), run, quick=1500, thorough=30000,
         rule='texts without conflicts, the same rule'),
]

"""C13: class directives in configuration yield exactly the declared protection."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'model-based testing: generated configuration texts executed '
                 'by zope.configuration against declarations computed from '
                 'the generated structure and a reference conflict resolution',
    'note': 'Exploration: up to two configurations of up to 6 class '
            'directives over 4 classes, 3 related interfaces and up to 3 '
            'included files; every class and name compared, rejected texts '
            'must change nothing.',
    'assumptions': ['zope.configuration orders and resolves actions as '
                    'documented'],
}
from hypothesis import strategies as st                # noqa: E402
from harness import zcml as Z                          # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
from zope.component import queryUtility                # noqa: E402
from zope.component.interfaces import IFactory         # noqa: E402
from zope.configuration.config import ConfigurationConflictError  # noqa: E402
from zope.configuration.exceptions import ConfigurationError  # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security.interfaces import ForbiddenAttribute, Unauthorized  # noqa: E402
from zope.security.proxy import removeSecurityProxy    # noqa: E402

NAMES = ['a', 'b', 'c', 'd', '_p', '__call__', '__len__']
PERM = {'v': 'verif.View', 'e': 'verif.Edit', 'm': 'verif.Manage',
        'zp': 'zope.Public'}
N = 4
name = st.sampled_from(NAMES)
some = st.lists(name, max_size=3)
few = st.one_of(st.none(), st.none(), st.lists(name, min_size=1, max_size=2, unique=True))
perm = st.sampled_from(['v', 'e', 'm', 'zp'])
ifs = st.lists(st.integers(0, 2), min_size=1, max_size=2)
optifs = st.one_of(st.none(), st.none(), st.none(), ifs)
member = st.tuples(name, st.sampled_from(
    ['attr', 'method', 'ro', 'field', 'field', 'int'])).map(list)
ifaces = st.lists(st.tuples(
    st.lists(member, max_size=3, unique_by=lambda m: m[0]),
    st.lists(st.integers(0, 1), max_size=2)).map(list), min_size=3, max_size=3)


def mend(t):
    """Most directives are complete."""
    flaw, extra, d = t
    if flaw == 1 and d['k'] == 'require':
        d = dict(d, permission=None)
    elif flaw != 2 and not any(
            d.get(f) for f in ('attributes', 'set_attributes', 'interface',
                               'set_schema')) and d.get('like_class') is None:
        d = dict(d, attributes=[extra])
    return d


flaw = st.sampled_from([0] * 20 + [1, 2])
require_ = st.fixed_dictionaries({
    'k': st.just('require'),
    'permission': perm,
    'attributes': few, 'set_attributes': few, 'interface': optifs,
    'set_schema': optifs,
    'like_class': st.one_of(st.none(), st.none(), st.integers(0, N))})
allow = st.fixed_dictionaries({
    'k': st.just('allow'), 'attributes': few, 'interface': optifs})
dup = st.fixed_dictionaries({
    'k': st.just('require'), 'permission': perm, 'attributes': some,
    'set_attributes': some, 'interface': st.none(), 'set_schema': st.none(),
    'like_class': st.none()})
sub = st.one_of(
    st.tuples(flaw, name, require_).map(mend), st.tuples(flaw, name, require_).map(mend),
    st.tuples(flaw, name, require_).map(mend), st.tuples(flaw, name, allow).map(mend), dup,
    st.tuples(st.just('implements'), ifs).map(list),
    st.tuples(st.just('factory'), st.sampled_from([None, None, 'verif.f1', 'verif.f2']),
              st.sampled_from([None, 'T', 'Übung']), st.sampled_from([None, 'D'])).map(list))
directive = st.fixed_dictionaries({
    'cls': st.integers(0, N), 'group': st.sampled_from([0, 0, 0, 1, 2]),
    'subs': st.lists(sub, max_size=3)})
# where a directive stands: main text or one of three included files, the
# third of which is included by the second
config = st.lists(st.tuples(st.sampled_from([0, 0, 0, 1, 2, 3]), directive).map(list),
                  min_size=1, max_size=4)
# mostly free of overlaps: at most one small directive per class and name
case = st.fixed_dictionaries({
    'ifaces': ifaces, 'bases': st.lists(st.integers(-1, N - 2), min_size=N, max_size=N),
    'granted': st.lists(st.sampled_from(['v', 'e', 'm']), unique=True),
    'configs': st.lists(config, min_size=1, max_size=2)})
PATH = {0: (), 1: (1,), 2: (2,), 3: (2, 3)}


@st.composite
def sparse(draw):
    """Texts in which no name of a class is declared twice."""
    todo = draw(st.permutations([(c, w, n) for c in range(N) for w in 'gs'
                                 for n in NAMES[:5]]))
    cfg = []
    i = 0
    for _ in range(draw(st.integers(1, 6))):
        c = todo[i][0]
        subs = []
        for _ in range(draw(st.integers(1, 3))):
            r = dict(k='require', permission=draw(perm), attributes=None,
                     set_attributes=None, interface=None, set_schema=None,
                     like_class=draw(st.one_of(st.none(), st.none(), st.integers(0, N))))
            for _ in range(draw(st.integers(0, 3))):
                if i < len(todo):
                    c2, w, n = todo[i]
                    i += 1
                    if c2 != c:
                        continue
                    f = 'attributes' if w == 'g' else 'set_attributes'
                    r[f] = (r[f] or []) + [n]
            if not (r['attributes'] or r['set_attributes']) and r['like_class'] is None:
                continue
            subs.append(r)
        if draw(st.integers(0, 5)) == 0:
            subs.append(draw(st.sampled_from([['implements', [0, 1]], ['implements', [2]],
                                              ['factory', None, 'T', None]])))
        cfg.append([draw(st.sampled_from([0, 0, 1, 2, 3])),
                    dict(cls=c, group=draw(st.sampled_from([0, 0, 1])), subs=subs)])
    return {'ifaces': draw(ifaces),
            'bases': draw(st.lists(st.integers(-1, N - 2), min_size=N, max_size=N)),
            'granted': draw(st.lists(st.sampled_from(['v', 'e', 'm']), unique=True)),
            'configs': [cfg]}


def mean(p):
    return zc.CheckerPublic if p == 'zp' else PERM[p]


def dotted(prefix, ns):
    return None if ns is None else ' '.join('%s.%s%d' % (Z.MODNAME, prefix, n) for n in ns)


def words(ns):
    return None if ns is None else ' '.join(ns)


def render(d, clsname):
    out = []
    for s in d['subs']:
        if isinstance(s, dict):
            if s['k'] == 'allow':
                out.append('<allow%s/>' % Z.attrs(
                    attributes=words(s['attributes']),
                    interface=dotted('I', s['interface'])))
            else:
                p = s['permission']
                out.append('<require%s/>' % Z.attrs(
                    permission=None if p is None else PERM[p],
                    attributes=words(s['attributes']),
                    set_attributes=words(s['set_attributes']),
                    interface=dotted('I', s['interface']),
                    set_schema=dotted('I', s['set_schema']),
                    like_class=None if s['like_class'] is None else clsname(s['like_class'])))
        elif s[0] == 'implements':
            out.append('<implements%s/>' % Z.attrs(interface=dotted('I', s[1])))
        else:
            out.append('<factory%s/>' % Z.attrs(id=s[1], title=s[2], description=s[3]))
    text = '<class class="%s">\n%s\n</class>' % (clsname(d['cls']), '\n'.join(out))
    for _ in range(d['group']):
        text = '<configure>%s</configure>' % text
    return text


def run(case, ctx):
    Z.reset()
    I, allnames, settable = Z.interfaces(case['ifaces'])
    classes = []
    for i, b in enumerate(case['bases']):
        base = (classes[b],) if 0 <= b < i else ()
        classes.append(type('K%d' % i, base, {'__module__': Z.MODNAME}))
    content = {'I%d' % i: x for i, x in enumerate(I)}
    content.update({'K%d' % i: x for i, x in enumerate(classes)})
    content['Other'] = classes[0]       # another name of the same class
    Z.fake_module(**content)

    def clsname(i):
        return '%s.%s' % (Z.MODNAME, 'Other' if i == N else 'K%d' % i)

    get = [None] * N
    set_ = [None] * N
    impl = [set() for _ in range(N)]
    factories = {}

    def snapshot():
        out = []
        for k in classes:
            c = zc.getCheckerForInstancesOf(k)
            out.append(None if c is None else
                       (c, dict(c.get_permissions), dict(c.set_permissions)))
        return out

    Z.run(''.join('<permission id="%s" title="t"/>' % PERM[p] for p in 'vem'))
    for n, cfg in enumerate(case['configs']):
        texts = {0: [], 1: [], 2: [], 3: []}
        acts = {0: [], 1: [], 2: [], 3: []}
        invalid = False
        for where, d in cfg:
            texts[where].append(render(d, clsname))
            c = d['cls'] % N
            path = PATH[where]
            add = acts[where].append
            for s in d['subs']:
                if not isinstance(s, dict):
                    if s[0] == 'implements':
                        for i in s[1]:
                            add((None, path, ('implements', c, i)))
                    else:
                        fid = s[1] or '%s.K%d' % (Z.MODNAME, c)
                        add((('factory', fid), path,
                             ('factory', fid, c, s[2] or '', s[3] or '')))
                    continue
                allowing = s['k'] == 'allow'
                p = 'zp' if allowing else s['permission']
                like = None if allowing else s['like_class']
                reads = list(s['interface'] or ())
                schemas = [] if allowing else list(s['set_schema'] or ())
                sets = [] if allowing else list(s['set_attributes'] or ())
                attrs = list(s['attributes'] or ())
                if like is not None:
                    add((None, path, ('like', c, like % N)))
                if not (reads or schemas or sets or attrs):
                    if like is None:
                        invalid = True
                    continue
                if p is None:
                    invalid = True
                    continue
                for i in reads:
                    for m in sorted(allnames[i]):
                        add((('get', c, m), path, ('get', c, m, p)))
                for m in attrs:
                    add((('get', c, m), path, ('get', c, m, p)))
                for m in sets:
                    add((('set', c, m), path, ('set', c, m, p)))
                for i in schemas:
                    for m in sorted(settable[i]):
                        add((('set', c, m), path, ('set', c, m, p)))
        f3 = Z.write('\n'.join(texts[3]))
        f2 = Z.write('<include file="%s"/>\n%s' % (f3, '\n'.join(texts[2])))
        f1 = Z.write('\n'.join(texts[1]))
        text = '\n'.join(['<include file="%s"/>' % f1] + texts[0]
                         + ['<include file="%s"/>' % f2])
        flow = acts[1] + acts[0] + acts[3] + acts[2]
        conflict, effects = Z.resolve(flow)
        before = snapshot()
        where = 'configuration %d' % n
        try:
            Z.run(text)
            got = 'ok'
        except ConfigurationConflictError:
            got = 'conflict'
        except ConfigurationError as e:
            got = 'invalid'
            why = str(e)
        want = 'invalid' if invalid else 'conflict' if conflict else 'ok'
        require(got == want, '%s: %s instead of %s:\n%s%s', where, got, want,
                text, '\n' + why if got == 'invalid' else '')
        if want != 'ok':
            require(snapshot() == before, '%s: rejected as %s but something '
                    'was protected', where, want)
            for c in range(N):
                check_impl(where, c, classes, I, impl, case)
            ctx.label(want)
            ctx.nontrivial(want == 'conflict')
            continue
        for e in effects:
            if e[0] in ('get', 'set'):
                c = e[1]
                if get[c] is None:
                    get[c], set_[c] = {}, {}
                (get if e[0] == 'get' else set_)[c][e[2]] = mean(e[3])
            elif e[0] == 'like':
                _, c, o = e
                if get[o] is not None:
                    if get[c] is None:
                        get[c], set_[c] = {}, {}
                    get[c].update(get[o])
                    set_[c].update(set_[o])
                    ctx.label('like')
            elif e[0] == 'implements':
                impl[e[1]].add(e[2])
                ctx.label('implements')
            else:
                factories[e[1]] = e[2:]
                ctx.label('factory')
        for c, k in enumerate(classes):
            chk = zc.getCheckerForInstancesOf(k)
            if get[c] is None:
                require(chk is None, '%s: class %d got a checker', where, c)
            else:
                require(chk is not None, '%s: class %d has no checker', where, c)
                for what, have, must in (('read', chk.get_permissions, get[c]),
                                         ('set', chk.set_permissions, set_[c])):
                    require(set(have) == set(must), '%s: class %d declares %r '
                            'to %s, not %r\n%s', where, c, sorted(have), what,
                            sorted(must), text)
                    for m in must:
                        require(have[m] is must[m] or (
                            must[m] is not zc.CheckerPublic
                            and have[m] is not zc.CheckerPublic
                            and have[m] == must[m]),
                            '%s: class %d needs %r to %s %s, not %r\n%s',
                            where, c, have[m], what, m, must[m], text)
            check_impl(where, c, classes, I, impl, case)
        for fid, (c, title, desc) in factories.items():
            f = queryUtility(IFactory, fid)
            require(f is not None, '%s: no factory %r', where, fid)
            require(type(removeSecurityProxy(f())) is classes[c],
                    '%s: factory %r makes something else', where, fid)
            require(str(f.title) == title and str(f.description) == desc,
                    '%s: factory %r has title %r', where, fid, f.title)
        ctx.label('executed')
        ctx.nontrivial(sum(e[0] in ('get', 'set') for e in effects) >= 2)
    granted = {PERM[p] for p in case['granted']}

    class Policy:
        def checkPermission(self, p, o):
            return p in granted
    U.management.setSecurityPolicy(lambda *a: Policy())
    U.management.newInteraction()
    for c, k in enumerate(classes):
        o = zc.ProxyFactory(k())
        for m in ('a', 'b'):
            for what, table in (('get', get[c]), ('set', set_[c])):
                p = (table or {}).get(m)
                want = ('ok' if p is zc.CheckerPublic else 'F' if p is None
                        else 'ok' if p in granted else 'U')
                got = 'ok'
                try:
                    getattr(o, m) if what == 'get' else setattr(o, m, 1)
                except ForbiddenAttribute:
                    got = 'F'
                except Unauthorized:
                    got = 'U'
                except AttributeError:
                    pass
                require(got == want, 'class %d: %s %s is %s, not %s', c, what,
                        m, got, want)


def check_impl(where, c, classes, I, impl, case):
    want = set()
    k = c
    while 0 <= k:
        for i in impl[k]:
            want.update(I[i].__iro__)
        b = case['bases'][k]
        k = b if 0 <= b < k else -1
    for i, x in enumerate(I):
        require(x.implementedBy(classes[c]) == (x in want),
                '%s: class %d implements I%d: %r', where, c, i,
                x.implementedBy(classes[c]))


TESTS = [
    Test('texts', case, run, quick=2500, thorough=40000,
         rule='a conflict was found, or at least two declarations were '
              'executed'),
    Test('sparse', sparse(), run, quick=2500, thorough=40000,
         rule='texts without repeated names, the same rule'),
]

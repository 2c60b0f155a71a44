"""C15: configuration refers only to defined permissions, redefinitions apply."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'model-based testing: generated trees of configuration '
                 '(groupings, included files, definitions, redefinitions, '
                 'uses, policies) against a model of scopes and definitions',
    'note': 'Exploration: up to two configurations with up to about 15 '
            'directives nested up to 3 deep; all uses, registered permissions '
            'and the policy are compared.',
    'assumptions': ['an id that is redefined already is not redefined again '
                    'in the same scope'],
}
from hypothesis import strategies as st                # noqa: E402
from harness import zcml as Z                          # noqa: E402
from harness.core import Test, require                 # noqa: E402
from zope.component import getUtilitiesFor             # noqa: E402
from zope.configuration.config import ConfigurationConflictError  # noqa: E402
from zope.configuration.exceptions import ConfigurationError  # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security import management                   # noqa: E402
from zope.security.interfaces import IPermission       # noqa: E402
from zope.security.simplepolicies import ParanoidSecurityPolicy  # noqa: E402
from zope.security.simplepolicies import PermissiveSecurityPolicy  # noqa: E402

IDS = ['verif.A', 'verif.B', 'verif.C', 'verif.D', 'http://verif/perm',
       'zope.Public', 'verif.a', 'zope.PublicPages', 'zope.publi']
TITLES = ['T', 'Ein Titel', 'übel & <b>', 'x']
DESCS = [None, '', 'Some text', 'mit "Zitat"']
id_ = st.integers(0, len(IDS) - 1)
some = st.sampled_from([0, 1, 2, 3, 0, 1, 4, 5, 6, 7, 8])
define = st.tuples(st.just('define'), id_, st.integers(0, 3), st.integers(0, 3)).map(list)
use = st.tuples(st.sampled_from(['get', 'set', 'mod', 'iface']), some).map(list)
redefine = st.tuples(st.just('redefine'), some, some).map(list)
policy = st.tuples(st.just('policy'), st.integers(0, 3)).map(list)
leaf = st.one_of(use, use, use, use, redefine, redefine, define, policy)


def nest(children):
    return st.tuples(st.sampled_from(['group', 'include', 'module', 'group']),
                     st.lists(children, min_size=1, max_size=4)).map(list)


node = st.recursive(leaf, nest, max_leaves=6)
tree = st.lists(st.one_of(leaf, leaf, node, node, nest(node)), min_size=1, max_size=5)
case = st.fixed_dictionaries({
    'configs': st.lists(st.tuples(
        tree,
        # definitions in front, at the end, or in an included file
        st.lists(st.tuples(id_, st.integers(0, 3), st.integers(0, 3),
                           st.sampled_from(['front', 'end', 'file'])).map(list),
                 max_size=7, unique_by=lambda d: d[0])).map(list),
        min_size=1, max_size=2),
    'dup': st.sampled_from([0, 0, 0, 0, 1]),
    'all': st.sampled_from([1, 1, 1, 0]),
    # one that is used, but not defined
    'hole': st.sampled_from([None, None, 0, 1, 6, 7, 8])})


class PolicyObject:
    def __call__(self, *a):
        return ParanoidSecurityPolicy(*a)


def run(case, ctx):
    Z.reset()
    comps = [ParanoidSecurityPolicy, PermissiveSecurityPolicy, PolicyObject(),
             lambda *a: None]
    I, _, _ = Z.interfaces([[[['i', 'method']], []]])

    class K:
        pass
    mod = Z.fake_module('verif_m')
    content = {'K': K, 'I0': I[0]}
    content.update({'P%d' % i: c for i, c in enumerate(comps)})
    Z.fake_module(**content)
    defined = {}
    current = management.getSecurityPolicy()
    n = [0]

    for j, (nodes, defs) in enumerate(case['configs']):
        where = 'configuration %d' % j
        defs = [list(d) for d in defs]
        if case['all']:
            have = {d[0] for d in defs}
            for i in range(len(IDS)):
                if i not in have and IDS[i] not in defined and i != 5 \
                        and i != case['hole']:
                    defs.append([i, i % 4, i % 4, 'front'])
        uses = []           # (kind, name, meaning)
        actions = []
        mentioned = set()
        invalid = []
        classes = []

        def definition(i, t, d, path):
            if not case['dup'] and any(a[0] == ('perm', IDS[i]) for a in actions):
                return ''
            actions.append((('perm', IDS[i]), path,
                            ('perm', IDS[i], TITLES[t], DESCS[d] or '')))
            return '<permission%s/>' % Z.attrs(id=IDS[i], title=TITLES[t],
                                               description=DESCS[d])

        def walk(nodes, path, scope):
            """-> text; scope is changed by redefinitions"""
            out = []
            for x in nodes:
                if x[0] == 'define':
                    out.append(definition(x[1], x[2], x[3], path))
                elif x[0] in ('get', 'set', 'mod', 'iface'):
                    n[0] += 1
                    name = 'n%d' % n[0]
                    text = IDS[x[1]]
                    m = scope.get(text, text)
                    mentioned.add(m)
                    if x[0] == 'mod':
                        out.append('<module module="verif_m"><require%s/></module>'
                                   % Z.attrs(permission=text, attributes=name))
                        uses.append(('mod', name, m))
                    else:
                        cls = 'K%d' % n[0]
                        k = type(cls, (), {'__module__': Z.MODNAME})
                        content[cls] = k
                        Z.fake_module(**content)
                        if x[0] == 'iface':
                            a = dict(interface=Z.MODNAME + '.I0')
                            name = 'i'
                        else:
                            a = {'attributes' if x[0] == 'get' else 'set_attributes': name}
                        out.append('<class class="%s.%s"><require%s/></class>' % (
                            Z.MODNAME, cls, Z.attrs(permission=text, **a)))
                        uses.append((x[0], name, m, k))
                elif x[0] == 'redefine':
                    a, b = IDS[x[1]], IDS[x[2]]
                    if a in scope:
                        continue
                    out.append('<meta:redefinePermission%s/>' % Z.attrs(
                        **{'from': a, 'to': b}))
                    b = scope.get(b, b)
                    mentioned.update((a, b))
                    scope[a] = b
                    ctx.label('redefined')
                elif x[0] == 'policy':
                    if not case['dup'] and any(a[0] == ('policy',) for a in actions):
                        continue
                    actions.append((('policy',), path, ('policy', x[1])))
                    out.append('<securityPolicy%s/>' % Z.attrs(
                        component='%s.P%d' % (Z.MODNAME, x[1])))
                elif x[0] == 'group':
                    out.append('<configure>%s</configure>' % walk(x[1], path, dict(scope)))
                elif x[0] == 'module':
                    out.append('<module module="verif_m">%s</module>'
                               % walk(x[1], path, dict(scope)))
                else:
                    n[0] += 1
                    f = walk(x[1], path + (n[0],), dict(scope))
                    out.append('<include file="%s"/>' % Z.write(f))
            return '\n'.join(out)

        text = []
        for d in defs:
            if d[3] == 'front':
                text.append(definition(d[0], d[1], d[2], ()))
        text.append(walk(nodes, (), {}))
        for d in defs:
            if d[3] == 'end':
                text.append(definition(d[0], d[1], d[2], ()))
        f = [definition(d[0], d[1], d[2], (-1,)) for d in defs if d[3] == 'file']
        if f:
            text.append('<include file="%s"/>' % Z.write('\n'.join(f)))
        text = '\n'.join(text)
        conflict, effects = Z.resolve(actions)
        after = dict(defined)
        newpolicy = current
        for e in effects:
            if e[0] == 'perm':
                after[e[1]] = e[2:]
            else:
                newpolicy = comps[e[1]]
        missing = mentioned - set(after) - {'zope.Public'}
        want = 'conflict' if conflict else 'undefined' if missing else 'ok'
        why = ''
        try:
            Z.run(text)
            got = 'ok'
        except ConfigurationConflictError:
            got = 'conflict'
        except ConfigurationError as e:
            got, why = 'undefined', str(e)
        require(got == want, '%s: %s instead of %s (undefined: %s)\n%s\n%s',
                where, got, want, sorted(missing), text, why)
        ctx.label(want)
        if want == 'undefined':
            require(any(m in why for m in missing), '%s: the error does not '
                    'name the undefined permission: %s', where, why)
            ctx.nontrivial()
            return          # the rest of the text was executed before
        if want == 'ok':
            defined, current = after, newpolicy
            mc = zc.moduleChecker(mod)
            for u in uses:
                m = zc.CheckerPublic if u[2] == 'zope.Public' else u[2]
                if u[0] == 'mod':
                    p = mc.permission_id(u[1])
                elif u[0] == 'set':
                    p = zc.getCheckerForInstancesOf(u[3]).setattr_permission_id(u[1])
                else:
                    p = zc.getCheckerForInstancesOf(u[3]).permission_id(u[1])
                require(p is m if m is zc.CheckerPublic else
                        p is not zc.CheckerPublic and p == m,
                        '%s: %s %s needs %r instead of %r\n%s', where, u[0],
                        u[1], p, m, text)
            ctx.nontrivial(len(uses) >= 2)
        else:
            for u in uses:
                if u[0] != 'mod':
                    require(zc.getCheckerForInstancesOf(u[3]) is None,
                            '%s: rejected but %s is protected', where, u[1])
        have = dict(getUtilitiesFor(IPermission))
        require(set(have) == set(defined), '%s: permissions %r, not %r', where,
                sorted(have), sorted(defined))
        for i, (t, d) in defined.items():
            p = have[i]
            require(p.id == i and str(p.title) == t and str(p.description) == d,
                    '%s: permission %r is %r %r %r', where, i, p.id, p.title,
                    p.description)
        require(management.getSecurityPolicy() is current,
                '%s: the policy is %r', where, management.getSecurityPolicy())


TESTS = [
    Test('texts', case, run, quick=3000, thorough=60000,
         rule='at least two uses were executed, or a use of an undefined '
              'permission was found'),
]

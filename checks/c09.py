"""C09: built-in policies decide and account for participants correctly."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'stateful model-based testing: generated histories of '
                 'additions, removals and questions over several interactions '
                 'against a list model',
    'note': 'Exploration: histories over 2 interactions of both '
            'built-in policies and 6 participations whose principals include '
            'look-alikes of the system user and whose equality may lie.',
    'assumptions': ['what a failed construction leaves in participations '
                    'that were still free is not judged'],
}
from hypothesis import strategies as st                # noqa: E402
from harness import perms as P                         # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security import management as zm             # noqa: E402
from zope.security._definitions import SystemUser      # noqa: E402
from zope.security.interfaces import ForbiddenAttribute, Unauthorized  # noqa: E402
from zope.security.simplepolicies import ParanoidSecurityPolicy  # noqa: E402
from zope.security.simplepolicies import PermissiveSecurityPolicy  # noqa: E402
from zope.security.testing import Participation, Principal  # noqa: E402


class EqualPrincipal:
    id = SystemUser.id

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return hash(zm.system_user)


class FalsyPrincipal:
    id = 'x'

    def __bool__(self):
        return False


class EqualParticipation(Participation):
    def __eq__(self, other):
        return isinstance(other, Participation)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1


class SubParanoid(ParanoidSecurityPolicy):
    pass


class FalsyParanoid(ParanoidSecurityPolicy):
    def __len__(self):
        return 0


class EqualParanoid(ParanoidSecurityPolicy):
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1


PRINCIPALS = {
    'sys': lambda: zm.system_user, 'sys2': SystemUser, 'user': lambda: Principal('u'),
    'none': lambda: None, 'eq': EqualPrincipal, 'falsy': FalsyPrincipal,
    'idsys': lambda: Principal(SystemUser.id, 'System')}
POLICIES = {'paranoid': ParanoidSecurityPolicy, 'permissive': PermissiveSecurityPolicy,
            'sub': SubParanoid, 'falsy': FalsyParanoid, 'equal': EqualParanoid}
NP, NI = 6, 2
pi = st.integers(0, NP - 1)
ii = st.integers(0, NI - 1)
perm = st.sampled_from(['public', 'v', 'zp', 'none', 'like', 'bare', 'eq', 'empty'])
step = st.one_of(
    st.tuples(st.just('new'), ii, st.sampled_from(sorted(POLICIES)),
              st.lists(pi, max_size=3)).map(list),
    st.tuples(st.just('add'), ii, pi).map(list),
    st.tuples(st.just('add'), ii, pi).map(list),
    st.tuples(st.just('add'), ii, pi).map(list),
    st.tuples(st.just('remove'), ii, pi).map(list),
    st.tuples(st.just('remove'), ii, pi).map(list),
    st.tuples(st.just('check'), ii, perm).map(list),
    st.tuples(st.just('use'), ii, perm).map(list))
case = st.fixed_dictionaries({
    'parts': st.lists(st.tuples(
        st.sampled_from(['sys', 'sys', 'sys'] + sorted(PRINCIPALS)),
        st.booleans()).map(list), min_size=NP, max_size=NP),
    'first': st.lists(st.sampled_from(sorted(POLICIES)), min_size=NI, max_size=NI),
    'steps': st.lists(step, min_size=1, max_size=16)})
ORPHAN = object()


def run(case, ctx):
    U.reset()
    parts = [(EqualParticipation if eq else Participation)(PRINCIPALS[k]())
             for k, eq in case['parts']]
    kinds = [k for k, _ in case['parts']]
    policies = list(case['first'])
    inters = [POLICIES[p]() for p in policies]
    model = [[] for _ in inters]
    owner = [None] * NP        # None, a position of inters, or ORPHAN
    obj = U.Plain()

    def verify(where):
        for j, it in enumerate(inters):
            got = list(it.participations)
            require(len(got) == len(model[j]) and all(
                a is parts[b] for a, b in zip(got, model[j])),
                '%s: interaction %d holds %r instead of %r', where, j,
                [[k for k, q in enumerate(parts) if q is a] for a in got], model[j])
        for k, q in enumerate(parts):
            if owner[k] is None:
                require(q.interaction is None, '%s: participation %d belongs '
                        'to something', where, k)
            elif owner[k] is not ORPHAN:
                require(q.interaction is inters[owner[k]], '%s: participation '
                        '%d points to another interaction', where, k)
            require(kinds[k] != 'sys' or q.principal is zm.system_user, 'principal')

    verify('start')
    for n, s in enumerate(case['steps']):
        what, j = s[0], s[1]
        where = 'step %d %r' % (n, s)
        if what == 'new':
            if any(o == j for o in owner):
                # the old one keeps its participations: let it go
                for k in range(NP):
                    if owner[k] == j:
                        owner[k] = ORPHAN
            ok = (all(owner[k] is None for k in s[3])
                  and len(set(s[3])) == len(s[3]))
            orphaned = [k for k in s[3] if owner[k] is None]
            try:
                new = POLICIES[s[2]](*[parts[k] for k in s[3]])
            except ValueError:
                require(not ok, '%s: refused free participations', where)
                ctx.label('construction refused')
                new = POLICIES[s[2]]()
                for k in orphaned:
                    owner[k] = ORPHAN if parts[k].interaction is not None else None
                inters[j], policies[j], model[j] = new, s[2], []
            else:
                require(ok, '%s: took participations of others', where)
                inters[j], policies[j], model[j] = new, s[2], list(s[3])
                for k in s[3]:
                    owner[k] = j
        elif what == 'add':
            try:
                inters[j].add(parts[s[2]])
            except ValueError:
                require(owner[s[2]] is not None, '%s: refused', where)
                ctx.label('addition refused')
            else:
                require(owner[s[2]] is None, '%s: it belongs to %r already',
                        where, owner[s[2]])
                owner[s[2]] = j
                model[j].append(s[2])
                ctx.label('added')
        elif what == 'remove':
            try:
                inters[j].remove(parts[s[2]])
            except ValueError:
                require(owner[s[2]] != j, '%s: refused', where)
                ctx.label('removal refused')
            else:
                require(owner[s[2]] == j, '%s: it does not belong here', where)
                owner[s[2]] = None
                model[j].remove(s[2])
                ctx.label('removed')
                ctx.nontrivial(len(model[j]) > 0)
        else:
            p = P.PERMS[s[2]]
            want = (policies[j] == 'permissive' or p is zc.CheckerPublic
                    or all(parts[k].principal is zm.system_user for k in model[j]))
            if what == 'check':
                got = inters[j].checkPermission(p, obj)
            else:
                # through the machinery
                U.thread_local.__dict__.clear()
                zm.setSecurityPolicy(lambda *a: inters[j])
                zm.newInteraction()
                got = zm.checkPermission(p, obj)
                if p is None:
                    want = True
                c = zc.Checker({'a': p}, {'a': p})
                for m in (c.check, c.check_setattr):
                    try:
                        m(obj, 'a')
                        r = True
                    except Unauthorized:
                        r = False
                    except ForbiddenAttribute:
                        r = want if p is None else None
                    require(r is bool(want), '%s: a checker decides %r, '
                            'principals %r', where, r, [kinds[k] for k in model[j]])
            require(bool(got) is want, '%s: %s answers %r with principals %r',
                    where, policies[j], got, [kinds[k] for k in model[j]])
            ctx.nontrivial(bool(model[j]))
            ctx.label('granted' if want else 'denied')
        verify(where)


TESTS = [
    Test('history', case, run, quick=5000, thorough=100000,
         rule='a question to an interaction with participants, or a removal '
              'that left others'),
]

"""C10: explicit permission checks answer what the interaction answers."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'model-based property testing: generated permissions, '
                 'objects and interactions, explicit and current, against the '
                 'documented decision',
    'note': 'Exploration: permissions including look-alikes of the public '
            'marker, answers of every kind, interactions that are false or '
            'equal to None, several questions in a row.',
    'assumptions': [],
}
from hypothesis import strategies as st                # noqa: E402
from harness import perms as P                         # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
import zope.security                                   # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security import management as zm             # noqa: E402
from zope.security.interfaces import NoInteraction     # noqa: E402
from zope.security.proxy import Proxy, removeSecurityProxy  # noqa: E402

PERMS = dict(P.PERMS)
PERMS.update(pp=Proxy(object(), zc.Checker({})), none2=type(None),
             pn=Proxy(None, zc.Checker({})),
             ppub=Proxy(zc.CheckerPublic, zc.Checker({})))
IKINDS = ['plain', 'falsy', 'empty', 'equal', 'proxied', 'attr']
perm = st.sampled_from(sorted(PERMS) + ['public', 'none', 'v'])
answer = st.sampled_from(sorted(P.ANSWERS) + sorted(P.RAISES) + ['T', 'F'] * 3
                         + ['!ni'])
inter = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(IKINDS), answer).map(list))
q = st.tuples(perm, st.sampled_from(['plain', 'proxy', 'none', 'int', 'hostile']),
              st.sampled_from(['no', 'no', 'None', 'kw', 'pos', 'kwNone']), inter).map(list)
case = st.fixed_dictionaries({
    'current': inter, 'questions': st.lists(q, min_size=1, max_size=5)})


class Hostile:
    def __getattribute__(self, name):
        raise RuntimeError('touched')

    def __eq__(self, other):
        raise RuntimeError('compared')

    def __hash__(self):
        raise RuntimeError('hashed')

    def __bool__(self):
        raise RuntimeError('tested')


OBJ = {'plain': U.Plain(), 'proxy': Proxy(U.Plain(), zc.Checker({})),
       'none': None, 'int': 5, 'hostile': Hostile()}


def make(spec):
    if spec is None:
        return None
    kind, ans = spec
    asked = []
    error = []

    class I:
        def checkPermission(self, permission, object):
            asked.append((permission, object))
            if ans == '!ni':
                error.append(NoInteraction())
                raise error[0]
            if ans in P.RAISES:
                cls = P.RAISES[ans] or ValueError
                error.append(cls('policy says'))
                raise error[0]
            return P.ANSWERS[ans]
        if kind == 'falsy':
            def __bool__(self):
                return False
        if kind == 'empty':
            def __len__(self):
                return 0
        if kind == 'equal':
            def __eq__(self, other):
                return True

            def __hash__(self):
                return 0
    i = I()
    if kind == 'attr':
        f = i.checkPermission

        class J:
            pass
        j = J()
        j.checkPermission = f
        i = j
    if kind == 'proxied':
        i = Proxy(i, zc.NamesChecker(['checkPermission']))
    return i, asked, error, ans


def run(case, ctx):
    U.reset()
    cur = make(case['current'])
    if cur:
        zm.setSecurityPolicy(lambda *p: cur[0])
        zm.newInteraction()
    f = zm.checkPermission
    for pk, ok, how, spec in case['questions']:
        p, o = PERMS[pk], OBJ[ok]
        given = make(spec) if how in ('pos', 'kw') else None
        asked_of = given or cur
        for x in (given, cur):
            if x:
                del x[1][:], x[2][:]
        exc = r = None
        try:
            if how == 'no':
                r = f(p, o)
            elif how == 'None':
                r = f(p, o, None)
            elif how == 'kwNone':
                r = f(p, o, interaction=None)
            elif how == 'pos':
                r = f(p, o, given and given[0])
            else:
                r = f(permission=p, object=o, interaction=given and given[0])
        except BaseException as e:
            exc = e
        where = '%s on %s, given %s, current %s' % (pk, ok, how in ('pos', 'kw') and spec,
                                                    case['current'])
        if pk in ('public', 'none'):
            require(exc is None and r is not None and bool(r) is True,
                    '%s: %r %r', where, r, exc)
            for x in (given, cur):
                require(not x or not x[1], '%s: the interaction was asked', where)
            ctx.label('unconditional')
            ctx.nontrivial(asked_of is not None)
            continue
        if asked_of is None:
            require(type(exc) is NoInteraction, '%s: without interaction %r %r',
                    where, r, exc)
            ctx.label('no interaction')
            ctx.nontrivial()
            continue
        i, asked, error, ans = asked_of
        if given and cur and cur is not given:
            require(not cur[1], '%s: the current interaction was asked, not '
                    'the given one', where)
        require(len(asked) == 1, '%s: asked %d times', where, len(asked))
        require(asked[0][0] is p and asked[0][1] is o, '%s: asked about '
                'something else', where)
        ctx.nontrivial()
        if error:
            require(exc is error[0], '%s: the error of the interaction became %r',
                    where, exc)
            ctx.label('error')
        elif ans == 'bad':
            require(exc is not None
                    or removeSecurityProxy(r) is P.ANSWERS['bad'], '%s: %r', where, r)
        else:
            require(exc is None, '%s: %r', where, exc)
            require(removeSecurityProxy(r) is P.ANSWERS[ans], '%s: the interaction answers '
                    '%s but the check %r', where, ans, r)
            ctx.label('granted' if P.CLASS[ans] else 'denied')


TESTS = [
    Test('questions', case, run, quick=6000, thorough=60000,
         rule='an interaction decided, or there was none, or an unconditional '
              'permission was asked with one at hand'),
]

"""C08: each thread has at most one interaction, managed as documented."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'stateful model-based testing over generated thread '
                 'schedules: histories of interaction management in up to '
                 'three threads against a per-thread model',
    'note': 'Exploration: histories of up to 30 steps over up to 3 threads '
            'with a generated, fully controlled schedule; thread ends and '
            'restarts included.  The model is two variables per thread.',
    'assumptions': ['policies return an interaction or raise'],
}
import queue                                           # noqa: E402
import threading                                       # noqa: E402
from hypothesis import strategies as st                # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, Violation, require      # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security import management as zm             # noqa: E402
from zope.security import testing as zt                # noqa: E402
from zope.security.interfaces import NoInteraction, Unauthorized  # noqa: E402
from zope.security.proxy import Proxy                  # noqa: E402
from zope.security.simplepolicies import ParanoidSecurityPolicy  # noqa: E402
from zope.security.simplepolicies import PermissiveSecurityPolicy  # noqa: E402


class PolicyFailed(Exception):
    pass


class OddFailure(BaseException):
    pass


class BlockError(Exception):
    pass


POLICIES = ['rec', 'rec2', 'falsy', 'empty', 'fail', 'failodd', 'failattr',
            'paranoid', 'permissive', 'func', 'equal']
QUERY = ['query', 'get', 'checkperm', 'checker', 'proxy', 'setcheck']
query = st.sampled_from(QUERY).map(lambda q: [q])
new = st.integers(0, 3).map(lambda n: ['new', n])
policy = st.sampled_from(POLICIES).map(lambda p: ['policy', p])
inner = st.recursive(
    st.one_of(query, new, st.just(['create', 'u2'])),
    lambda s: st.tuples(st.just('with'), st.lists(s, max_size=3),
                        st.sampled_from(['', '', 'BlockError', 'OddFailure'])).map(list),
    max_leaves=4)
step = st.one_of(
    new, new, st.just(['end']), st.just(['end']), st.just(['restore']),
    st.just(['restore']), query, policy,
    st.tuples(st.just('with'), st.lists(inner, max_size=3),
              st.sampled_from(['', '', 'BlockError', 'OddFailure'])).map(list),
    st.just(['create', 'u1']), st.just(['restart']), st.just(['getpolicy']))
case = st.fixed_dictionaries({
    'threads': st.integers(1, 3),
    'policy': st.sampled_from(POLICIES[:2] + POLICIES),
    'steps': st.lists(st.tuples(st.integers(0, 2), step).map(list), min_size=1,
                      max_size=30)})


class Interaction:
    def __init__(self, kind, participations):
        self.kind = kind
        self.participations = participations
        self.asked = []

    def checkPermission(self, permission, obj):
        self.asked.append((permission, obj))
        return permission == 'yes'


class Falsy(Interaction):
    def __bool__(self):
        return False


class Empty(Interaction):
    def __len__(self):
        return 0


class Equal(Interaction):
    """Equal to everything, None included."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False
    __hash__ = None


class World:
    def __init__(self):
        self.made = []          # what the policies made
        w = self

        def maker(kind, cls):
            def policy(*participations):
                i = cls(kind, participations)
                w.made.append(i)
                return i
            return policy

        def failing(exc):
            def policy(*participations):
                raise exc('no interaction for you')
            return policy

        class ClassPolicy(Interaction):
            def __init__(self, *participations):
                Interaction.__init__(self, 'class', participations)
                w.made.append(self)

        self.policies = {
            'rec': maker('rec', Interaction), 'rec2': ClassPolicy,
            'falsy': maker('falsy', Falsy), 'empty': maker('empty', Empty),
            'fail': failing(PolicyFailed), 'failodd': failing(OddFailure),
            'failattr': failing(AttributeError),
            'paranoid': ParanoidSecurityPolicy, 'equal': maker('equal', Equal),
            'permissive': PermissiveSecurityPolicy,
            'func': maker('func', Interaction)}
        self.policy = None
        self.fails = {'fail': PolicyFailed, 'failodd': OddFailure,
                      'failattr': AttributeError}


class T:
    """One thread of the case, doing what it is told."""

    def __init__(self):
        self.todo = queue.SimpleQueue()
        self.done = queue.SimpleQueue()
        self.cur = None         # the model
        self.prev = None
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            f = self.todo.get()
            if f is None:
                return
            try:
                f()
            except BaseException as e:
                self.done.put(e)
            else:
                self.done.put(None)

    def do(self, f):
        self.todo.put(f)
        e = self.done.get()
        if e is not None:
            raise e

    def stop(self):
        self.todo.put(None)
        self.t.join()


YES = zc.Checker({'y': 'yes', 'n': 'no', 'p': zc.CheckerPublic},
                 {'y': 'yes', 'n': 'no'})


class Thing:
    y = 1
    n = 2
    p = 3


def observe(w, t, kind, where, ctx):
    """All queries answer from the thread's own interaction."""
    cur = t.cur
    obj = Thing()
    if kind == 'query':
        require(zm.queryInteraction() is cur, '%s: query gives %r instead of %r',
                where, zm.queryInteraction(), cur)
        return
    if kind == 'get':
        try:
            got = zm.getInteraction()
        except NoInteraction:
            got = None
        else:
            require(got is not None, '%s: got None', where)
        require(got is cur, '%s: get gives %r instead of %r', where, got, cur)
        return
    asks = isinstance(cur, Interaction)
    if asks:
        del cur.asked[:]
    for other in w.made:
        del other.asked[:]
    for name, perm in (('y', 'yes'), ('n', 'no')):
        try:
            if kind == 'checkperm':
                r = bool(zm.checkPermission(perm, obj))
            else:
                if kind == 'checker':
                    YES.check(obj, name)
                elif kind == 'setcheck':
                    YES.check_setattr(obj, name)
                else:
                    getattr(Proxy(obj, YES), name)
                r = True
        except NoInteraction:
            r = 'none'
        except Unauthorized:
            r = False
        except AttributeError:      # a checker's way to say so
            r = 'none'
        if cur is None:
            require(r == 'none', '%s: %s decided %r without interaction',
                    where, kind, r)
        elif asks:
            require(r is (name == 'y'), '%s: %s says %r', where, kind, r)
            require(len(cur.asked) == 1 and cur.asked[0][0] == perm
                    and cur.asked[0][1] is obj,
                    '%s: %s asked the interaction %r', where, kind, cur.asked)
            del cur.asked[:]
        elif type(cur) is PermissiveSecurityPolicy:
            require(r is True, '%s: %s says %r', where, kind, r)
        else:
            want = all(p.principal is zm.system_user for p in cur.participations)
            require(r is want, '%s: %s says %r', where, kind, r)
        for other in w.made:
            require(not other.asked, '%s: another interaction was asked', where)
    require(zm.checkPermission(zc.CheckerPublic, obj), '%s', where)
    YES.check(obj, 'p')


def start(w, t, call, parts, where):
    """call() starts an interaction; -> whether it succeeded."""
    n = len(w.made)
    old = t.cur
    try:
        r = call()
    except zm.ExistingInteraction as e:
        require(old is not None, '%s: refused although none is active', where)
        require(isinstance(e, ValueError) and isinstance(e, AssertionError),
                '%s', where)
        require(len(w.made) == n, '%s: the policy was called all the same', where)
        return False
    except tuple(w.fails.values()) as e:
        require(old is None, '%s: the policy was called although one is active', where)
        require(w.policy in w.fails and type(e) is w.fails[w.policy],
                '%s: %r', where, e)
        return False
    require(old is None, '%s: started a second interaction', where)
    require(w.policy not in w.fails, '%s: error of the policy lost', where)
    cur = zm.queryInteraction()
    if w.policy in ('paranoid', 'permissive'):
        require(type(cur) is w.policies[w.policy], '%s: %r', where, cur)
        if parts is not None:
            require(list(cur.participations) == list(parts), '%s', where)
    else:
        require(len(w.made) == n + 1 and w.made[n] is cur,
                '%s: the interaction is %r', where, cur)
        if parts is not None:
            require(len(cur.participations) == len(parts)
                    and all(a is b for a, b in zip(cur.participations, parts)),
                    '%s: participations %r', where, cur.participations)
    t.cur = cur
    return True


def do(w, t, s, where, ctx):
    what = s[0]
    if what == 'new':
        parts = [zt.Participation(zt.Principal('p%d' % i) if i else zm.system_user)
                 for i in range(s[1])]
        if start(w, t, lambda: zm.newInteraction(*parts), parts, where):
            ctx.label('started')
        else:
            ctx.label('not started')
    elif what == 'create':
        before = t.cur
        box = []
        if start(w, t, lambda: box.append(zt.create_interaction(s[1], title='T')),
                 None, where):
            p = box[0]
            require(p.id == s[1] and p.title == 'T', '%s: %r', where, p)
            require([q.principal for q in t.cur.participations] == [p],
                    '%s: participations', where)
        else:
            require(t.cur is before, '%s', where)
    elif what == 'end':
        zm.endInteraction()
        t.prev, t.cur = t.cur, None
        ctx.label('ended')
    elif what == 'restore':
        zm.restoreInteraction()
        t.cur = t.prev
        ctx.nontrivial()
        ctx.label('restored' if t.cur is not None else 'restored nothing')
    elif what == 'policy':
        old = w.policies[w.policy]
        require(zm.setSecurityPolicy(w.policies[s[1]]) is old,
                '%s: another previous policy', where)
        w.policy = s[1]
    elif what == 'getpolicy':
        require(zm.getSecurityPolicy() is w.policies[w.policy], '%s', where)
    elif what == 'with':
        before = t.cur
        cm = zt.interaction('u9', groups=['g'])
        if before is None and w.policy in w.fails:
            try:
                with cm:
                    require(False, '%s: the block ran', where)
            except w.fails[w.policy]:
                pass
            return
        raised = entered = False
        try:
            with cm as principal:
                entered = True
                cur = zm.queryInteraction()
                if before is not None:
                    require(cur is before, '%s: the existing interaction was '
                            'replaced', where)
                    require(principal is None, '%s: %r', where, principal)
                    ctx.label('block in an existing one')
                else:
                    t.cur = cur
                    require(cur is not None, '%s: no interaction in the block', where)
                    require(principal.id == 'u9' and principal.groups == ['g']
                            and [q.principal for q in cur.participations] == [principal],
                            '%s: principal', where)
                    ctx.label('block with its own')
                for j, x in enumerate(s[1]):
                    do(w, t, x, '%s.%d %r' % (where, j, x), ctx)
                if s[2]:
                    raise {'BlockError': BlockError, 'OddFailure': OddFailure}[s[2]]('x')
        except (BlockError, OddFailure) as e:
            require(s[2] == type(e).__name__ and entered, '%s: %r', where, e)
            raised = True
        require(raised == bool(s[2]), '%s: the error of the block was lost', where)
        if before is None:
            t.prev, t.cur = t.cur, None
        ctx.nontrivial()
    else:
        observe(w, t, what, where, ctx)


def run(case, ctx):
    U.reset()
    w = World()
    w.policy = case['policy']
    zm.setSecurityPolicy(w.policies[w.policy])
    ts = [T() for _ in range(case['threads'])]
    dead = []
    try:
        for i, (k, s) in enumerate(case['steps']):
            t = ts[k % len(ts)]
            where = 'step %d %r in thread %d' % (i, s, k % len(ts))
            if s[0] == 'restart':
                t.stop()
                t = ts[k % len(ts)] = T()
            else:
                t.do(lambda: do(w, t, s, where, ctx))
            for j, u in enumerate(ts):
                u.do(lambda: observe(w, u, 'query', where + ', seen in %d' % j, ctx))
        for j, u in enumerate(ts):
            for q in QUERY:
                u.do(lambda: observe(w, u, q, 'at the end, in thread %d' % j, ctx))
    finally:
        for t in ts:
            t.stop()
    ctx.nontrivial(len({k % len(ts) for k, s in case['steps']}) > 1)


TESTS = [
    Test('history', case, run, quick=2500, thorough=40000,
         rule='used more than one thread, restored, or ran a block'),
]

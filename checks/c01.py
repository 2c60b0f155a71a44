"""C01: every operation on a proxied object is checked before it happens."""
META = {
    'technique': 'property-based testing: generated operation programs on '
                 'recording targets and checkers, trace oracle',
    'note': 'Exploration of generated programs against a trace oracle (every '
            'effect directly preceded by the right granted question, refusals '
            'identical and without effect), compiled and pure; trusts the '
            'recording targets to see every effect.',
    'configs': ['c', 'pure'],
    'assumptions': [
        'an operation is attributed to the protected object by what the '
        'generated target itself records (special methods called, attributes '
        'read, written, deleted); built-in targets by comparing their '
        'contents before and after a refused operation',
        'objects that one operand of an operation reaches bare, because the '
        'caller also holds them bare, are not judged in that operation',
    ],
}
from harness.core import Lazy, Test, rep, require      # noqa: E402
from harness import gen                                # noqa: E402

from harness import universe as U                      # noqa: E402
from zope.security.proxy import Proxy, getChecker, removeSecurityProxy  # noqa: E402

PURE_UNCHECKED = {'__%s__' % c for c in U.CMP} | {'__hash__', '__bool__', '__cmp__'}
# these take the truth value of what comparisons return
TRUTH = set(U.CMP) | {'bool', 'contains', 'countOf'}
EXEMPT = (U.UNCHECKED
          | {'.__class__', '.__Security_checker__', '.__length_hint__'})


def raw_operands(w, op):
    """Objects the operation is handed bare (they need no permission)."""
    out = set()
    for a in w.args:
        if not isinstance(a, Proxy):
            out.add(id(a))
    return out


def judge(w, op, events, outcome):
    bare = raw_operands(w, op)
    truth = op[0] in TRUTH
    window = {}
    lazy_iter = w.lazy
    for e in events:
        if e[0] == 'chk':
            _, which, obj, name, v = e
            window[id(obj)] = (e if v == 'ok' else None)
            if v == 'ok' and name == '__iter__':
                lazy_iter.add(id(obj))
        elif e[0] == 'proxy':
            if not isinstance(e[2], Proxy) and type(e[2]) not in U.BASIC \
                    and type(e[2]) is not U.Token:
                return      # the checker gave it away: the rest is unchecked
        elif e[0] == 'touch':
            _, obj, name = e
            if id(obj) in bare or name in EXEMPT:
                continue
            if truth and name == '__len__':
                continue
            if name in ('__getitem__', '__len__') and id(obj) in lazy_iter:
                continue
            q = window.get(id(obj))
            require(q is not None,
                    '%s reached %r of the object without permission (%s)',
                    op[0], name, Lazy(show, events))
            require(name in U.reached_by(q[1], q[3]),
                    '%s: permission for %r was asked but %r was done (%s)',
                    op[0], q[3], name, Lazy(show, events))


def show(events):
    return ' '.join('%s:%s' % (e[0], rep(e[3:] if e[0] == 'chk' else e[2]
                               if e[0] == 'touch' else '')) for e in events)[:600]


def first_expected(w, op):
    """(proxy asked first, which, name) or None when the rule is silent."""
    name = op[0]
    args = w.args
    if not args:
        return None
    a = args[0]
    if isinstance(a, Proxy):
        if name in ('getattr', 'getattrd', 'hasattr'):
            if w.pure and op[2] in PURE_UNCHECKED:
                return None
            return a, 'get', op[2]
        if name in ('setattr', 'delattr'):
            return a, 'set', op[2]
        if name in U.FIRST:
            return a, 'get', U.FIRST[name]
        return None
    if len(args) > 1 and isinstance(args[1], Proxy) and (
            name in U.BIN or name[1:] in U.IOPS):
        base = name if name in U.BIN else name[1:]
        if type(a) in (int, float, type(None)) or (
                type(a) in (list, dict) and base in ('add', 'sub', 'mul')
                and name in U.BIN):
            return args[1], 'get', '__r%s__' % base
    return None


def snapshot(o):
    if type(o) in (list, tuple):
        return [id(x) for x in o]
    if type(o) in (set, frozenset):
        return sorted(id(x) for x in o)
    if type(o) is dict:
        return [(id(k), id(v)) for k, v in o.items()]
    if type(o) is bytearray:
        return bytes(o)
    return None


def run(case, ctx):
    U.reset()
    w = U.World(case, ctx.pure)
    w.lazy = set()
    w.given = set()
    w.install_policy()
    for op in case['ops']:
        if op[0] not in U.OPS:
            continue
        start = len(w.log)
        before = [snapshot(o) for o in w.objs]
        outcome = w.run(op)
        if outcome[0] == 'skip':
            continue
        events = w.log[start:]
        if any(isinstance(a, Proxy) and not any(getChecker(a) is c for c in w.checkers)
               for a in w.args):
            continue            # under a checker that keeps no record
        if any(id(a) in w.given for a in w.args):
            continue            # a bare result some checker gave away
        if not any(isinstance(a, Proxy) and not any(
                removeSecurityProxy(a) is o for o in w.objs) for a in w.args):
            # (something obtained earlier, like a bound method, reaches the
            # object it belongs to by its own right)
            judge(w, op, events, outcome)
        chks = [e for e in events if e[0] == 'chk']
        exp = first_expected(w, op)
        if exp is not None:
            target = removeSecurityProxy(exp[0])
            require(chks, '%s on a protected object asked no question', op[0])
            q = chks[0]
            require(q[2] is target, '%s: first question was about another '
                    'object than the protected one (%s)', op[0], Lazy(show, events))
            require(q[1] == exp[1] and q[3] == exp[2],
                    '%s: first question was %s %r, expected %s %r', op[0],
                    q[1], q[3], exp[1], exp[2])
            ctx.nontrivial()
            ctx.label(op[0])
            if q[4] != 'ok':
                ctx.label('denied')
            if q[4] != 'ok' and op[0] in U.PRIMITIVE:
                ex = [e[1] for e in events if e[0] == 'exc']
                require(outcome[0] == 'exc',
                        '%s was refused but returned a value', op[0])
                if ex:
                    require(outcome[1] is ex[0], '%s: refused with %r but the '
                            'caller got %r', op[0], ex[0], outcome[1])
                else:       # a real checker refused
                    check_real(w, q, outcome[1], target)
                require(not [e for e in events if e[0] == 'touch' and e[1] is target
                             and e[2] not in EXEMPT and id(target) not in raw_operands(w, op)],
                        '%s was refused but touched the object', op[0])
                after = [snapshot(o) for o in w.objs]
                require(before == after, '%s was refused but changed an '
                        'object: %r -> %r', op[0], before, after)
        if op[0] in U.CMP + ['hash', 'bool']:
            require(not chks, '%s consulted the checker', op[0])
            ctx.label(op[0])
        if op[0] in ('str', 'repr') and isinstance(w.args[0], Proxy) and chks:
            o = removeSecurityProxy(w.args[0])
            if chks[0][4] != 'ok':
                placeholder(o, outcome)
                ctx.label('placeholder')
        if outcome[0] == 'ok':
            w.results.append(outcome[1])
            if type(outcome[1]) not in U.BASIC and not isinstance(outcome[1], Proxy):
                w.given.add(id(outcome[1]))
                w.keep.append(outcome[1])
        ctx.steps += 1


def placeholder(o, outcome):
    require(outcome[0] == 'ok', 'string form raised %r', outcome[1])
    cls = type(o)
    want = '<security proxied %s.%s instance at 0x%x>' % (
        cls.__module__, cls.__name__, id(o))
    require(outcome[1] == want, 'string form not permitted gave %r, not %r',
            outcome[1], want)


def check_real(w, q, exc, target):
    require(type(exc) is U.Unauthorized,
            'refused by the policy but the caller got %r', exc)
    require(exc.args[0] is target and exc.args[1] == q[3],
            'Unauthorized carries %r', exc.args[1:])


# in pure Python these attributes can be read without a question
PUREFREE = ('__cmp__', '__hash__', '__bool__', '__lt__', '__le__', '__eq__',
            '__ne__', '__ge__', '__gt__')
TESTS = [
    Test('program', gen.world(), run, quick=10000, thorough=300000,
         rule='program of 1-6 operations on 1-3 targets, at least one of '
              'which was asked about first as the operation requires'),
    Test('matched', gen.matched(), run, quick=6000, thorough=100000,
         rule='a built-in object and operations that suit it; counted like '
              'the programs'),
    Test('attributes', gen.attributes(kinds=('rec', 'map', 'sub')).filter(
        lambda c: not any(o[2] in PUREFREE for o in c['ops'])), run, quick=3000, thorough=60000,
         rule='reading, setting or deleting attributes of any name; counted '
              'like the programs'),
]

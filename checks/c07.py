"""C07: checkers built from names or interfaces declare exactly those names."""
META = {
    'configs': ['c', 'pure'],
    'technique': 'model-based property testing: generated names, interfaces '
                 'and specifications against a reference map',
    'note': 'Exploration of generated interface hierarchies (attributes, '
            'methods, schema fields, diamonds, tagged values) and lists of '
            'specifications in all accepted forms; the resulting checker is '
            'compared name by name with a reference map.',
    'assumptions': ['the same permission means the same object; None is not '
                    'given as a permission to be compared'],
}
from hypothesis import strategies as st                # noqa: E402
from harness import perms as P                         # noqa: E402
from harness import universe as U                      # noqa: E402
from harness.core import Test, require                 # noqa: E402
from zope.exceptions import DuplicationError           # noqa: E402
from zope.interface import Attribute                   # noqa: E402
from zope.interface.interface import InterfaceClass, fromFunction  # noqa: E402
from zope.interface import Interface                   # noqa: E402
from zope.schema import TextLine                       # noqa: E402
from zope.security import checker as zc                # noqa: E402
from zope.security.interfaces import ForbiddenAttribute, Unauthorized  # noqa: E402

POOL = ['a', 'b', 'c', 'd', 'e', 'f', 'é', '__call__', '__len__', '__name__',
        '__iter__', 'get', 'names', 'permission_ids', '']
name = st.sampled_from(POOL)
KW = ['a', 'b', 'c', 'd', 'get', '__call__', 'é']
perm = st.sampled_from(['public', 'v', 'e', 'm', 'zp', 'uni', 'v', 'public',
                        'like', 'bare', 'empty', 'zero', 'eq'])
iface = st.tuples(
    st.lists(st.tuples(name.filter(bool), st.sampled_from(['attr', 'method', 'field'])).map(list),
             max_size=4),
    st.lists(st.integers(0, 4), max_size=2)).map(list)
ifaces = st.lists(iface, min_size=1, max_size=5)
form = st.sampled_from(['list', 'tuple', 'set', 'iter', 'dictkeys', 'gen', 'false', 'odd'])
names = st.lists(name, max_size=5)
fewperm = st.sampled_from(['public', 'v', 'v'])
spec = st.one_of(
    st.tuples(st.just('names'), names, form, fewperm).map(list),
    st.tuples(st.just('names'), names, form, perm).map(list),
    st.tuples(st.just('iface'), st.integers(0, 4), fewperm).map(list),
    st.tuples(st.just('iface'), st.integers(0, 4), perm).map(list),
    st.tuples(st.just('dict'), st.dictionaries(name, fewperm, max_size=4),
              st.sampled_from(['dict', 'items'])).map(list),
    st.tuples(st.just('dict'), st.dictionaries(name, perm, max_size=4),
              st.sampled_from(['dict', 'items'])).map(list))
kw = st.one_of(st.dictionaries(st.sampled_from(KW), fewperm, max_size=3),
               st.dictionaries(st.sampled_from(KW), perm, max_size=3))
what = st.one_of(
    st.tuples(st.just('Names'), names, form, st.one_of(st.none(), perm), kw).map(list),
    st.tuples(st.just('Interface'), st.integers(0, 4), st.one_of(st.none(), perm), kw).map(list),
    st.tuples(st.just('Multi'), st.lists(spec, max_size=5),
              st.sampled_from(['list', 'tuple', 'iter'])).map(list))
case = st.fixed_dictionaries({'ifaces': ifaces, 'what': what})


def make_ifaces(specs):
    out, allnames = [], []
    for i, (members, bases) in enumerate(specs):
        bs = []
        for b in bases:
            if b < i and out[b] not in bs:
                bs.append(out[b])
        # a consistent order: more derived first
        bs = [b for b in bs if not any(o is not b and o.extends(b) for o in bs)]
        attrs = {}
        for n, kind in members:
            if kind == 'attr':
                attrs[n] = Attribute(n)
            elif kind == 'method':
                def f(self_arg):
                    "doc"
                f.__name__ = n
                attrs[n] = fromFunction(f, name=n)
            else:
                attrs[n] = TextLine(title='t')
        I = InterfaceClass('I%d' % i, tuple(bs) or (Interface,), attrs,
                           __module__='m')
        out.append(I)
        ns = set(attrs)
        for b in bs:
            ns |= allnames[out.index(b)]
        allnames.append(ns)
    return out, allnames


class Items:
    """Something with an items method that is not a dictionary."""

    def __init__(self, d):
        self.d = d

    def items(self):
        return list(self.d.items())


class FalseNames(list):
    """A sequence that has names although it counts as false."""

    def __bool__(self):
        return False


class OddNames:
    """Can only be iterated; says nothing about its size."""

    def __init__(self, names):
        self.values = names

    def __iter__(self):
        return iter(self.values)

    def __len__(self):
        return 0


def shape(names, form):
    if form == 'false':
        return FalseNames(names)
    if form == 'odd':
        return OddNames(names)
    if form == 'tuple':
        return tuple(names)
    if form == 'set':
        return set(names)
    if form == 'iter':
        return iter(names)
    if form == 'dictkeys':
        return dict.fromkeys(names)
    if form == 'gen':
        return (n for n in names)
    return list(names)


def run(case, ctx):
    U.reset()
    ifs, allnames = make_ifaces(case['ifaces'])
    w = case['what']
    want = {}
    dups = set()
    dicts = []

    def add(n, pk):
        p = P.PERMS[pk]
        if n in want and want[n] is not p:
            dups.add(n)
        want.setdefault(n, p)

    if w[0] == 'Multi':
        specs = []
        for s in w[1]:
            if s[0] == 'names':
                specs.append((shape(s[1], s[2]), P.PERMS[s[3]]))
                for n in s[1]:
                    add(n, s[3])
            elif s[0] == 'iface':
                j = s[1] % len(ifs)
                specs.append((ifs[j], P.PERMS[s[2]]))
                for n in allnames[j]:
                    add(n, s[2])
            else:
                d = {n: P.PERMS[p] for n, p in s[1].items()}
                dicts.append(d)
                specs.append(d if s[2] == 'dict' else Items(d))
                for n, p in s[1].items():
                    add(n, p)

        def make():
            return zc.MultiChecker(tuple(specs) if w[2] == 'tuple' else
                                   iter(specs) if w[2] == 'iter' else specs)
    else:
        pk = w[-2]
        kws = {n: P.PERMS[p] for n, p in w[-1].items()}
        for n, p in w[-1].items():
            add(n, p)
        if w[0] == 'Names':
            ns = w[1]
            subject, f = shape(ns, w[2]), zc.NamesChecker
        else:
            j = w[1] % len(ifs)
            subject, ns, f = ifs[j], allnames[j], zc.InterfaceChecker
        for n in ns:
            add(n, pk or 'public')

        def make():
            if pk is None:
                return f(subject, **kws)
            return f(subject, P.PERMS[pk], **kws)
    try:
        c = make()
    except DuplicationError as e:
        require(dups, '%s: refused a consistent specification: %r', w, e.args)
        require(len(e.args) == 1 and e.args[0] in dups,
                '%s: the duplication error names %r, not one of %r', w, e.args, dups)
        ctx.label('duplicate')
        ctx.nontrivial()
        return
    require(not dups, '%s: accepted two permissions for %r', w, sorted(dups))
    require(set(c.get_permissions) == set(want), '%s: declares %r instead of %r',
            w, set(c.get_permissions), set(want))
    for n, p in want.items():
        require(c.permission_id(n) is p, '%s: %r needs %r instead of %r', w, n,
                c.permission_id(n), p)
        require(c.setattr_permission_id(n) is None, '%s: declares %r for setting',
                w, n)
    require(not c.set_permissions, '%s: declares %r for setting', w, c.set_permissions)
    for n in POOL:
        if n not in want:
            require(c.permission_id(n) is None, '%s: declares %r', w, n)
    # and it decides accordingly
    o = U.Plain()
    U.management.setSecurityPolicy(lambda *p: Deny())
    U.management.newInteraction()
    for n in POOL:
        p = want.get(n)
        try:
            c.check(o, n)
            r = 'ok'
        except Unauthorized as e:
            r = 'unauth'
            require(e.args[2] is p, '%s: %r', n, e.args)
        except ForbiddenAttribute:
            r = 'forbidden'
        expect = ('ok' if p is zc.CheckerPublic else 'unauth' if p is not None
                  else 'ok' if n in P.AVAILABLE or n == '__iter__' else 'forbidden')
        require(r == expect, '%s: check of %r is %s, not %s', w, n, r, expect)
        try:
            c.check_setattr(o, n)
        except ForbiddenAttribute:
            pass
        else:
            require(False, '%s: %r may be set', w, n)
    # nothing of it is shared with another checker or with the specification
    c.get_permissions['zz'] = c.set_permissions['zz'] = 'p'
    for f in (zc.NamesChecker(['a']), zc.MultiChecker([])):
        require('zz' not in f.get_permissions and 'zz' not in f.set_permissions,
                '%s: shares its declarations with other checkers', w)
    for d in dicts:
        require('zz' not in d, '%s: shares its declarations with the given '
                'dictionary', w)
    ctx.label(w[0])
    ctx.nontrivial(len(want) > 1)


class Deny:
    def checkPermission(self, p, o):
        return False


TESTS = [
    Test('build', case, run, quick=5000, thorough=120000,
         rule='at least two names were declared, or a duplicate was found'),
]

"""Execute programs in one implementation and report what happened.

usage: tracer.py EXT_DIR     (PURE_PYTHON decides the implementation)

Reads one JSON program per line and writes one JSON trace per line.  Nothing
in a trace depends on addresses or on the implementation.
"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    from harness import boot
    pure = boot.boot(sys.argv[1])
    from harness import apiprog
    from harness import universe as U
    from zope.security.checker import Checker, CheckerPublic
    from zope.security.interfaces import ForbiddenAttribute, Unauthorized
    from zope.security.proxy import Proxy, getChecker, removeSecurityProxy
    BUILTIN = (int, float, bool, complex, bytes, type(None), bytearray, range,
               type(Ellipsis), type(NotImplemented))

    ATTR = ('getattr', 'getattrd', 'hasattr', 'formatattr', 'dict',
            'starstar')

    def describe(c):
        """A checker the program did not make itself."""
        if type(c) is Checker:
            return ['Checker'] + [
                sorted((str(n), 'public' if p is CheckerPublic else str(p))
                       for n, p in m.items())
                for m in (c.get_permissions, c.set_permissions)]
        return type(c).__name__

    def canon(w, x, depth=0):
        if isinstance(x, Proxy):
            c = getChecker(x)
            k = next((i for i, y in enumerate(w.checkers) if y is c),
                     describe(c))
            return ['P', k, canon(w, removeSecurityProxy(x), depth)]
        for i, o in enumerate(w.objs):
            if x is o:
                return ['obj', i]
        t = type(x)
        if depth > 5:
            return ['deep', t.__name__]
        if t is str:
            return ['str', re.sub('0x[0-9a-fA-F]+', 'ADDR', x)]
        if t in BUILTIN:
            return [t.__name__, repr(x)]
        if t is slice:
            return ['slice'] + [canon(w, y, depth + 1) for y in (x.start, x.stop, x.step)]
        if t in (list, tuple):
            return [t.__name__, [canon(w, y, depth + 1) for y in x]]
        if t in (set, frozenset):
            return [t.__name__, sorted(repr(canon(w, y, depth + 1)) for y in x)]
        if t is dict:
            return ['dict', [[canon(w, a, depth + 1), canon(w, b, depth + 1)]
                             for a, b in x.items()]]
        if t in (U.Plain, U.PlainIter):
            return [t.__name__, x.n]
        if t in (type([].append), type(w.run)):
            return ['method', x.__name__, canon(w, x.__self__, depth + 1)]
        if t is U.Token:
            return ['token', canon(w, x.value, depth + 1)]
        if isinstance(x, type):
            return ['type', x.__name__]
        return ['other', t.__name__]

    def canon_exc(w, e):
        t = type(e)
        if isinstance(e, (ForbiddenAttribute, Unauthorized)) or e.args and \
                e.args[0] in ('denied', 'from the object'):
            return [t.__name__, [canon(w, a) for a in e.args]]
        return [t.__name__]

    def state(w):
        out = []
        for o in w.objs:
            if id(o) in w.rec_ids:
                d = object.__getattribute__(o, '__dict__')
                out.append(sorted([k, canon(w, v)] for k, v in d.items()))
            elif type(o) in (list, dict):
                out.append([canon(w, x) for x in (
                    o if type(o) is list else list(o.items()))])
            elif type(o) in (set, frozenset):
                out.append(sorted(repr(canon(w, x)) for x in o))
            elif type(o) is bytearray:
                out.append(repr(bytes(o)))
            else:
                out.append(type(o).__name__)
        return out

    def run_world(case):
        U.reset()
        w = U.World(case, pure)
        w.install_policy()
        steps = []
        for op in case['ops']:
            start = len(w.log)
            kind, value = w.run(op)
            log = []
            for e in w.log[start:]:
                if e[0] == 'chk':
                    item = ['chk', e[1], canon(w, e[2]), e[3], e[4]]
                    if item in (log if op[0] in ATTR else log[-1:]):
                        continue        # the very same question again
                elif e[0] == 'touch':
                    if e[2][0] == '.':
                        continue        # attributes of the object read
                    item = ['touch', canon(w, e[1]), e[2]]
                elif e[0] == 'ret':
                    item = ['ret', canon(w, e[1]), e[2], canon(w, e[3])]
                elif e[0] == 'proxy':
                    if e[1] is e[2] and type(e[1]) in U.BASIC:
                        continue        # protecting it makes no difference
                    item = ['proxy', canon(w, e[1]), canon(w, e[2])]
                else:
                    continue
                log.append(item)
            w.results.append(value if kind == 'ok' and op[0] != 'hash'
                             and not (type(value) is str and '0x' in value) else None)
            if kind == 'ok':
                if op[0] == 'hash' and type(value) is int:
                    out = ['ok', 'hash']
                else:
                    out = ['ok', canon(w, value)]
            elif kind == 'exc':
                out = ['exc', canon_exc(w, value)]
            else:
                out = [kind]
            protected = [type(a) is Proxy for a in w.args]
            first = removeSecurityProxy(w.args[0])
            steps.append({'out': out, 'log': log, 'state': state(w),
                          'protected': protected, 'first': type(first).__name__})
        return steps

    for line in sys.stdin:
        prog = json.loads(line)
        try:
            if prog['kind'] == 'world':
                r = run_world(prog['case'])
            else:
                r = apiprog.run(prog['case'], pure)
            text = json.dumps(r)
        except BaseException as e:
            import traceback
            text = json.dumps({'error': ''.join(traceback.format_exception(e))[-3000:],
                               'type': type(e).__name__})
        sys.stdout.write(text + '\n')
        sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()

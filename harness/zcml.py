"""Running generated configurations against the directives of the library."""
import os
import sys
import tempfile
import types
import xml.sax.saxutils

from zope.configuration import xmlconfig
from zope.configuration.config import ConfigurationMachine
from zope.configuration.exceptions import ConfigurationError    # noqa: F401
from zope.interface import Attribute, Interface
from zope.interface.interface import InterfaceClass, fromFunction
from zope.schema import Int, TextLine
from zope.testing.cleanup import cleanUp
import zope.component
import zope.security

from harness import universe as U

MODNAME = 'verif_configured'
NS = ('xmlns="http://namespaces.zope.org/zope" '
      'xmlns:meta="http://namespaces.zope.org/meta" i18n_domain="verif"')
_base = None
_dir = None
_n = 0


def machine():
    """A configuration context that knows the directives."""
    global _base
    if _base is None:
        _base = ConfigurationMachine()
        xmlconfig.registerCommonDirectives(_base)
        xmlconfig.file('meta.zcml', zope.component, context=_base)
        xmlconfig.file('meta.zcml', zope.security, context=_base)
    m = ConfigurationMachine()
    m._registry = _base._registry
    m._docRegistry = _base._docRegistry
    return m


def reset():
    cleanUp()
    U.reset()


def fake_module(name=MODNAME, **content):
    m = types.ModuleType(name)
    m.__dict__.update(content)
    sys.modules[name] = m
    return m


def attrs(**kw):
    return ''.join(' %s=%s' % (k, xml.sax.saxutils.quoteattr(v))
                   for k, v in kw.items() if v is not None)


def scratch():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='verif-zcml-')
    return _dir


def write(text):
    """A file with this configuration; -> its path."""
    global _n
    _n += 1
    path = os.path.join(scratch(), 'f%d.zcml' % (_n % 50))
    with open(path, 'w', encoding='utf-8') as f:
        f.write('<configure %s>\n%s\n</configure>\n' % (NS, text))
    return path


def run(text, context=None):
    """Process and execute."""
    return xmlconfig.string('<configure %s>\n%s\n</configure>\n' % (NS, text),
                            context or machine(), execute=True)


def interfaces(specs, modname=MODNAME):
    """specs: [[[name, kind]...], [base positions]]

    -> interfaces, for each the names of all members, for each the names of
    the fields that are not read-only.
    """
    out, names, settable = [], [], []
    for i, (members, bases) in enumerate(specs):
        bs = []
        for b in bases:
            if b < i and out[b] not in bs:
                bs.append(out[b])
        bs = [b for b in bs if not any(o is not b and o.extends(b) for o in bs)]
        ns = {}
        for n, kind in members:
            if kind == 'attr':
                ns[n] = Attribute(n)
            elif kind == 'method':
                def f(arg):
                    "doc"
                f.__name__ = n
                ns[n] = fromFunction(f, name=n)
            elif kind == 'ro':
                ns[n] = TextLine(title='t', readonly=True)
            elif kind == 'int':
                ns[n] = Int(title='t')
            else:
                ns[n] = TextLine(title='t')
        I = InterfaceClass('I%d' % i, tuple(bs) or (Interface,), ns,
                           __module__=modname)
        out.append(I)
        names.append({n for n in I.names(True)})
        fields = set()
        for n in names[-1]:
            # found by walking the resolution order
            for J in I.__iro__:
                if n in J.names():
                    owner = specs[out.index(J)]
                    kind = dict(map(tuple, owner[0]))[n]
                    break
            if kind in ('field', 'int'):
                fields.add(n)
        settable.append(fields)
    return out, names, settable


def resolve(actions):
    """Reference for conflict handling.

    actions: [(discriminator or None, path, payload)] in textual order
    -> (conflict?, payloads in order of execution)
    """
    groups = {}
    for i, (d, path, _) in enumerate(actions):
        if d is not None:
            groups.setdefault(d, []).append((path, i))
    keep = set()
    for d, members in groups.items():
        members.sort()
        base, first = members[0]
        keep.add(first)
        for path, i in members[1:]:
            if path == base or path[:len(base)] != base:
                return True, []
    return False, [p for i, (d, _, p) in enumerate(actions)
                   if d is None or i in keep]

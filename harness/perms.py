"""Permissions, policies and objects for the checks of declarations."""
from zope.security.checker import CP_HACK_XXX
from zope.security.checker import CheckerPublic
from zope.security.checker import Global
from zope.security import management
from zope.security._definitions import thread_local

AVAILABLE = frozenset([
    '__lt__', '__le__', '__eq__', '__gt__', '__ge__', '__ne__', '__hash__',
    '__bool__', '__class__', '__providedBy__', '__implements__', '__repr__',
    '__conform__', '__name__', '__parent__'])


class AlwaysEqual:
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return hash('zope.Public')

    def __bool__(self):
        return True


class BadBool:
    def __bool__(self):
        raise ZeroDivisionError('no truth in it')


class PolicyError(Exception):
    pass


ALWAYS_EQUAL = AlwaysEqual()
LOOKALIKE = Global('CheckerPublic', 'zope.security.checker')

# name in a case -> the permission
PERMS = {
    'public': CheckerPublic, 'none': None, 'v': 'zope.View', 'e': 'zope.Edit',
    'm': 'zope.Manage', 'zp': 'zope.Public', 'empty': '', 'zero': 0,
    'false': False, 'tuple': (), 'eq': ALWAYS_EQUAL, 'like': LOOKALIKE,
    'bare': CP_HACK_XXX, 'one': 1, 'uni': 'p\udc80\u540d', 'true': True,
}
# what a policy can answer
ANSWERS = {
    'T': True, 'F': False, '1': 1, '0': 0, 'yes': 'yes', 'no': '',
    'list': [0], 'nil': [], 'None': None, 'bad': BadBool(),
    'obj': ALWAYS_EQUAL, 'ni': NotImplemented, '0.0': 0.0,
}
RAISES = {'!': PolicyError, '!attr': AttributeError, '!key': KeyError,
          '!base': KeyboardInterrupt, '!unauth': None, '!stop': StopIteration}
CLASS = {'T': 1, '1': 1, 'yes': 1, 'list': 1, 'obj': 1, 'ni': 1,
         'F': 0, '0': 0, 'no': 0, 'nil': 0, 'None': 0, '0.0': 0}


class Policy:
    """Answers by (permission key, object index) and remembers the questions."""

    def __init__(self, table, default, perm_key, obj_key):
        self.table = table
        self.default = default
        self.perm_key = perm_key
        self.obj_key = obj_key
        self.asked = []
        self.errors = {}

    def answer(self, pk, ok):
        return self.table.get('%s/%s' % (pk, ok),
                              self.table.get('%s/' % pk, self.default))

    def checkPermission(self, permission, obj):
        self.asked.append((permission, obj))
        a = self.answer(self.perm_key(permission), self.obj_key(obj))
        if a in RAISES:
            cls = RAISES[a]
            if cls is None:
                from zope.security.interfaces import Unauthorized as cls
            e = self.errors.setdefault(a, cls('policy says'))
            e.__traceback__ = None
            raise e
        return ANSWERS[a]

    def install(self):
        management.setSecurityPolicy(lambda *p: self)
        thread_local.__dict__.clear()
        management.newInteraction()


def perm_key(p):
    """The key of a permission, by identity (so that look-alikes differ)."""
    for k, v in PERMS.items():
        if v is p:
            return k
    return repr(p)

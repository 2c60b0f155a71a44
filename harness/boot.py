"""Prepare an interpreter to import zope.security from the repository.

Call boot(ext_dir) before anything imports zope.security.
"""
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class _ExtFinder:
    """Serve the two C extension modules from the scratch build."""

    def __init__(self, ext_dir):
        self.ext_dir = ext_dir

    def find_spec(self, fullname, path=None, target=None):
        if fullname in ('zope.security._proxy',
                        'zope.security._zope_security_checker'):
            p = os.path.join(self.ext_dir, fullname.rsplit('.', 1)[1] + '.so')
            loader = importlib.machinery.ExtensionFileLoader(fullname, p)
            return importlib.util.spec_from_file_location(
                fullname, p, loader=loader)
        return None


def boot(ext_dir):
    # Hypothesis comes from the tooling environment; appended at the very end
    # so that nothing there shadows what the library itself uses.
    if VT not in sys.path:
        sys.path.append(VT)
    src = os.path.join(REPO, 'src')
    import zope
    want = os.path.join(src, 'zope')
    paths = [p for p in zope.__path__ if os.path.realpath(p) not in
             (os.path.realpath('/repo/src/zope'), os.path.realpath(want))]
    zope.__path__[:] = [want] + paths
    sys.meta_path.insert(0, _ExtFinder(ext_dir))
    import zope.security
    assert os.path.realpath(zope.security.__file__).startswith(
        os.path.realpath(want) + os.sep), zope.security.__file__
    from zope.security._compat import PURE_PYTHON
    import zope.security.checker as C
    import zope.security.proxy as P
    pure = bool(int(os.environ.get('PURE_PYTHON', '0')))
    assert bool(PURE_PYTHON) == pure
    if not pure:
        import zope.security._proxy as cp
        import zope.security._zope_security_checker as cc
        for m in (cp, cc):
            assert m.__file__.startswith(ext_dir), m.__file__
        assert P.Proxy is cp._Proxy, P.Proxy
        assert C.selectChecker is cc.selectChecker
    else:
        assert P.Proxy is P.ProxyPy
    return pure

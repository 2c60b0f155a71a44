"""Out-of-tree build of the C extensions from the repository's working tree.

The sources of /repo are only read.  The shared objects go to a scratch
directory of this run; harness.boot makes the interpreter import them from
there, so neither stale nor missing .so files in /repo/src matter.
"""
import os
import subprocess
import sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
MODULES = ('_proxy', '_zope_security_checker')


class BuildError(Exception):
    pass


def build(outdir, sanitize=False, debug=False):
    os.makedirs(outdir, exist_ok=True)
    pyinc = sysconfig.get_paths()['include']
    src = os.path.join(REPO, 'src', 'zope', 'security')
    procs = []
    for mod in MODULES:
        cmd = ['gcc', '-shared', '-fPIC', '-g', '-w', '-fno-strict-overflow',
               '-fwrapv', '-I', pyinc, '-I', os.path.join(REPO, 'include', 'zope.proxy'),
               '-I', src]
        if sanitize:
            cmd += ['-O1', '-fsanitize=address,undefined',
                    '-fno-sanitize-recover=undefined',
                    # CPython's own calling conventions (casts between
                    # function pointer types, NULL + 0) are not findings.
                    '-fno-sanitize=null,alignment',
                    '-fno-omit-frame-pointer', '-shared-libasan'
                    if False else '-fno-common']
        else:
            cmd += ['-O1', '-DNDEBUG']
        out = os.path.join(outdir, mod + '.so')
        cmd += [os.path.join(src, mod + '.c'), '-o', out]
        procs.append((cmd, subprocess.Popen(
            cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for cmd, p in procs:
        text, _ = p.communicate()
        if p.returncode != 0:
            raise BuildError('%s\n%s' % (' '.join(cmd), text))
    return outdir

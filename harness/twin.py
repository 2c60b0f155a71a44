"""Tracers, one per variant of the library."""
import json
import os
import select
import subprocess
import sys

from harness.core import Violation

HERE = os.path.dirname(os.path.abspath(__file__))


class Server:
    def __init__(self, impl, watch):
        env = dict(os.environ, PURE_PYTHON='1' if impl == 'pure' else '0')
        env.pop('ZOPE_WATCH_CHECKERS', None)
        err = None
        if watch:
            env['ZOPE_WATCH_CHECKERS'] = watch
            err = subprocess.DEVNULL
        self.name = impl + (' watching' if watch else '')
        self.p = subprocess.Popen(
            [sys.executable, os.path.join(HERE, 'tracer.py'), os.environ['VERIF_EXT']],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=env)
        self.buf = b''

    def send(self, line):
        self.p.stdin.write(line)
        self.p.stdin.flush()

    def recv(self, timeout=90):
        while b'\n' not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.p.kill()
                self.p.wait()
                raise Violation('the %s implementation did not finish' % self.name)
            data = os.read(self.p.stdout.fileno(), 1 << 16)
            if not data:
                rc = self.p.wait()
                if rc >= 0:
                    raise RuntimeError('the %s tracer failed (%s)' % (self.name, rc))
                raise Violation('the %s implementation died (%s)' % (self.name, rc))
            self.buf += data
        line, _, self.buf = self.buf.partition(b'\n')
        return json.loads(line)


servers = {}


def both(kind, case, variants=(('compiled', None), ('pure', None))):
    """-> the traces of two variants: (implementation, watch setting)"""
    line = (json.dumps({'kind': kind, 'case': case}) + '\n').encode()
    try:
        for v in variants:
            s = servers.get(v)
            if s is None or s.p.poll() is not None:
                servers[v] = Server(*v)
            servers[v].send(line)
        out = [servers[v].recv() for v in variants]
    except Violation:
        for s in servers.values():
            s.p.kill()
            s.p.wait()
        servers.clear()
        raise
    for v, r in zip(variants, out):
        if isinstance(r, dict) and 'error' in r:
            raise RuntimeError('%s: %s' % (v, r['error']))
    return out

"""Author and try planted bugs.

  seed.py new BATCH.py     write seeded/<id>/ from a batch of BUGS
  seed.py try ID...        confirm and run the property's check (-a: all checks)

A batch defines BUGS = [dict(id, property, edits=[(file, old, new)], demo,
pure=0|1|both, needs, breaks)].
"""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **kw)


def clean():
    sh('git -C /repo checkout -- .')


def new(batch):
    ns = {}
    exec(open(batch).read(), ns)
    ids = []
    for b in ns['BUGS']:
        clean()
        d = os.path.join(SEEDED, b['id'])
        os.makedirs(d, exist_ok=True)
        for f, old, new_ in b['edits']:
            p = os.path.join('/repo/src/zope/security', f)
            s = open(p).read()
            if s.count(old) != 1:
                clean()
                raise SystemExit('%s: %d matches in %s of\n%s' % (b['id'], s.count(old), f, old))
            open(p, 'w').write(s.replace(old, new_))
        diff = sh('git -C /repo diff').stdout
        clean()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].strip() + '\n')
        runs = {0: '0', 1: '1', 'both': '0 1'}[b.get('pure', 0)]
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\n# exit 0: behaves as it should\n'
            'here=$(cd "$(dirname "$0")" && pwd)\n'
            'for pure in %s; do\n'
            '  PURE_PYTHON=$pure PYTHONDONTWRITEBYTECODE=1 %s/opt/venv/bin/python "$here/demo.py" || exit 1\n'
            'done\nexit 0\n' % (runs, b.get('env', '') and b['env'] + ' '))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        ids.append(b['id'])
    return ids


def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0, r.stdout


def try_(ids, every=False, tests=True):
    base = None
    for i in ids:
        d = os.path.join(SEEDED, i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        clean()
        out = [i]
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stdout)
            continue
        try:
            ok, text = build()
            if not ok:
                print(i, 'DOES NOT BUILD', text[-800:])
                continue
            if tests:
                r = sh('bash /opt/vp/test.sh /tmp/seedtest.json 2>/dev/null | tail -1')
                res = r.stdout.strip()
                out.append(res if '1936 passed, 0 failed' not in res else 'tests ok')
            r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
            out.append('demo fails' if r.returncode else 'DEMO PASSES WITH BUG')
            props = [meta['property']]
            if every:
                props = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'checks')) if f.startswith('c'))
            for p in props:
                if not os.path.exists(os.path.join(HERE, 'checks', p.lower() + '.py')):
                    out.append(p + ':no check')
                    continue
                r = sh('VERIF_EVIDENCE=/tmp/seed-ev %s %s/run.py check %s' % (PY, HERE, p))
                got = {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR %s' % r.returncode)
                if not every or r.returncode:
                    out.append('%s:%s' % (p, got))
                open('/tmp/seed-%s-%s.log' % (i, p), 'w').write(r.stdout)
        finally:
            clean()
        ok, text = build()
        r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
        if r.returncode:
            out.append('DEMO FAILS WITHOUT BUG: ' + r.stdout[-500:])
        print(' | '.join(out), flush=True)
    build()


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'new':
        ids = new(a[1])
        print('\n'.join(ids))
        if '-t' in a:
            try_(ids)
    else:
        ids = [x for x in a[1:] if not x.startswith('-')]
        if not ids:
            ids = sorted(os.listdir(SEEDED))
        try_(ids, '-a' in a, '-n' not in a)

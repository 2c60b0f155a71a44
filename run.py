#!/opt/venv/bin/python
"""Driver of the checks.

  run.py check C01 [--tier quick|thorough] [--seed N]
  run.py replay FILE
  run.py setup

Exit status: 0 the property held on everything explored, 1 a violation was
found (with a VIOLATION line), 2 an error of the check itself.
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from harness import build as B      # noqa: E402

PY = '/opt/venv/bin/python'
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
REPLAYS = os.path.join(EVID, 'replay')
CONFIG_ENV = {
    'c': {'PURE_PYTHON': '0'},
    'pure': {'PURE_PYTHON': '1'},
    'watch': {'PURE_PYTHON': '0', 'ZOPE_WATCH_CHECKERS': '1'},
    'watch2': {'PURE_PYTHON': '0', 'ZOPE_WATCH_CHECKERS': '2'},
    'purewatch': {'PURE_PYTHON': '1', 'ZOPE_WATCH_CHECKERS': '1'},
    'asan': {'PURE_PYTHON': '0'},
    'diff': {'PURE_PYTHON': '0'},
}
LIMIT = {'quick': 800, 'thorough': 3000}


def log(*a):
    print(*a, flush=True)


def worker_env(config, scratch, extra=None):
    env = {k: v for k, v in os.environ.items()
           if k in ('HOME', 'LANG', 'LC_ALL', 'VERIF_REPO',
                    'VERIF_ONLY', 'VERIF_SCALE')}
    env.update(PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               PYTHONHASHSEED='0', PYTHONNOUSERSITE='1', TMPDIR=scratch,
               PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'))
    env.update(CONFIG_ENV[config])
    if config == 'asan':
        lib = subprocess.check_output(
            ['gcc', '-print-file-name=libasan.so'], text=True).strip()
        ub = subprocess.check_output(
            ['gcc', '-print-file-name=libubsan.so'], text=True).strip()
        env.update(LD_PRELOAD=lib + ' ' + ub, PYTHONMALLOC='malloc',
                   ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:'
                                'allocator_may_return_null=1',
                   UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99')
    env.update(extra or {})
    return env


def known_findings(prop):
    """{key: text} of the unrepaired findings listed for the property."""
    out = {}
    path = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                assert key.startswith('key='), line
                out[key[4:]] = text
    return out


def spec(prop):
    """Names, configurations and rules of the tests of a check, read in a
    subprocess-free way: each check module has a META dict literal."""
    import ast
    path = os.path.join(HERE, 'checks', prop.lower() + '.py')
    tree = ast.parse(open(path).read())
    for node in tree.body:
        if (isinstance(node, ast.Assign)
                and getattr(node.targets[0], 'id', '') == 'META'):
            return ast.literal_eval(node.value)
    raise SystemExit('no META in %s' % path)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif-', dir='/tmp')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def ext_dir(scratch, config):
    d = os.path.join(scratch, 'ext-asan' if config == 'asan' else 'ext')
    if not os.path.exists(os.path.join(d, 'ok')):
        B.build(d, sanitize=config == 'asan')
        open(os.path.join(d, 'ok'), 'w').close()
    return d


def spawn(prop, config, tier, seed, scratch, shard, shards, known):
    tag = '%s-%d' % (config, shard)
    out = os.path.join(scratch, tag + '.json')
    cur = os.path.join(scratch, tag + '.cur')
    err = os.path.join(scratch, tag + '.err')
    scale = float(os.environ.get('VERIF_SCALE', '1')) / shards
    env = worker_env(config, scratch, {
        'VERIF_SHARD': str(shard), 'VERIF_SCALE': repr(scale),
        'VERIF_KNOWN': json.dumps(sorted(known))})
    p = subprocess.Popen(
        [PY, os.path.join(HERE, 'harness', 'worker.py'), prop, config, tier,
         str(seed), ext_dir(scratch, config), out, cur],
        env=env, cwd=HERE, stdin=subprocess.DEVNULL, stdout=open(err, 'w'),
        stderr=subprocess.STDOUT, start_new_session=True)
    return dict(p=p, config=config, shard=shard, out=out, cur=cur, err=err)


def tail(path, n=3000):
    try:
        with open(path, 'rb') as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode('utf-8', 'replace')
    except OSError:
        return ''


def run_one(prop, config, test, case, scratch, timeout=120):
    """Replay one case in a fresh process.

    -> ('pass'|'fail'|'crash'|'error', text)
    """
    rep = os.path.join(scratch, 'one.json')
    with open(rep, 'w') as f:
        json.dump({'test': test, 'case': case}, f)
    p = subprocess.run(
        [PY, os.path.join(HERE, 'harness', 'worker.py'), prop, config,
         'quick', '0', ext_dir(scratch, config),
         os.path.join(scratch, 'one.out'), os.path.join(scratch, 'one.cur'), rep],
        env=worker_env(config, scratch), cwd=HERE, stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    text = p.stdout.decode('utf-8', 'replace')[-4000:]
    if p.returncode == 0:
        return 'pass', text
    if p.returncode == 1:
        return 'fail', text
    if p.returncode < 0 or p.returncode == 99:
        return 'crash', text
    return 'error', text


def shrink_crash(prop, config, test, case, scratch, budget=45):
    """Minimise a crashing case by deleting list elements, out of process."""
    t0 = time.time()

    def lists(x, path=()):
        if isinstance(x, list):
            yield path
            for i, y in enumerate(x):
                yield from lists(y, path + (i,))
        elif isinstance(x, dict):
            for k in x:
                yield from lists(x[k], path + (k,))

    def without(x, path, i):
        y = json.loads(json.dumps(x))
        z = y
        for k in path:
            z = z[k]
        del z[i]
        return y

    def at(x, path):
        for k in path:
            x = x[k]
        return x

    again = True
    while again and time.time() - t0 < budget:
        again = False
        for path in list(lists(case)):
            try:
                n = len(at(case, path))
            except (KeyError, IndexError, TypeError):
                continue
            for i in reversed(range(n)):
                if time.time() - t0 > budget:
                    return case
                try:
                    smaller = without(case, path, i)
                except (KeyError, IndexError, TypeError):
                    continue
                try:
                    r, _ = run_one(prop, config, test, smaller, scratch, 30)
                except subprocess.TimeoutExpired:
                    continue
                if r == 'crash':
                    case = smaller
                    again = True
    return case


def save_replay(prop, config, test, case, msg, seed):
    os.makedirs(REPLAYS, exist_ok=True)
    import hashlib
    h = hashlib.sha1(json.dumps([config, test, case]).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, '%s-%s-%s-%s.json' % (prop, config, test, h))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, config=config, test=test, case=case,
                       message=msg, seed=seed), f, indent=1)
    return path


def check(prop, tier, seed):
    t0 = time.time()
    meta = spec(prop)
    known = known_findings(prop)
    configs = meta['configs'][tier] if isinstance(meta['configs'], dict) else meta['configs']
    shards = meta.get('shards', {}).get(tier) or max(1, 8 // len(configs))
    if os.environ.get('VERIF_SHARDS'):
        shards = int(os.environ['VERIF_SHARDS'])
    violations, errors = [], []
    tests = {}
    with Scratch() as scratch:
        try:
            for c in configs:
                ext_dir(scratch, c)
        except B.BuildError as e:
            log('BUILD ERROR\n%s' % e)
            return 2
        jobs = []
        for c in configs:
            for k in range(shards):
                jobs.append(spawn(prop, c, tier, seed, scratch, k, shards, known))
        limit = t0 + LIMIT[tier]
        for j in jobs:
            try:
                j['rc'] = j['p'].wait(max(1, limit - time.time()))
            except subprocess.TimeoutExpired:
                j['rc'] = None
        for j in jobs:
            if j['rc'] is None:
                try:
                    os.killpg(j['p'].pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                j['p'].wait()
                errors.append('%s/%d: time budget exhausted (inconclusive)\n%s'
                              % (j['config'], j['shard'], tail(j['err'])))
            res = []
            if os.path.exists(j['out']):
                res = json.load(open(j['out']))
            for st in res:
                key = (st['test'], st['config'])
                agg = tests.setdefault(key, dict(
                    evaluations=0, nontrivial=set(), labels={}, samples=[],
                    known={}, rule=st['rule']))
                agg['evaluations'] += st['evaluations']
                agg['nontrivial'].update(st['nontrivial'])
                agg['samples'] += st['samples']
                for n in ('labels', 'known'):
                    for k, v in st[n].items():
                        agg[n][k] = agg[n].get(k, 0) + v
                if st['failure']:
                    violations.append((st['config'], st['test'],
                                       st['failure']['case'], st['failure']['msg']))
                if st['error']:
                    errors.append('%s/%s: %s' % (st['config'], st['test'], st['error']))
            rc = j['rc']
            if rc is None:
                continue
            if rc < 0 or rc == 99:
                # died of a signal (or a sanitizer report) while a case ran
                cur = tail(j['cur'], 10 ** 7).split('\n')
                if len(cur) >= 2 and cur[1]:
                    head = json.loads(cur[0])
                    case = json.loads(cur[1])
                    if rc == -signal.SIGKILL:
                        errors.append('%s killed (out of memory?)' % j['config'])
                        continue
                    what = ('did not finish within %d s of CPU' % 60
                            if rc == -signal.SIGPROF else
                            'process died: %s' % (
                                signal.Signals(-rc).name if rc < 0
                                else 'memory error reported by the sanitizer'))
                    if (rc != -signal.SIGPROF
                            and not any(v[1] == head['test'] and v[0] == head['config']
                                        for v in violations)):
                        case = shrink_crash(prop, head['config'], head['test'],
                                            case, scratch)
                    violations.append((head['config'], head['test'], case,
                                       what + '\n' + tail(j['err'], 2500)))
                else:
                    errors.append('%s died before any case: %s'
                                  % (j['config'], tail(j['err'])))
            elif rc != 0 or not os.path.exists(j['out'] + '.done'):
                errors.append('%s/%d: worker exit %s\n%s' % (
                    j['config'], j['shard'], rc, tail(j['err'])))
    ev = sum(t['evaluations'] for t in tests.values())
    nt = sum(len(t['nontrivial']) for t in tests.values())
    samples = []
    for (name, config), t in sorted(tests.items()):
        for s in t['samples'][:2]:
            samples.append({'test': name, 'config': config, 'case': s})
    best = {}
    for v in violations:
        k = (v[1], v[0])
        if k not in best or len(json.dumps(v[2])) < len(json.dumps(best[k][2])):
            best[k] = v
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=ev, distinct_nontrivial=nt,
            rule=' | '.join('%s: %s' % (n, r) for n, r in sorted(
                {(k[0], t['rule']) for k, t in tests.items()})),
            samples=samples[:24],
            per_test={'%s/%s' % k: dict(
                evaluations=t['evaluations'],
                distinct_nontrivial=len(t['nontrivial']),
                classes=dict(sorted(t['labels'].items())),
                known_findings_hit=t['known']) for k, t in sorted(tests.items())},
            excluded_known_findings=sum(sum(t['known'].values()) for t in tests.values())),
        assumptions=meta.get('assumptions', []),
        wall_s=round(time.time() - t0, 2), violations=len(best))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(EVID, prop + '.json'))
    for key, text in sorted(known.items()):
        log('KNOWN-FINDING: property=%s %s' % (prop, text))
    log('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (
        prop, tier, seed, ev, nt, time.time() - t0))
    for e in errors:
        log('ERROR: ' + e)
    for k, (config, test, case, msg) in sorted(best.items()):
        path = save_replay(prop, config, test, case, msg, seed)
        log('--- %s [%s] %s\n    case: %s' % (
            test, config, msg.replace('\n', '\n    '), json.dumps(case)[:2000]))
        log('VIOLATION property=%s replay=%s' % (prop, path))
    if best:
        return 1
    if errors:
        return 2
    if nt == 0:
        log('ERROR: nothing non-trivial was explored')
        return 2
    return 0


def replay(path):
    rep = json.load(open(path))
    with Scratch() as scratch:
        r, text = run_one(rep['property'], rep['config'], rep['test'],
                          rep['case'], scratch, 600)
    log(text)
    log({'pass': 'the case passes', 'fail': 'the case FAILS',
         'crash': 'the case CRASHES the process',
         'error': 'harness error'}[r])
    if r in ('fail', 'crash'):
        log('VIOLATION property=%s replay=%s' % (rep['property'], path))
        return 1
    return 0 if r == 'pass' else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'replay', 'setup'])
    ap.add_argument('arg', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED') or 1))
    a = ap.parse_args()
    if a.cmd == 'check':
        return check(a.arg, a.tier, a.seed)
    if a.cmd == 'replay':
        return replay(a.arg)
    # setup: nothing needs to be installed; show that the build works
    with Scratch() as s:
        B.build(os.path.join(s, 'ext'))
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import hypothesis
    log('setup ok, hypothesis', hypothesis.__version__)
    return 0


if __name__ == '__main__':
    sys.exit(main())

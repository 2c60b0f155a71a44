"""One configuration of one check, in its own process.

usage: worker.py PROP CONFIG TIER SEED EXT_DIR OUT CURRENT [replay FILE]
"""
import faulthandler
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    prop, config, tier, seed, ext, out, current = sys.argv[1:8]
    from harness import boot, core
    if config == 'diff':
        # this process only generates and compares; it never imports the code
        sys.path.append(boot.VT)
        os.environ['VERIF_EXT'] = ext
    else:
        boot.boot(ext)
    fd = os.open(current, os.O_RDWR | os.O_CREAT)
    known = json.loads(os.environ.get('VERIF_KNOWN', '[]'))
    runner = core.Runner(boot.REPO, config, tier, int(seed), fd, known)
    mod = core.load_check(prop)
    only = os.environ.get('VERIF_ONLY')
    if len(sys.argv) > 8:
        rep = json.load(open(sys.argv[8]))
        for test in mod.TESTS:
            if test.name == rep['test']:
                ctx, v = runner.run_case(test, rep['case'])
                if v is not None:
                    print('FAILS: %s' % v.msg)
                    return 1
                print('PASSES')
                return 0
        print('no such test', file=sys.stderr)
        return 2
    shard = int(os.environ.get('VERIF_SHARD', '0'))
    tests = [t for t in mod.TESTS if config in t.configs
             and (only is None or t.name == only)]
    for test in tests:
        runner.run_test(test, float(os.environ.get('VERIF_SCALE', '1')), shard)
        with open(out + '.tmp', 'w') as f:
            json.dump([core.jsonable(r) for r in runner.results], f)
        os.replace(out + '.tmp', out)
    with open(out + '.tmp', 'w') as f:
        json.dump([core.jsonable(r) for r in runner.results], f)
    os.replace(out + '.tmp', out)
    with open(out + '.done', 'w') as f:
        f.write('done')
    return 0


if __name__ == '__main__':
    # no stack traces of the crashing process are needed, the driver names
    # the case; a C-level dump helps when reading logs
    faulthandler.enable(file=sys.stderr, all_threads=False)
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)

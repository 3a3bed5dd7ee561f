#!/usr/bin/env python3-vt
"""check.py <property id> [--replay FILE] [--seed N] [--tier quick|thorough] [--count N]"""
import argparse, importlib, json, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'props'))
sys.dont_write_bytecode = True
os.chdir(HERE)
import pbt, build


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--count', type=int)
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    mod = importlib.import_module(a.prop.lower())
    prop = mod.PROP
    if a.count:
        prop.COUNT = {'quick': a.count, 'thorough': a.count}
    if a.replay:
        case = json.load(open(a.replay))['case']
        ctx = pbt.Ctx(prop.build())
        m = pbt.judge_once(prop, case, ctx)
        for r in ctx.last:
            print('--- %s -> rc %s\n%s\nstdout:\n%s\nstderr:\n%s' % (' '.join(r['argv']), r['rc'], r['input'] or '', r['stdout'], r['stderr'][-800:]))
        ctx.close()
        print('VIOLATED: ' + m if m else 'holds')
        return 1 if m else 0
    return pbt.run_check(prop, tier, a.seed)


if __name__ == '__main__':
    try:
        rc = main()
    except build.BuildError as e:
        print('BUILD ERROR: %s' % e)
        rc = 3
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)

#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import sys, os, argparse
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

def run():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs = '?')
    ap.add_argument('--selftest', action = 'store_true')
    ap.add_argument('--tier', default = os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type = int, default = int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--shard', type = int)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--case')
    a = ap.parse_args()
    from hv import engine
    if a.selftest:                              # all checks can be imported, and the code under test is the working tree
        import glob, hv.real
        for path in sorted(glob.glob(os.path.join(engine.ROOT, 'hv', 'checks', 'c*.py'))): engine.load_check(os.path.basename(path)[:-3])
        return 0
    if a.replay: return engine.run_replay(a.prop, a.replay)
    if a.case:                                  # used by the engine for a case that may end the process
        family, i = a.case.split(':')
        verdict, x = engine.one_case(a.prop, a.seed, family, int(i))
        print(x.what if verdict == 'bad' else verdict)
        return 1 if verdict == 'bad' else 0
    if a.shard is not None:
        engine.shard_main(a.prop, a.tier, a.seed, a.shard, a.out)
        return 0
    return engine.main(a.prop, a.tier, a.seed)

if __name__ == '__main__':
    try:
        code = run()
    except SystemExit: raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.exit(code)

import os
import sys


def main(argv):
    if os.environ.get('PYTHONHASHSEED') is None:
        # every interpreter of the simulator hashes alike, so that a replay is exact
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONUTF8'] = '1'
        os.execv(sys.executable, [sys.executable, '-W', 'ignore', '-m', 'sim'] + argv)
    from . import boot, engine
    cmd = argv[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if cmd == 'check':
        tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        return engine.check(argv[1], tier, seed)
    if cmd == 'replay':
        return engine.replay(argv[1])
    if cmd == 'one':                       # one scenario by number, verbosely
        mod = engine.load(argv[1])
        import json
        s = engine.scenario(mod, seed, int(argv[2]))
        print(json.dumps(s))
        r = engine.run_scenario(mod, s)
        print(r)
        return 0
    from . import tools
    return getattr(tools, cmd)(*argv[1:])


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

"""run.py setup | run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import boot


def main():
    boot.setup_env()
    ap = argparse.ArgumentParser()
    ap.add_argument('what')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        boot.activate()
        if a.what == 'setup':
            import matplotlib.pyplot as plt
            plt.figure().gca()
            plt.savefig(os.devnull, format='png')
            boot.asan_extension()
            print('setup done')
            return 0
        from lib import runner
        if a.replay:
            return runner.replay(a.what, a.replay)
        return runner.run(a.what, 'thorough' if a.tier == 'thorough' else 'quick', a.seed)
    except boot.HarnessError as e:
        print('ERROR of the check: {0}'.format(e))
        return 2
    except Exception:
        print('ERROR of the check:\n' + traceback.format_exc())
        return 2


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)

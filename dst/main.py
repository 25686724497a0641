import os
import sys

from . import seams            # patches the clock before dppy is imported
seams.load_dppy()
from . import core


def main(argv):
    cmd = argv[0]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if cmd == 'check':
        if len(argv) > 2:
            tier = argv[2]
        return core.run_check(argv[1], tier, seed)
    if cmd == 'replay':
        return core.replay(argv[1])
    if cmd == 'run':                       # one run, verbose (debugging)
        import json
        check = core.load_check(argv[1])
        plan = core.plan_for(check, seed, tier, int(argv[2]))
        print(json.dumps(plan))
        res = core.execute(check, plan, keep=True)
        for e in res.pop('events')[-50:]:
            print('  ', e)
        res['states'] = len(res['states'])
        print(json.dumps(res, indent=1, default=str))
        return 0
    if cmd == 'digests':                   # event-log digests (determinism)
        d = []
        runs = int(argv[2]) if len(argv) > 2 else None
        workers = int(argv[3]) if len(argv) > 3 else None
        core.run_check(argv[1], tier, seed, workers=workers, runs=runs, digests=d)
        for i, x in d:
            print('DIGEST', i, x)
        return 0
    raise SystemExit('unknown command')


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for k, v in (('OMP_NUM_THREADS', '1'), ('OPENBLAS_NUM_THREADS', '1')):
    os.environ.setdefault(k, v)
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
import mc  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    only = None
    replay = None
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--suite='):
            only = a.split('=', 1)[1]
        elif a.startswith('--replay='):
            replay = a.split('=', 1)[1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    import random
    random.seed(seed)
    try:
        mod = importlib.import_module('props.' + pid.lower())
        suites = list(mod.suites(tier))
    except Exception as e:
        # the code under test cannot even be loaded or builds no starting objects
        import traceback
        tb = traceback.format_exc()

        def boom(ctx, case, tb=tb, e=e):
            ctx.step()
            ctx.fail('cannot load the code under test: %r' % e, trace=tb[-2500:])
        suites = [mc.Suite('load', 'import', [0], boom)]
        return mc.run_check(pid, suites, tier, seed)
    if only:
        suites = [s for s in suites if s.name == only]
    if replay:
        d = json.load(open(replay))['violation']
        for s in suites:
            if s.name == d['suite']:
                c = d['case']
                for cand in s.cases:
                    if mc._js(cand) == c:
                        ctx = mc.run_case(s, cand)
                        print(json.dumps(mc._js(ctx.violations), indent=1))
                        return 1 if ctx.violations else 0
        print('case not found')
        return 2
    return mc.run_check(pid, suites, tier, seed, assumptions=getattr(mod, 'ASSUMPTIONS', ()))


if __name__ == '__main__':
    sys.exit(main())

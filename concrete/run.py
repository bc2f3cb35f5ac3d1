"""python -m concrete.run C01 --seed 1 --tier quick --budget 20 --out F
   python -m concrete.run --replay F"""
import argparse
import importlib
import json
import sys
from . import lib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--out')
    ap.add_argument('--case')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay or a.case:
        case = json.load(open(a.replay)) if a.replay else json.loads(a.case)
        case = case.get('case', case)
        importlib.import_module('concrete.' + case.get('property', a.prop).lower())
        err = lib.run_case(case['kind'], case['args'], 90)
        print('HOLDS' if err is None else 'FAILS ' + err)
        return 1 if err else 0
    mod = importlib.import_module('concrete.' + a.prop.lower())
    run = lib.Runner(a.prop, a.seed, a.tier, a.budget)
    run.run_known()
    import random as _random
    _random.seed('global-%d' % a.seed)      # kajiki draws helper names from the global generator
    for kind_, args in mod.cases(run):
        run.try_case(kind_, args)
        if run.out_of_time():
            break
    res = run.result()
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(res, f)
    else:
        print(json.dumps(dict(res, failures=len(res['failures']), samples=None)))
        for f in res['failures'][:3]:
            print('---', f['kind'], f['size'])
            print(f['error'])
    return 0


if __name__ == '__main__':
    sys.exit(main())

import argparse
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TSLEARN_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(HERE))
os.environ.setdefault('KERAS_BACKEND', 'torch')
sys.dont_write_bytecode = True
import numpy as np  # noqa
from rt import core  # noqa


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--cases', default='')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--out')
    ap.add_argument('--progress')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        if r.get('kind') == 'obligation':
            print(json.dumps(r, indent=1)[:5000])
            return 1
        importlib.import_module('rt.' + r['property'].lower())
        t = core.T(r['property'], r['case'], r['seed'], r['round'], r['tier'])
        f = [c[1] for c in core.CASES[r['property']] if c[0] == r['case']][0]
        import warnings
        warnings.simplefilter('ignore')
        try:
            f(t)
        except core.Skip:
            print('skipped')
            return 0
        except BaseException as e:
            print('REPRODUCED', type(e).__name__, str(e)[:3000])
            for k, v in t.inputs.items():
                print('  input', k, '=', core.describe(v))
            return 1
        print('not reproduced')
        return 0
    importlib.import_module('rt.' + a.prop.lower())
    if a.list:
        print(json.dumps([c[0] for c in core.CASES.get(a.prop, [])]))
        return 0
    names = [x for x in a.cases.split(',') if x]
    res = core.run(a.prop, names, a.seed, a.tier, a.budget, a.progress)
    s = json.dumps(res, default=str)
    if a.out:
        with open(a.out, 'w') as fh:
            fh.write(s)
    else:
        print(json.dumps(res, indent=1, default=str)[:6000])
    return 0


sys.exit(main())

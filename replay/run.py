"""Run the real code (unpatched) against independent oracles; report the first failing input."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=40)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--only', default=None)
    ap.add_argument('--shard', default='0/1')
    ap.add_argument('--out')
    a = ap.parse_args()
    os.environ['XLA_FLAGS'] = os.environ.get('XLA_FLAGS', '') + ' --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true'
    from dv import boot
    boot.setup(solver=False)
    si, sn = map(int, a.shard.split('/'))
    res = dict(evaluations=0, distinct=0, fail=None, samples=[], error=None, skipped=[])
    t0 = time.time()
    seen = set()
    from replay import common
    from replay.common import Fail, Skip
    try:
        boot.check_import()
        import numpy as np
        mod = importlib.import_module('replay.' + a.prop.lower())
        n = 0
        for desc, thunk in mod.cases(common.Rng(a.seed), a.tier):
            case = n
            n += 1
            if a.only is not None and str(case) != a.only:
                continue
            if a.only is None and case % sn != si:
                continue
            if time.time() - t0 > a.budget and n > sn:
                break
            key = json.dumps(desc, default=str, sort_keys=True)
            try:
                thunk()
                res['evaluations'] += 1
                seen.add(key)
                if len(res['samples']) < 5:
                    res['samples'].append(desc)
            except Skip as e:
                res['skipped'].append(str(e)[:200])
            except Fail as e:
                res['fail'] = dict(case=case, input=desc, what=e.what, detail=e.detail, key=e.key)
                break
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        res['error'] = f'{type(e).__name__}: {str(e)[:400]} at {[os.path.basename(f.filename) + ":" + str(f.lineno) for f in tb if "site-packages" not in f.filename][-6:]}'
    res['distinct'] = len(seen)
    res['secs'] = round(time.time() - t0, 1)
    txt = json.dumps(res, default=str)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(txt)
    else:
        print(json.dumps(res, default=str, indent=1)[:6000])


if __name__ == '__main__':
    main()

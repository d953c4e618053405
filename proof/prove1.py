import sys, json, time
sys.setrecursionlimit(20000)
import engine, contracts
from contracts import *
import importlib, os
for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs'))):
    if f.endswith('.py') and f != '__init__.py':
        importlib.import_module('specs.' + f[:-3])
if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pat')
    ap.add_argument('--bound', type=int)
    ap.add_argument('--budget', type=int, default=120)
    ap.add_argument('--repo', default=engine.REPO)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    for q in sorted(CONTRACTS):
        if a.pat in q and CONTRACTS[q].setup:
            r = check_contract(CONTRACTS[q], bound=a.bound, budget=a.budget, repo=a.repo)
            obs = r.pop('obligations')
            print('%-60s %s paths=%d obl=%d solver=%.1fs wall=%.1fs q=%d' % (q, r['status'], r['paths'], len(obs), r['solver_s'], r['wall_s'], r['queries']))
            if r['status'] not in ('discharged','bounded-ok') or a.v:
                for k in ('used','inlined','applied','model') if not a.v else (): r.pop(k, None)
                print(json.dumps(r, indent=1)[:3000])
                from collections import Counter
                print(Counter((n,s) for n,s,b in obs).most_common(30))

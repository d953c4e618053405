"""CLI of the conformance engine.

run.py --property C10 --seed 1 --seconds 30 --procs 6 --out f.json
run.py --replay file.json         exit 1 if the recorded case still fails
"""
import argparse
import ast
import glob
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def mine():
    """integer constants in the current sources: sizes and steps worth trying"""
    out = set()
    root = os.environ.get('VERIF_REPO', '/repo')
    for f in glob.glob(os.path.join(root, 'timeboard', '*.py')):
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and type(n.value) is int and 3 < abs(n.value) <= 1500:
                out.update([abs(n.value) - 1, abs(n.value), abs(n.value) + 1])
    return sorted(out)


def known_match(known, prop, case, mm):
    """a known finding matches by property, kind of question and the distinguishing text"""
    for k in known:
        if k.get('property') == prop and k.get('status') == 'known':
            if all(s in json.dumps(case, sort_keys=True) for s in k.get('case_contains', [])) and \
               all(s in mm.what for s in k.get('what_contains', [])) and \
               (not k.get('expected') or k['expected'] == mm.expected) and \
               (not k.get('got_startswith') or mm.got.startswith(k['got_startswith'])):
                return k
    return None


class CaseTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise CaseTimeout()


def run_case(prop, case, sub, limit=60):
    import props
    from harness import Mismatch
    import harness
    rng = random.Random(sub)
    del harness.SOFT[:]
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        props.CHECKS[prop](case, rng)
        return list(harness.SOFT)
    except Mismatch as m:
        return list(harness.SOFT) + [m]
    except CaseTimeout:
        m = Mismatch('termination', 'an answer within %ds' % limit, 'no answer')
        return [m]
    except Exception as e:
        tbk = traceback.format_exc()
        # an exception escaping from the code under test where an answer is due
        m = Mismatch('unexpected exception', 'no exception', '%s: %s' % (type(e).__name__, e))
        m.trace = tbk
        last = traceback.extract_tb(sys.exc_info()[2])
        root = os.path.abspath(os.environ.get('VERIF_REPO', '/repo')) + os.sep
        m.in_repo = any(os.path.abspath(fr.filename).startswith(root) for fr in last)
        return list(harness.SOFT) + [m]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(prop, seed, wid, nproc, seconds, q, known):
    import props
    import gen
    import harness
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    gen.MINED[:] = mine()
    t0 = time.time()
    res = {'cases': 0, 'evals': 0, 'distinct': [], 'samples': [], 'violations': [], 'errors': [], 'known': {}, 'fixed_done': 0}
    seen = set()

    def one(case, sub):
        ms = run_case(prop, case, sub)
        res['cases'] += 1
        hsh = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
        if nontrivial(prop, case):
            seen.add(hsh)
        if len(res['samples']) < 2 and wid == 0:
            res['samples'].append({'case': case, 'subseed': sub})
        for m in ms:
            k = known_match(known, prop, case, m)
            d = {'property': prop, 'case': case, 'subseed': sub, 'what': m.what, 'expected': m.expected, 'got': m.got}
            if hasattr(m, 'trace'):
                d['trace'] = m.trace
                if not m.in_repo:
                    res['errors'].append(d)
                    return len(res['errors']) < 3
            if k is not None:
                res['known'].setdefault(k['id'], d)
            else:
                res['violations'].append(d)
                return len(res['violations']) < 3
        return True

    go = True
    if prop in props.FIXED:
        for idx, case in enumerate(props.FIXED[prop]()):
            if idx % nproc == wid and go:
                go = one(case, seed * 7919 + idx)
                res['fixed_done'] += 1
    n = 0
    while go and time.time() - t0 < seconds and prop in props.GENS:
        sub = (seed * 1000003 + wid * 10007 + n) % (2 ** 31)
        rng = random.Random(sub)
        try:
            case = props.GENS[prop](rng)
        except Exception:
            res['errors'].append({'where': 'generator', 'trace': traceback.format_exc()})
            break
        go = one(case, sub)
        n += 1
    res['evals'] = harness.ST.n
    res['outcomes'] = harness.ST.outcomes
    res['distinct'] = list(seen)
    q.put(res)


def nontrivial(prop, case):
    if 'freq' in case:
        return case['start'] != case['end']
    return True


def run(prop, seed, seconds, procs, known):
    q = mp.Queue()
    ps = [mp.Process(target=worker, args=(prop, seed, w, procs, seconds, q, known)) for w in range(procs)]
    for p in ps:
        p.start()
    outs = []
    deadline = time.time() + seconds + 240
    while len(outs) < procs and time.time() < deadline:
        try:
            outs.append(q.get(timeout=5))
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        p.join(2)
        if p.is_alive():
            p.terminate()
    agg = {'property': prop, 'seed': seed, 'cases': 0, 'evals': 0, 'distinct': set(), 'samples': [], 'violations': [], 'errors': [],
           'known': {}, 'outcomes': {}, 'fixed': 0}
    for r in outs:
        agg['cases'] += r['cases']
        agg['evals'] += r['evals']
        agg['distinct'].update(r['distinct'])
        agg['samples'] += r['samples']
        agg['violations'] += r['violations']
        agg['errors'] += r['errors']
        agg['fixed'] += r['fixed_done']
        for k, v in r['known'].items():
            agg['known'].setdefault(k, v)
        for k, v in r['outcomes'].items():
            agg['outcomes'][k] = agg['outcomes'].get(k, 0) + v
    if len(outs) < procs:
        agg['errors'].append({'where': 'workers', 'trace': '%d of %d workers did not answer' % (procs - len(outs), procs)})
    agg['distinct'] = len(agg['distinct'])
    # smallest failing case first
    agg['violations'].sort(key=lambda d: len(json.dumps(d['case'])))
    oc = {}
    for k, v in agg['outcomes'].items():
        k2 = k.split(':')[0] + ':' + k.split(':')[-1]
        oc[k2] = oc.get(k2, 0) + v
    agg['outcomes'] = dict(sorted(oc.items(), key=lambda kv: -kv[1])[:40])
    return agg


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--seconds', type=float, default=20)
    ap.add_argument('--procs', type=int, default=6)
    ap.add_argument('--known')
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        import gen
        gen.MINED[:] = d.get('mined', mine())
        known = json.load(open(a.known)) if a.known else []
        ms = [m for m in run_case(d['property'], d['case'], d['subseed'])
              if known_match(known, d['property'], d['case'], m) is None]
        if not ms:
            print('case passes')
            return 0
        print('case fails: %s' % ms[0])
        return 1
    known = json.load(open(a.known)) if a.known else []
    agg = run(a.property, a.seed, a.seconds, a.procs, known)
    for v in agg['violations']:
        v['mined'] = mine()
    s = json.dumps(agg, indent=1, default=str)
    if a.out:
        open(a.out, 'w').write(s)
    else:
        print(s)
    return 0


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""Decides one property of timeboard on the current tree of /repo.

python3-vt check.py C10 [--tier quick|thorough]

Exit 0: the property held on everything explored.
Exit 1: a line  VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
RT_PY = os.environ.get('VERIF_RT_PYTHON', '/opt/venv/bin/python')
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN = os.path.join(HERE, 'known_findings.json')
sys.dont_write_bytecode = True


def rt_cmd(prop, seed, seconds, procs, out):
    return [RT_PY, '-B', os.path.join(HERE, 'rt', 'run.py'), '--property', prop, '--seed', str(seed),
            '--seconds', str(seconds), '--procs', str(procs), '--known', KNOWN, '--out', out]


def replay(path):
    """does the recorded case fail on the current tree? (True/False/None)"""
    p = subprocess.run([RT_PY, '-B', os.path.join(HERE, 'rt', 'run.py'), '--replay', path, '--known', KNOWN],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return (p.returncode == 1 and 'case fails' in p.stdout), p.stdout[-2000:]


def run_rt(prop, seed, seconds, procs, work, tag):
    out = os.path.join(work, '%s.%s.rt.json' % (prop, tag))
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    log = open(os.path.join(work, '%s.%s.rt.log' % (prop, tag)), 'w')
    p = subprocess.Popen(rt_cmd(prop, seed, seconds, procs, out), env=env, stdout=log, stderr=subprocess.STDOUT, cwd=HERE)
    return p, out, log.name


def wait_rt(h, timeout):
    p, out, log = h
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    if os.path.exists(out):
        return json.load(open(out))
    return {'violations': [], 'errors': [{'where': 'engine', 'trace': open(log).read()[-3000:]}], 'cases': 0, 'evals': 0,
            'distinct': 0, 'samples': [], 'known': {}, 'outcomes': {}, 'fixed': 0, 'broken': True}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-rt', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.property, a.tier
    work = os.path.join(HERE, 'evidence', 'work')
    os.makedirs(work, exist_ok=True)
    sys.path.insert(0, os.path.join(HERE, 'proof'))
    import registry
    cfg = registry.PROPS[prop]
    thorough = tier == 'thorough'
    rt_seconds = (240 if thorough else cfg.get('rt_seconds', 25))
    known = json.load(open(KNOWN))

    h = None if a.no_rt else run_rt(prop, a.seed, rt_seconds, 4 if not a.no_proof else 8, work, tier)
    proof = None
    if not a.no_proof and cfg.get('proof'):
        proof = registry.run_proof(prop, tier, work)
    rt = wait_rt(h, rt_seconds + 400) if h else {'violations': [], 'errors': [], 'cases': 0, 'evals': 0, 'distinct': 0,
                                                 'samples': [], 'known': {}, 'outcomes': {}, 'fixed': 0}
    refuted = [o for o in (proof or {}).get('obligations', []) if o['status'] == 'refuted']
    if refuted and not rt['violations'] and not a.no_rt:
        # an obligation fails: look harder for an input that shows it
        for k in range(1, 3):
            r2 = wait_rt(run_rt(prop, a.seed + 1000 * k, 45 if not thorough else 120, 8, work, tier + '.search%d' % k), 600)
            rt['violations'] += r2['violations']
            rt['evals'] += r2['evals']
            rt['cases'] += r2['cases']
            if rt['violations']:
                break

    violations = []
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for v in rt['violations'][:20]:
        path = os.path.join(rdir, '%s-%s.json' % (prop, hashlib.md5(json.dumps(v['case'], sort_keys=True).encode()).hexdigest()[:10]))
        if refuted:
            v['failed_obligations'] = [o['name'] for o in refuted]
        json.dump(v, open(path, 'w'), indent=1, default=str)
        ok, text = replay(path)
        if ok:
            violations.append(('VIOLATION property=%s replay=%s' % (prop, path), v))
            break
    nfif = False
    if not violations and refuted:
        path = os.path.join(rdir, '%s-obligation.json' % prop)
        json.dump({'property': prop, 'failed_obligations': refuted,
                   'note': 'the verifier refutes these obligations on the current source; no failing input was found by replay and search'},
                  open(path, 'w'), indent=1, default=str)
        violations.append(('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path), {'obligations': refuted}))
        nfif = True

    ev = registry.evidence(prop, tier, a.seed, proof, rt, violations, time.time() - t0)
    path = os.path.join(HERE, 'evidence', prop + '.json')
    json.dump(ev, open(path + '.tmp', 'w'), indent=1, default=str)
    os.replace(path + '.tmp', path)

    for k in known:
        if k['status'] == 'known' and k['property'] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['finding']))
    if proof:
        s = proof['summary']
        print('%s: %d obligations, %d discharged, %d undecided, %d refuted; solver %.1fs; functions under contract: %d' % (
            prop, s['obligations'], s['discharged'], s['undecided'], s['refuted'], s['solver_s'], s['functions']))
        for o in proof['obligations']:
            if o['status'] != 'discharged':
                print('  %s: %s (%s)' % (o['status'], o['name'], str(o.get('reason'))[:300]))
        for f in proof.get('bounded', []):
            print('  bounded: %s (%s)' % (f['function'], f['reason'][:300]))
    print('%s: conformance engine: %d cases, %d evaluations' % (prop, rt['cases'], rt['evals']))
    if rt['errors'] or rt.get('broken'):
        print('ENGINE-ERROR %s' % json.dumps(rt['errors'][:2], default=str)[:3000])
        if not violations:
            return 3
    if rt['evals'] == 0 and not a.no_rt and not violations:
        print('ENGINE-ERROR nothing evaluated')
        return 3
    if proof is not None and proof['summary']['obligations'] == 0:
        print('ENGINE-ERROR zero obligations')
        if not violations:
            return 3
    for line, v in violations:
        if 'what' in v:
            print('%s: expected %s, got %s' % (v['what'], v['expected'][:500], v['got'][:500]))
        print(line)
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())

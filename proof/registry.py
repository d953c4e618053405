"""Which functions each property depends on, how its obligations are run, and the evidence."""
import os
import re
import time

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

TECH = 'contracts on the real functions, discharged by a deductive verifier (own VC generator over the Python source, Z3)'
PROPS = {'C%02d' % i: {} for i in range(1, 22)}


def prop(pid, **kw):
    PROPS[pid].update(kw)


# targets beyond the contracts that name the property themselves
ALSO = {
    'C20': ['timeboard.workshift.Workshift.' + x for x in ('start_time', 'end_time', 'duration', 'label', 'to_timestamp')] + ['timeboard.core._Schedule.is_on_duty', 'timeboard.core._Schedule.is_off_duty'],
    'C09': ['timeboard.interval.Interval.workshifts', 'timeboard.workshift.Workshift.rollforward', 'timeboard.workshift.Workshift.rollback'],
}

COMMON_TRUST = [
    'the VC generator itself (proof/*.py): symbolic execution of the parsed source of /repo; docstrings and comments are the only text dropped',
    'Z3 %s (every discharged obligation is an unsat answer on ground instances of the hypotheses; the instances need no trust)',
    'library models (proof/lib.py): pandas Period/Timestamp/Series/Index indexing and searchsorted, numpy nonzero/arange/concatenate, itertools, dict and list semantics',
    'integers and nanosecond timestamps are mathematical integers (no 64-bit overflow); floats are reals',
    'partial correctness: loops are not shown to terminate; a recursive call is assumed to meet its contract',
    'representations and exception messages are text without influence on results; recursion depth and memory are unlimited',
]


def load():
    import runner
    return runner.load()


def targets(c, pid):
    if pid == 'C21':
        # every public operation: what existed before is left as it was
        return [q for q, k in c.CONTRACTS.items() if k.setup and k.spec and (k.public and not k.client or k.client and (k.mutates or k.effects))]
    return [q for q, k in c.CONTRACTS.items() if k.setup and k.spec and pid in k.props] + [q for q in ALSO.get(pid, ()) if q in c.CONTRACTS]


def run_proof(pid, tier, work, repo=None):
    import runner
    repo = repo or REPO
    c = runner.load()
    thorough = tier == 'thorough'
    budget = 600 if thorough else 150
    t0 = time.time()
    deadline = t0 + (3000 if thorough else 420)
    tg = targets(c, pid)
    if not tg:
        return None
    seen = set(tg)
    res = {}

    def more(j, r):
        res[j.qual] = r
        new = []
        for q in r.get('applied', []):
            for q in [q] + list(c.CONTRACTS[q].checked_by if q in c.CONTRACTS else ()):
                if q not in seen and q in c.CONTRACTS and c.CONTRACTS[q].setup:
                    seen.add(q)
                    new.append(job(q))
        return new

    def job(q, **kw):
        k = c.CONTRACTS[q]
        return runner.Job(q, kw.pop('bound', None), kw.pop('budget', budget), kw.pop('noapply', ()), frames=pid == 'C21' and (q in tg or not k.mutates))
    order = sorted(tg, key=lambda q: -SLOW.get(q, 1))
    runner.run_jobs([job(q) for q in order], repo, 8, more, deadline)

    # a caller is checked against the callee's contract; where that contract is not
    # discharged the callee's body is executed instead
    for rnd in range(3):
        bad = {q for q, r in res.items() if r['status'] != 'discharged' and not c.CONTRACTS[q].client}
        bad |= {q for q, k in c.CONTRACTS.items() if any(x in res and res[x]['status'] != 'discharged' for x in k.checked_by)}
        again = [q for q, r in res.items() if set(r.get('applied', [])) & bad - set(r.get('noapply', ()))]
        again = [q for q in again if not bad <= set(res[q].get('noapply', ()))]
        if not again or time.time() > deadline:
            break

        def redo(j, r):
            r['noapply'] = j.noapply
            res[j.qual] = r
            return [job(q) for q in r.get('applied', []) if q not in res and q not in seen and not seen.add(q) and c.CONTRACTS[q].setup]
        runner.run_jobs([job(q, noapply=sorted(bad)) for q in again], repo, 8, redo, deadline)

    # undecided targets: finite instances of the same obligations, for a countermodel
    open_ = [q for q in tg if res.get(q, {}).get('status') != 'discharged']
    bounded = {}
    deadline2 = time.time() + (1200 if thorough else 150)
    every = sorted(q for q in c.CONTRACTS)
    for b in (1, 2, 3):
        jobs = [job(q, bound=b, budget=300 if thorough else 60) for q in open_ if bounded.get(q, {}).get('status') != 'refuted' and b in BOUNDS.get(q, (2, 3))]
        if not jobs:
            continue

        def keep(j, r):
            if j.qual in bounded and bounded[j.qual]['status'] == 'bounded-ok' and r['status'] not in ('bounded-ok', 'refuted'):
                return
            bounded[j.qual] = r
        runner.run_jobs(jobs, repo, 8, keep, deadline2)
    refuted = [q for q in open_ if bounded.get(q, {}).get('status') == 'refuted']
    if refuted:
        # confirm with every callee's body in place of its contract
        conf = {}
        runner.run_jobs([job(q, bound=bounded[q]['bound'], budget=200, noapply=every) for q in refuted], repo, 8, lambda j, r: conf.__setitem__(j.qual, r), time.time() + 260)
        refuted = [q for q in refuted if conf.get(q, {}).get('status') == 'refuted']

    obligations = []
    by = {}
    solver = 0.0
    for q in sorted(res):
        r = res[q]
        solver += r.get('solver_s', 0)
        n = {}
        for name, status, backend in r.get('obligations', []):
            key = (name, 'discharged' if status == 'discharged' else 'undecided')
            n[key] = n.get(key, 0) + 1
            if status == 'discharged':
                by[backend] = by.get(backend, 0) + 1
        if r['status'] == 'discharged':
            for (name, st), k in n.items():
                obligations.append({'name': '%s | %s' % (q, name.split(': ', 1)[-1]), 'status': 'discharged', 'count': k})
        else:
            st = 'refuted' if q in refuted else 'undecided'
            why = bounded[q]['reason'] if st == 'refuted' else r['reason']
            ob = {'name': q, 'status': st, 'reason': why, 'count': max(1, sum(n.values()))}
            if st == 'refuted':
                ob['model'] = bounded[q].get('model')
                ob['bound'] = bounded[q].get('bound')
                ob['outcomes'] = bounded[q].get('outcomes')
            obligations.append(ob)
    cnt = lambda s: sum(o['count'] for o in obligations if o['status'] == s)
    done = [q for q in res if res[q]['status'] == 'discharged']
    summary = {'obligations': sum(o['count'] for o in obligations), 'discharged': cnt('discharged'), 'undecided': cnt('undecided'), 'refuted': cnt('refuted'),
               'solver_s': round(solver, 1), 'functions': len(res), 'wall_s': round(time.time() - t0, 1)}
    out = {'obligations': obligations, 'summary': summary, 'by_backend': by,
           'contracts': sorted(q for q in done if not q.startswith('client.')), 'clients': sorted(q for q in done if q.startswith('client.')),
           'inlined': sorted(set(x for q in done for x in res[q].get('inlined', []))),
           'library': sorted(set(x for q in done for x in res[q].get('used', []))),
           'notes': sorted(set(x for q in done for x in res[q].get('notes', []))),
           'paths': {q: res[q]['paths'] for q in sorted(done)}, 'outcomes': {q: res[q]['outcomes_reached'] for q in sorted(done)},
           'terminations': sorted(set(x for q in done for x in res[q].get('terminations', []))),
           'bounded': [{'function': q, 'reason': '%s%s' % (res.get(q, {}).get('reason', 'not run'), '; finite instances up to size %s hold' % bounded[q]['bound'] if bounded.get(q, {}).get('status') == 'bounded-ok' else '')} for q in open_ if q not in refuted]}
    return out


# sizes of the finite instances (2 and 3 otherwise)
BOUNDS = {'timeboard.when.nth_weekday_of_month': (1,)}

SLOW = {'timeboard.when.nth_weekday_of_month': 35, 'timeboard.when.from_easter': 10, 'timeboard.core._Frame.partition_with_marker': 50, 'timeboard.interval.Interval.count_periods': 60, 'timeboard.core._Timeline.__organize': 30, 'client.a board with a pattern for layout': 31, 'client.get_interval by period': 27, 'timeboard.interval.Interval.nth': 22, 'timeboard.core._Timeline.amend': 20,
        'client.work time of an interval is the sum over its workshifts': 22, 'client.on and off durations add up to any': 16,
        'client.on and off work times add up to any': 17, 'timeboard.workshift.Workshift.rollback': 15, 'timeboard.interval.Interval.workshifts': 15}


def evidence(pid, tier, seed, proof, rt, violations, wall):
    cfg = PROPS[pid]
    cov = {'evaluations': rt['evals'], 'distinct_nontrivial': rt['distinct'],
           'rule': 'random boards and queries over the real package, compared with an independent oracle (bounded stand-in, not counted as proved); a case counts when its board has more than one base unit; duplicates (same case JSON) are counted once',
           'samples': rt['samples'][:2]}
    level = cfg.get('level', 'exploration')
    assume = list(cfg.get('assumptions', []))
    if proof:
        import z3
        s = proof['summary']
        cov.update({'obligations': s['obligations'], 'discharged': s['discharged'],
                    'checker_cmd': 'cd /verif && python3-vt check.py %s --tier %s' % (pid, tier),
                    'trusted_base': [t % z3.get_version_string() if '%s' in t else t for t in COMMON_TRUST] + list(cfg.get('trusted', [])),
                    'functions_under_contract': proof['contracts'], 'lemmas_over_contracts': proof['clients'], 'executed_inline': proof['inlined'],
                    'library_models_used': proof['library'], 'discharged_by': proof['by_backend'], 'solver_s': s['solver_s'], 'proof_wall_s': s['wall_s'],
                    'undecided': [{'name': o['name'], 'reason': str(o.get('reason'))[:400]} for o in proof['obligations'] if o['status'] == 'undecided'],
                    'bounded_instead_of_proved': proof['bounded'], 'loops_not_shown_to_terminate': proof['terminations'],
                    'outcomes_reached': proof['outcomes'], 'obligation_list': [{'name': o['name'], 'count': o['count']} for o in proof['obligations'] if o['status'] == 'discharged']})
        if level == 'proof' and s['obligations'] == 0:
            level = 'exploration'
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(wall, 1),
            'assumptions': assume, 'violations': len(violations)}


for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C20', 'C21'):
    prop(_p, proof=True, level='proof', technique=TECH)
prop('C07', rt_seconds=30)

_N = 'all obligations discharged for all inputs and sizes; preconditions and library models are listed in DESIGN.md §4 and §6; a bounded conformance engine runs beside the proof and is not counted as proof'
for _p in PROPS:
    prop(_p, note=_N)
prop('C05', note='calendar arithmetic (DateOffset, Easter date, month starts) is uninterpreted with stated laws; n-th weekday only for periods of whole months; ' + _N)
prop('C07', note='is_subperiod of pandas is uninterpreted: that an accepted frequency consists of whole units is enumerated by the bounded engine; ' + _N)
prop('C09', note='schedule registries are explored with two added entries; ' + _N)
prop('C17', note='proved over an abstract geometry of periods that clients of C02 and C14 justify; ' + _N)
prop('C19', note='bounded: every day of every supported year under sampled options and custom ranges, against an independently written table and rule set')
prop('C20', note='for ranges with first <= last and schedule names different from the columns of the table; ' + _N)

"""Runs contracts in parallel processes with hard time limits."""
import importlib
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))


def load():
    sys.setrecursionlimit(20000)
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    import contracts
    for f in sorted(os.listdir(os.path.join(HERE, 'specs'))):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('specs.' + f[:-3])
    return contracts


def child(conn, qual, repo, bound, budget, noapply, case, frames):
    try:
        c = load()
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        except Exception:
            pass
        r = c.check_contract(c.CONTRACTS[qual], repo=repo, bound=bound, budget=budget, noapply=noapply, case=case, frames=frames)
    except BaseException as e:
        r = {'function': qual, 'status': 'unsupported', 'reason': 'verifier process: %r' % (e,), 'obligations': [], 'solver_s': 0, 'queries': 0,
             'used': [], 'applied': [], 'inlined': [], 'notes': [], 'terminations': [], 'paths': 0, 'outcomes_reached': [], 'wall_s': 0}
    conn.send(r)
    conn.close()


class Job(object):
    def __init__(self, qual, bound=None, budget=60, noapply=(), case=None, frames=False):
        self.qual, self.bound, self.budget, self.noapply, self.case, self.frames = qual, bound, budget, tuple(noapply), case, frames
        self.whole = None


def lost(j, why):
    return {'function': j.qual, 'status': 'undecided', 'reason': why, 'obligations': [], 'solver_s': 0, 'queries': 0, 'used': [], 'applied': [],
            'inlined': [], 'notes': [], 'terminations': [], 'paths': 0, 'outcomes_reached': [], 'wall_s': j.budget, 'bound': j.bound}


ORDER = {'refuted': 0, 'unsupported': 1, 'undecided': 2, 'bounded-ok': 3, 'discharged': 4}


def merge(rs):
    """one result out of those of the cases of a contract"""
    r = dict(min(rs, key=lambda r: ORDER[r['status']]))
    for k in ('obligations', 'notes'):
        r[k] = [x for q in rs for x in q[k]]
    for k in ('used', 'applied', 'inlined', 'outcomes_reached', 'terminations'):
        r[k] = sorted(set(x for q in rs for x in q[k]))
    for k in ('solver_s', 'queries', 'paths', 'wall_s'):
        r[k] = sum(q[k] for q in rs)
    return r


def split(j):
    import contracts
    n = contracts.CONTRACTS[j.qual].cases
    if not n or j.case is not None:
        return [j]
    parts = [Job(j.qual, j.bound, j.budget, j.noapply, k, j.frames) for k in range(n)]
    done = []
    for p in parts:
        p.whole = (j, done, n)
    return parts


def run_jobs(jobs, repo, procs=8, on_result=None, deadline=None):
    """runs jobs; on_result(job, result) may return further jobs"""
    ctx = mp.get_context('fork')
    queue = [p for j in jobs for p in split(j)]
    live = []
    out = []
    while queue or live:
        now = time.time()
        if deadline is not None and now > deadline:
            for p, conn, j, t in live:
                p.kill()
                p.join()
                out.append((j, lost(j, 'time')))
            for j in queue:
                out.append((j, lost(j, 'time')))
            break
        while queue and len(live) < procs:
            j = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, j.qual, repo, j.bound, j.budget, j.noapply, j.case, j.frames))
            p.start()
            b.close()
            live.append((p, a, j, now))
        still = []
        for p, conn, j, t in live:
            r = None
            if conn.poll():
                try:
                    r = conn.recv()
                except EOFError:
                    r = lost(j, 'verifier process ended')
                p.join()
            elif not p.is_alive():
                r = lost(j, 'verifier process ended')
                p.join()
            elif now - t > j.budget + 30:
                p.kill()
                p.join()
                r = lost(j, 'time')
            if r is None:
                still.append((p, conn, j, t))
                continue
            conn.close()
            if j.whole is not None:
                whole, done, n = j.whole
                done.append(r)
                if len(done) < n:
                    continue
                j, r = whole, merge(done)
            out.append((j, r))
            if on_result:
                queue = [p for x in on_result(j, r) or () for p in split(x)] + queue
        live = still
        time.sleep(0.02)
    return out


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pat', nargs='?', default='')
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO', '/repo'))
    ap.add_argument('--frames', action='store_true')
    ap.add_argument('--bound', type=int)
    ap.add_argument('--budget', type=int, default=120)
    ap.add_argument('--procs', type=int, default=8)
    a = ap.parse_args()
    c = load()
    t0 = time.time()

    def show(j, r):
        print('%-11s %6.1fs %-70s %s' % (r['status'], r['wall_s'], r['function'][:90], '' if r['status'] in ('discharged', 'bounded-ok') else r['reason'][:250].replace('\n', ' ')), flush=True)
    run_jobs([Job(q, a.bound, a.budget, frames=a.frames) for q in sorted(c.CONTRACTS) if a.pat in q and c.CONTRACTS[q].setup], a.repo, a.procs, show)
    print('wall %.1f' % (time.time() - t0))

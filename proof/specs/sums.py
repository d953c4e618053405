"""Durations and work time (C18)."""
import z3

from vals import *
from contracts import contract, setup, client, Rel, skip
from specs.intervals import (iv_world, query_setup, pick_sched, eff, bounds, is_void, members, QI, IV_DUTIES)
from specs.navigation import ws_world, Q as QW


def seq_sum(E, n, term):
    s = SSeq(n, lambda j: term(E.z(j)), 'array')
    return E.sum_seq(s)


def label_num(E, k):
    return SReal(NUM(E.world.LABf(k)))


@contract(QI + 'total_duration', props=['C18'], public=True)
def total_spec(E, self, duty='on', schedule=None):
    if is_void(E, self):
        skip()
    d, r0, n = members(E, self, duty, eff(E, self, schedule))
    return seq_sum(E, n, lambda j: SInt(E.world.dur(d.pos(z3.simplify(r0 + j)))))


@contract(QI + '_sum_labels', props=['C18'])
def labels_spec(E, self, duty='on', schedule=None):
    if is_void(E, self):
        skip()
    d, r0, n = members(E, self, duty, eff(E, self, schedule))
    return seq_sum(E, n, lambda j: label_num(E, d.pos(z3.simplify(r0 + j))))


@contract(QI + 'worktime', props=['C18'], public=True)
def worktime_spec(E, self, duty='on', schedule=None):
    if is_void(E, self):
        skip()
    if E.branch(E.world.wt_labels):
        return labels_spec(E, self, duty, schedule)
    return total_spec(E, self, duty, schedule)


for _m in ('total_duration', '_sum_labels', 'worktime'):
    setup(QI + _m)(query_setup)


@contract('timeboard.core._Timeline.get_durations_for_ws_array', props=['C18'])
def durations_spec(E, self, ws_locs):
    s = E.seq(ws_locs)
    if s is None:
        skip()
    n = E.seq_n(s)
    w = E.world
    if isinstance(s, tuple):
        skip()
    E.require(E.forall(0, n, lambda j: z3.And(E.zint(E.seq_at(s, j)) >= 0, E.zint(E.seq_at(s, j)) < w.M)), 'positions on the board')
    return E.alloc(Rec('series', None, {'v': SSeq(n, lambda j: SInt(w.dur(E.zint(E.seq_at(s, E.z(j)))), True), 'array'), 'index': s}))


@setup('timeboard.core._Timeline.get_durations_for_ws_array')
def durations_setup(E):
    w = iv_world(E)
    n = E.size('n')
    f = E.fresh_fun('P', z3.IntSort(), z3.IntSort())
    E.assume(n >= 1)
    return {'self': w.tl, 'ws_locs': E.arr(SSeq(n, lambda j: SInt(f(E.z(j)), True), 'array'))}


# ------------------------------------------------------------------ one workshift
@contract(QW + 'worktime', props=['C18'], public=True)
def ws_worktime_spec(E, self, duty='on', schedule=None):
    w = E.world
    if not isinstance(duty, str):
        skip()
    s = eff(E, self, schedule)
    k = E.zint(E.getattr_(self, '_loc'))
    if duty not in ('on', 'off', 'any'):
        E.throw('ValueError')
    if duty != 'any' and not E.branch(w.on(s, k) if duty == 'on' else z3.Not(w.on(s, k))):
        return 0
    if E.branch(w.wt_labels):
        if not E.branch(ISNUM(w.LABf(k))):
            E.throw('TypeError')
        return w.lab(k)
    return SInt(w.dur(k))


@setup(QW + 'worktime')
def ws_worktime_setup(E):
    w = ws_world(E)
    return {'self': w.me, 'duty': E.choose(IV_DUTIES), 'schedule': pick_sched(E, w)}


# ------------------------------------------------------------------ lemmas over the contracts
def rank_lemmas(E):
    """sums over positions and sums over the members of a duty (by induction on the position)"""
    w = E.world
    a = w.a
    duties = [w.duty_seq(x, w.cur_sched) for x in ('on', 'off')]
    g = [lambda k, d=d: d.cnt(a + k) - d.cnt(a) for d in duties]
    S = E.sums
    n = w.b + 1 - a
    N = range(len(S))
    if len(S) >= 3:
        # on + off == any
        for i in reversed(N):
            for j in N:
                for l in N:
                    if len({i, j, l}) == 3 and E.induct('%s: on and off add up' % E.cur, n, lambda k: real(S[i][0](k)) == real(S[j][0](g[0](k))) + real(S[l][0](g[1](k)))):
                        return
    for i in reversed(N):
        for j in N:
            for d in (0, 1):
                if i != j and E.induct('%s: position sums equal member sums' % E.cur, n, lambda k: real(S[i][0](k)) == real(S[j][0](g[d](k)))):
                    return


def real(x):
    return z3.ToReal(x) if x.sort() == z3.IntSort() else x


@client('on and off durations add up to any', '''
def prog(ivl, sched):
    return ivl.total_duration('on', sched) + ivl.total_duration('off', sched) == ivl.total_duration('any', sched)
''', props=['C18'], lemmas=rank_lemmas)
def addup_spec(E, ivl, sched):
    return True


@client('on and off work times add up to any', '''
def prog(ivl, sched):
    return ivl.worktime('on', sched) + ivl.worktime('off', sched) == ivl.worktime('any', sched)
''', props=['C18'], lemmas=rank_lemmas)
def addup2_spec(E, ivl, sched):
    return True


@client('work time of an interval is the sum over its workshifts', '''
def prog(ivl, sched, duty):
    return ivl.worktime(duty, sched) == sum(ws.worktime(duty, sched) for ws in ivl.workshifts('any'))
''', props=['C18'], lemmas=rank_lemmas)
def wtsum_spec(E, ivl, sched, duty):
    return True


def add_setup(E):
    w = iv_world(E)
    s = pick_sched(E, w)
    w.cur_sched = s if s is not None else w.s1
    E.assume(z3.Implies(w.wt_labels, E.forall(0, w.M, lambda k: ISNUM(w.LABf(k)), pats=lambda k: [w.LABf(k)])))
    return {'ivl': w.me, 'sched': s}


setup('client.on and off durations add up to any')(add_setup)
setup('client.on and off work times add up to any')(add_setup)


@setup('client.work time of an interval is the sum over its workshifts')
def wtsum_setup(E):
    a = add_setup(E)
    a['duty'] = E.choose(['on', 'off', 'any'])
    return a

"""Counting calendar periods (C17)."""
import z3

from vals import *
from contracts import contract, setup, client, Rel, skip
from world import Geo
from specs.intervals import QI, IV_DUTIES, iv_world, pick_sched, eff, bounds, is_void, members

SUPPORTED = ('S', 'T', 'min', 'H', 'D', 'W', 'M', 'Q', 'A', 'Y')


def ratio(E, x, y):
    return z3.If(y == 0, z3.RealVal(0), z3.If(x == y, z3.RealVal(1), E.quot(x, y)))


@contract(QI + 'count_periods', props=['C17'], public=True)
def count_periods_spec(E, self, freq, duty='on', schedule=None):
    if is_void(E, self):
        return 0.0
    if not isinstance(freq, Freq):
        skip()
    w = E.world
    if not E.branch(z3.Or(*[freq.is_text(E, s) for s in SUPPORTED])):
        E.throw('UnacceptablePeriodError')
    s = eff(E, self, schedule)
    d, r0, m = members(E, self, duty, s)
    a, b = bounds(E, self)
    if E.branch(m == 0):
        return 0.0
    # the calendar periods the interval touches; period j is P(j) .. P(j+1)-1
    n, P = freq.range(E, w.start(a), w.end(b))
    A = lambda j: w.COUNT(P(j))       # workshifts whose reference time precedes period j
    E.assume(E.forall(0, n + 1, lambda j: z3.And(A(j) >= 0, A(j) <= w.M, z3.Implies(A(j) > 0, w.ref(A(j) - 1) < P(j)), z3.Implies(A(j) < w.M, w.ref(A(j)) >= P(j))), pats=lambda j: [P(j)]))
    onboard = lambda j: z3.And(w.t0 <= P(j), P(j + 1) - 1 <= w.t1)
    idle = lambda j: z3.And(onboard(j), A(j) == A(j + 1))
    x = E.fresh('first_idle')
    E.assume(z3.And(x >= 0, x <= n))
    E.assume(E.forall(0, x, lambda j: z3.Not(idle(j)), pats=lambda j: [P(j)]))
    if E.branch(x < n):
        E.assume(idle(x))
        E.throw('UnacceptablePeriodError')
    first, last = d.pos(r0), d.pos(r0 + m - 1)
    jf, jl = (period_of(E, w, n, P, w.ref(x), t) for x, t in ((first, 'jf'), (last, 'jl')))
    inside = lambda j: d.cnt(z3.If(A(j + 1) <= b + 1, A(j + 1), b + 1)) - d.cnt(z3.If(A(j) >= a, A(j), a))
    total = lambda j: d.cnt(A(j + 1)) - d.cnt(A(j))
    q = lambda j: ratio(E, inside(j), total(j))
    lo, hi = (lambda j: z3.If(A(j) >= a, A(j), a)), (lambda j: z3.If(A(j + 1) <= b + 1, A(j + 1), b + 1))
    for fact in (first >= a, last <= b, A(jf) <= first, first < A(jf + 1), A(jl) <= last, last < A(jl + 1), d.cnt(first) == d.cnt(a), d.cnt(last + 1) == d.cnt(b + 1),
                 d.cnt(lo(jf)) == d.cnt(first), d.cnt(hi(jl)) == d.cnt(last + 1), jf <= jl, total(jf) > 0, total(jl) > 0):
        E.hint(fact)
    if E.mode == 'check':
        E.memo['positions'] = (jf + 1, jl + 1)
    if not E.branch(z3.And(onboard(jf), onboard(jl))):
        E.throw('PartialOutOfBoundsError')
    if E.branch(jf == jl):
        return SReal(q(jf))
    for fact in (A(jf + 1) <= last, A(jl) > first, hi(jf) == A(jf + 1), lo(jl) == A(jl)):
        E.hint(fact)
    E.hint(E.forall(jf + 1, jl, lambda j: z3.And(A(j) >= a, A(j + 1) <= b + 1, A(j) <= A(j + 1)), pats=lambda j: [A(j)]))
    E.hint(w.AT(w.B(A(jl))) == A(jl))
    E.hint(w.AT(w.B(A(jf + 1)) - 1) == A(jf + 1) - 1)
    mid = E.sum_seq(SSeq(z3.simplify(jl - jf - 1), lambda i: SReal(q(jf + 1 + E.z(i))), 'array'))
    return SReal(q(jf) + q(jl) + mid.e)


def period_of(E, w, n, P, t, name):
    """the period that holds t"""
    j = E.fresh(name)
    E.assume(z3.And(j >= 0, j < n, P(j) <= t, t < P(j + 1)))
    return j


CASES = [(d, g) for d in IV_DUTIES for g in (False, True)]


@setup(QI + 'count_periods', cases=len(CASES))
def count_periods_setup(E):
    w = iv_world(E, cls=Geo)
    duty, given = E.pick(CASES)
    return {'self': w.me, 'freq': Freq('asked'), 'duty': duty, 'schedule': w.schedule('given') if given else None}

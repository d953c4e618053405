"""Marker rules (C05): where the points of a marker fall.  timeboard/when.py"""
import datetime

import z3

from vals import *
from contracts import contract, setup, client, Rel, skip
from lib import DAY, Months, YEAR, EASTER

I = z3.IntSort()
QW = 'timeboard.when.'
TEST = z3.IntVal(1072915200 * 10 ** 9)      # the time at which the direction of an offset is tried out


class Periods(object):
    """consecutive calendar periods: period i is S(i) .. S(i+1)-1"""

    def __init__(self, E, begin=None):
        self.n = E.size('periods', 1)
        self.S = begin or E.fresh_fun('PERIOD', I, I)
        S = self.S
        if begin is None:
            E.assume(E.forall2(0, self.n + 1, lambda i, j: z3.Implies(i < j, S(i) < S(j)), pats=lambda i, j: [(S(i), S(j))]))

    def seq(self, E):
        S = self.S
        return SSeq(self.n, lambda i: SPeriod(z3.simplify(S(E.z(i))), z3.simplify(S(E.z(i) + 1) - 1)), 'pidx', sorted_=True)


class Base(Freq):
    """base unit frequency: the unit that holds t begins at begin(t)"""

    def __init__(self, E):
        Freq.__init__(self, 'base')


def offset(E):
    """entries of `at`: nothing, days, or anything else"""
    k = E.choose(['none', 'days', 'other'])
    if k == 'none':
        return {}, lambda t: t
    if k == 'days':
        d = E.fresh('days')
        return {('k', 'days'): SInt(d)}, lambda t: t + d * DAY
    x = SPlain(z3.Const('offset_value', Obj))
    off = E.lib_call('pandas.DateOffset', [], {'unit': x})
    return {('k', 'unit'): x}, lambda t: off.f(t)


def points(E, n, q, keep):
    """q(i) for those i in 0 .. n-1 for which keep(i) holds, in order"""
    sel = E.nonzero_seq(SSeq(n, lambda i: SBool(keep(E.z(i)), True), 'array'))
    return SSeq(sel.n, lambda j: STs(z3.simplify(q(sel.at(E.z(j)).e))), 'dtindex')


@setup(QW + 'from_start_of_each')
def each_setup(E):
    E.world = w = type('W', (), {})()
    w.p = Periods(E)
    kw, w.add = offset(E)
    w.base = E.choose([None, Base(E)])
    return {'pi': w.p.seq(E), 'normalize_by': w.base, 'kwargs': E.alloc(Rec('dict', None, kw))}


@contract(QW + 'from_start_of_each', props=['C05'], apply=False)
def each_spec(E, pi, normalize_by=None, kwargs=None):
    w = E.world
    if E.branch(w.add(TEST) < TEST):
        # an offset into the past leaves the period
        return SSeq(0, lambda j: STs(z3.IntVal(0)), 'dtindex')
    q = lambda i: w.add(w.p.S(i)) if w.base is None else w.base.begin(w.add(w.p.S(i)))
    return points(E, w.p.n, q, lambda i: q(i) < w.p.S(i + 1))


# ------------------------------------------------------------------ weekdays of a month
def months(E, lo, hi):
    """months follow each other without gap"""
    G = Months.FIRST
    if E.bound is None:
        a, b = z3.Int('m!1'), z3.Int('m!2')
        E.assume(z3.ForAll([a, b], z3.Implies(a < b, G(a) + 28 <= G(b)), patterns=[z3.MultiPattern(G(a), G(b))]))
        return
    # finite instances: months of the real calendar, from January 2015
    E.assume(z3.And(lo >= 0, hi <= 24))
    day = lambda k: (datetime.date(2015 + k // 12, k % 12 + 1, 1) - datetime.date(1970, 1, 1)).days
    for k in range(40):
        E.assume(G(z3.IntVal(k)) == day(k))
        E.assume(Months.OF(z3.IntVal(day(k) * DAY)) == k)


@setup(QW + 'nth_weekday_of_month')
def nth_setup(E):
    E.world = w = type('W', (), {})()
    E.patient = True
    # precondition: the periods are runs of whole months
    w.first = FM = E.fresh_fun('FIRST_MONTH', I, I)
    w.p = p = Periods(E, lambda i: Months.begin(FM(i)))
    E.assume(E.forall2(0, p.n + 1, lambda i, j: z3.Implies(i < j, FM(i) < FM(j)), pats=lambda i, j: [(FM(i), FM(j))]))
    months(E, FM(z3.IntVal(0)), FM(p.n))
    w.month, w.week, w.day = (E.fresh(x) for x in ('month', 'week', 'weekday'))
    E.assume(z3.And(w.month >= 1, w.month <= 12, w.day >= 1, w.day <= 7))
    if E.choose(['n-th', 'n-th last']) == 'n-th':
        E.assume(z3.And(w.week >= 1, w.week <= 5))
    else:
        E.assume(z3.And(w.week >= -5, w.week <= -1))
    w.shift = E.choose([None, SInt(E.fresh('shift'))])
    return {'pi': p.seq(E), 'month': SInt(w.month), 'week': SInt(w.week), 'weekday': SInt(w.day), 'shift': w.shift, 'kwargs': E.alloc(Rec('dict', None, {}))}


@contract(QW + 'nth_weekday_of_month', props=['C05'], apply=False)
def nth_spec(E, pi, month, week, weekday, shift=None, kwargs=None):
    w = E.world
    S, FM = w.p.S, w.first
    m = lambda i: FM(i) + w.month - 1                           # the month meant in period i
    sel = E.nonzero_seq(SSeq(w.p.n, lambda i: SBool(m(E.z(i)) < FM(E.z(i) + 1), True), 'array'))     # periods that have that month
    i_of = lambda j: sel.at(E.z(j)).e
    w1 = w.day - 1
    if E.branch(w.week > 0):
        def is_(j):         # the first such day of the month, and some weeks
            b = Months.FIRST(m(i_of(j)))
            return b + (w1 - (b + 3)) % 7 + 7 * (w.week - 1)
    else:
        def is_(j):         # the last such day of the month, less some weeks
            b = Months.FIRST(m(i_of(j)) + 1) - 1
            gap = (w1 - (b + 3)) % 7
            return b + z3.If(gap == 0, z3.IntVal(0), gap - 7) + 7 * (w.week + 1)
    day = is_
    if E.bound is None:
        # the day as a number of which only its side of the month is used
        day = E.fresh_fun('DAY', I, I)
        fact = lambda j, d: d >= Months.FIRST(m(i_of(j))) if E.valid(w.week > 0) else d < Months.FIRST(m(i_of(j)) + 1)
        E.prove('%s: the weekday counted from one end of the month is not beyond that end' % E.cur, E.forall(0, sel.n, lambda j: fact(j, is_(j))))
        E.assume(E.forall(0, sel.n, lambda j: fact(j, day(j)), pats=lambda j: [day(j)]))
        E.memo['points'] = [(sel.n, lambda j: is_(j) * DAY, lambda j: day(j) * DAY)]
    there = lambda j: z3.And(day(j) >= Months.FIRST(m(i_of(j))), day(j) < Months.FIRST(m(i_of(j)) + 1))
    sel2 = E.nonzero_seq(SSeq(sel.n, lambda j: SBool(there(E.z(j)), True), 'array'))               # where such a day exists
    j2 = lambda j: sel2.at(E.z(j)).e
    i2 = lambda j: i_of(j2(j))
    # the day lies in its period
    E.hint(E.forall(0, sel2.n, lambda j: z3.And(S(i2(j)) <= day(j2(j)) * DAY, day(j2(j)) * DAY < S(i2(j) + 1)), pats=lambda j: [j2(j)]))
    sh = 0 if w.shift is None else w.shift.e
    q = lambda j: (day(j2(j)) + sh) * DAY
    return points(E, sel2.n, q, lambda j: z3.And(q(j) >= S(i2(j)), q(j) < S(i2(j) + 1)))


# ------------------------------------------------------------------ Easter
def easter_setup(E, kind=None):
    E.world = w = type('W', (), {})()
    w.p = Periods(E)
    kw, w.add = offset(E)
    w.shift = None
    if ('k', 'days') in kw and E.choose(['shift', 'days']) == 'shift':
        w.shift = kw.pop(('k', 'days'))
    w.base = E.choose([None, Base(E)])
    if E.bound is None:
        x, y = z3.Int('t!1'), z3.Int('t!2')
        E.assume(z3.ForAll([x, y], z3.Implies(x <= y, YEAR(x) <= YEAR(y)), patterns=[z3.MultiPattern(YEAR(x), YEAR(y))]))
    E.easter = 2 if kind == 'orthodox' else 3
    return {'pi': w.p.seq(E), 'normalize_by': w.base, 'shift': w.shift, 'kwargs': E.alloc(Rec('dict', None, kw))}


@setup(QW + 'from_easter')
def any_easter_setup(E):
    k = E.choose(['western', 'orthodox'])
    return dict(easter_setup(E, k), easter_type=k)


@contract(QW + 'from_easter', props=['C05'], apply=False)
def easter_spec(E, pi, easter_type='western', normalize_by=None, shift=None, kwargs=None):
    w = E.world
    S, n = w.p.S, w.p.n
    D = EASTER[E.easter]
    y0 = YEAR(S(z3.IntVal(0)))
    ny = YEAR(S(n) - 1) - y0 + 1
    date = lambda k: D(y0 + k)
    IN = E.fresh_fun('PERIOD_WITH_EASTER', I, I)
    # the Easters that fall within the periods: that of year y0 + k lies in period IN(k)
    inside = lambda k: z3.And(date(k) >= S(z3.IntVal(0)), date(k) < S(n))
    E.assume(E.forall(0, ny, lambda k: z3.Implies(inside(k), z3.And(IN(k) >= 0, IN(k) < n, S(IN(k)) <= date(k), date(k) < S(IN(k) + 1))), pats=lambda k: [date(k)]))
    sel = E.nonzero_seq(SSeq(ny, lambda k: SBool(inside(E.z(k)), True), 'array'))
    k_of = lambda j: sel.at(E.z(j)).e
    q = lambda j: w.add(date(k_of(j))) if w.base is None else w.base.begin(w.add(date(k_of(j))))
    i = lambda j: IN(k_of(j))
    if E.branch(w.add(TEST) >= TEST):
        return points(E, sel.n, q, lambda j: q(j) < S(i(j) + 1))
    return points(E, sel.n, q, lambda j: q(j) >= S(i(j)))


@setup(QW + 'from_easter_orthodox')
def orthodox_setup(E):
    a = easter_setup(E, 'orthodox')
    a.pop('shift')
    if E.world.shift is not None:
        E.rec(a['kwargs']).f[('k', 'shift')] = E.world.shift
    return a


@contract(QW + 'from_easter_orthodox', props=['C05'], apply=False)
def orthodox_spec(E, pi, normalize_by=None, kwargs=None):
    return easter_spec(E, pi, 'orthodox', normalize_by)


@client('a marker follows the rule it names', '''
from timeboard.core import Marker
from timeboard.when import from_start_of_each, nth_weekday_of_month, from_easter, from_easter_orthodox
def prog(each, at, f):
    rules = [('from_start_of_each', from_start_of_each), ('nth_weekday_of_month', nth_weekday_of_month),
             ('from_easter_western', from_easter), ('from_easter_orthodox', from_easter_orthodox)]
    return ([Marker(each, at, name).how is rule for name, rule in rules], Marker(each, at).how is from_start_of_each, Marker(each, at, f).how is f)
''', props=['C05'])
def rule_spec(E, each, at, f):
    return ((True,) * 4, True, True)


@setup('client.a marker follows the rule it names')
def rule_setup(E):
    at = E.new_list((E.alloc(Rec('dict', None, {('k', 'days'): SInt(E.fresh('days'))})),))
    return {'each': Freq('each'), 'at': at, 'f': NativeV('rule', lambda E, *a, **k: None)}

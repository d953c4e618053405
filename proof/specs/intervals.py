"""Contracts of intervals: enumeration, counting, indexing (C15), overlap (C16), sums (C18)."""
import z3

from vals import *
from contracts import contract, setup, client, Rel, skip
from world import World

IV_DUTIES = ['on', 'off', 'any', '<unknown>']
QI = 'timeboard.interval.Interval.'
QV = 'timeboard.interval._VoidInterval.'


def iv_world(E, void=False, cls=World):
    w = cls(E)
    w.board()
    w.s1 = w.schedule('own')
    w.a, w.b = E.size('a'), E.size('b')
    E.assume(w.a < w.M)
    E.assume(w.b < w.M)
    E.assume(w.a > w.b if void else w.a <= w.b)
    w.me = w.construct('timeboard.interval', '_VoidInterval' if void else 'Interval', [w.tb, (SInt(w.a), SInt(w.b)), w.s1])
    return w


def pick_sched(E, w):
    return w.schedule('given') if E.choose([False, True]) else None


def eff(E, self, schedule):
    return schedule if schedule is not None else E.getattr_(self, '_schedule')


def bounds(E, ivl):
    v = E.getattr_(ivl, '_loc')
    s = E.seq(v)
    return E.zint(E.seq_at(s, 0)), E.zint(E.seq_at(s, 1))


def is_void(E, ivl):
    return E.class_of(ivl).name == '_VoidInterval'


def members(E, ivl, duty, sched):
    """(duty sequence, rank of the first member, number of members)"""
    w = E.world
    if not isinstance(duty, str):
        skip()
    if duty not in ('on', 'off', 'any'):
        E.throw('ValueError')
    a, b = bounds(E, ivl)
    d = w.duty_seq(duty, sched)
    r0 = d.cnt(a)
    return d, r0, z3.simplify(d.cnt(b + 1) - r0)


def query_setup(E):
    w = iv_world(E)
    return {'self': w.me, 'duty': E.choose(IV_DUTIES), 'schedule': pick_sched(E, w)}


@contract(QI + 'workshifts', props=['C15'], public=True, generator=True)
def workshifts_spec(E, self, duty='on', schedule=None):
    if is_void(E, self):
        skip()
    s = eff(E, self, schedule)
    d, r0, n = members(E, self, duty, s)
    return E.world.ws_values(n, lambda j: d.pos(z3.simplify(r0 + j)), s)


@contract(QI + 'count', props=['C15'], public=True)
def count_spec(E, self, duty='on', schedule=None):
    if is_void(E, self):
        skip()
    s = eff(E, self, schedule)
    d, r0, n = members(E, self, duty, s)
    return SInt(n)


@contract(QI + 'nth', props=['C15'], public=True)
def nth_spec(E, self, n, duty='on', schedule=None):
    if is_void(E, self):
        skip()
    s = eff(E, self, schedule)
    d, r0, m = members(E, self, duty, s)
    n = E.zint(n)
    k = z3.If(n >= 0, n, m + n)
    if not E.branch(z3.And(k >= 0, k < m)):
        E.throw('OutOfBoundsError')
    return E.world.workshift(d.value(z3.simplify(r0 + k)), s)


@contract(QI + 'first', props=['C15'], public=True)
def first_spec(E, self, duty='on', schedule=None):
    return nth_spec(E, self, 0, duty, schedule)


@contract(QI + 'last', props=['C15'], public=True)
def last_spec(E, self, duty='on', schedule=None):
    return nth_spec(E, self, -1, duty, schedule)


def nth_setup(E):
    a = query_setup(E)
    a['n'] = SInt(E.fresh('n'))
    return a


for _m in ('workshifts', 'count', 'first', 'last'):
    setup(QI + _m)(query_setup)
setup(QI + 'nth')(nth_setup)


def plain_setup(E):
    w = iv_world(E)
    return {'self': w.me}


@contract(QI + '__len__', props=['C15'], public=True)
def len_spec(E, self):
    a, b = bounds(E, self)
    return 0 if is_void(E, self) else SInt(z3.simplify(b - a + 1))


@contract(QI + 'length', props=['C15'], public=True)
def length_spec(E, self):
    return len_spec(E, self)


@contract(QI + 'start_time', props=['C15'], public=True)
def start_spec(E, self):
    if is_void(E, self):
        skip()
    a, b = bounds(E, self)
    return STs(E.world.start(a))


@contract(QI + 'end_time', props=['C15'], public=True)
def end_spec(E, self):
    if is_void(E, self):
        skip()
    a, b = bounds(E, self)
    return STs(E.world.end(b))


for _m in ('__len__', 'length', 'start_time', 'end_time'):
    setup(QI + _m)(plain_setup)


@client('iterating an interval yields all its workshifts', '''
def prog(ivl):
    return [ws for ws in ivl]
''', props=['C15'], effects=('_ws_generator_activated',))
def iterate_spec(E, ivl):
    w = E.world
    a, b = bounds(E, ivl)
    return w.ws_values(z3.simplify(b - a + 1), lambda j: z3.simplify(a + j), E.getattr_(ivl, '_schedule'))


@setup('client.iterating an interval yields all its workshifts')
def iterate_setup(E):
    w = iv_world(E)
    return {'ivl': w.me}


# ------------------------------------------------------------------ overlap (C16)
def two_setup(E, void=False):
    w = iv_world(E, void)
    w.c, w.d = E.size('c'), E.size('d')
    E.assume(w.c < w.M)
    E.assume(w.d < w.M)
    E.assume(w.c <= w.d)
    w.s2 = w.schedule('others')
    w.other = w.interval(SInt(w.c), SInt(w.d), w.s2)
    return w


def overlap_of(E, self, other, schedule):
    w = E.world
    s = eff(E, self, schedule)
    a, b = bounds(E, self)
    c, d = bounds(E, other)
    lo, hi = z3.simplify(z3.If(a >= c, a, c)), z3.simplify(z3.If(b <= d, b, d))
    void = not E.branch(lo <= hi)
    return w.construct('timeboard.interval', '_VoidInterval' if void else 'Interval', [w.tb, (SInt(lo), SInt(hi)), s])


@contract(QI + 'overlap', props=['C16'], public=True)
def overlap_spec(E, self, other, schedule=None):
    return overlap_of(E, self, other, schedule)


@setup(QI + 'overlap')
def overlap_setup(E):
    w = two_setup(E)
    return {'self': w.me, 'other': w.other, 'schedule': pick_sched(E, w)}


@contract(QI + '__mul__', props=['C16'], public=True)
def mul_spec(E, self, other):
    return overlap_of(E, self, other, None)


@setup(QI + '__mul__')
def mul_setup(E):
    w = two_setup(E)
    return {'self': w.me, 'other': w.other}


def portion_of(E, self, other, duty, schedule):
    s = eff(E, self, schedule)
    if not isinstance(duty, str):
        skip()
    a, b = bounds(E, self)
    c, d = bounds(E, other)
    lo, hi = z3.If(a >= c, a, c), z3.If(b <= d, b, d)
    if not E.branch(lo <= hi):
        return 0.0
    if duty not in ('on', 'off', 'any'):
        E.throw('ValueError')
    q = E.world.duty_seq(duty, s)
    x = q.cnt(hi + 1) - q.cnt(lo)
    y = q.cnt(d + 1) - q.cnt(c)
    if E.branch(x == 0):
        return 0.0
    return SReal(E.quot(x, y, facts=True))


@contract(QI + 'what_portion_of', props=['C16'], public=True)
def portion_spec(E, self, other, duty='on', schedule=None):
    return portion_of(E, self, other, duty, schedule)


@setup(QI + 'what_portion_of')
def portion_setup(E):
    w = two_setup(E)
    return {'self': w.me, 'other': w.other, 'duty': E.choose(IV_DUTIES), 'schedule': pick_sched(E, w)}


@contract(QI + '__truediv__', props=['C16'], public=True)
def div_spec(E, self, other):
    return portion_of(E, self, other, 'on', None)


setup(QI + '__truediv__')(mul_setup)


def void_setup(E):
    w = iv_world(E, True)
    return {'self': w.me}


@client('a void interval has no workshifts', '''
def prog(ivl, duty, n):
    out = [ivl.length, len(ivl), ivl.count(), ivl.count(duty), ivl.worktime(), ivl.worktime(duty),
           ivl.total_duration(), ivl.total_duration(duty), ivl.count_periods('M'), [x for x in ivl],
           [x for x in ivl.workshifts()], [x for x in ivl.workshifts(duty)]]
    for q in (lambda: ivl.nth(n), lambda: ivl.first(), lambda: ivl.last(), lambda: ivl.nth(n, duty), lambda: ivl.first(duty), lambda: ivl.last(duty)):
        try:
            q()
            out.append('found')
        except OutOfBoundsError:
            out.append('none')
    return out
''', props=['C16'], effects=('_ws_generator_activated',))
def void_spec(E, ivl, duty, n):
    return tuple([0] * 9 + [(), (), ()] + ['none'] * 6)


@setup('client.a void interval has no workshifts')
def void_client_setup(E):
    w = iv_world(E, True)
    return {'ivl': w.me, 'duty': E.choose(['on', 'off', 'any']), 'n': SInt(E.fresh('n'))}


@client('a void interval stays void', '''
def prog(void, other, duty):
    x = void.overlap(other)
    y = void * other
    z = other * void
    return [i.length for i in (x, y, z)] + [i.count(duty) for i in (x, y, z)] + [void.what_portion_of(other, duty), void / other]
''', props=['C16'])
def void_overlap_spec(E, void, other, duty):
    return tuple([0] * 8)


@setup('client.a void interval stays void')
def void_overlap_setup(E):
    w = two_setup(E, True)
    return {'void': w.me, 'other': w.other, 'duty': E.choose(['on', 'off', 'any'])}


@client('overlap is symmetric', '''
def prog(p, q):
    x = p.overlap(q)
    y = q.overlap(p)
    return [x.length == y.length, x.length == 0 or (x.start_time == y.start_time and x.end_time == y.end_time)]
''', props=['C16'])
def symm_spec(E, p, q):
    return (True, True)


@setup('client.overlap is symmetric')
def symm_setup(E):
    w = two_setup(E)
    return {'p': w.me, 'q': w.other}


@client('portion is between 0 and 1, and 1 for a containing interval', '''
def prog(p, q, duty):
    x = p.what_portion_of(q, duty)
    inside = p.start_time <= q.start_time and q.end_time <= p.end_time and q.count(duty, p.schedule) > 0
    return [0 <= x, x <= 1, not inside or x == 1]
''', props=['C16'])
def unit_spec(E, p, q, duty):
    return (True, True, True)


@setup('client.portion is between 0 and 1, and 1 for a containing interval')
def unit_setup(E):
    w = two_setup(E)
    return {'p': w.me, 'q': w.other, 'duty': E.choose(['on', 'off', 'any'])}

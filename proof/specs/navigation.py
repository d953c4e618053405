"""Contracts of workshift navigation (C10, C11)."""
import z3

from vals import *
from contracts import contract, setup, Rel, skip
from world import World

DUTIES = ['on', 'off', 'any', 'same', 'alt', '<unknown>']


def ws_world(E):
    w = World(E)
    w.board()
    w.s1 = w.schedule('own')
    loc = E.size('loc')
    E.assume(loc < w.M)
    w.loc = loc
    flav = E.choose([False, True])
    w.me = w.workshift(SInt(loc, flav), w.s1)
    return w


def resolve_duty(E, w, duty, loc, sched):
    """None for an unknown duty"""
    if duty in ('on', 'off', 'any'):
        return w.duty_seq(duty, sched)
    if duty in ('same', 'alt'):
        on = E.branch(w.on(sched, loc))
        return w.duty_seq('on' if on == (duty == 'same') else 'off', sched)
    return None


def nav_setup(E):
    w = ws_world(E)
    sched = E.choose([None, 'given'])
    if sched:
        sched = w.schedule('given')
    duty = E.choose(DUTIES)
    steps = SInt(E.fresh('steps'))
    return {'self': w.me, 'steps': steps, 'duty': duty, 'schedule': sched}


def fwd_spec(E, self, steps=0, duty='on', schedule=None):
    w = E.world
    sched = schedule if schedule is not None else E.getattr_(self, '_schedule')
    loc = E.zint(E.getattr_(self, '_loc'))
    if not isinstance(duty, str):
        skip()
    d = resolve_duty(E, w, duty, loc, sched)
    if d is None:
        E.throw('ValueError')
    n = E.zint(steps)
    # the first workshift with the duty at or after loc has rank cnt(loc)
    r = d.cnt(loc)
    if not E.branch(r < d.len):
        E.throw('OutOfBoundsError')
    if not E.branch(z3.And(r + n >= 0, r + n < d.len)):
        E.throw('OutOfBoundsError')
    return w.workshift(d.value(z3.simplify(r + n)), sched)


def back_spec(E, self, steps=0, duty='on', schedule=None):
    w = E.world
    sched = schedule if schedule is not None else E.getattr_(self, '_schedule')
    loc = E.zint(E.getattr_(self, '_loc'))
    if not isinstance(duty, str):
        skip()
    d = resolve_duty(E, w, duty, loc, sched)
    if d is None:
        E.throw('ValueError')
    n = E.zint(steps)
    # the last workshift with the duty at or before loc has rank cnt(loc+1)-1
    r = d.cnt(loc + 1) - 1
    if not E.branch(r >= 0):
        E.throw('OutOfBoundsError')
    if not E.branch(z3.And(r - n >= 0, r - n < d.len)):
        E.throw('OutOfBoundsError')
    return w.workshift(d.value(z3.simplify(r - n)), sched)


Q = 'timeboard.workshift.Workshift.'
contract(Q + 'rollforward', props=['C10'], public=True)(fwd_spec)
setup(Q + 'rollforward')(nav_setup)
contract(Q + 'rollback', props=['C11'], public=True)(back_spec)
setup(Q + 'rollback')(nav_setup)


def op_setup(E):
    w = ws_world(E)
    kind = E.choose(['int', 'other'])
    other = SInt(E.fresh('steps')) if kind == 'int' else E.choose([w.me, 'text', None])
    return {'self': w.me, 'other': other}


@contract(Q + '__add__', props=['C10'], public=True)
def add_spec(E, self, other):
    if isinstance(other, (SInt, int)) and not E.is_np(other):
        return fwd_spec(E, self, other, 'on', None)
    return LibV('builtins.NotImplemented')


@contract(Q + '__sub__', props=['C11'], public=True)
def sub_spec(E, self, other):
    if isinstance(other, (SInt, int)) and not E.is_np(other):
        return back_spec(E, self, other, 'on', None)
    return LibV('builtins.NotImplemented')


setup(Q + '__add__')(op_setup)
setup(Q + '__sub__')(op_setup)

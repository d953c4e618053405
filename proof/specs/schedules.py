"""Duty under schedules and the registry of schedules (C09)."""
import z3

from vals import *
from contracts import contract, setup, client, Rel, skip
from world import World, I
from specs.navigation import ws_world, Q as QW
from specs.boards import board_world, position, loc_setup

QS = 'timeboard.core._Schedule.'
QB = 'timeboard.timeboard.Timeboard.'


def same_truth(E, want):
    """any value that is true exactly when `want`"""
    def pred(v):
        t = E.truth(v)
        t = t if z3.is_expr(t) else z3.BoolVal(bool(t))
        return [t == want]
    return Rel(lambda E: SBool(want), pred)


def sched_setup(E):
    w = board_world(E)
    s = E.choose([w.s0, 'other'])
    s = w.schedule('other') if s == 'other' else s
    n = E.fresh('n')
    E.assume(n >= 0)
    return {'self': s, 'n': SInt(n, E.choose([False, True]))}


@contract(QS + 'is_on_duty', props=['C09'], public=True, apply=False)
def on_spec(E, self, n):
    k = position(E, n)
    return same_truth(E, E.world.on(self, k))


@contract(QS + 'is_off_duty', props=['C09'], public=True, apply=False)
def off_spec(E, self, n):
    k = position(E, n)
    return same_truth(E, z3.Not(E.world.on(self, k)))


@contract(QS + 'label', props=['C09'], apply=False)
def label_spec(E, self, n):
    return E.world.lab(position(E, n))


for _m in ('is_on_duty', 'is_off_duty', 'label'):
    setup(QS + _m)(sched_setup)


def index_setup(E):
    a = sched_setup(E)
    return {'self': a['self']}


def index_spec(duty):
    def spec(E, self):
        d = E.world.duty_seq(duty, self)
        return E.arr(SSeq(d.len, lambda j: d.value(E.z(j)), 'array'), 'int')
    return spec


for _m, _d in (('on_duty_index', 'on'), ('off_duty_index', 'off'), ('index', 'any')):
    contract(QS + _m, props=['C09'], apply=False)(index_spec(_d))
    setup(QS + _m)(index_setup)


@client('a workshift is on duty or off duty by its label', '''
def prog(ws, schedule):
    return (ws.is_on_duty(schedule), ws.is_off_duty(schedule), ws.is_on_duty(schedule=schedule))
''', props=['C09'])
def ws_duty_spec(E, ws, schedule):
    w = E.world
    s = schedule if schedule is not None else E.getattr_(ws, '_schedule')
    want = w.on(s, E.zint(E.getattr_(ws, '_loc')))

    def pred(v):
        v = E.force(v)
        out = []
        for x, g in zip(v, (want, z3.Not(want), want)):
            t = E.truth(x)
            out.append((t if z3.is_expr(t) else z3.BoolVal(bool(t))) == g)
        return out
    return Rel(None, pred)


@setup('client.a workshift is on duty or off duty by its label')
def ws_duty_setup(E):
    w = ws_world(E)
    return {'ws': w.me, 'schedule': w.schedule('given') if E.choose([True, False]) else None}


@client('workshifts and intervals take the given schedule, else the default one of the board', '''
def prog(tb, t, n, schedule):
    a = tb.get_workshift(t, schedule=schedule)
    b = tb.get_interval(t, length=n, schedule=schedule)
    return (a.schedule is b.schedule, a.rollforward(duty='any').schedule is a.schedule, a.schedule)
''', props=['C09'])
def precedence_spec(E, tb, t, n, schedule):
    w = E.world
    return (True, True, schedule if schedule is not None else w.s0)


@setup('client.workshifts and intervals take the given schedule, else the default one of the board')
def precedence_setup(E):
    w = board_world(E)
    t = E.fresh('t')
    E.assume(w.inside(t))
    n = E.size('n')
    E.assume(z3.And(n >= 1, w.at(t) + n <= w.M))
    return {'tb': w.tb, 't': STs(t), 'n': SInt(n), 'schedule': w.schedule('given') if E.choose([True, False]) else None}


# ------------------------------------------------------------------ the registry
def registry_setup(E):
    """a board with two schedules; names matter by equality only, a name may be any object with a text"""
    w = board_world(E)
    w.s1 = w.schedule('7')
    E.setitem(E.getattr_(w.tb, '_schedules'), '7', w.s1)
    return w


def entries(E, w, tb):
    return E.rec(E.getattr_(tb, '_schedules')).f


def new_schedule(E, w, name, sel):
    """what a schedule of that name is: derived from the labels by the selector"""
    mask = lambda pol: SSeq(w.M, lambda k: SBool(TRUTH(sel.f(w.LABf(E.z(k)))) if pol else z3.Not(TRUTH(sel.f(w.LABf(E.z(k))))), True), 'array')
    on, off = E.nonzero_seq(mask(True)), E.nonzero_seq(mask(False))
    return E.alloc(Rec('inst', E.cls('timeboard.core', '_Schedule'), {
        '_timeline': w.tl, '_name': name, '_selector': sel, '_on_duty_index': E.arr(on, 'int'), '_off_duty_index': E.arr(off, 'int')}, open=True))


@contract(QB + 'add_schedule', props=['C09'], public=True, apply=False, mutates=True)
def add_spec(E, self, name, selector):
    w = E.world
    text = name if isinstance(name, str) else str(name)
    if text in ('default', '7'):
        E.throw('KeyError')
    s = new_schedule(E, w, text, selector)
    E.setitem(E.getattr_(self, '_schedules'), text, s)
    return s


@setup(QB + 'add_schedule')
def add_setup(E):
    w = registry_setup(E)
    return {'self': w.tb, 'name': E.choose(['new', 'default', '7', 7, 8]), 'selector': w.selector('new')}


@contract(QB + 'drop_schedule', props=['C09'], public=True, apply=False, mutates=True)
def drop_spec(E, self, schedule):
    nm = E.getattr_(schedule, '_name')
    d = E.getattr_(self, '_schedules')
    r = E.rec(d)
    if ('k', nm) not in r.f:
        E.throw('KeyError')
    f = dict(r.f)
    del f[('k', nm)]
    E.put(d, r.with_f(f))
    return None


@setup(QB + 'drop_schedule')
def drop_setup(E):
    w = registry_setup(E)
    s = E.choose(['default', '7', 'unregistered'])
    s = {'default': w.s0, '7': w.s1}.get(s) or w.schedule('unregistered')
    return {'self': w.tb, 'schedule': s}


@client('adding and dropping schedules leaves the others alone', '''
def prog(tb, k, name, selector):
    a = tb.default_schedule
    b = tb.schedules['7']
    s = tb.add_schedule(name, selector)
    here = tb.schedules[str(name)] is s and s.name == str(name)
    others = tb.schedules['default'] is a and tb.schedules['7'] is b and tb.default_schedule is a and len(tb.schedules) == 3
    try:
        tb.add_schedule(name, selector)
        refused = False
    except KeyError:
        refused = tb.schedules[str(name)] is s and len(tb.schedules) == 3
    tb.drop_schedule(s)
    gone = str(name) not in tb.schedules and len(tb.schedules) == 2
    left = tb.schedules['default'] is a and tb.schedules['7'] is b and tb.default_schedule is a
    return here and others and refused and gone and left
''', props=['C09', 'C21'])
def history_spec(E, tb, k, name, selector):
    return True


@setup('client.adding and dropping schedules leaves the others alone')
def history_setup(E):
    w = registry_setup(E)
    k = E.size('k')
    E.assume(k < w.M)
    return {'tb': w.tb, 'k': SInt(k), 'name': E.choose(['new', 8]), 'selector': w.selector('new')}

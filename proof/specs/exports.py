"""Exporting a board, a part of it or an interval (C20): one row per workshift, with the workshift's own values."""
import z3

from vals import *
from contracts import contract, setup, client, Rel, skip
from specs.boards import board_world, QT, QB
from specs.intervals import QI, bounds

ROWS = ('ws_ref', 'start', 'duration', 'end', 'label')


def opt_pos(E, name):
    """None, or any whole number"""
    return E.choose([None, SInt(E.fresh(name))])


def limits(E, first, last):
    """the exported range of workshifts; AssertionError unless both ends are workshifts of the board"""
    w = E.world
    a = z3.IntVal(0) if first is None else E.zint(first)
    b = w.M - 1 if last is None else E.zint(last)
    if not E.branch(z3.And(a >= 0, a < w.M, b >= 0, b < w.M)):
        E.throw('AssertionError')
    return a, b


def table(E, a, b, schedules=()):
    """rows a .. b; nothing is said about a range that ends before it starts"""
    w = E.world
    if E.mode == 'check':
        E.assume(a <= b)
    elif not E.valid(a <= b):
        skip()
    n = z3.simplify(b - a + 1)
    z = E.z
    col = {'ws_ref': lambda k: STs(w.ref(k)), 'start': lambda k: STs(w.start(k)), 'duration': lambda k: SInt(w.dur(k), True),
           'end': lambda k: STs(w.end(k)), 'label': lambda k: w.lab(k)}
    f = {'$index': SSeq(n, lambda j: SInt(a + z(j), True), 'index')}
    for c in ROWS:
        f[('col', c)] = SSeq(n, (lambda j, g=col[c]: g(a + z(j))), 'index')
    for name, s in schedules:
        sel = E.rec(s).f['_selector']
        f[('col', name)] = SSeq(n, (lambda j, sel=sel: SObj(sel.f(w.LABf(a + z(j))))), 'list')
    return E.alloc(Rec('df', None, f))


@contract(QT + 'to_dataframe', props=['C20'])
def tl_spec(E, self, first_ws=None, last_ws=None):
    a, b = limits(E, first_ws, last_ws)
    return table(E, a, b)


@setup(QT + 'to_dataframe')
def tl_setup(E):
    w = board_world(E)
    return {'self': w.tl, 'first_ws': opt_pos(E, 'first'), 'last_ws': opt_pos(E, 'last')}


def exported_board(E):
    w = board_world(E)
    w.other = w.schedule('night')
    r = E.rec(E.rec(w.tb).f['_schedules'])
    f = dict(r.f)
    f[('k', 'night')] = w.other
    E.put(E.rec(w.tb).f['_schedules'], r.with_f(f))
    return w


@contract(QB + 'to_dataframe', props=['C20'], public=True)
def tb_spec(E, self, first_ws=None, last_ws=None):
    a, b = limits(E, first_ws, last_ws)
    w = E.world
    sch = E.rec(E.rec(self).f['_schedules']).f
    return table(E, a, b, [(k[1], s) for k, s in sch.items()])


@setup(QB + 'to_dataframe')
def tb_setup(E):
    w = exported_board(E)
    return {'self': w.tb, 'first_ws': opt_pos(E, 'first'), 'last_ws': opt_pos(E, 'last')}


@contract(QI + 'to_dataframe', props=['C20'], public=True)
def iv_spec(E, self):
    w = E.world
    a, b = bounds(E, self)
    sch = E.rec(E.rec(w.tb).f['_schedules']).f
    return table(E, a, b, [(k[1], s) for k, s in sch.items()])


@setup(QI + 'to_dataframe')
def iv_setup(E):
    w = exported_board(E)
    a, b = E.size('first'), E.size('last')
    E.assume(z3.And(a <= b, b < w.M))
    me = w.interval(SInt(a), SInt(b), w.schedule('own'))
    return {'self': me}

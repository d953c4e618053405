"""Building a board (C01, C02, C03, C08, C09): the constructor establishes what all other contracts assume."""
import z3

from vals import *
from contracts import contract, setup, client, Rel, skip
from world import World, I
from specs.layouts import pattern, world_timeline
from specs.amendments import Amendments

ONLY = ['timeboard.core._Timeline.__organize', 'timeboard.core._Timeline.__init__', 'timeboard.core._Timeline.__apply_pattern', 'timeboard.core._Timeline.amend',
        'timeboard.core._Frame.get_loc_vectorized']

OBSERVE = '''
    ws = Workshift(tb, k)
    return (tb.start_time, tb.end_time, len(tb._timeline), ws.start_time, ws.end_time, ws.to_timestamp(), ws.duration, ws.label,
            tb.default_schedule.name, len(tb.schedules), tb.worktime_source, bool(ws.is_on_duty()))
'''


def building(E):
    w = World(E)
    s, e = z3.Int('start'), z3.Int('end')
    w.range = (s, e)
    w.building = world_timeline
    w.k = E.fresh('k')
    E.assume(w.k >= 0)
    w.sel = E.choose([None, w.selector('given')])
    w.am = Amendments(E, 'timestamp') if E.choose([False, True]) else None
    w.ref = E.choose(['start', 'end'])
    return {'freq': w.freq, 'start': STs(s), 'end': STs(e), 'am': None if w.am is None else E.alloc(Rec('dict', None, {'$sym': w.am})),
            'sel': w.sel, 'name': None if w.sel is None else 'work', 'ref': w.ref, 'src': 'duration', 'dl': SPlain(z3.Const('DEFAULT', Obj)), 'k': SInt(w.k)}


def observed(E, w, args, label):
    k = w.k
    if not E.branch(w.freq.begin(w.range[0]) <= w.range[1]):
        E.throw('VoidIntervalError')
    w.freq.range(E, *w.range)
    return k


def result(E, w, k, layout, src, name):
    E.assume(k < w.M)
    lab = layout(k)
    if w.am is not None:
        lab = z3.If(src(k) >= 0, w.am.val(src(k)), lab)
    on = TRUTH(w.sel.f(lab)) if w.sel is not None else TRUTH(lab)
    ref = w.start(k) if w.ref == 'start' else w.end(k)
    return (STs(w.t0), STs(w.t1), SInt(w.M), STs(w.start(k)), STs(w.end(k)), STs(ref), SInt(w.dur(k)), SObj(lab),
            'on_duty' if name is None else name, 1, 'duration', SBool(on))


def board_client(name, props):
    return client(name, '''
def prog(freq, start, end, layout, am, sel, name, ref, src, dl, k):
    tb = Timeboard(freq, start, end, layout, am, default_selector=sel, default_name=name, workshift_ref=ref, default_label=dl, worktime_source=src)
''' + OBSERVE, props=props, only=ONLY, mutates=True, abandon=True)


def amended(E, w):
    """amendments on the finished layout: refused, or each workshift's label replaced by the one that names it"""
    from specs.amendments import for_unit
    a, n = w.am, w.am.n
    inside, at = (lambda i: w.inside(a.key(i))), (lambda i: w.at(a.key(i)))
    for_unit(E, w, a, n)
    b, dup = E.fresh('first_refused'), E.fresh('dup')
    E.assume(z3.And(b >= 0, b <= n))
    E.assume(E.forall2(0, b, lambda i, j: z3.Implies(z3.And(i < j, inside(i), inside(j)), at(i) != at(j)), pats=lambda i, j: [(a.key(i), a.key(j))]))
    if E.branch(b < n):
        E.assume(z3.And(inside(b), dup >= 0, dup < b, inside(dup), at(dup) == at(b)))
        E.throw('KeyError')
    src = z3.Function('AMENDED_BY', I, I)
    E.assume(E.forall(0, w.M, lambda k: z3.And(src(k) >= -1, src(k) < n, z3.Implies(src(k) >= 0, z3.And(inside(src(k)), at(src(k)) == k))), pats=lambda k: [src(k)]))
    E.assume(E.forall(0, n, lambda i: z3.Implies(inside(i), src(at(i)) == i), pats=lambda i: [a.key(i)]))
    return src


@board_client('a board with an organizer', ['C01', 'C02', 'C08'])
def organizer_board(E, freq, start, end, layout, am, sel, name, ref, src, dl, k):
    w = E.world
    observed(E, w, None, None)
    if E.branch(w.REFUSED):
        E.throw('OutOfBoundsError')
    s = amended(E, w) if am is not None else None
    return result(E, w, w.k, lambda k: w.LAYOUT(k), s, name)


@setup('client.a board with an organizer')
def organizer_board_setup(E):
    a = building(E)
    w = E.world
    w.M1, w.L1 = z3.Function('MASK1', I, I), z3.Function('LABEL1', I, Obj)
    w.LAYOUT = z3.Function('LAYOUT', I, Obj)
    w.REFUSED = z3.Bool('ORGANIZER_REFUSES')
    w.organizer = E.alloc(Rec('inst', E.cls('timeboard.core', 'Organizer'), {}, open=True))
    a['layout'] = w.organizer
    return a


@board_client('a board with a pattern for layout', ['C01', 'C02', 'C03', 'C08'])
def pattern_board(E, freq, start, end, layout, am, sel, name, ref, src, dl, k):
    w = E.world
    observed(E, w, None, None)
    n, f = w.pat
    s = amended(E, w) if am is not None else None
    return result(E, w, w.k, lambda k: z3.If(n == 0, dl.e, f(k % n)), s, name)


@setup('client.a board with a pattern for layout')
def pattern_board_setup(E):
    a = building(E)
    w = E.world
    # every unit is a workshift
    E.assume(w.M == w.N)
    E.assume(E.forall(0, w.N + 1, lambda k: w.F(k) == k, pats=lambda k: [w.F(k)]))
    E.assume(E.forall(0, w.N, lambda k: w.OWN(k) == k, pats=lambda k: [w.OWN(k)]))
    n, f, lst = pattern(E)
    w.pat = (n, f)
    a['layout'] = lst
    return a

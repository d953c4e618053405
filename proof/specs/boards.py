"""Location of points in time and the geometry of workshifts (C02), intervals by reference (C12-C14)."""
import z3

from vals import *
from contracts import contract, setup, client, Rel, skip
from world import World
from specs.navigation import ws_world, Q as QW

QT = 'timeboard.core._Timeline.'
QB = 'timeboard.timeboard.Timeboard.'


def board_world(E):
    w = World(E)
    w.board()
    return w


# ------------------------------------------------------------------ geometry
def loc_setup(E):
    w = board_world(E)
    n = E.fresh('n')
    E.assume(n >= 0)
    return {'self': w.tl, 'n': SInt(n, E.choose([False, True]))}


def position(E, n):
    """a workshift number; negative numbers are outside the contracts"""
    e = E.zint(n)
    if E.mode == 'check':
        E.assume(e >= 0)
    elif not E.valid(e >= 0):
        skip()
    if not E.branch(e < E.world.M):
        E.throw('IndexError')
    return e


def geometry(name, fn, prop='C02'):
    @contract(QT + name, props=[prop])
    def spec(E, self, n):
        return fn(E.world, position(E, n))
    setup(QT + name)(loc_setup)


geometry('_get_ws_first_baseunit', lambda w, k: SInt(w.F(k), True))
geometry('_get_ws_last_baseunit', lambda w, k: SInt(w.F(k + 1) - 1, True))
geometry('get_ws_start_time', lambda w, k: STs(w.start(k)))
geometry('get_ws_end_time', lambda w, k: STs(w.end(k)))
geometry('get_ws_ref_time', lambda w, k: STs(z3.simplify(w.ref(k))))
geometry('get_ws_duration', lambda w, k: SInt(w.dur(k), True))


def ws_attr(name, fn):
    @contract(QW + name, props=['C02'], public=True)
    def spec(E, self):
        return fn(E.world, E.zint(E.getattr_(self, '_loc')))

    @setup(QW + name)
    def st(E):
        w = ws_world(E)
        return {'self': w.me}


ws_attr('start_time', lambda w, k: STs(w.start(k)))
ws_attr('end_time', lambda w, k: STs(w.end(k)))
ws_attr('duration', lambda w, k: SInt(w.dur(k)))
ws_attr('label', lambda w, k: w.lab(k))
ws_attr('to_timestamp', lambda w, k: STs(z3.simplify(w.ref(k))))


@contract(QB + 'start_time', props=['C02'], public=True)
def tb_start(E, self):
    return STs(E.world.t0)


@contract(QB + 'end_time', props=['C02'], public=True)
def tb_end(E, self):
    return STs(E.world.t1)


@setup(QB + 'start_time')
def tb_setup(E):
    w = board_world(E)
    return {'self': w.tb}


setup(QB + 'end_time')(tb_setup)


@client('workshifts tile the board', '''
def prog(tb, k, ns):
    ws = Workshift(tb, k)
    out = [ws.start_time <= ws.end_time, ws.duration >= 1]
    if k == 0:
        out.append(ws.start_time == tb.start_time)
    if k == len(tb._timeline) - 1:
        out.append(ws.end_time == tb.end_time)
    else:
        out.append(Workshift(tb, k + 1).start_time == ws.end_time + ns)
    return all(out)
''', props=['C02', 'C17'])
def tile_spec(E, tb, k, ns):
    return True


@setup('client.workshifts tile the board')
def tile_setup(E):
    w = board_world(E)
    k = E.size('k')
    E.assume(k < w.M)
    return {'tb': w.tb, 'k': SInt(k), 'ns': STd(z3.IntVal(1))}


@client('the reference time lies in the workshift', '''
def prog(tb, k):
    ws = Workshift(tb, k)
    return ws.start_time <= ws.to_timestamp() and ws.to_timestamp() <= ws.end_time
''', props=['C02', 'C17'])
def refin_spec(E, tb, k):
    return True


@setup('client.the reference time lies in the workshift')
def refin_setup(E):
    w = board_world(E)
    k = E.size('k')
    E.assume(k < w.M)
    return {'tb': w.tb, 'k': SInt(k)}


# ------------------------------------------------------------------ points in time
def point(E, w, kinds=('timestamp', 'period', 'workshift', 'text')):
    k = E.choose(list(kinds))
    if k == 'timestamp':
        return STs(E.fresh('t'))
    if k == 'period':
        s, t = E.fresh('ps'), E.fresh('pt')
        E.assume(s <= t)
        return SPeriod(s, t, None)
    if k == 'workshift':
        p = E.size('wp')
        E.assume(p < w.M)
        return w.workshift(SInt(p, True), w.s0)
    if k == 'text':
        t = E.fresh('tt')
        o = Opaque('date text', null=False)
        o.timestamp = lambda E: STs(t)
        return o
    if k == 'none':
        return None
    if k == 'nat':
        return NAT
    raise ValueError(k)


def instant(E, x):
    """the instant a point in time stands for (z3 int); None when it stands for none"""
    if isinstance(x, STs):
        return x.e
    if isinstance(x, SPeriod):
        return x.s
    if x is None or x is NAT:
        return None
    if isinstance(x, Opaque) and hasattr(x, 'timestamp'):
        return x.timestamp(E).e
    c = E.class_of(x)
    if c is not None and c.name == 'Workshift':
        return z3.simplify(E.world.ref(E.zint(E.getattr_(x, '_loc'))))
    skip()


def loc_nt(E, pos, where):
    return NT(E.cls('timeboard.timeboard', '_Location'), [pos, where])


@contract(QT + 'get_ws_position', props=['C02'])
def pos_spec(E, self, point_in_time):
    w = E.world
    t = instant(E, point_in_time)
    if t is None:
        skip()
    if not E.branch(w.inside(t)):
        E.throw('OutOfBoundsError')
    return SInt(w.at(t))


@setup(QT + 'get_ws_position')
def pos_setup(E):
    w = board_world(E)
    return {'self': w.tl, 'point_in_time': point(E, w)}


def after(E, t):
    """first workshift whose reference time is at or after t, t inside the board; None if there is none"""
    w = E.world
    k = w.at(t)
    if E.branch(w.ref(k) >= t):
        return k
    if E.branch(k + 1 < w.M):
        return z3.simplify(k + 1)
    return None


def before(E, t):
    w = E.world
    k = w.at(t)
    if E.branch(w.ref(k) <= t):
        return k
    if E.branch(k >= 1):
        return z3.simplify(k - 1)
    return None


def by_ref(name, fn):
    @contract(QT + name, props=['C14'])
    def spec(E, self, point_in_time):
        t = instant(E, point_in_time)
        if t is None:
            skip()
        if not E.branch(E.world.inside(t)):
            E.throw('OutOfBoundsError')
        k = fn(E, t)
        if k is None:
            E.throw('OutOfBoundsError')
        return SInt(k)
    setup(QT + name)(pos_setup)


by_ref('get_ws_pos_by_ref_after', after)
by_ref('get_ws_pos_by_ref_before', before)


@client('searching by reference time finds the first and the last workshift', '''
def prog(tb, t, k):
    r = Workshift(tb, k).to_timestamp()
    try:
        n = tb._timeline.get_ws_pos_by_ref_after(t)
        out = [(k < n) == (r < t)]
    except OutOfBoundsError:
        out = [r < t]
    try:
        n = tb._timeline.get_ws_pos_by_ref_before(t)
        return out + [(k <= n) == (r <= t)]
    except OutOfBoundsError:
        return out + [r > t]
''', props=['C14', 'C17'])
def first_last_spec(E, tb, t, k):
    return (True, True)


@setup('client.searching by reference time finds the first and the last workshift')
def first_last_setup(E):
    w = board_world(E)
    t, k = E.fresh('t'), E.size('k')
    E.assume(z3.And(w.inside(t), k < w.M))
    return {'tb': w.tb, 't': STs(t), 'k': SInt(k)}


def located(E, t, by=None):
    """(position or None, where)"""
    w = E.world
    if E.branch(t < w.t0):
        return None, -1
    if E.branch(t > w.t1):
        return None, 1
    if by == 'after':
        k = after(E, t)
        return (k, 0) if k is not None else (None, 1)
    if by == 'before':
        k = before(E, t)
        return (k, 0) if k is not None else (None, -1)
    return w.at(t), 0


@contract(QB + '_locate', props=['C02', 'C12', 'C13', 'C14'])
def locate_spec(E, self, point_in_time, by_ref=None):
    t = instant(E, point_in_time)
    if t is None:
        E.throw('ValueError')
    k, where = located(E, t, by_ref)
    return loc_nt(E, None if k is None else SInt(k), where)


@setup(QB + '_locate')
def locate_setup(E):
    w = board_world(E)
    return {'self': w.tb, 'point_in_time': point(E, w, ('timestamp', 'period', 'workshift', 'text', 'none', 'nat')), 'by_ref': E.choose([None, 'before', 'after'])}


@contract(QB + 'get_workshift', props=['C02'], public=True)
def get_workshift_spec(E, self, point_in_time, schedule=None):
    w = E.world
    t = instant(E, point_in_time)
    if t is None:
        E.throw('ValueError')
    k, where = located(E, t)
    if k is None:
        E.throw('OutOfBoundsError')
    return w.workshift(SInt(k), schedule if schedule is not None else w.s0)


@setup(QB + 'get_workshift')
def get_workshift_setup(E):
    w = board_world(E)
    s = w.schedule('given') if E.choose([False, True]) else None
    return {'self': w.tb, 'point_in_time': point(E, w, ('timestamp', 'period', 'workshift', 'text', 'none')), 'schedule': s}


@client('the located workshift contains the point', '''
def prog(tb, p, t):
    try:
        ws = tb.get_workshift(p)
    except OutOfBoundsError:
        return t < tb.start_time or t > tb.end_time
    return ws.start_time <= t and t <= ws.end_time
''', props=['C02', 'C17'])
def contains_spec(E, tb, p, t):
    return True


@setup('client.the located workshift contains the point')
def contains_setup(E):
    w = board_world(E)
    p = point(E, w)
    return {'tb': w.tb, 'p': p, 't': STs(instant(E, p))}


# ------------------------------------------------------------------ get_interval
def strip_spec(E, self, locs, drop_head, drop_tail):
    skip()


def null(E, x):
    return x is None or x is NAT


def finish(E, l0, l1, head, tail, sched):
    """bounds (position or None, where) -> interval, as the property states"""
    w = E.world
    p0, s0 = l0
    p1, s1 = l1
    if p0 is not None and head:
        p0 = z3.simplify(E.z(p0) + 1)
    if p1 is not None and tail:
        p1 = z3.simplify(E.z(p1) - 1)
    if p0 is not None and p1 is not None:
        if not E.branch(E.z(p0) <= E.z(p1)):
            E.throw('VoidIntervalError')
        return w.interval(SInt(E.z(p0)), SInt(E.z(p1)), sched)
    if s0 > s1:
        E.throw('VoidIntervalError')
    if p0 is None and p1 is None and s0 == s1:
        E.throw('OutOfBoundsError')
    E.throw('PartialOutOfBoundsError')


def closed_flags(E, closed):
    if not isinstance(closed, str):
        skip()
    if closed not in ('00', '01', '10', '11'):
        E.throw('ValueError')
    return closed[0] == '0', closed[1] == '0'


def by_points(E, ref, head, tail, sched):
    w = E.world
    if null(E, ref):
        items = (None, None)
    else:
        items = E.seq(ref)
    l0, l1 = (z3.IntVal(0), 0), (w.M - 1, 0)
    if not null(E, items[0]):
        t = instant(E, items[0])
        l0 = located(E, t)
    if not null(E, items[1]):
        t = instant(E, items[1])
        l1 = located(E, t)
    return finish(E, l0, l1, head, tail, sched)


def by_length(E, ref, length, head, tail, sched):
    w = E.world
    if isinstance(length, (str, float)) or length is NAT or E.is_np(length) and not isinstance(length, SBool):
        E.throw('TypeError')
    n = E.zint(length)
    if E.branch(n == 0):
        E.throw('VoidIntervalError')
    t = instant(E, ref)
    if t is None:
        E.throw('ValueError')
    k, where = located(E, t)
    if k is None:
        E.throw('OutOfBoundsError')
    if E.branch(n > 0):
        if not E.branch(k + n <= w.M):
            E.throw('PartialOutOfBoundsError')
        return finish(E, (k, 0), (k + n - 1, 0), head, tail, sched)
    if not E.branch(k + n + 1 >= 0):
        E.throw('PartialOutOfBoundsError')
    return finish(E, (k + n + 1, 0), (k, 0), head, tail, sched)


def ref_after(E, t):
    """number of the first workshift whose reference time is at or after t (M: none), t inside the board"""
    return E.world.refs_before(t)


def ref_before(E, t):
    """number of the last workshift whose reference time is at or before t (-1: none), t inside the board"""
    return E.world.refs_upto(t) - 1


def by_period(E, p, clip, head, tail, sched):
    """exactly the workshifts whose reference time lies in the period [p.s, p.t]"""
    w = E.world
    s, t = p.s, p.t
    A, B = ref_after(E, s), ref_before(E, t)
    # where the first and the last of them would be: before (-1), in (0), or behind (1) the board's workshifts
    s0 = z3.If(s < w.t0, -1, z3.If(z3.Or(s > w.t1, A >= w.M), z3.IntVal(1), 0))
    s1 = z3.If(t < w.t0, -1, z3.If(t > w.t1, 1, z3.If(B < 0, z3.IntVal(-1), 0)))
    cut0 = z3.And(s0 == -1, s1 != -1) if clip else z3.BoolVal(False)
    cut1 = z3.And(s1 == 1, s0 != 1) if clip else z3.BoolVal(False)
    if E.branch(z3.And(z3.Or(s0 == 0, cut0), z3.Or(s1 == 0, cut1))):
        p0 = z3.If(cut0, 0, A + (1 if head else 0))
        p1 = z3.If(cut1, w.M - 1, B - (1 if tail else 0))
        p0, p1 = z3.simplify(p0), z3.simplify(p1)
        if not E.branch(p0 <= p1):
            E.throw('VoidIntervalError')
        return w.interval(SInt(p0), SInt(p1), sched)
    if E.branch(s0 > s1):
        E.throw('VoidIntervalError')
    if E.branch(s0 == s1):
        E.throw('OutOfBoundsError')
    E.throw('PartialOutOfBoundsError')


def ref_pair(E, w):
    kinds = [('timestamp', 'timestamp'), ('none', 'timestamp'), ('timestamp', 'none'), ('none', 'none'), ('workshift', 'period'), ('text', 'workshift')]
    a, b = E.choose(kinds)
    return (point(E, w, (a,)), point(E, w, (b,)))


CLOSED = ['11', '01', '10', '00', '12']


def interval_setup(kind):
    def st(E):
        w = board_world(E)
        s = w.schedule('given') if E.choose([False, True]) else None
        a = {'self': w.tb, 'interval_ref': None, 'length': None, 'period': None, 'clip_period': True, 'closed': E.choose(CLOSED), 'schedule': s}
        if kind == 'points':
            k = E.choose(['pair', 'nothing'])
            if k == 'pair':
                a['interval_ref'] = ref_pair(E, w)
        elif kind == 'length':
            a['interval_ref'] = point(E, w, ('timestamp', 'workshift', 'none'))
            a['length'] = SInt(E.fresh('len')) if E.choose([True, False]) else 'text'
        elif kind == 'period':
            p = point(E, w, ('period',))
            a['clip_period'] = E.choose([True, False])
            how = E.choose(['object', 'object with frequency', 'text with frequency'])
            if how == 'object':
                a['interval_ref'] = p
            else:
                f = Opaque('frequency', null=False)
                a['period'] = f
                if how.startswith('object'):
                    a['interval_ref'] = p
                else:
                    o = Opaque('date text', null=False)
                    t = E.fresh('tt')
                    o.timestamp = lambda E: STs(t)
                    ps, pt = z3.Function('PERSTART', z3.IntSort(), z3.IntSort()), z3.Function('PEREND', z3.IntSort(), z3.IntSort())
                    E.assume(z3.And(ps(t) <= t, t <= pt(t)))
                    f.period = lambda E, ts: SPeriod(ps(E_ts(ts)), pt(E_ts(ts)), f)
                    o.as_period = f.period(E, STs(t))
                    a['interval_ref'] = o
        else:
            a['interval_ref'] = point(E, w, ('timestamp',))
            a['length'] = SInt(E.fresh('len'))
            a['period'] = Opaque('frequency', null=False)
        return a
    return st


def E_ts(ts):
    return ts.e


def interval_spec(E, self, interval_ref=None, length=None, period=None, clip_period=True, closed='11', schedule=None):
    head, tail = closed_flags(E, closed)
    sched = schedule if schedule is not None else E.world.s0
    if length is not None and period is not None:
        E.throw('TypeError')
    if length is not None:
        return by_length(E, interval_ref, length, head, tail, sched)
    if period is not None or isinstance(interval_ref, SPeriod):
        if not isinstance(clip_period, bool):
            skip()
        if isinstance(interval_ref, SPeriod):
            p = interval_ref
        elif isinstance(interval_ref, Opaque) and hasattr(interval_ref, 'as_period'):
            p = interval_ref.as_period
        else:
            skip()
        return by_period(E, p, clip_period, head, tail, sched)
    if null(E, interval_ref) or (E.seq(interval_ref) is not None and isinstance(E.seq(interval_ref), tuple) and len(E.seq(interval_ref)) >= 2):
        return by_points(E, interval_ref, head, tail, sched)
    skip()


HOW = ('points', 'length', 'period', 'length and period')


@contract(QB + 'get_interval', checked_by=['client.get_interval by ' + k for k in HOW])
def get_interval_spec(E, self, interval_ref=None, length=None, period=None, clip_period=True, closed='11', schedule=None):
    """proved case by case by the clients below"""
    if length is not None and E.class_of(length) is not None or isinstance(interval_ref, Opaque) and not hasattr(interval_ref, 'timestamp'):
        skip()
    return interval_spec(E, self, interval_ref, length, period, clip_period, closed, schedule)


for _k, _p in zip(HOW, ('C12', 'C13', 'C14', 'C12')):
    _n = 'get_interval by ' + _k
    client(_n, '''
def prog(self, interval_ref, length, period, clip_period, closed, schedule):
    return self.get_interval(interval_ref, length=length, period=period, clip_period=clip_period, closed=closed, schedule=schedule)
''', props=[_p], exclude=[QB + 'get_interval'])(interval_spec)
    setup('client.' + _n)(interval_setup(_k))


@client('a period selects exactly the workshifts whose reference time it holds', """
def prog(tb, p, k):
    t = Workshift(tb, k).to_timestamp()
    here = p.start_time <= t and t <= p.end_time
    try:
        iv = tb.get_interval(p)
    except (OutOfBoundsError, VoidIntervalError):
        return not here
    return here == (iv._loc[0] <= k and k <= iv._loc[1])
""", props=['C14'])
def exactly_spec(E, tb, p, k):
    return True


@setup('client.a period selects exactly the workshifts whose reference time it holds')
def exactly_setup(E):
    w = board_world(E)
    k = E.size('k')
    E.assume(k < w.M)
    return {'tb': w.tb, 'p': point(E, w, ('period',)), 'k': SInt(k)}


@client('calling the board with one point', """
def prog(tb, ref):
    return tb(ref)
""", props=['C02', 'C12'])
def call_spec(E, tb, ref):
    w = E.world
    if isinstance(ref, tuple):
        return by_points(E, ref, False, False, w.s0)
    t = instant(E, ref)
    k, where = located(E, t)
    if k is None:
        E.throw('OutOfBoundsError')
    return w.workshift(SInt(k), w.s0)


@setup('client.calling the board with one point')
def call_setup(E):
    w = board_world(E)
    if E.choose([True, False]):
        return {'tb': w.tb, 'ref': ref_pair(E, w)}
    return {'tb': w.tb, 'ref': point(E, w)}


@client('calling the board with keywords', """
def prog(tb, ref, n, closed):
    return tb(ref, length=n, closed=closed)
""", props=['C13'])
def callk_spec(E, tb, ref, n, closed):
    head, tail = closed_flags(E, closed)
    return by_length(E, ref, n, head, tail, E.world.s0)


@setup('client.calling the board with keywords')
def callk_setup(E):
    w = board_world(E)
    return {'tb': w.tb, 'ref': point(E, w, ('timestamp',)), 'n': SInt(E.fresh('len')), 'closed': E.choose(CLOSED)}


@client('an interval between two points runs from the workshift of one to the workshift of the other', """
def prog(tb, a, b):
    try:
        iv = tb.get_interval((a, b))
    except (OutOfBoundsError, PartialOutOfBoundsError):
        return a < tb.start_time or b > tb.end_time or b < tb.start_time or a > tb.end_time
    except VoidIntervalError:
        return b < a
    first = Workshift(tb, iv._loc[0])
    last = Workshift(tb, iv._loc[1])
    return first.start_time <= a and a <= first.end_time and last.start_time <= b and b <= last.end_time
""", props=['C12'])
def between_spec(E, tb, a, b):
    return True


@setup('client.an interval between two points runs from the workshift of one to the workshift of the other')
def between_setup(E):
    w = board_world(E)
    return {'tb': w.tb, 'a': STs(E.fresh('a')), 'b': STs(E.fresh('b'))}

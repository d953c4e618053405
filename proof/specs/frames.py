"""Frames of base units (C01) and how they are split into spans (C04)."""
import z3

from vals import *
from contracts import contract, setup, client, Rel, skip
from world import World, I

QF = 'timeboard.core._Frame.'


def frame_world(E):
    w = World(E)
    w.fr = w.frame()
    return w


def frame_setup(E):
    return {'self': frame_world(E).fr}


@contract(QF + 'start_time', props=['C01'], apply=False)
def f_start(E, self):
    return STs(E.world.t0)


@contract(QF + 'end_time', props=['C01'], apply=False)
def f_end(E, self):
    return STs(E.world.t1)


setup(QF + 'start_time')(frame_setup)
setup(QF + 'end_time')(frame_setup)


@contract(QF + 'get_loc', props=['C01'], apply=False)
def get_loc_spec(E, self, timestamp, not_in_range=None):
    w = E.world
    if not E.branch(w.inside(timestamp.e)):
        if not_in_range is None:
            E.throw('KeyError')
        return not_in_range
    return SInt(w.unit(timestamp.e))


@setup(QF + 'get_loc')
def get_loc_setup(E):
    w = frame_world(E)
    return {'self': w.fr, 'timestamp': STs(E.fresh('t')), 'not_in_range': E.choose([None, -1])}


# ------------------------------------------------------------------ building a frame
def frame_base(E, w):
    S = w.S
    return SSeq(w.N, lambda i: SPeriod(S(E.z(i)), S(E.z(i) + 1) - 1), 'pidx', sorted_=True)


@contract(QF + '__new__', props=['C01'], public=True)
def frame_new_spec(E, cls, base_unit_freq=None, start=None, end=None, **kwargs):
    """the base units follow each other from the period that contains start to the one that contains end"""
    w = E.world
    if kwargs or base_unit_freq is not w.freq or w.range is None or not isinstance(start, STs) or not isinstance(end, STs):
        skip()
    if not (start.e.eq(w.range[0]) and end.e.eq(w.range[1])):
        skip()
    if not E.branch(w.freq.begin(start.e) <= end.e):
        E.throw('VoidIntervalError')
    w.freq.range(E, start.e, end.e)
    S, N = w.S, w.N
    if E.mode == 'check':
        z = z3.IntVal(0)
        E.prove('core._Frame.__new__: the units tile the time from the start to the end', z3.And(
            N >= 1, S(z) <= start.e, start.e < S(z + 1), S(N - 1) <= end.e, end.e < S(N), E.forall(0, N, lambda k: S(k) < S(k + 1))))
    st = SSeq(N, lambda i: STs(S(E.z(i))), 'dtindex', sorted_=True)
    return E.alloc(Rec('inst', E.cls('timeboard.core', '_Frame'), {'$base': frame_base(E, w), '_start_times': st, '_base_unit_freq': w.freq}, open=True))


@setup(QF + '__new__')
def frame_new_setup(E):
    w = World(E)
    s, e = z3.Int('start'), z3.Int('end')
    w.range = (s, e)
    return {'cls': E.cls('timeboard.core', '_Frame'), 'base_unit_freq': w.freq, 'start': STs(s), 'end': STs(e)}


def span_obj(E, first, last, left=0, right=0):
    return E.alloc(Rec('inst', E.cls('timeboard.core', '_Span'), {'first': first, 'last': last, 'skip_left': left, 'skip_right': right}, open=True))


@contract(QF + 'check_span', props=['C04'], apply=False)
def check_span_spec(E, self, span):
    w = E.world
    a, b = (E.as_int(E.getattr_(span, x)) for x in ('first', 'last'))
    if not E.branch(z3.And(a >= 0, a < w.N, b >= 0, b < w.N)):
        E.throw('OutOfBoundsError')
    if not E.branch(a <= b):
        E.throw('VoidIntervalError')
    return True


@setup(QF + 'check_span')
def check_span_setup(E):
    w = frame_world(E)
    return {'self': w.fr, 'span': span_obj(E, SInt(E.fresh('first')), SInt(E.fresh('last')))}


class Points(object):
    """n points in time, P(i)"""

    def __init__(self, E, w, tag='P', kind='list'):
        self.n = E.size('npoints')
        self.P = z3.Function(tag, I, I)
        self.kind = kind
        self.w = w
        units(E, w, self)

    def seq(self):
        return SSeq(self.n, lambda i: STs(self.P(i)), self.kind)

    def unit(self, i):
        return self.w.UNIT(self.P(i))

    def splits(self, i, first, last):
        return z3.And(self.w.inside(self.P(i)), self.unit(i) > first, self.unit(i) <= last)


def units(E, w, p):
    """definition of UNIT at the points"""
    u = p.unit
    E.assume(E.forall(0, p.n, lambda i: z3.Implies(w.inside(p.P(i)), z3.And(u(i) >= 0, u(i) < w.N, w.S(u(i)) <= p.P(i), p.P(i) < w.S(u(i) + 1))), pats=lambda i: [p.P(i)]))


class Given(Points):
    """the points of an argument"""

    def __init__(self, E, w, s):
        self.n = E.z(E.seq_n(s))
        self.P = lambda i: E.seq_at(s, i).e
        self.w = w
        units(E, w, self)


@contract(QF + 'get_loc_vectorized', props=['C01', 'C04'])
def vec_spec(E, self, timestamps, not_in_range=0, span_first=None, span_last=None):
    w = E.world
    s = E.seq(timestamps)
    if E.mode == 'apply' and s is not None and z3.simplify(E.z(E.seq_n(s))).eq(z3.IntVal(0)):
        return E.arr((), 'int')
    if not isinstance(s, SSeq) or not isinstance(E.seq_at(s, z3.Int('k!probe')), STs):
        skip()
    p = w.pts if E.mode == 'check' else Given(E, w, s)
    a = z3.IntVal(0) if span_first is None else E.as_int(span_first)
    b = w.N - 1 if span_last is None else E.as_int(span_last)
    sel = E.nonzero_seq(SSeq(p.n, lambda i: SBool(p.splits(E.z(i), a, b), True), 'array'))
    return E.arr(SSeq(sel.n, lambda j: SInt(p.unit(sel.at(j).e), True), 'array'), 'int')


@setup(QF + 'get_loc_vectorized')
def vec_setup(E):
    w = frame_world(E)
    w.pts = Points(E, w, kind=E.choose(['list', 'dtindex']))
    a, b = E.size('first'), E.size('last')
    E.assume(z3.And(a < w.N, b < w.N))
    k = E.choose(['whole', 'span'])
    return {'self': w.fr, 'timestamps': w.pts.seq(), 'span_first': None if k == 'whole' else SInt(a), 'span_last': None if k == 'whole' else SInt(b)}


class Spans(object):
    """spans of the specification: boundaries are the units of the points inside (first, last]"""

    def __init__(self, E, w, p, a, b):
        self.E, self.w, self.p, self.a, self.b = E, w, p, a, b

    def goals(self, n, first, last, wit=None):
        """goals over a list of n spans (first(j), last(j)); wit: a point for each boundary, a boundary for each point"""
        E, p = self.E, self.p
        if wit is not None:
            i_of, j_of = wit
            tiling = [n >= 1, first(z3.IntVal(0)) == self.a, last(n - 1) == self.b,
                      E.forall(0, n, lambda j: first(j) <= last(j)), E.forall(0, n - 1, lambda j: last(j) == first(j + 1) - 1)]
            return tiling + [E.forall(1, n, lambda j: z3.And(i_of(j) >= 0, i_of(j) < p.n, p.splits(i_of(j), self.a, self.b), p.unit(i_of(j)) == first(j))),
                             E.forall(0, p.n, lambda i: z3.Implies(p.splits(i, self.a, self.b), z3.And(j_of(i) >= 1, j_of(i) < n, first(j_of(i)) == p.unit(i))), pats=lambda i: [p.P(i)])]
        return [n >= 1, first(z3.IntVal(0)) == self.a, last(n - 1) == self.b,
                E.forall(0, n, lambda j: first(j) <= last(j)),
                E.forall(0, n - 1, lambda j: last(j) == first(j + 1) - 1),
                E.forall(1, n, lambda j: z3.Not(E.forall(0, p.n, lambda i: z3.Not(z3.And(p.splits(i, self.a, self.b), p.unit(i) == first(j))), pats=lambda i: [p.P(i)]))),
                E.forall(0, p.n, lambda i: z3.Implies(p.splits(i, self.a, self.b), z3.Not(E.forall(1, n, lambda j: first(j) != p.unit(i)))), pats=lambda i: [p.P(i)])]


def uses(t, g, out):
    """arguments of g in t"""
    if z3.is_app(t):
        if t.decl().eq(g):
            out.append(t.arg(0))
        for c in t.children():
            uses(c, g, out)
    return out


def rank_hints(E, p):
    """instances of known facts: ranks of the points among the selected ones (helps the solver to find witnesses)"""
    v = z3.Int('k!nz')
    sorts = E.memo.get('sorts', [])
    for g, src, inv, m, at in sorts:
        E.assume(E.forall(0, m, lambda k: z3.And(inv(k) >= 0, inv(k) < m, g(inv(k)) == at(k), src(inv(k)) == k), pats=lambda k: [p.P(k)]))
    for n, t, cnt, pos, lv in E.nz_theories:
        if lv == 0:
            fact = lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(cnt(k) >= 0, z3.Implies(z3.substitute(t, (v, k)), pos(cnt(k)) == k)))
            E.assume(E.forall(0, n, fact, pats=lambda k: [p.P(k)]))
            for g, src, inv, m, at in sorts:
                for c in {x.sexpr(): x for x in uses(t, g, [])}.values():
                    off = z3.simplify(c - v)
                    if not uses(off, v.decl(), []) and 'k!nz' not in off.sexpr():
                        E.assume(E.forall(0, m, lambda i: fact(inv(i) - off), pats=lambda i: [p.P(i)]))


def witnesses(E, p):
    """where the spans come from a callee's contract: which of the points p a boundary comes from, which boundary a point makes"""
    m = E.memo.get('made')
    if m is None or m[0] is p or E.bound is not None:
        return None
    q, n, FI, SRC, IDX, a, b = m
    k = z3.Int('k!wit')
    t = q.P(k)
    for g, src, inv, num, at in E.memo.get('sorts', []):
        args = uses(t, g, [])
        if args and z3.is_app(t) and t.decl().eq(g):
            off = z3.simplify(args[0] - k)
            if 'k!wit' in off.sexpr():
                return None
            # points that repeat the last one that was kept may have been dropped
            back = lambda i: z3.If(inv(i) - off >= q.n, q.n - 1, z3.simplify(inv(i) - off))
            there = lambda j: src(z3.simplify(SRC(j) + off))
            break
    else:
        back = there = None
    if back is None:
        back, there = (lambda i: i), (lambda j: SRC(j))
    # instances of what the callee's contract says, at the points p
    E.assume(E.forall(0, p.n, lambda i: z3.Implies(z3.And(back(i) >= 0, back(i) < q.n, q.splits(back(i), a, b)), z3.And(IDX(back(i)) >= 1, IDX(back(i)) < n, FI(IDX(back(i))) == q.unit(back(i)))), pats=lambda i: [p.P(i)]))
    return there, lambda i: IDX(back(i))


def spans_rel(E, w, p, span, left=None):
    a, b = E.as_int(E.getattr_(span, 'first')), E.as_int(E.getattr_(span, 'last'))
    sp = Spans(E, w, p, a, b)

    def make(E):
        n = E.size('nspans', 1)
        FI, SRC, IDX = E.fresh_fun('FIRST', I, I), E.fresh_fun('SRC', I, I), E.fresh_fun('IDX', I, I)
        la = lambda j: z3.If(j == n - 1, b, FI(j + 1) - 1)
        E.assume(z3.And(FI(0) == a, FI(n) == b + 1))
        E.assume(E.forall2(0, n + 1, lambda i, j: z3.Implies(i < j, FI(i) < FI(j)), pats=lambda i, j: [(FI(i), FI(j))]))
        E.assume(E.forall(1, n, lambda j: z3.And(SRC(j) >= 0, SRC(j) < p.n, p.splits(SRC(j), a, b), p.unit(SRC(j)) == FI(j)), pats=lambda j: [FI(j)]))
        E.assume(E.forall(0, p.n, lambda i: z3.Implies(p.splits(i, a, b), z3.And(IDX(i) >= 1, IDX(i) < n, FI(IDX(i)) == p.unit(i))), pats=lambda i: [p.P(i)]))
        E.memo['made'] = (p, n, FI, SRC, IDX, a, b)
        cls = E.cls('timeboard.core', '_Span')
        return E.new_list(SSeq(n, lambda j: FInst(cls, {'first': SInt(FI(E.z(j)), True), 'last': SInt(FI(E.z(j) + 1) - 1, True), 'skip_left': 0, 'skip_right': 0}), 'list'))

    def pred(v):
        s = E.seq(v)
        if s is None:
            return [z3.BoolVal(False)]
        rank_hints(E, p)
        E.deeper = (4, 5)
        n = E.z(E.seq_n(s))
        fld = lambda j, x: E.pure(lambda: E.zint(E.getattr_(E.seq_at(s, j), x)))
        first = lambda j: fld(j, 'first')
        out = sp.goals(n, first, lambda j: fld(j, 'last'), witnesses(E, p))
        if left is None:
            out += [E.forall(0, n, lambda j: z3.And(fld(j, 'skip_left') == 0, fld(j, 'skip_right') == 0))]
        else:
            # nothing is said about units missing on the right: no pattern depends on them
            out += [fld(z3.IntVal(0), 'skip_left') == left, E.forall(1, n, lambda j: fld(j, 'skip_left') == 0)]
        return out
    return Rel(make, pred)


@contract(QF + '_create_subspans', props=['C04'])
def create_spec(E, self, span, points_in_time):
    w = E.world
    if E.mode == 'check':
        return spans_rel(E, w, w.pts, span)
    s = E.seq(points_in_time)
    if not isinstance(s, SSeq) or not isinstance(E.seq_at(s, z3.Int('k!probe')), STs):
        skip()
    a, b = (E.as_int(E.getattr_(span, x)) for x in ('first', 'last'))
    E.require(z3.And(a >= 0, a <= b, b < w.N), 'the span lies within the frame')
    return spans_rel(E, w, Given(E, w, s), span)


def span_setup(E):
    w = frame_world(E)
    a, b = E.size('first'), E.size('last')
    E.assume(z3.And(a <= b, b < w.N))
    w.pts = Points(E, w)
    return w, span_obj(E, SInt(a), SInt(b), SInt(E.fresh('skl')), SInt(E.fresh('skr')))


@setup(QF + '_create_subspans')
def create_setup(E):
    w, sp = span_setup(E)
    return {'self': w.fr, 'span': sp, 'points_in_time': w.pts.seq()}


def whole_span(E, w, span):
    """the span the organizer works on is handed over unchanged"""
    a, b = E.as_int(E.getattr_(span, 'first')), E.as_int(E.getattr_(span, 'last'))
    E.require(z3.And(a == w.spans.a, b == w.spans.b), 'the organizer splits its own span')
    if w.span is not None:
        for x in ('skip_left', 'skip_right'):
            E.require(E.as_int(E.getattr_(span, x)) == E.as_int(E.getattr_(w.span, x)), 'the organizer splits its own span')


@contract(QF + 'partition_at_marks', props=['C04'])
def marks_spec(E, self, span, marks):
    w = E.world
    if E.mode == 'apply':
        if not hasattr(w, 'spans') or marks is not w.partition_ref[1]:
            skip()
        whole_span(E, w, span)
        return E.new_list(w.spans.seq(E))
    return spans_rel(E, w, w.pts, span)


@setup(QF + 'partition_at_marks')
def marks_setup(E):
    w, sp = span_setup(E)
    s = w.pts.seq()
    if E.choose(['timestamp', 'period']) == 'period':
        END = z3.Function('PEND', I, I)
        s = SSeq(s.n, lambda i: SPeriod(w.pts.P(E.z(i)), END(E.z(i))), 'list')
    return {'self': w.fr, 'span': sp, 'marks': s}


# ------------------------------------------------------------------ markers
def accepted(E, b, g):
    """pandas calls b a part of g; or the number of periods of a common denomination is a multiple of the base unit's;
    or the base unit is not multiplied and its denomination is part of that of g"""
    sub = FSUB(*(b.key() + g.key()))
    if not (b.match and g.match):
        return sub
    nb, ng = (z3.IntVal(1) if x.digits is None else x.digits for x in (b, g))
    z = z3.IntVal(0)
    plain = FSUB(z, b.den, z, g.den)
    return z3.Or(sub, z3.And(FVALID(*g.key()), z3.Not(z3.And(nb == 1, ng == 1)), z3.If(b.den == g.den, ng % nb == 0, z3.And(nb == 1, plain))))


@contract('timeboard.core._check_groupby_freq', props=['C07'])
def groupby_spec(E, base_unit_freq, group_by_freq):
    if isinstance(base_unit_freq, FText) and isinstance(group_by_freq, FText):
        return SBool(accepted(E, base_unit_freq, group_by_freq))
    if not isinstance(base_unit_freq, Freq) or not isinstance(group_by_freq, Freq):
        skip()
    return SBool(z3.Bool('CONSISTS_OF_WHOLE_%s_%s' % (base_unit_freq.tag, group_by_freq.tag)))


@setup('timeboard.core._check_groupby_freq')
def groupby_setup(E):
    def text(nm):
        k = E.choose(['plain', 'multiplied', 'other form'])
        n = None if k == 'plain' else E.fresh(nm + '_number')
        if n is not None:
            E.assume(n >= 1)
        return FText(n, E.fresh(nm + '_denomination'), k != 'other form')
    return {'base_unit_freq': text('base'), 'group_by_freq': text('group')}


class MarkerPoints(object):
    """the points of a marker: starts of its periods, or what the rule returns for them"""

    def __init__(self, E, w, n, P, starts=()):
        self.n, self.P, self.w = n, P, w
        units(E, w, self)

    unit, splits = Points.unit, Points.splits


def rule(E, w, k):
    """the marker's rule: any points, depending on the entry of `at` only"""
    n = [E.size('rule%d_n' % i) for i in range(k)]
    H = [z3.Function('RULE%d' % i, I, I) for i in range(k)]

    def call(E, pi, normalize_by=None, **kw):
        if normalize_by is not w.freq or set(kw) != {'entry'}:
            raise Unsupported('rule called with %r' % (sorted(kw),))
        i = [j for j in range(k) if kw['entry'] is w.entries[j]]
        # the rule sees every period around the span
        lo, hi = w.envelope
        cnt, S = w.each.range(E, lo, hi)
        b = E.seq(E.fields(pi)['$base'])
        E.require(z3.And(E.z(E.seq_n(b)) == cnt, E.forall(0, cnt, lambda j: E.seq_at(b, j).s == S(j))), 'the periods around the span are handed to the rule')
        return SSeq(n[i[0]], lambda j: STs(H[i[0]](E.z(j))), 'dtindex')
    return n, H, NativeV('rule', call)


@contract(QF + 'partition_with_marker', props=['C04', 'C05', 'C07'])
def marker_spec(E, self, span, marker):
    w = E.world
    if E.mode == 'apply':
        if not hasattr(w, 'spans') or marker is not w.partition_ref[0]:
            skip()
        whole_span(E, w, span)
        return E.new_list(w.spans.seq(E))
    a, b = E.as_int(E.getattr_(span, 'first')), E.as_int(E.getattr_(span, 'last'))
    if not E.branch(z3.Bool('CONSISTS_OF_WHOLE_base_each')):
        E.throw('UnacceptablePeriodError')
    start, end = w.S(a), w.S(b + 1) - 1
    unit0 = w.freq.ordinal(E, start)
    if not w.entries:
        n, S = w.each.range(E, start, end)
        p = MarkerPoints(E, w, n, S)
        return spans_rel(E, w, p, span, left=unit0 - w.freq.ordinal(E, S(z3.IntVal(0))))
    (n, H) = w.rule
    P, N = H[0], n[0]
    if len(n) == 2:
        P, N = z3.Function('POINT', I, I), n[0] + n[1]
        E.assume(E.forall(0, n[0], lambda i: P(i) == H[0](i), pats=lambda i: [H[0](i)]))
        E.assume(E.forall(0, n[1], lambda i: P(n[0] + i) == H[1](i), pats=lambda i: [H[1](i)]))
        E.assume(E.forall(0, N, lambda i: P(i) == z3.If(i < n[0], H[0](i), H[1](i - n[0])), pats=lambda i: [P(i)]))
    p = MarkerPoints(E, w, N, P)
    # the last point at or before the start of the span
    none, m = z3.Bool('NO_POINT_BEFORE'), E.fresh('nearest')
    E.assume(z3.Implies(none, E.forall(0, N, lambda i: P(i) > start, pats=lambda i: [P(i)])))
    E.assume(z3.Implies(z3.Not(none), z3.And(m >= 0, m < N, P(m) <= start, E.forall(0, N, lambda i: z3.Implies(P(i) <= start, P(i) <= P(m)), pats=lambda i: [P(i)]))))
    if E.branch(none):
        return spans_rel(E, w, p, span, left=z3.IntVal(-1))
    return spans_rel(E, w, p, span, left=unit0 - w.freq.ordinal(E, P(m)))


@setup(QF + 'partition_with_marker', cases=5)
def marker_setup(E):
    w = World(E)
    G, ORD = w.freq.on_grid()
    g0 = z3.Int('first_unit')
    # the base units are periods of one calendar, numbered from some early one
    E.assume(z3.And(g0 >= 0, g0 + w.N <= w.freq.top))
    E.assume(E.forall2(0, w.freq.top + 1, lambda i, j: z3.Implies(i < j, G(i) < G(j)), pats=lambda i, j: [(G(i), G(j))]))
    E.assume(E.forall(0, w.N + 1, lambda o: w.S(o) == G(g0 + o), pats=lambda o: [w.S(o)]))
    w.fr = w.frame()
    a, b = E.size('first'), E.size('last')
    E.assume(z3.And(a <= b, b < w.N))
    E.assume(w.S(b + 1) - w.S(a) >= 2)          # precondition: base units are longer than one nanosecond
    w.each = Freq('each')
    k, before = E.pick([(0, None), (1, True), (1, False), (2, True), (2, False)])
    if k:
        E.assume(z3.Bool('NO_POINT_BEFORE') != before)
    w.entries = [SPlain(z3.Const('entry%d' % i, Obj)) for i in range(k)]
    start, end = w.S(a), w.S(b + 1) - 1
    how = 'from_start_of_each'
    at = None
    if k:
        n, H, how = rule(E, w, k)
        w.rule = (n, H)
        at = E.new_list(tuple(E.alloc(Rec('dict', None, {('k', 'entry'): e})) for e in w.entries))
        f = z3.Function('PERIODS_each_01_Jul_2016', I, I)
        d = f(z3.IntVal(1)) - f(z3.IntVal(0))
        w.envelope = (start - d, end + d)
    marker = E.construct('timeboard.core', 'Marker', [w.each, at, how])
    return {'self': w.fr, 'span': span_obj(E, SInt(a), SInt(b), SInt(E.fresh('skl')), SInt(E.fresh('skr'))), 'marker': marker}

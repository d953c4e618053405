"""Symbolic boards: the class invariants every contract may rely on.

A board has N base units (unit o spans [S(o), S(o+1)-1] ns), M workshifts
(workshift k covers units F(k) .. F(k+1)-1, F(0)=0, F(M)=N) with labels LAB(k).
"""
import z3

from vals import *
from engine import Engine, isz

I = z3.IntSort()


def construct(E, mod, name, args):
    """an object as its constructor builds it"""
    keep, m, d = E.checking, E.mode, E.depth
    E.checking, E.mode, E.depth = None, 'apply', 1
    try:
        return E.instantiate(E.cls(mod, name), args, {})
    finally:
        E.checking, E.mode, E.depth = keep, m, d


Engine.construct = construct


class World(object):
    def __init__(self, E, tag=''):
        self.E = E
        t = tag
        self.N = z3.Int('N' + t)
        self.M = z3.Int('M' + t)
        self.S = z3.Function('S' + t, I, I)
        self.F = z3.Function('F' + t, I, I)
        self.OWN = z3.Function('OWN' + t, I, I)
        self.UNIT = z3.Function('UNIT' + t, I, I)
        self.LABf = z3.Function('LAB' + t, I, Obj)
        self.refend = z3.Bool('ref_is_end' + t)
        self.range = None
        self.freq = Freq('base', self)
        N, M, S, F, OWN = self.N, self.M, self.S, self.F, self.OWN
        A = E.assume
        A(N >= 1)
        A(M >= 1)
        A(M <= N)
        if E.bound is not None:
            A(N <= E.bound)
        A(E.forall2(0, N + 1, lambda a, b: z3.Implies(a < b, S(a) < S(b)), pats=lambda a, b: [(S(a), S(b))]))
        A(F(0) == 0)
        A(F(M) == N)
        A(E.forall2(0, M + 1, lambda a, b: z3.Implies(a < b, F(a) < F(b)), pats=lambda a, b: [(F(a), F(b))]))
        A(E.forall(0, M + 1, lambda k: z3.And(F(k) >= k, F(k) <= N), pats=lambda k: [F(k)]))
        A(E.forall(0, M, lambda k: z3.And(F(k) < N, F(k) < F(k + 1)), pats=lambda k: [F(k)]))
        A(E.forall(0, N, lambda o: z3.And(OWN(o) >= 0, OWN(o) < M, F(OWN(o)) <= o, o < F(OWN(o) + 1)), pats=lambda o: [OWN(o)]))
        E.map_domain = M
        E.world = self
        E.nonlocals = {}

    # ---- specification functions
    def lab(self, k):
        return SObj(self.LABf(self.E.z(k)))

    def start(self, k):
        return self.S(self.F(self.E.z(k)))

    def end(self, k):
        return self.S(self.F(self.E.z(k) + 1)) - 1

    def ref(self, k):
        return z3.If(self.refend, self.end(k), self.start(k))

    def dur(self, k):
        return self.F(self.E.z(k) + 1) - self.F(self.E.z(k))

    @property
    def t0(self):
        return self.S(z3.IntVal(0))

    @property
    def t1(self):
        return self.S(self.N) - 1

    def inside(self, t):
        return z3.And(self.t0 <= t, t <= self.t1)

    def unit(self, t):
        """the base unit holding t (t inside the board)"""
        E, u = self.E, self.UNIT(t)
        E.assume(z3.Implies(self.inside(t), z3.And(u >= 0, u < self.N, self.S(u) <= t, t < self.S(u + 1))))
        return u

    def at(self, t):
        """the workshift holding t (t inside the board)"""
        o = self.OWN(self.unit(t))
        return o

    def refs_before(self, t):
        """number of workshifts whose reference time precedes t (t inside the board)"""
        k = self.at(t)
        return z3.If(self.ref(k) >= t, k, k + 1)

    def refs_upto(self, t):
        k = self.at(t)
        return z3.If(self.ref(k) <= t, k + 1, k)

    # ---- objects
    def frame(self):
        E = self.E
        S = self.S
        cls = E.cls('timeboard.core', '_Frame')
        base = SSeq(self.N, lambda i: SPeriod(S(E.z(i)), S(E.z(i) + 1) - 1), 'pidx', sorted_=True, theory=('grid', self.freq) if self.freq.grid else None)
        st = SSeq(self.N, lambda i: STs(S(E.z(i))), 'dtindex', sorted_=True)
        return E.alloc(Rec('inst', cls, {'$base': base, '_start_times': st, '_base_unit_freq': self.freq}, open=True))

    def timeline(self):
        E = self.E
        cls = E.cls('timeboard.core', '_Timeline')
        F, OWN = self.F, self.OWN
        self.frame_ref = self.frame()
        fb = E.alloc(Rec('series', None, {'v': SSeq(self.N, lambda i: SInt(F(OWN(E.z(i))), True), 'array', sorted_=True),
                                          'index': self.frame_ref}))
        wb = E.alloc(Rec('series', None, {'v': SSeq(self.M, lambda k: self.lab(k), 'array'),
                                          'index': SSeq(self.M, lambda k: SInt(F(E.z(k)), True), 'index', sorted_=True, theory=('strict',))}))
        self.tl = E.alloc(Rec('inst', cls, {'_frame': self.frame_ref, '_frameband': fb, '_wsband': wb,
                                            '_workshift_ref': Union([(self.refend, 'end'), (z3.Not(self.refend), 'start')])}, open=True))
        return self.tl

    def selector(self, tag):
        f = z3.Function('SEL_' + tag, Obj, Obj)

        def call(E, x):
            x = E.force(x)
            if not isinstance(x, SObj):
                raise Unsupported('selector applied to %r' % (x,))
            return SObj(f(x.e))
        nv = NativeV('selector_' + tag, call)
        nv.f = f
        return nv

    def on(self, sched, k):
        """specification: is workshift k on duty under the schedule?"""
        sel = self.E.rec(sched).f['_selector']
        return TRUTH(sel.f(self.LABf(self.E.z(k))))

    def schedule(self, tag, lazy=True):
        """a schedule built by the real constructor"""
        E = self.E
        cls = E.cls('timeboard.core', '_Schedule')
        sel = self.selector(tag)
        keep, m = E.checking, E.mode
        E.checking = None
        E.mode = 'apply'
        d = E.depth
        E.depth = 1
        try:
            s = E.instantiate(cls, [self.tl, tag, sel], {})
        finally:
            E.checking, E.mode, E.depth = keep, m, d
        return s

    def board(self):
        E = self.E
        cls = E.cls('timeboard.timeboard', 'Timeboard')
        self.timeline()
        self.s0 = self.schedule('default')
        self.wt_labels = z3.Bool('worktime_is_labels')
        sch = E.alloc(Rec('dict', None, {('k', 'default'): self.s0}))
        self.tb = E.alloc(Rec('inst', cls, {
            '_timeline': self.tl, '_frame': self.frame_ref, '_base_unit_freq': self.freq, '_default_name': 'default',
            '_default_schedule': self.s0, '_schedules': sch, '_custom_selector': E.rec(self.s0).f['_selector'],
            '_worktime_source': Union([(self.wt_labels, 'labels'), (z3.Not(self.wt_labels), 'duration')]),
            '_repr': TEXT}, open=True))
        return self.tb

    def workshift(self, loc, sched):
        """a workshift as a caller may hold it"""
        return self.construct('timeboard.workshift', 'Workshift', [self.tb, loc, sched])

    def interval(self, a, b, sched):
        return self.construct('timeboard.interval', 'Interval', [self.tb, (a, b), sched])

    def construct(self, mod, name, args):
        return construct(self.E, mod, name, args)

    def ws_values(self, n, pos, sched, np=True):
        """list of the workshifts at positions pos(0) .. pos(n-1)"""
        E = self.E
        k = E.fresh('wsk')
        E.assume(z3.And(k >= 0, k < self.M))
        ws = self.workshift(SInt(k, np), sched)
        tmpl = E.freeze(ws, Snap(E.heap), {i: 1 for i in E.heap if i != ws.id})
        from engine import vsub
        return SSeq(n, lambda j: vsub(tmpl, [(k, pos(E.z(j)))]), 'list')

    # duty sequences of the specification
    def duty_seq(self, duty, sched):
        """positions of the workshifts with the duty, ascending: SSeq with rank function"""
        E = self.E
        if duty == 'any':
            return DutyAny(self)
        pol = duty == 'on'
        mask = SSeq(self.M, lambda k: SBool(self.on(sched, k) if pol else z3.Not(self.on(sched, k)), True), 'array')
        s = E.nonzero_seq(mask)
        _, cnt, pos, n = s.theory
        return Duty(self, cnt, pos, lambda k: self.on(sched, k) if pol else z3.Not(self.on(sched, k)))


class Geo(World):
    """the same board seen through its workshifts only: workshift k is the time B(k) .. B(k+1)-1, its reference
    time REF(k) lies in it, AT(t) is the number of the workshift that holds t.  All of it follows from the
    contracts of the geometry (clients: workshifts tile the board, the located workshift contains the point,
    the reference time lies in the workshift, searching by reference time finds the first and the last workshift)"""

    def __init__(self, E):
        World.__init__(self, E)
        self.B = B = z3.Function('B', I, I)
        self.REF = REF = z3.Function('REF', I, I)
        self.AT = z3.Function('AT', I, I)
        self.COUNT = z3.Function('REFS_BEFORE', I, I)
        M = self.M
        E.assume(E.forall2(0, M + 1, lambda a, b: z3.Implies(a < b, B(a) < B(b)), pats=lambda a, b: [(B(a), B(b))]))
        E.assume(E.forall(0, M, lambda k: z3.And(B(k) <= REF(k), REF(k) < B(k + 1)), pats=lambda k: [REF(k)]))
        E.assume(E.forall2(0, M, lambda a, b: z3.Implies(a < b, REF(a) < REF(b)), pats=lambda a, b: [(REF(a), REF(b))]))

        AT = self.AT
        E.assume(E.forall(0, M, lambda k: AT(REF(k)) == k, pats=lambda k: [(REF(k), AT(REF(k)))]))
        E.assume(E.forall(0, M, lambda k: AT(B(k)) == k, pats=lambda k: [(B(k), AT(B(k)))]))
        E.assume(E.forall(0, M, lambda k: AT(B(k + 1) - 1) == k, pats=lambda k: [(B(k + 1), AT(B(k + 1) - 1))]))

    def start(self, k):
        return self.B(self.E.z(k))

    def end(self, k):
        return self.B(self.E.z(k) + 1) - 1

    def ref(self, k):
        return self.REF(self.E.z(k))

    t0 = property(lambda self: self.B(z3.IntVal(0)))
    t1 = property(lambda self: self.B(self.M) - 1)

    def at(self, t):
        k = self.AT(t)
        self.E.assume(z3.Implies(self.inside(t), z3.And(k >= 0, k < self.M, self.B(k) <= t, t < self.B(k + 1))))
        return k

    def refs_before(self, t):
        k = self.COUNT(z3.simplify(t))
        self.E.assume(z3.And(k >= 0, k <= self.M, z3.Implies(k > 0, self.REF(k - 1) < t), z3.Implies(k < self.M, self.REF(k) >= t)))
        return k

    def refs_upto(self, t):
        return self.refs_before(t + 1)


class Snap(object):
    def __init__(self, heap):
        self.heap = heap


class Duty(object):
    def __init__(self, w, cnt, pos, has):
        self.w, self.cnt, self.pos, self.has = w, cnt, pos, has
        self.len = cnt(w.M)

    def value(self, j):
        return SInt(self.pos(j), True)


class DutyAny(object):
    def __init__(self, w):
        self.w = w
        self.cnt = lambda k: w.E.z(k)
        self.pos = lambda j: w.E.z(j)
        self.has = lambda k: z3.BoolVal(True)
        self.len = w.M

    def value(self, j):
        return SInt(self.w.E.z(j), True)

"""Patterns, remembering patterns and organizers (C03, C04, C06)."""
import z3

from vals import *
from contracts import contract, setup, client, Rel, skip
from world import World, I
from specs.frames import frame_world, span_obj, Points, spans_rel

QC = 'timeboard.core.'
QT = 'timeboard.core._Timeline.'


def draft(E):
    """a timeline under construction: any labels, any division into workshifts so far"""
    w = frame_world(E)
    w.L0 = z3.Function('LABEL0', I, Obj)
    w.M0 = z3.Function('MASK0', I, I)
    E.assume(E.forall(0, w.N, lambda i: z3.And(w.M0(i) >= 0, w.M0(i) <= 1), pats=lambda i: [w.M0(i)]))
    w.labels = E.arr(SSeq(w.N, lambda i: SObj(w.L0(E.z(i))), 'array'), None)
    w.mask = E.arr(SSeq(w.N, lambda i: SInt(w.M0(E.z(i)), True), 'array'), 'int')
    w.tl = E.alloc(Rec('inst', E.cls('timeboard.core', '_Timeline'), {'_frame': w.fr, '_ws_labels': w.labels, '_ws_compound_mask': w.mask}, open=True))
    return w


def pattern(E, tag='PAT'):
    """a list of any labels"""
    n = E.size('len' + tag)
    f = z3.Function(tag, I, Obj)
    return n, f, E.new_list(SSeq(n, lambda i: SObj(f(E.z(i))), 'list'))


def span_in(E, w):
    a, b = E.size('first'), E.size('last')
    E.assume(z3.And(a <= b, b < w.N))
    return a, b


def write(E, w, tl, a, b, label=None, mask=None):
    """labels and mask of the units a..b"""
    f = E.fields(tl)
    if label is not None:
        r = E.rec(f['_ws_labels'])
        s = r.f['v']
        E.put(f['_ws_labels'], r.with_(v=E.seq_store(E.to_sseq(s), a, b + 1, lambda i: SObj(label(E.z(i))))))
    if mask is not None:
        r = E.rec(f['_ws_compound_mask'])
        E.put(f['_ws_compound_mask'], r.with_(v=E.seq_store(E.to_sseq(r.f['v']), a, b + 1, lambda i: SInt(mask(E.z(i)), True))))


@contract(QT + '__apply_pattern', props=['C03', 'C05', 'C06'], mutates=True)
def apply_spec(E, self, pattern, span):
    w = E.world
    a, b, sk = (E.as_int(E.getattr_(span, x)) for x in ('first', 'last', 'skip_left'))
    E.require(z3.And(0 <= a, a <= b, b < w.N), 'the span lies within the frame')
    if E.branch(sk < 0):
        E.throw('OutOfBoundsError')
    pattern = E.force(pattern)
    if isinstance(pattern, Ref) and E.rec(pattern).kind == 'inst':
        # continues where it stopped; the skipped labels count as drawn
        s, p0 = drawn(E, pattern)
        n = E.z(E.seq_n(s))
        if E.branch(n == 0):
            return None
        it = E.getattr_(pattern, '_label_generator')
        E.put(it, E.rec(it).with_(pos=SInt(z3.simplify(p0 + sk + b - a + 1))))
    else:
        s, p0 = E.seq(pattern), z3.IntVal(0)
        if s is None:
            skip()
        n = E.z(E.seq_n(s))
        if E.branch(n == 0):
            return None
    write(E, w, self, a, b, lambda i: E.seq_at(s, (p0 + sk + i - a) % n).e)
    return None


@setup(QT + '__apply_pattern')
def apply_setup(E):
    w = draft(E)
    a, b = span_in(E, w)
    n, f, lst = pattern(E)
    if E.choose([False, True]):
        lst = remembering(E, lst)
    return {'self': w.tl, 'pattern': lst, 'span': span_obj(E, SInt(a), SInt(b), SInt(E.fresh('skl')), SInt(E.fresh('skr')))}


def remembering(E, lst):
    """a remembering pattern from which any number of labels have been drawn"""
    rp = E.construct('timeboard.core', 'RememberingPattern', [lst])
    it = E.getattr_(rp, '_label_generator')
    E.put(it, E.rec(it).with_(pos=SInt(E.size('drawn'))))
    return rp


def drawn(E, rp):
    """the pattern's labels and how many labels have been drawn from it"""
    r = E.rec(E.getattr_(rp, '_label_generator'))
    return r.f['src'], E.z(E.as_int(r.f['pos']))


# ------------------------------------------------------------------ organizers
class Structure(object):
    """L elements: element e is a pattern, a remembering pattern, a nested organizer or any other value"""

    def __init__(self, E, w):
        self.n = E.size('nelem', 1)
        self.kind = z3.Function('KIND', I, I)
        self.plen = z3.Function('PLEN', I, I)
        self.plab = z3.Function('PATTERN', I, I, Obj)
        self.val = z3.Function('VALUE', I, Obj)
        # the remembering pattern: its labels, and how many were drawn before
        self.rlen, rlab, lst = pattern(E, 'REMEMBERED')
        self.rlab = rlab
        self.rp = remembering(E, lst)
        self.pos0 = drawn(E, self.rp)[1]
        # what a nested organizer does with a span (first, last, skips), at unit i, after p labels of the
        # remembering pattern were drawn; NESTED_DRAWN: how many are drawn then
        self.nlab = z3.Function('NESTED_LABEL', I, I, I, I, I, I, I, Obj)
        self.npos = z3.Function('NESTED_DRAWN', I, I, I, I, I, I, I)
        # induction hypothesis: marks stay 0 or 1, and the first unit of the span keeps its mark
        nm = z3.Function('NESTED_MASK', I, I, I, I, I, I, z3.BoolSort())
        self.nmask = lambda e, a, b, l, r, i: z3.If(i == a, w.M0(a), z3.If(nm(e, a, b, l, r, i), z3.IntVal(1), z3.IntVal(0)))
        self.nraise = z3.Function('NESTED_REFUSES', I, I, I, I, I, z3.BoolSort())
        E.assume(E.forall(0, self.n, lambda e: self.plen(e) >= 0, pats=lambda e: [self.plen(e)]))

    def element(self, E, e):
        org = FInst(E.cls('timeboard.core', 'Organizer'), {'$id': SInt(e)})
        pat = SSeq(self.plen(e), lambda i: SObj(self.plab(e, E.z(i))), 'list')
        return Union([(self.kind(e) == 0, org), (self.kind(e) == 1, pat), (self.kind(e) == 2, self.rp),
                      (z3.And(self.kind(e) != 0, self.kind(e) != 1, self.kind(e) != 2), SPlain(self.val(e)))])

    def seq(self, E):
        return SSeq(self.n, lambda e: self.element(E, E.z(e)), 'list')


def drawn_lemma(E):
    """the loop's own count of drawn labels is the specification's, by induction on the sub-span"""
    w = E.world
    for V in E.recfuns:
        E.induct('%s: labels drawn before each sub-span' % E.cur, w.spans.n, lambda k: V(k) == w.DRAWN(k))


@contract(QT + '__organize', props=['C04', 'C03', 'C06'], mutates=True, abandon=True, lemmas=drawn_lemma)
def organize_spec(E, self, organizer, span=None):
    w = E.world
    if E.mode == 'apply' and hasattr(w, 'M1'):
        # the organizer of a whole board (see the lemmas below for what is known of its masks)
        if organizer is not w.organizer or span is not None:
            skip()
        started(E, w, self)
        if E.branch(w.REFUSED):
            E.throw('OutOfBoundsError')
        tl = E.fields(self)
        for nm, g in (('_ws_labels', lambda j: SObj(w.L1(E.z(j)))), ('_ws_compound_mask', lambda j: SInt(w.M1(E.z(j)), True))):
            r = E.rec(tl[nm])
            E.put(tl[nm], r.with_(v=SSeq(w.N, g, 'array')))
        return None
    if not hasattr(w, 'structure'):
        skip()
    st = w.structure
    if E.mode == 'apply':
        # a nested organizer: the induction hypothesis
        organizer = E.force(organizer)
        if span is None or '$id' not in E.fields(organizer):
            skip()
        e = E.as_int(E.fields(organizer)['$id'])
        a, b, l, r = (E.as_int(E.getattr_(span, x)) for x in ('first', 'last', 'skip_left', 'skip_right'))
        E.require(z3.And(0 <= a, a <= b, b < w.N), 'the span lies within the frame')
        if E.branch(st.nraise(e, a, b, l, r)):
            E.throw('OutOfBoundsError')
        p = drawn(E, st.rp)[1]
        write(E, w, self, a, b, lambda i: st.nlab(e, a, b, l, r, p, i), lambda i: st.nmask(e, a, b, l, r, i))
        it = E.getattr_(st.rp, '_label_generator')
        E.put(it, E.rec(it).with_(pos=SInt(st.npos(e, a, b, l, r, p))))
        return None
    sp = w.spans
    # the first sub-span that is refused (n if there is none)
    el = lambda j: j % st.n
    refused = lambda j: z3.Or(z3.And(st.kind(el(j)) == 0, st.nraise(el(j), *sp.args(j))), z3.And(z3.Or(st.kind(el(j)) == 1, st.kind(el(j)) == 2), sp.left(j) < 0))
    q = E.fresh('first_refused')
    E.assume(z3.And(q >= 0, q <= sp.n))
    E.assume(E.forall(0, q, lambda j: z3.Not(refused(j)), pats=lambda j: [sp.first(j)]))
    if E.branch(q < sp.n):
        E.assume(refused(q))
        E.throw('OutOfBoundsError')
    # labels drawn from the remembering pattern before sub-span j, in chronological order
    DR = w.DRAWN = z3.Function('DRAWN', I, I)
    after = lambda j: z3.If(st.kind(el(j)) == 0, st.npos(el(j), *(sp.args(j) + (DR(j),))),
                            z3.If(z3.And(st.kind(el(j)) == 2, st.rlen > 0), DR(j) + sp.left(j) + sp.first(j + 1) - sp.first(j), DR(j)))
    E.assume(DR(0) == st.pos0)
    E.assume(E.forall(0, sp.n, lambda j: DR(j + 1) == after(j), pats=lambda j: [DR(j + 1)]))
    it = E.getattr_(st.rp, '_label_generator')
    E.put(it, E.rec(it).with_(pos=SInt(DR(sp.n))))
    own = z3.Function('SUBSPAN', I, I)
    E.assume(E.forall(sp.a, sp.b + 1, lambda i: z3.And(own(i) >= 0, own(i) < sp.n, sp.first(own(i)) <= i, i < sp.first(own(i) + 1)), pats=lambda i: [own(i)]))

    def label(i):
        j = own(i)
        e, f = el(j), sp.first(j)
        return z3.If(st.kind(e) == 0, st.nlab(e, *(sp.args(j) + (DR(j), i))),
                     z3.If(st.kind(e) == 1, z3.If(st.plen(e) == 0, w.L0(i), st.plab(e, (sp.left(j) + i - f) % st.plen(e))),
                           z3.If(st.kind(e) == 2, z3.If(st.rlen == 0, w.L0(i), st.rlab((DR(j) + sp.left(j) + i - f) % st.rlen)),
                                 z3.If(i == f, st.val(e), w.L0(i)))))

    def mask(i):
        j = own(i)
        e, f = el(j), sp.first(j)
        return z3.If(st.kind(e) == 0, st.nmask(e, *(sp.args(j) + (i,))), z3.If(z3.Or(st.kind(e) == 1, st.kind(e) == 2), w.M0(i), z3.If(i == f, w.M0(i), 0)))
    write(E, w, self, sp.a, sp.b, label, mask)
    # what the constructor of a timeline relies on
    E.prove('%s: the first unit of the span keeps its mark, all marks are 0 or 1' % E.cur,
            z3.And(mask(sp.a) == w.M0(sp.a), E.forall(sp.a, sp.b + 1, lambda i: z3.And(mask(i) >= 0, mask(i) <= 1))))
    return None


def started(E, w, tl):
    """the timeline handed to the organizer: every unit a workshift of its own, with the default label"""
    f = E.fields(tl)
    lab, mask = E.to_sseq(E.seq(f['_ws_labels'])), E.to_sseq(E.seq(f['_ws_compound_mask']))
    d = z3.Const('DEFAULT', Obj)
    E.require(z3.And(E.z(E.seq_n(lab)) == w.N, E.z(E.seq_n(mask)) == w.N), 'one label and one mark per base unit')
    fresh = lambda v: E.pure(lambda: is_label(E.force(v), d))
    E.require(E.forall(0, w.N, lambda i: z3.And(E.zint(E.seq_at(mask, i)) == 1, fresh(E.seq_at(lab, i)))), 'fresh labels and marks')


def is_label(v, d):
    return v.e == d if isinstance(v, SObj) else z3.BoolVal(False)


class SubSpans(object):
    def __init__(self, E, w, a, b):
        self.a, self.b = a, b
        self.n = E.size('nspans', 1)
        self.first = z3.Function('FIRST', I, I)
        self.L, self.R = z3.Function('SKIPL', I, I), z3.Function('SKIPR', I, I)
        F, n = self.first, self.n
        E.assume(z3.And(F(0) == a, F(n) == b + 1))
        E.assume(E.forall2(0, n + 1, lambda i, j: z3.Implies(i < j, F(i) < F(j)), pats=lambda i, j: [(F(i), F(j))]))
        E.assume(E.forall(0, n, lambda j: z3.And(F(j) >= a, F(j) < F(j + 1), F(j + 1) <= b + 1), pats=lambda j: [F(j)]))

    def left(self, j):
        return self.L(j)

    def args(self, j):
        return (self.first(j), self.first(j + 1) - 1, self.L(j), self.R(j))

    def seq(self, E):
        cls = E.cls('timeboard.core', '_Span')
        return SSeq(self.n, lambda j: FInst(cls, {'first': SInt(self.first(E.z(j)), True), 'last': SInt(self.first(E.z(j) + 1) - 1, True), 'skip_left': SInt(self.L(E.z(j))), 'skip_right': SInt(self.R(E.z(j)))}), 'list')


def partition_result(E):
    """the spans of the organizer under consideration"""
    w = E.world
    return E.new_list(w.spans.seq(E))


@setup(QT + '__organize')
def organize_setup(E):
    w = draft(E)
    whole = E.choose([True, False])
    if whole:
        a, b = z3.IntVal(0), w.N - 1
    else:
        a, b = span_in(E, w)
    w.structure = Structure(E, w)
    w.spans = SubSpans(E, w, a, b)
    by = E.choose(['marker', 'marks'])
    lst = E.new_list(w.structure.seq(E))
    w.by = by
    w.partition_ref = (Opaque('the marker', null=False), Opaque('the marks', null=False))
    org = E.alloc(Rec('inst', E.cls('timeboard.core', 'Organizer'), {
        '_marker': w.partition_ref[0] if by == 'marker' else None, '_marks': w.partition_ref[1] if by == 'marks' else None, '_structure': lst}, open=True))
    sp = None if whole else span_obj(E, SInt(a), SInt(b), SInt(E.fresh('skl')), SInt(E.fresh('skr')))
    w.span = sp
    return {'self': w.tl, 'organizer': org, 'span': sp}


# ------------------------------------------------------------------ building a timeline (C02)
@contract(QT + '__init__', props=['C02', 'C03', 'C04'], mutates=True, abandon=True)
def timeline_spec(E, self, frame, organizer=None, workshift_ref=None, data=None):
    """a board's workshifts tile its base units whatever the organizer did"""
    w = E.world
    if E.mode == 'apply' and not (hasattr(w, 'M1') and organizer is w.organizer):
        skip()
    N = w.N
    ref = 'start' if workshift_ref is None else workshift_ref
    if organizer is None:
        first, owner = (lambda k: E.z(k)), (lambda i: E.z(i))
        M = N
        label = lambda k: data
    else:
        if E.branch(w.REFUSED):
            E.throw('OutOfBoundsError')
        if E.mode == 'apply':
            world_frame(E, w, frame)
            f = dict(E.fields(self))
            F, OWN = w.F, w.OWN
            fb = E.alloc(Rec('series', None, {'v': SSeq(N, lambda i: SInt(F(OWN(E.z(i))), True), 'array', sorted_=True), 'index': frame}))
            wb = E.alloc(Rec('series', None, {'v': SSeq(w.M, lambda k: SObj(w.LAYOUT(E.z(k))), 'array'),
                                              'index': SSeq(w.M, lambda k: SInt(F(E.z(k)), True), 'index', sorted_=True, theory=('strict',))}))
            f.update(_frame=frame, _frameband=fb, _wsband=wb, _workshift_ref=ref)
            E.put(self, E.rec(self).with_f(f))
            return None
        sel = E.nonzero_seq(SSeq(N, lambda i: SBool(w.M1(E.z(i)) != 0, True), 'array'))
        _, cnt, pos, _ = sel.theory
        M = cnt(N)
        first = lambda k: pos(E.z(k))
        owner = lambda i: cnt(E.z(i) + 1) - 1
        label = lambda k: SObj(w.L1(pos(E.z(k))))
        # what every other contract assumes of a board
        F = lambda k: z3.If(E.z(k) < M, pos(E.z(k)), N)
        inv = [z3.And(M >= 1, M <= N), F(0) == 0, F(M) == N,
               E.forall(0, M, lambda k: z3.And(F(k) < F(k + 1), F(k) >= k, F(k + 1) <= N)),
               E.forall(0, N, lambda i: z3.And(owner(i) >= 0, owner(i) < M, F(owner(i)) <= i, i < F(owner(i) + 1)))]
        for i, g in enumerate(inv):
            E.prove('%s: workshifts tile the board (%d)' % (E.cur, i + 1), g)
    f = dict(E.fields(self))
    f['_frame'] = frame
    f['_workshift_ref'] = ref
    f['_wsband'] = E.alloc(Rec('series', None, {'v': SSeq(M, label, 'array'), 'index': SSeq(M, lambda k: SInt(first(k), True), 'index', sorted_=True, theory=('strict',))}))
    f['_frameband'] = E.alloc(Rec('series', None, {'v': SSeq(N, lambda i: SInt(first(owner(i)), True), 'array'), 'index': frame}))
    E.put(self, E.rec(self).with_f(f))
    return None


def world_frame(E, w, frame):
    """the frame handed over is the one the specification speaks about"""
    b = E.seq(E.fields(frame)['$base'])
    E.require(z3.And(E.z(E.seq_n(b)) == w.N, E.forall(0, w.N, lambda i: z3.And(E.seq_at(b, i).s == w.S(i), E.seq_at(b, i).t == w.S(i + 1) - 1))), 'the frame of the board')


def world_timeline(E, w, tl):
    f = E.fields(tl)
    world_frame(E, w, f['_frame'])
    fb, wb = E.rec(f['_frameband']), E.rec(f['_wsband'])
    E.require(z3.And(E.z(E.seq_n(fb.f['v'])) == w.N, E.z(E.seq_n(wb.f['v'])) == w.M, E.z(E.seq_n(wb.f['index'])) == w.M), 'bands of the board')
    E.require(E.forall(0, w.N, lambda i: E.zint(E.seq_at(fb.f['v'], i)) == w.F(w.OWN(i))), 'owners of the units')
    E.require(E.forall(0, w.M, lambda k: E.zint(E.seq_at(wb.f['index'], k)) == w.F(k)), 'first units of the workshifts')


@setup(QT + '__init__')
def timeline_setup(E):
    w = frame_world(E)
    w.M1 = z3.Function('MASK1', I, I)
    w.L1 = z3.Function('LABEL1', I, Obj)
    w.REFUSED = z3.Bool('ORGANIZER_REFUSES')
    E.assume(E.forall(0, w.N, lambda i: z3.And(w.M1(i) >= 0, w.M1(i) <= 1), pats=lambda i: [w.M1(i)]))
    E.assume(w.M1(z3.IntVal(0)) == 1)
    w.organizer = E.alloc(Rec('inst', E.cls('timeboard.core', 'Organizer'), {}, open=True))
    tl = E.alloc(Rec('inst', E.cls('timeboard.core', '_Timeline'), {}))
    return {'self': tl, 'frame': w.fr, 'organizer': E.choose([None, w.organizer]), 'workshift_ref': E.choose([None, 'start', 'end']), 'data': SPlain(z3.Const('DEFAULT', Obj))}


"""Amendments (C08)."""
import z3

from vals import *
from contracts import contract, setup, client, Rel, skip
from world import World, I
from specs.boards import board_world

QT = 'timeboard.core._Timeline.'


class Amendments(object):
    """a dictionary with n entries: KEY(i) -> VALUE(i); keys are distinct points in time"""

    def __init__(self, E, kind):
        self.n = E.size('namend')
        self.key = z3.Function('KEY', I, I)
        self.pend = z3.Function('KEYEND', I, I)
        self.val = z3.Function('VALUE', I, Obj)
        self.kind = kind
        if kind == 'period':
            E.assume(E.forall(0, self.n, lambda i: self.key(i) <= self.pend(i), pats=lambda i: [self.key(i)]))
        else:
            E.assume(E.forall2(0, self.n, lambda i, j: z3.Implies(i < j, self.key(i) != self.key(j)), pats=lambda i, j: [(self.key(i), self.key(j))]))

    def k(self, i):
        return STs(self.key(i)) if self.kind == 'timestamp' else SPeriod(self.key(i), self.pend(i), None)

    def seq(self, E, what):
        f = {'items': lambda i: (self.k(E.z(i)), SObj(self.val(E.z(i)))), 'keys': lambda i: self.k(E.z(i)), 'values': lambda i: SObj(self.val(E.z(i)))}[what]
        return SSeq(self.n, f, 'list')

    def method(self, E, o, name, args, kwargs):
        if name in ('items', 'keys', 'values') and not args:
            return self.seq(E, name)
        if name == 'copy':
            return E.alloc(E.rec(o))
        raise Unsupported('dict.%s' % name)

    def has(self, E, x):
        raise Unsupported('key lookup')

    def get(self, E, x):
        raise Unsupported('key lookup')

    set = delete = get


def amend_setup(E):
    w = board_world(E)
    w.am = Amendments(E, E.choose(['timestamp', 'period']))
    d = E.alloc(Rec('dict', None, {'$sym': w.am}))
    return {'self': w.tl, 'amendments': d, 'not_in_range': E.choose(['ignore', 'raise'])}


@contract(QT + 'amend', props=['C08'], mutates=True, public=True)
def amend_spec(E, self, amendments, not_in_range='ignore'):
    w = E.world
    if E.mode == 'apply':
        if not hasattr(w, 'building') or '$sym' not in E.rec(amendments).f:
            skip()
        w.building(E, w, self)
    a = E.rec(amendments).f['$sym']
    n = a.n
    inside = lambda i: w.inside(a.key(i))
    at = lambda i: w.at(a.key(i))
    # bad: the first entry that is refused (n if there is none)
    b, dup = E.fresh('first_refused'), E.fresh('dup')
    E.assume(z3.And(b >= 0, b <= n))
    for_unit(E, w, a, n)
    E.assume(E.forall2(0, b, lambda i, j: z3.Implies(z3.And(i < j, inside(i), inside(j)), at(i) != at(j)), pats=lambda i, j: [(a.key(i), a.key(j))]))
    if not_in_range == 'raise':
        E.assume(E.forall(0, b, inside, pats=lambda i: [a.key(i)]))
    if E.branch(b < n):
        if not_in_range == 'raise' and E.branch(z3.Not(inside(b))):
            E.throw('OutOfBoundsError')
        E.assume(z3.And(inside(b), dup >= 0, dup < b, inside(dup), at(dup) == at(b)))
        E.throw('KeyError')
    src = z3.Function('AMENDED_BY', I, I)
    E.assume(E.forall(0, w.M, lambda k: z3.And(src(k) >= -1, src(k) < n, z3.Implies(src(k) >= 0, z3.And(inside(src(k)), at(src(k)) == k))), pats=lambda k: [src(k)]))
    E.assume(E.forall(0, n, lambda i: z3.Implies(inside(i), src(at(i)) == i), pats=lambda i: [a.key(i)]))
    wb = E.getattr_(self, '_wsband')
    r = E.rec(wb)
    old = r.f['v']
    E.put(wb, r.with_(v=SSeq(w.M, lambda k: E.ite(src(E.z(k)) >= 0, SObj(a.val(src(E.z(k)))), E.seq_at(old, E.z(k))), 'array')))
    return None


def for_unit(E, w, a, n):
    """definition of UNIT at the keys"""
    u = lambda i: w.UNIT(a.key(i))
    E.assume(E.forall(0, n, lambda i: z3.Implies(w.inside(a.key(i)), z3.And(u(i) >= 0, u(i) < w.N, w.S(u(i)) <= a.key(i), a.key(i) < w.S(u(i) + 1))), pats=lambda i: [a.key(i)]))


setup(QT + 'amend')(amend_setup)

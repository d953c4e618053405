"""Value domain of the symbolic executor.

Python ints, bools, floats, strings, None and tuples stand for themselves.
Integers are mathematical integers; `np` marks numpy scalars (isinstance(x, int)
is False for them).  Timestamps are integer nanoseconds.
"""
import z3

Obj = z3.DeclareSort('Obj')
TRUTH = z3.Function('truth', Obj, z3.BoolSort())
NUM = z3.Function('num', Obj, z3.RealSort())
ISNUM = z3.Function('is_number', Obj, z3.BoolSort())


class Unsupported(Exception):
    """the source uses something outside the executor's reach: a tool limit, never a verdict"""


class SInt(object):
    __slots__ = ('e', 'np')

    def __init__(self, e, np=False):
        self.e = e
        self.np = np

    def __repr__(self):
        return 'SInt(%s%s)' % (self.e, ',np' if self.np else '')


class SBool(object):
    __slots__ = ('e', 'np')

    def __init__(self, e, np=False):
        self.e = e
        self.np = np

    def __repr__(self):
        return 'SBool(%s)' % self.e


class SReal(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SReal(%s)' % self.e


class STs(object):
    """pd.Timestamp"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'STs(%s)' % self.e


class STd(object):
    """pd.Timedelta"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'STd(%s)' % self.e


class NaTV(object):
    def __repr__(self):
        return 'NaT'


NAT = NaTV()


class NaNV(object):
    def __repr__(self):
        return 'NaN'


NAN = NaNV()


class SObj(object):
    """a user-supplied object the code treats as opaque (a label)"""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return 'SObj(%s)' % self.e


class SPlain(SObj):
    """a label that is not iterable and not an organizer"""
    __slots__ = ()


class SPeriod(object):
    """pd.Period: only its span is visible"""
    __slots__ = ('s', 't', 'freq')

    def __init__(self, s, t, freq=None):
        self.s = s
        self.t = t
        self.freq = freq

    def __repr__(self):
        return 'SPeriod(%s,%s)' % (self.s, self.t)


class OpaqueStr(object):
    """text used in messages and representations only"""

    def __repr__(self):
        return '<text>'


TEXT = OpaqueStr()


class Opaque(object):
    """an object about which nothing is known but its identity and `tag`"""

    def __init__(self, tag, **kw):
        self.tag = tag
        self.__dict__.update(kw)

    def __repr__(self):
        return '<opaque %s>' % self.tag


class Freq(Opaque):
    """a pandas frequency: consecutive periods.  For a range of time, `begin(start)` is where the
    period holding `start` begins; from there the periods follow each other without gap"""

    def __init__(self, tag, world=None):
        Opaque.__init__(self, tag, null=False)
        I = z3.IntSort()
        self.begin = z3.Function('PERIOD_BEGIN_' + tag, I, I)
        self.world = world
        self.grid = None        # (G, ORD): all periods of the frequency, numbered; a time t lies in period ORD(t)

    def on_grid(self):
        I = z3.IntSort()
        self.top = z3.Int('GRID_SIZE_' + self.tag)
        self.grid = (z3.Function('GRID_' + self.tag, I, I), z3.Function('ORDINAL_' + self.tag, I, I))
        return self.grid

    def ordinal(self, E, t):
        """number of the period that holds t"""
        G, ORD = self.grid
        o = ORD(t)
        E.assume(z3.And(o >= 0, o < self.top, G(o) <= t, t < G(o + 1)))
        return o

    def is_text(self, E, s):
        """is the frequency written as s? (unknown, the same answer each time)"""
        known = E.memo.setdefault(('freqtext', self.tag), {})
        if s not in known:
            b = z3.Bool('%s_is_%s' % (self.tag, s))
            for o in known.values():
                E.assume(z3.Not(z3.And(b, o)))
            known[s] = b
        return known[s]

    def range(self, E, start, end):
        """pd.period_range(start, end, freq): n, S -- period k is S(k) .. S(k+1)-1"""
        start, end = z3.simplify(start), z3.simplify(end)
        key = ('range', self.tag, start.get_id(), end.get_id())
        if key in E.memo:
            return E.memo[key]
        if self.grid is not None:
            a, b = self.ordinal(E, start), self.ordinal(E, end)
            E.assume(self.begin(start) == self.grid[0](a))
            E.memo[key] = (z3.simplify(b - a + 1), lambda k: self.grid[0](z3.simplify(a + k)))
            return E.memo[key]
        w = self.world
        if w is not None and w.range is not None and w.range[0].eq(start) and w.range[1].eq(end):
            n, S = w.N, w.S
        else:
            n, S = E.size('n_' + self.tag), E.fresh_fun('S_' + self.tag, z3.IntSort(), z3.IntSort())
            E.assume(E.forall2(0, n + 1, lambda a, b: z3.Implies(a < b, S(a) < S(b)), pats=lambda a, b: [(S(a), S(b))]))
        E.assume(z3.And(S(z3.IntVal(0)) == self.begin(start), S(z3.IntVal(0)) <= start, start < S(z3.IntVal(1))))
        E.assume(z3.Implies(self.begin(start) <= end, z3.And(n >= 1, S(n - 1) <= end, end < S(n))))
        E.memo[key] = (n, S)
        return n, S


class FText(Opaque):
    """text of a frequency: a number of periods (or none) and a denomination, or text of another form (match=False)"""

    def __init__(self, digits, den, match=True):
        Opaque.__init__(self, 'freqtext', null=False, truth=True)
        self.digits, self.den, self.match = digits, den, match
        self.tag = 'T%s_%s' % (digits, den)

    def key(self):
        """number of periods (0 when none is written) and denomination"""
        return (z3.IntVal(0) if self.digits is None else self.digits, self.den)


FSUB = z3.Function('PANDAS_SUBPERIOD', *([z3.IntSort()] * 4 + [z3.BoolSort()]))
FVALID = z3.Function('VALID_FREQUENCY', z3.IntSort(), z3.IntSort(), z3.BoolSort())


class SSeq(object):
    """immutable sequence of n values; at(z3 int) -> value; `at` is total, meaningful on [0, n)"""

    def __init__(self, n, at, kind='list', base=None, app=None, writes=None, theory=None, sorted_=False):
        self.n = n
        self.at = at
        self.kind = kind
        self.base = base
        self.app = app
        self.writes = writes
        self.theory = theory
        self.sorted_ = sorted_

    def copy(self, **kw):
        d = dict(n=self.n, at=self.at, kind=self.kind, base=self.base, app=self.app, writes=self.writes,
                 theory=self.theory, sorted_=self.sorted_)
        d.update(kw)
        return SSeq(**d)

    def __repr__(self):
        return 'SSeq(%s,%s)' % (self.n, self.kind)


class Union(object):
    """one of several values; alternatives are (condition, value), conditions exclusive and exhaustive"""

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Union(%s)' % (self.alts,)


class NT(object):
    """namedtuple value"""

    def __init__(self, cls, vals):
        self.cls = cls
        self.vals = tuple(vals)

    def __repr__(self):
        return '%s%r' % (self.cls.name, self.vals)


class NTClass(object):
    def __init__(self, name, fields):
        self.name = name
        self.fields = fields


class FInst(object):
    """frozen instance (element of a symbolic sequence)"""

    def __init__(self, cls, f):
        self.cls = cls
        self.f = f

    def __repr__(self):
        return 'FInst(%s,%s)' % (self.cls.name, self.f)


class Poison(object):
    """value of a variable at an arbitrary iteration, not known"""

    def __init__(self, why):
        self.why = why


class Ref(object):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Ref(%s)' % self.id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('Ref', self.id))


class Rec(object):
    """heap record; never mutated in place"""
    __slots__ = ('kind', 'cls', 'f', 'open')

    def __init__(self, kind, cls, f, open=False):
        self.kind = kind
        self.cls = cls
        self.f = f
        self.open = open

    def with_(self, **kw):
        f = dict(self.f)
        f.update(kw)
        return Rec(self.kind, self.cls, f, self.open)

    def with_f(self, f):
        return Rec(self.kind, self.cls, f, self.open)

    def __repr__(self):
        return 'Rec(%s,%s,%s)' % (self.kind, getattr(self.cls, 'name', self.cls), self.f)


class FuncV(object):
    def __init__(self, node, mod, env, qual, cls=None, defaults=(), kwdefaults=None):
        self.node = node
        self.mod = mod
        self.env = env
        self.qual = qual
        self.cls = cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}

    def __repr__(self):
        return '<func %s>' % self.qual


class NativeV(object):
    """function implemented by the executor (used by contracts)"""

    def __init__(self, name, fn, tag=None):
        self.name = name
        self.fn = fn
        self.tag = tag

    def __repr__(self):
        return '<native %s>' % self.name


class ClassV(object):
    def __init__(self, name, mod, bases, node=None):
        self.name = name
        self.mod = mod
        self.bases = bases
        self.node = node
        self.ns = {}
        self.qual = mod.name + '.' + name

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                out += b.mro()
        return out

    def lib_base(self):
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, LibV) and b.name not in ('builtins.object',):
                    return b
        return None

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def __repr__(self):
        return '<class %s>' % self.qual


class BoundM(object):
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_


class LibV(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<lib %s>' % self.name

    def __eq__(self, o):
        return isinstance(o, LibV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class LibBound(object):
    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class GenV(object):
    """a not yet consumed generator"""

    def __init__(self, fn, env):
        self.fn = fn
        self.env = env


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class PyExc(Exception):
    """a Python exception raised by the interpreted code; cls: ClassV or builtin exception class"""

    def __init__(self, cls, why=''):
        Exception.__init__(self, why)
        self.cls = cls
        self.why = why

    @property
    def name(self):
        return self.cls.name if isinstance(self.cls, ClassV) else self.cls.__name__


def exc_classes(cls):
    """names of the exception class and all its bases"""
    if isinstance(cls, ClassV):
        out = [cls.name]
        for b in cls.bases:
            out += exc_classes(b)
        return out
    if isinstance(cls, LibV):
        import builtins
        return exc_classes(getattr(builtins, cls.name.split('.')[-1])) if hasattr(builtins, cls.name.split('.')[-1]) else [cls.name]
    return [c.__name__ for c in cls.__mro__]


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Infeasible(Exception):
    pass

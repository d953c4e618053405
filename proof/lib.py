"""Models of the builtins and library functions the verified code calls (trusted)."""
import builtins
import datetime
import hashlib

import z3

from vals import *
from engine import Engine, isz, MISSING, fresh_index, vsub, has_vars
from interp import method, ExcInst
from loops import stop

LIB = {}
NAT_TYPES = ()


def lib(*names):
    def deco(f):
        for n in names:
            LIB[n] = f
        return f
    return deco


def qkey(*parts):
    return hashlib.md5('|'.join(str(p) for p in parts).encode()).hexdigest()[:12]


class Iloc(object):
    def __init__(self, ref):
        self.ref = ref


class MapView(object):
    """keys or values of a map built in a loop"""

    def __init__(self, v, what):
        self.v = v
        self.what = what


class Absent(object):
    def __repr__(self):
        return 'absent'


ABSENT = Absent()


@method
def lib_call(self, name, args, kwargs):
    if name not in LIB:
        if name.startswith('builtins.'):
            k = getattr(builtins, name[9:], None)
            if isinstance(k, type) and issubclass(k, BaseException):
                return ExcInst(k)
        raise Unsupported('library function %s' % name)
    self.used.add(name)
    return LIB[name](self, *[self.force(a) for a in args], **{k: self.force(v) for k, v in kwargs.items()})


# ---------------------------------------------------------------- calendar
DAY = 86400 * 10 ** 9
NS = {'days': DAY, 'weeks': 7 * DAY, 'hours': DAY // 24, 'minutes': 60 * 10 ** 9, 'seconds': 10 ** 9, 'microseconds': 1000, 'nanoseconds': 1}


class Months(object):
    """months of the calendar, numbered: month m begins at midnight of day FIRST_DAY(m) and has 28 to 31 days"""
    FIRST = z3.Function('FIRST_DAY_OF_MONTH', z3.IntSort(), z3.IntSort())
    OF = z3.Function('MONTH_OF', z3.IntSort(), z3.IntSort())

    @classmethod
    def begin(cls, m):
        return cls.FIRST(m) * DAY

    @classmethod
    def at(cls, E, t):
        """the month that holds t"""
        d = z3.simplify(days(t))
        if z3.is_app(d) and d.decl().eq(cls.FIRST):
            return d.arg(0)
        m = cls.OF(t)
        E.assume(z3.And(cls.begin(m) <= t, t < cls.begin(m + 1)))
        return m

    @classmethod
    def facts(cls, E, m):
        """about month m"""
        n = cls.FIRST(m + 1) - cls.FIRST(m)
        return z3.And(n >= 28, n <= 31, cls.OF(cls.begin(m)) == m)


class DateOff(object):
    """an offset object: add(E, t) -> t'"""

    def __init__(self, add):
        self.add = add


def days(t):
    """number of the day of t"""
    def exact(t):
        if z3.is_int_value(t):
            return z3.IntVal(t.as_long() // DAY) if t.as_long() % DAY == 0 else None
        if z3.is_add(t):
            parts = [exact(c) for c in t.children()]
            return None if None in parts else z3.Sum(*parts)
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % DAY == 0:
            return t.arg(1) * (t.arg(0).as_long() // DAY)
        return None
    q = exact(z3.simplify(t))
    return t / DAY if q is None else z3.simplify(q)


def weekday(t):
    """Monday is 0; 1 January 1970 was a Thursday"""
    return (days(t) + 3) % 7


def months_off(E, n, end):
    """MonthBegin(n) or MonthEnd(n), n >= 0, normalize=True, for the beginning of a month"""
    n = E.zint(n)

    def add(E, t):
        m = Months.at(E, t)
        E.assume(Months.facts(E, m))
        E.assume(Months.facts(E, z3.simplify(m + n)))
        E.assume(Months.facts(E, z3.simplify(m + n - 1)))
        if not E.prove('%s: months are added to the beginning of a month' % E.cur, z3.And(t == Months.begin(m), n >= (1 if end else 0))):
            raise Unsupported('MonthBegin or MonthEnd within a month')
        return z3.simplify(Months.begin(m + n) - (DAY if end else 0))
    return DateOff(add)


class WeekOff(DateOff):
    """n * Week(weekday=w, normalize=True), for midnights"""

    def __init__(self, n, w):
        self.n, self.w = n, w

    def add(self, E, t):
        if not E.prove('%s: weeks are added to a midnight' % E.cur, t == days(t) * DAY):
            raise Unsupported('Week with normalize within a day')
        gap = (self.w - weekday(t)) % 7
        k = z3.If(z3.And(gap != 0, self.n > 0), self.n - 1, self.n)
        return z3.simplify(t + (gap + 7 * k) * DAY)


@lib('pandas.tseries.offsets.MonthBegin')
def _month_begin(E, n=1, normalize=False):
    return months_off(E, n, False)


@lib('pandas.tseries.offsets.MonthEnd')
def _month_end(E, n=1, normalize=False):
    return months_off(E, n, True)


@lib('pandas.tseries.offsets.Week')
def _week(E, n=1, normalize=False, weekday=None):
    if weekday is None or normalize is not True:
        raise Unsupported('Week without a day of week')
    return WeekOff(E.zint(n), E.zint(weekday))


@lib('pandas.DateOffset')
def _dateoffset(E, n=1, normalize=False, **kw):
    if n != 1 or normalize is not False:
        raise Unsupported('DateOffset(n)')
    E.used.add('pandas.DateOffset')
    if kw and all(k in NS and E.as_int(v) is not None for k, v in kw.items()):
        d = z3.simplify(sum([E.as_int(v) * NS[k] for k, v in kw.items()], z3.IntVal(0)))
        return DateOff(lambda E, t: z3.simplify(t + d))
    if not kw:
        return DateOff(lambda E, t: z3.simplify(t + DAY))
    for v in kw.values():
        if not (isinstance(v, (SObj, int, str)) or E.as_int(v) is not None):
            raise Unsupported('DateOffset(%r)' % (kw,))
    txt = lambda v: v.e.sexpr() if hasattr(v, 'e') else repr(v)
    f = z3.Function('OFFSET_' + qkey(*['%s=%s' % (k, txt(kw[k])) for k in sorted(kw)]), z3.IntSort(), z3.IntSort())
    o = DateOff(lambda E, t: f(t))
    o.f = f
    return o


EASTER = {3: z3.Function('WESTERN_EASTER', z3.IntSort(), z3.IntSort()), 2: z3.Function('ORTHODOX_EASTER', z3.IntSort(), z3.IntSort()), 1: z3.Function('JULIAN_EASTER', z3.IntSort(), z3.IntSort())}
YEAR = z3.Function('YEAR', z3.IntSort(), z3.IntSort())


@lib('dateutil.easter.easter')
def _easter(E, year, method=3):
    if method not in EASTER:
        raise Unsupported('easter method')
    y = E.zint(year)
    t = EASTER[method](y)
    E.assume(YEAR(t) == y)
    return STs(t)          # the date stands for its midnight


# ---------------------------------------------------------------- arithmetic
@method
def binop(self, op, a, b):
    a, b = self.force(a), self.force(b)
    if isinstance(b, DateOff) and op == 'Add' or isinstance(a, DateOff) and op == 'Add':
        if isinstance(a, DateOff):
            a, b = b, a
        if isinstance(a, STs):
            return STs(b.add(self, a.e))
        if isinstance(a, SSeq) and a.kind == 'dtindex':
            return self.seqmap(a, lambda t: STs(b.add(self, t.e)), 'dtindex').copy(sorted_=False, theory=None)
        raise Unsupported('offset added to %r' % (a,))
    if isinstance(b, WeekOff) and op == 'Mult' or isinstance(a, WeekOff) and op == 'Mult':
        if isinstance(a, WeekOff):
            a, b = b, a
        if self.as_int(a) is not None:
            return WeekOff(z3.simplify(self.zint(a) * b.n), b.w)
    if isinstance(a, (str, OpaqueStr)) or isinstance(b, (str, OpaqueStr)):
        if op == 'Add' and isinstance(a, (str, OpaqueStr)) and isinstance(b, (str, OpaqueStr)):
            return a + b if isinstance(a, str) and isinstance(b, str) else TEXT
        if op == 'Mod' and isinstance(a, (str, OpaqueStr)):
            return TEXT
        raise PyExc(TypeError, 'str %s' % op)
    # sequences
    if op == 'Add':
        la, lb = self.list_of(a), self.list_of(b)
        if la is not None and lb is not None:
            return self.new_list(self.concat(la, lb))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if self.is_array(a) or self.is_array(b):
        return self.elementwise2(op, a, b)
    # time
    if isinstance(a, STs) or isinstance(b, STs) or isinstance(a, STd) or isinstance(b, STd):
        if op == 'Add' and isinstance(a, STs) and isinstance(b, STd):
            return STs(z3.simplify(a.e + b.e))
        if op == 'Sub' and isinstance(a, STs) and isinstance(b, STd):
            return STs(z3.simplify(a.e - b.e))
        if op == 'Sub' and isinstance(a, STs) and isinstance(b, STs):
            return STd(z3.simplify(a.e - b.e))
        if op == 'Add' and isinstance(a, STd) and isinstance(b, STd):
            return STd(z3.simplify(a.e + b.e))
        if op == 'Mult':
            if isinstance(a, STd) and self.as_int(b) is not None:
                return STd(z3.simplify(a.e * self.as_int(b)))
            if isinstance(b, STd) and self.as_int(a) is not None:
                return STd(z3.simplify(b.e * self.as_int(a)))
        raise Unsupported('time arithmetic %s on %r, %r' % (op, a, b))
    if isinstance(a, (Ref, FInst)) and isinstance(self.class_of(a), ClassV):
        d = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__'}.get(op)
        if d:
            m, _ = self.class_of(a).lookup(d)
            if m is not None:
                r = self.call(BoundM(m[1], a), [b], {})
                if isinstance(r, LibV) and r.name == 'builtins.NotImplemented':
                    raise PyExc(TypeError, op)
                return r
        raise PyExc(TypeError, 'operator')
    if a is None or b is None:
        raise PyExc(TypeError, 'operand None')
    for x in (a, b):
        if isinstance(x, SObj) and not self.branch(ISNUM(x.e)):
            raise PyExc(TypeError, 'operand is not a number')
    ia, ib = self.as_int(a), self.as_int(b)
    if ia is not None and ib is not None:
        npf = self.is_np(a) or self.is_np(b)
        boo = isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool))
        if op in ('BitAnd', 'BitOr') and boo:
            za, zb = self.zbool(a), self.zbool(b)
            return SBool(z3.And(za, zb) if op == 'BitAnd' else z3.Or(za, zb), npf)
        if op == 'BitXor' and boo:
            return SBool(z3.Xor(self.zbool(a), self.zbool(b)), npf)
        if op == 'Add':
            return self.mk_int(ia + ib, npf)
        if op == 'Sub':
            return self.mk_int(ia - ib, npf)
        if op == 'Mult':
            return self.mk_int(ia * ib, npf)
        if op in ('FloorDiv', 'Mod'):
            if not self.branch(ib != 0):
                raise PyExc(ZeroDivisionError)
            # z3 div/mod agree with Python's for a positive divisor
            if not self.branch(ib > 0):
                raise Unsupported('division by a negative number')
            return self.mk_int(ia / ib if op == 'FloorDiv' else ia % ib, npf)
        if op == 'Div':
            if not self.branch(ib != 0):
                raise PyExc(ZeroDivisionError)
            return SReal(self.quot(ia, ib, facts=True))
        raise Unsupported('integer %s' % op)
    ra, rb = self.as_real(a), self.as_real(b)
    if ra is not None and rb is not None:
        if isinstance(a, float) and isinstance(b, float):
            return {'Add': a + b, 'Sub': a - b, 'Mult': a * b}.get(op)
        if op == 'Add':
            return SReal(z3.simplify(ra + rb))
        if op == 'Sub':
            return SReal(z3.simplify(ra - rb))
        if op == 'Mult':
            return SReal(z3.simplify(ra * rb))
        if op == 'Div':
            if not self.branch(rb != 0):
                raise PyExc(ZeroDivisionError)
            return SReal(z3.simplify(ra / rb))
    raise Unsupported('operator %s on %r, %r' % (op, a, b))


@method
def list_of(self, v):
    if isinstance(v, Ref) and self.rec(v).kind == 'list':
        return self.rec(v).f['v']
    return None


@method
def concat(self, a, b):
    if isinstance(b, tuple) and not isinstance(a, tuple):
        for x in b:
            a = self.seq_append(a, x)
        return a
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    na, nb = z3.simplify(self.z(self.seq_n(a))), self.z(self.seq_n(b))
    if z3.is_int_value(na) and na.as_long() == 0 and isinstance(b, SSeq):
        return b.copy(kind=getattr(a, 'kind', 'list'))
    return SSeq(z3.simplify(na + nb), lambda j: self.ite(self.z(j) < na, self.seq_at(a, j), self.seq_at(b, z3.simplify(self.z(j) - na))),
                getattr(a, 'kind', 'list'))


@method
def is_array(self, v):
    if isinstance(v, SSeq):
        return v.kind in ('array', 'index', 'pidx', 'dtindex')
    return isinstance(v, Ref) and self.rec(v).kind in ('array', 'series')


@method
def arr(self, seq, dtype=None):
    return self.alloc(Rec('array', None, {'v': seq, 'dtype': dtype}))


def one(E, op, x, y):
    if op.startswith('cmp:'):
        return E.compare(op[4:], x, y)
    return E.binop(op, x, y)


@method
def literal(self, n):
    n = z3.simplify(self.z(n))
    return n.as_long() if z3.is_int_value(n) else None


@method
def elementwise2(self, op, a, b):
    sa = self.seq(a) if self.is_array(a) else None
    sb = self.seq(b) if self.is_array(b) else None
    if sa is None and self.list_of(a) is not None:
        sa = self.list_of(a)
    if sb is None and self.list_of(b) is not None:
        sb = self.list_of(b)
    for x, y in ((sa, sb), (sb, sa)):
        if x is not None and self.literal(self.seq_n(x)) == 0 and (y is None or self.branch(self.z(self.seq_n(y)) == 0)):
            boo = op.startswith('cmp:') or op in ('BitAnd', 'BitOr')
            return self.arr(SSeq(0, (lambda j: SBool(z3.BoolVal(False), True)) if boo else (lambda j: Poison('element of empty sequence')), 'array'))
    if sa is not None and sb is not None:
        na, nb = self.z(self.seq_n(sa)), self.z(self.seq_n(sb))
        if not self.branch(na == nb):
            raise Unsupported('arrays of different length')
        s = SSeq(self.seq_n(sa), lambda j: npv(one(self, op, self.seq_at(sa, j), self.seq_at(sb, j))), 'array')
    elif sa is not None:
        s = SSeq(self.seq_n(sa), lambda j: npv(one(self, op, self.seq_at(sa, j), b)), 'array')
    else:
        s = SSeq(self.seq_n(sb), lambda j: npv(one(self, op, a, self.seq_at(sb, j))), 'array')
    return self.arr(s)


def npv(v):
    if isinstance(v, bool):
        return SBool(z3.BoolVal(v), True)
    if isinstance(v, SBool):
        return SBool(v.e, True)
    if isinstance(v, int):
        return SInt(z3.IntVal(v), True)
    if isinstance(v, SInt):
        return SInt(v.e, True)
    return v


@method
def elementwise1(self, v, fn):
    s = self.seq(v)
    return self.arr(SSeq(self.seq_n(s), lambda j: npv(fn(self.seq_at(s, j))), 'array'))


# ---------------------------------------------------------------- comparison
@method
def compare(self, op, a, b):
    a, b = self.force(a), self.force(b)
    if op == 'is' or op == 'is not':
        r = self.identical(a, b)
        return r if op == 'is' else (not r if isinstance(r, bool) else self.mk_bool(z3.Not(r.e)))
    if op in ('in', 'not in'):
        r = self.contains(b, a)
        if isinstance(r, bool):
            return r if op == 'in' else (not r)
        return self.mk_bool(r.e if op == 'in' else z3.Not(r.e))
    if self.is_array(a) or self.is_array(b):
        return self.elementwise2('cmp:' + op, a, b)
    if op == '!=':
        r = self.equal(a, b)
        return (not r) if isinstance(r, bool) else self.mk_bool(z3.Not(r.e))
    if op == '==':
        return self.equal(a, b)
    if a is NAT or b is NAT or a is NAN or b is NAN:
        return False
    if isinstance(a, STs) and isinstance(b, STs) or isinstance(a, STd) and isinstance(b, STd):
        x, y = a.e, b.e
    else:
        x, y = self.as_int(a), self.as_int(b)
        if x is None or y is None:
            if isinstance(a, str) and isinstance(b, str):
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            x, y = self.as_real(a), self.as_real(b)
            if x is None or y is None:
                if a is None or b is None or isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
                    raise PyExc(TypeError, 'comparison %s of %r and %r' % (op, a, b))
                raise Unsupported('comparison %s of %r and %r' % (op, a, b))
    e = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
    return self.mk_bool(e, self.is_np(a) or self.is_np(b))


@method
def identical(self, a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(b, bool) or isinstance(a, bool):
        if isinstance(a, SBool) and not a.np or isinstance(b, SBool) and not b.np:
            return self.equal(a, b)
        return False
    if a is b:
        return True
    if isinstance(a, (ClassV, LibV)) or isinstance(b, (ClassV, LibV)):
        return a == b
    if type(a) is not type(b):
        return False
    raise Unsupported('identity of %r and %r' % (a, b))


@method
def equal(self, a, b):
    if isinstance(a, (Ref, FInst)) and isinstance(self.class_of(a), ClassV):
        m, _ = self.class_of(a).lookup('__eq__')
        if m is not None:
            return self.call(BoundM(m[1], a), [b], {})
    x, y = self.as_int(a), self.as_int(b)
    if x is not None and y is not None:
        return self.mk_bool(x == y)
    if isinstance(a, (OpaqueStr,)) or isinstance(b, OpaqueStr):
        raise Unsupported('comparison of text')
    if a is None or b is None:
        return a is None and b is None
    if a is NAT or b is NAT or a is NAN or b is NAN:
        return False
    if type(a) is type(b) or isinstance(a, SObj) and isinstance(b, SObj):
        if isinstance(a, (STs, STd, SObj)):
            return self.mk_bool(a.e == b.e)
        if isinstance(a, str):
            return a == b
        if isinstance(a, tuple):
            if len(a) != len(b):
                return False
            return self.all_equal(zip(a, b))
        if isinstance(a, NT):
            return self.all_equal(zip(a.vals, b.vals)) if len(a.vals) == len(b.vals) else False
        if isinstance(a, SPeriod):
            return self.mk_bool(z3.And(a.s == b.s, a.t == b.t))
        if isinstance(a, Ref):
            if a.id == b.id:
                return True
            ra, rb = self.rec(a), self.rec(b)
            for r in (ra, rb):
                if r.kind == 'inst' and isinstance(r.cls, ClassV) and r.cls.lookup('__eq__')[0] is not None:
                    raise Unsupported('user-defined __eq__')
            if ra.kind == 'list' and rb.kind == 'list' and isinstance(ra.f['v'], tuple) and isinstance(rb.f['v'], tuple):
                return self.equal(ra.f['v'], rb.f['v'])
            if ra.kind == 'inst' and rb.kind == 'inst':
                return False
    if isinstance(a, (ClassV, LibV)) and isinstance(b, (ClassV, LibV)):
        return a == b
    x, y = self.as_real(a), self.as_real(b)
    if x is not None and y is not None and not isinstance(a, SObj) and not isinstance(b, SObj):
        return self.mk_bool(x == y)
    simple = (str, int, SInt, bool, SBool, STs, tuple, float, SReal)
    if isinstance(a, simple) and isinstance(b, simple):
        return False
    if isinstance(a, (NT,)) and isinstance(b, tuple):
        return self.equal(a.vals, b)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, FText) and isinstance(y, FText) and x.digits is None and y.digits is None and x.match and y.match:
                return self.mk_bool(x.den == y.den)
            if isinstance(x, Digits) and isinstance(y, str) and not y.isdigit():
                return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Freq) and isinstance(y, str):
                return self.mk_bool(x.is_text(self, y))
        if isinstance(a, Opaque) and hasattr(a, 'distinct') or isinstance(b, Opaque) and hasattr(b, 'distinct'):
            return False
    raise Unsupported('equality of %r and %r' % (a, b))


@method
def all_equal(self, pairs):
    acc = []
    for x, y in pairs:
        r = self.equal(self.force(x), self.force(y))
        if r is False:
            return False
        if r is not True:
            acc.append(r.e)
    return self.mk_bool(z3.And(*acc)) if acc else True


@method
def contains(self, c, x):
    c = self.force(c)
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        if isinstance(x, OpaqueStr):
            raise Unsupported('text in text')
        raise PyExc(TypeError, 'in string')
    if isinstance(c, Ref):
        r = self.rec(c)
        if r.kind == 'dict':
            if '$sym' in r.f:
                return r.f['$sym'].has(self, x)
            return self.dict_find(c, x) is not None
        if r.kind == 'map':
            e = self.zint(x)
            return self.mk_bool(self.map_has(r.f['v'], e))
        if r.kind == 'set':
            return self.contains(r.f['v'], x)
    s = self.seq(c)
    if s is None:
        raise Unsupported('in %r' % (c,))
    if isinstance(s, tuple):
        acc = []
        for y in s:
            r = self.equal(x, self.force(y))
            if r is True:
                return True
            if r is not False:
                acc.append(r.e)
        return self.mk_bool(z3.Or(*acc)) if acc else False
    if s.kind == 'range' and s.theory:
        lo, hi = s.theory
        e = self.as_int(x)
        if e is None:
            return False
        return self.mk_bool(z3.And(self.z(lo) <= e, e < self.z(hi)))
    raise Unsupported('in symbolic sequence')


# ---------------------------------------------------------------- lists, dicts
@method
def list_append(self, ref, x):
    r = self.rec(ref)
    self.put(ref, r.with_(v=self.seq_append(r.f['v'], x)))


@method
def list_extend(self, ref, s):
    r = self.rec(ref)
    self.put(ref, r.with_(v=self.concat(r.f['v'], s)))


@method
def dict_find(self, ref, key):
    r = self.rec(ref)
    ks = list(r.f)
    if isinstance(key, (Ref,)) and self.rec(key).kind == 'list':
        raise PyExc(TypeError, 'unhashable')
    for k in ks:
        q = self.equal(k[1], key)
        if q is True:
            return k
        if q is not False:
            if self.branch(q.e):
                return k
    return None


@method
def map_has(self, s, e):
    v = s.at(e)
    return self.present(v)


@method
def present(self, v):
    if v is ABSENT:
        return z3.BoolVal(False)
    if isinstance(v, Union):
        out = z3.BoolVal(False)
        for c, x in reversed(v.alts):
            out = z3.If(c if isz(c) else z3.BoolVal(c), self.present(x), out)
        return z3.simplify(out)
    if isinstance(v, SObj) and v.e.decl().name().startswith('h!'):
        # arbitrary entry of a map under construction
        return z3.Function('present', Obj, z3.BoolSort())(v.e)
    return z3.BoolVal(True)


@method
def to_map(self, ref):
    """turn a dict with integer keys into a map over a symbolic integer domain"""
    r = self.rec(ref)
    base = SSeq(self.z(self.map_domain), lambda j: ABSENT, 'map')
    s = base
    for k, v in r.f.items():
        e = self.as_int(k[1])
        if e is None:
            raise Unsupported('dict with mixed keys')
        s = self.seq_store(s, e, e + 1, lambda j, v=v: v)
    self.put(ref, Rec('map', None, {'v': s}))


Engine.map_domain = 0


@method
def setitem(self, o, i, v):
    o = self.force(o)
    if isinstance(o, Ref):
        r = self.rec(o)
        if r.kind == 'dict':
            if '$sym' in r.f:
                nd = r.f['$sym'].set(self, i, v)
                self.put(o, r.with_(**{'$sym': nd}))
                return
            if isinstance(i, SInt) and not r.f:
                self.to_map(o)
                return self.setitem(o, i, v)
            if isinstance(i, SInt):
                raise Unsupported('symbolic dict key')
            k = self.dict_find(o, i)
            f = dict(r.f)
            f[k if k is not None else ('k', i)] = v
            self.put(o, r.with_f(f))
            return
        if r.kind == 'map':
            e = self.zint(i)
            if not self.branch(z3.And(e >= 0, e < self.z(self.map_domain))):
                raise Unsupported('map key outside domain')
            self.put(o, r.with_(v=self.seq_store(r.f['v'], e, z3.simplify(e + 1), lambda j, v=v: v)))
            return
        if r.kind in ('list', 'array'):
            s = r.f['v']
            n = self.seq_n(s)
            if isinstance(i, slice):
                return self.store_slice(o, i, v)
            e = self.as_int(self.force(i))
            if e is None:
                if self.is_array(i):
                    raise Unsupported('fancy store')
                raise PyExc(TypeError, 'index')
            nz = self.z(n)
            if self.branch(e < 0):
                e = z3.simplify(e + nz)
                if not self.branch(e >= 0):
                    raise PyExc(IndexError)
            if not self.branch(e < nz):
                raise PyExc(IndexError)
            e = z3.simplify(e)
            if isinstance(s, tuple) and z3.is_int_value(e):
                k = e.as_long()
                self.put(o, r.with_(v=s[:k] + (v,) + s[k + 1:]))
                return
            if r.kind == 'list':
                s = self.to_sseq(s)
            self.put(o, r.with_(v=self.seq_store(self.to_sseq(s), e, z3.simplify(e + 1), lambda j, v=v: v)))
            return
        if r.kind == 'series':
            raise Unsupported('series assignment by label')
        if r.kind == 'df':
            return self.df_setcol(o, i, v)
        if r.kind == 'inst':
            m, _ = r.cls.lookup('__setitem__')
            if m is not None:
                self.call(BoundM(m[1], o), [i, v], {})
                return
    if isinstance(o, Iloc):
        return self.iloc_set(o.ref, i, v)
    raise Unsupported('item assignment on %r' % (o,))


@method
def store_slice(self, o, i, v):
    r = self.rec(o)
    s = r.f['v']
    if r.kind != 'array':
        raise Unsupported('slice assignment on a list')
    if i.step not in (None, 1):
        raise Unsupported('slice step')
    n = self.z(self.seq_n(s))

    def norm(b, default):
        if b is None:
            return default
        e = self.zint(b)
        if self.branch(e < 0):
            e = e + n
            if self.branch(e < 0):
                return z3.IntVal(0)
            return e
        if self.branch(e > n):
            return n
        return e
    lo, hi = norm(i.start, z3.IntVal(0)), norm(i.stop, n)
    if self.branch(hi < lo):
        hi = lo
    lo, hi = z3.simplify(lo), z3.simplify(hi)
    vs = self.seq(v) if not isinstance(v, (str,)) else None
    if isinstance(v, GenV):
        raise Unsupported('generator into array')
    if vs is None:
        g = lambda j: v
    else:
        m = self.z(self.seq_n(vs))
        if not self.branch(m == hi - lo):
            if self.branch(m == 1):
                g = lambda j: self.seq_at(vs, z3.IntVal(0))
            else:
                raise PyExc(ValueError, 'could not broadcast')
        else:
            g = lambda j: self.seq_at(vs, z3.simplify(self.z(j) - lo))
    dt = r.f.get('dtype')
    if dt == 'int8':
        g0 = g
        g = lambda j: npv(g0(j))
    self.put(o, r.with_(v=self.seq_store(self.to_sseq(s), lo, hi, g)))


@method
def delitem(self, o, i):
    if isinstance(o, Ref) and self.rec(o).kind == 'dict':
        r = self.rec(o)
        if '$sym' in r.f:
            self.put(o, r.with_(**{'$sym': r.f['$sym'].delete(self, i)}))
            return
        k = self.dict_find(o, i)
        if k is None:
            raise PyExc(KeyError)
        f = dict(r.f)
        del f[k]
        self.put(o, r.with_f(f))
        return
    raise Unsupported('del item')


@method
def getitem(self, o, i):
    o, i = self.force(o), self.force(i)
    if isinstance(o, str):
        if isinstance(i, slice):
            return o[i]
        if isinstance(i, int):
            if -len(o) <= i < len(o):
                return o[i]
            raise PyExc(IndexError)
        raise Unsupported('symbolic string index')
    if isinstance(o, Iloc):
        return self.iloc_get(o.ref, i)
    if isinstance(o, (tuple, SSeq, NT)):
        return self.index_value(o.vals if isinstance(o, NT) else o, i, o)
    if isinstance(o, Ref):
        r = self.rec(o)
        if r.kind in ('list', 'array'):
            return self.index_value(r.f['v'], i, o)
        if r.kind == 'dict':
            if '$sym' in r.f:
                return r.f['$sym'].get(self, i)
            k = self.dict_find(o, i)
            if k is None:
                raise PyExc(KeyError)
            return r.f[k]
        if r.kind == 'map':
            e = self.zint(i)
            if not self.branch(self.map_has(r.f['v'], e)):
                raise PyExc(KeyError)
            return r.f['v'].at(e)
        if r.kind == 'series':
            raise Unsupported('series item by label')
    if isinstance(o, (Ref, FInst)) and isinstance(self.class_of(o), ClassV):
        m, _ = self.class_of(o).lookup('__getitem__')
        if m is not None:
            return self.call(BoundM(m[1], o), [i], {})
        b = self.fields(o).get('$base')
        if b is not None:
            if isinstance(i, slice):
                raise Unsupported('slice of a frame')
            return self.index_value(b, i, b)
        raise PyExc(TypeError, 'not subscriptable')
    if isinstance(o, Opaque) and hasattr(o, 'getitem'):
        return o.getitem(self, i)
    if o is None or isinstance(o, (int, SInt, bool, SBool, float)):
        raise PyExc(TypeError, 'not subscriptable')
    raise Unsupported('item of %r' % (o,))


@method
def index_value(self, s, i, owner):
    islist = isinstance(owner, Ref) and self.rec(owner).kind == 'list'
    if isinstance(i, slice):
        t = self.slice_seq(s, i.start, i.stop, i.step)
        if islist:
            return self.new_list(t)
        if isinstance(owner, Ref) and self.rec(owner).kind == 'array':
            return self.arr(t, self.rec(owner).f.get('dtype'))
        return t
    if isinstance(s, (SSeq, tuple)) and self.is_array(i):
        isel = self.seq(i)
        if self.literal(self.seq_n(isel)) == 0:
            t = SSeq(0, lambda j: Poison('element of empty sequence'), getattr(s, 'kind', 'array'), sorted_=True)
            return t if isinstance(owner, SSeq) else self.arr(t)
        probe = self.seq_at(isel, fresh_index()) if isinstance(isel, SSeq) else (isel[0] if isel else None)
        if isinstance(probe, (SBool, bool)):
            t = self.mask_select(s, isel)
        else:
            t = self.take(s, isel)
        if isinstance(owner, SSeq):
            return t
        return self.arr(t)
    if isinstance(i, Ref) and self.rec(i).kind == 'list':
        t = self.take(s, self.rec(i).f['v'])
        return t if isinstance(owner, SSeq) else self.arr(t)
    if self.as_int(i) is None:
        if isinstance(i, (STs, str)) and isinstance(owner, SSeq):
            raise Unsupported('label index')
        raise (PyExc(TypeError, 'index %r' % (i,)))
    v = self.index_seq(s, i)
    return v


@method
def take(self, s, idx):
    """elements of s at the positions idx (each must be within range)"""
    n = self.z(self.seq_n(s))
    m = self.z(self.seq_n(idx))
    self.ctr += 1
    j = z3.Int('j!%d' % self.ctr)
    e = self.as_int(self.seq_at(idx, j))
    if e is None:
        raise Unsupported('positions are not integers')
    inside = z3.Implies(z3.And(j >= 0, j < m), z3.And(e >= 0, e < n))
    wrap = False
    if not self.valid(inside, timeout=4000):
        if not self.valid(z3.Implies(z3.And(j >= 0, j < m), z3.And(e >= -n, e < n)), timeout=4000):
            raise Unsupported('positions may lie outside the array')
        wrap = True

    def at(k):
        p = self.as_int(self.seq_at(idx, k))
        return self.seq_at(s, z3.simplify(z3.If(p < 0, p + n, p) if wrap else p))
    return SSeq(self.seq_n(idx), at, getattr(s, 'kind', 'array') if isinstance(s, SSeq) else 'array')


@method
def mask_select(self, s, mask):
    nz = self.nonzero_seq(mask)
    return SSeq(nz.n, lambda j: self.seq_at(s, self.as_int(nz.at(j))), getattr(s, 'kind', 'array'), sorted_=getattr(s, 'sorted_', False))


@method
def nonzero_seq(self, mask):
    """positions of the true elements, ascending (np.nonzero)"""
    n = self.z(self.seq_n(mask))
    probe = z3.Int('k!nz')
    pv = self.seq_at(mask, probe)
    t = self.truth_of(pv)
    if z3.is_true(t) or (not self.loopvars and self.check([probe >= 0, probe < n, z3.Not(t)], timeout=8000 if self.patient and self.bound is None else 500) == 'unsat'):
        # all of them
        return SSeq(z3.simplify(n), lambda j: SInt(self.z(j), True), 'array', sorted_=True, theory=('nz', lambda k: self.z(k), lambda k: self.z(k), n))
    # equal masks have equal positions: reuse the theory of a mask shown equal
    for (n2, t2, cnt2, pos2, lv2) in self.nz_theories:
        if z3.simplify(n2).eq(z3.simplify(n)):
            if t2.eq(t) or lv2 == len(self.loopvars) == 0 and self.same_mask(n, probe, t, t2):
                return self.nz_seq(cnt2, pos2, n)
    key = qkey('nz', t.sexpr(), n.sexpr())
    lv = [v for v in self.loopvars if has_vars(t, {str(v)}) or has_vars(n, {str(v)})]
    c = z3.Function('cnt!' + key, *([z3.IntSort()] * (len(lv) + 2)))
    p = z3.Function('pos!' + key, *([z3.IntSort()] * (len(lv) + 2)))
    cnt = lambda k: c(*(lv + [self.z(k)]))
    pos = lambda k: p(*(lv + [self.z(k)]))
    cond = lambda k: z3.substitute(t, (probe, self.z(k)))
    self.pc += self.rank_facts(cond, cnt, pos, n)
    self.nz_theories = self.nz_theories + [(n, t, cnt, pos, len(lv))]
    return self.nz_seq(cnt, pos, n)


Engine.nz_theories = []
Engine.patient = False


@method
def same_mask(self, n, probe, t, t2):
    rng = [probe >= 0, probe < n]
    if self.check(rng + [t != t2], timeout=1500) == 'unsat':
        return True
    if not self.patient or self.bound is not None:
        return False
    parts = lambda x: x.children() if z3.is_and(x) else [x]
    return all(self.check(rng + [a, z3.Not(g)], timeout=20000) == 'unsat' for a, b in ((t, t2), (t2, t)) for g in parts(z3.simplify(b)))


@method
def nz_seq(self, cnt, pos, n):
    ln = z3.simplify(cnt(n))
    return SSeq(ln, lambda j: SInt(pos(j), True), 'array', sorted_=True, theory=('nz', cnt, pos, n))


@method
def truth_of(self, v):
    """branch-free truth"""
    if isinstance(v, Union):
        out = None
        for c, x in reversed(v.alts):
            t = self.truth_of(x)
            out = t if out is None else z3.If(c, t, out)
        return z3.simplify(out)
    if isinstance(v, SSeq) or isinstance(v, Ref):
        raise Unsupported('truth of %r in array' % (v,))
    t = self.truth(v)
    return z3.simplify(t) if isz(t) else z3.BoolVal(bool(t))


# ---------------------------------------------------------------- search
@method
def searchsorted(self, s, v, side='left'):
    if self.is_array(v) or self.list_of(v) is not None:
        vs = self.seq(v)
        # one result per element
        out = self.new_list()
        it = self.make_iter('seq', src=vs)

        def step():
            try:
                x = self.iter_next(it)
            except PyExc as ex:
                if getattr(ex, 'it', None) == it:
                    return False
                raise
            self.list_append(out, self.searchsorted1(s, x, side))
            return True
        if self.iter_concrete(it):
            while step():
                pass
        else:
            self.run_loop(step, 'searchsorted', finite=True)
        return self.arr(self.to_sseq(self.rec(out).f['v'], 'array'))
    return self.searchsorted1(s, v, side)


def scalar(E, v):
    v = E.force(v)
    if isinstance(v, (STs, STd)):
        return v.e
    e = E.as_int(v)
    if e is None:
        raise Unsupported('searchsorted of %r' % (v,))
    return e


@method
def searchsorted1(self, s, v, side):
    n = self.z(self.seq_n(s))
    x = scalar(self, v)
    at = lambda k: scalar(self, self.seq_at(s, k))
    probe = z3.Int('k!ss')
    ae = at(probe)
    if not (isinstance(s, SSeq) and s.sorted_):
        i, j = z3.Int('i!ss'), z3.Int('j!ss')
        if isinstance(s, tuple):
            g = z3.And(*[at(z3.IntVal(k)) <= at(z3.IntVal(k + 1)) for k in range(len(s) - 1)]) if len(s) > 1 else z3.BoolVal(True)
        else:
            g = z3.Implies(z3.And(0 <= i, i < j, j < n), at(i) <= at(j))
        if not self.prove('%s: searchsorted requires a sorted array' % self.cur, g):
            raise Unsupported('searchsorted on an array not known to be sorted')
    left = side == 'left'
    lt = (lambda a: a < x) if left else (lambda a: a <= x)
    key = qkey('ss', ae.sexpr(), n.sexpr(), x.sexpr(), side)
    lv = list(self.loopvars)
    r = z3.Function('ss!' + key, *([z3.IntSort()] * (len(lv) + 1)))(*lv) if lv else z3.Int('ss!' + key)
    self.pc += [r >= 0, r <= n, z3.Implies(r > 0, lt(at(r - 1))), z3.Implies(r < n, z3.Not(lt(at(r))))]
    self.pc.append(self.forall(0, n, lambda k: (k < r) == lt(at(k)), pats=None if self.bound else (lambda k: trig(at(k), k))))
    if not lv and self.bound is None:
        # the same number under a name of the specification
        for c in self.memo.get('positions', ()):
            if self.valid(r == c):
                self.pc.append(r == c)
                return SInt(c, True)
    return SInt(r, True)


def trig(e, k):
    """a usable pattern inside e mentioning k"""
    best = []
    stack = [e]
    while stack:
        x = stack.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
            if any(c.eq(k) for c in x.children()):
                best.append(x)
        stack.extend(x.children() if z3.is_app(x) else [])
    return best[:1]


# ---------------------------------------------------------------- sums
@method
def sum_seq(self, s, start=0):
    if isinstance(s, tuple):
        v = start
        for x in s:
            v = self.binop('Add', v, x)
        return v
    n = self.z(s.n)
    probe = z3.Int('k!sum')
    v = s.at(probe)
    real = None

    def term(v):
        if isinstance(v, Union):
            out = None
            for c, x in reversed(v.alts):
                t = term(x)
                if t is None:
                    return None
                if out is None:
                    out = t
                else:
                    if out.sort() != t.sort():
                        out = out if out.sort() == z3.RealSort() else z3.ToReal(out)
                        t = t if t.sort() == z3.RealSort() else z3.ToReal(t)
                    out = z3.If(c, t, out)
            return out
        e = self.as_int(v)
        if e is not None:
            return e
        return self.as_real(v)
    t = term(v)
    if t is None:
        raise Unsupported('sum of %r' % (v,))
    t = z3.simplify(t)
    lv = list(self.loopvars)
    key = qkey('sum', t.sexpr(), n.sexpr())
    f = z3.Function('sum!' + key, *([z3.IntSort()] * (len(lv) + 1) + [t.sort()]))
    S = lambda k: f(*(lv + [self.z(k)]))
    T = lambda k: z3.substitute(t, (probe, self.z(k)))
    self.pc.append(S(0) == 0)
    self.pc.append(self.forall(0, n, lambda k: S(k + 1) == S(k) + T(k), pats=lambda k: [S(k + 1)]))
    self.pc.append(z3.Implies(n > 0, S(n) == S(n - 1) + T(n - 1)))
    self.sums = self.sums + [(S, T, n)]
    if t.sort() == z3.IntSort():
        r = SInt(S(n), True)
    else:
        r = SReal(S(n))
    if start == 0:
        return r
    return self.binop('Add', start, r)


Engine.sums = []
Engine.recfuns = []


# ---------------------------------------------------------------- attributes of library values
@method
def lib_seq(self, v):
    if isinstance(v, SSeq):
        return v
    return None


@method
def lib_getattr(self, o, name, owner):
    o = self.force(o)
    if name == '__class__':
        return LibV('type:' + type(o).__name__)
    if isinstance(o, STs):
        if name in ('floor', 'weekday', 'date', 'normalize', 'to_period', 'strftime', 'isoformat', 'to_pydatetime'):
            return LibBound(o, name)
        if name == 'value':
            return self.mk_int(o.e)
        if name == 'year':
            return self.mk_int(YEAR(o.e))
        if name in TS_NO_ATTRS:
            raise PyExc(AttributeError, name)
        raise Unsupported('Timestamp.%s' % name)
    if isinstance(o, SPeriod):
        if name == 'start_time':
            return STs(o.s)
        if name == 'end_time':
            return STs(o.t)
        if name in ('to_timestamp', 'asfreq'):
            return LibBound(o, name)
        if name in ('__getitem__', '__iter__', '__len__'):
            raise PyExc(AttributeError, name)
        raise Unsupported('Period.%s' % name)
    if o is NAT:
        if name in ('to_timestamp', '__getitem__'):
            raise PyExc(AttributeError, name)
        raise Unsupported('NaT.%s' % name)
    if isinstance(o, LibV):
        n = o.name
        if n.startswith('repo:'):
            return self.mod_get(self.module(n[5:]), name)
        full = n + '.' + name
        return self.lib_const(full)
    if o is None or isinstance(o, (int, SInt, bool, SBool, float, SReal)):
        if name == 'item' and self.is_np(o):
            return LibBound(o, 'item')
        raise PyExc(AttributeError, name)
    if isinstance(o, SObj):
        raise Unsupported('attribute of a label')
    if isinstance(o, (str, OpaqueStr)):
        if name in ('format', 'join', 'split', 'lower', 'upper', 'strip', 'startswith', 'endswith', '__getitem__', '__len__', '__iter__'):
            return LibBound(o, name)
        raise PyExc(AttributeError, name)
    if isinstance(o, Opaque):
        if name in o.__dict__.get('attrs', {}):
            return o.attrs[name]
        if 'missing' in o.__dict__ and name in o.missing or hasattr(o, 'timestamp') and name in TS_NO_ATTRS:
            raise PyExc(AttributeError, name)
        raise Unsupported('%s of %r' % (name, o))
    if isinstance(o, tuple):
        if name in ('__getitem__', '__len__', '__iter__', 'index', 'count'):
            return LibBound(o, name)
        raise PyExc(AttributeError, name)
    if isinstance(o, SSeq):
        if o.kind == 'pidx':
            if name in ('to_timestamp', 'asfreq', 'get_loc', 'difference', 'drop_duplicates'):
                return LibBound(o, name)
            if name == 'start_time':
                return self.seqmap(o, lambda p: STs(p.s), 'dtindex')
        if o.kind == 'dtindex' and name in ('weekday', 'dayofweek'):
            return self.seqmap(o, lambda t: SInt(weekday(t.e), True), 'index').copy(sorted_=False, theory=None)
        if o.kind == 'dtindex' and name == 'year':
            return self.seqmap(o, lambda t: SInt(YEAR(t.e), True), 'index').copy(sorted_=False, theory=None)
        if o.kind == 'pidx':
            if name == 'end_time':
                return self.seqmap(o, lambda p: STs(p.t), 'dtindex')
        if name in ('get_loc', 'append', 'to_numpy', 'to_list', 'tolist', 'searchsorted', 'index', 'count', 'isin') or name in ('__getitem__', '__len__', '__iter__'):
            return LibBound(o, name)
        if name == 'values':
            return self.arr(o)
        if name == 'size' and o.kind != 'list':
            return self.mk_int(self.z(o.n))
        raise Unsupported('%s of %s' % (name, o.kind))
    if isinstance(o, MapView):
        raise Unsupported('%s of a dict view' % name)
    if isinstance(o, Ref):
        r = self.rec(o)
        k = r.kind
        if k == 'list':
            if name in ('append', 'insert', 'extend', 'pop', 'index', 'sort', 'reverse', 'copy', '__getitem__', '__len__', '__iter__', 'count', 'clear', 'remove'):
                return LibBound(o, name)
            raise PyExc(AttributeError, name)
        if k == 'dict' or k == 'map':
            if name in ('items', 'keys', 'values', 'get', 'pop', 'setdefault', 'update', 'copy', '__getitem__', '__len__', '__iter__', '__contains__', 'popitem'):
                return LibBound(o, name)
            raise PyExc(AttributeError, name)
        if k == 'series':
            if name == 'iloc' or name == 'iat':
                return Iloc(o)
            if name == 'index':
                return r.f['index']
            if name in ('apply', 'sum', 'to_numpy', 'map', 'tolist', 'copy', 'astype', 'searchsorted'):
                return LibBound(o, name)
            if name == 'values':
                return self.arr(r.f['v'])
            if name == 'size':
                return self.mk_int(self.z(self.seq_n(r.f['v'])))
            if name in ('to_timestamp',):
                return LibBound(o, name)
        if k == 'array':
            if name in ('sum', 'astype', 'copy', 'tolist', 'searchsorted', 'any', 'all'):
                return LibBound(o, name)
            if name == 'size':
                return self.mk_int(self.z(self.seq_n(r.f['v'])))
            if name in ('__getitem__', '__len__', '__iter__'):
                return LibBound(o, name)
            if name == 'to_timestamp':
                raise PyExc(AttributeError, name)
        if k == 'df':
            if name in ('set_index',):
                return LibBound(o, name)
        if k == 'iter':
            if name in ('__next__', '__iter__'):
                return LibBound(o, name)
            raise PyExc(AttributeError, name)
        if k == 'set':
            if name in ('add', '__iter__', '__len__', '__contains__'):
                return LibBound(o, name)
        raise Unsupported('%s of %s' % (name, k))
    if isinstance(o, GenV):
        if name in ('__iter__', '__next__'):
            return LibBound(o, name)
        raise PyExc(AttributeError, name)
    if isinstance(o, (FuncV, BoundM, NativeV)):
        raise Unsupported('function attribute %s' % name)
    if isinstance(o, ExcInst):
        raise Unsupported('exception attribute %s' % name)
    raise Unsupported('attribute %s of %r' % (name, o))


TS_NO_ATTRS = {'to_timestamp', '__getitem__', '__len__', '__iter__', 'items'}


@method
def seqmap(self, s, fn, kind=None):
    if isinstance(s, tuple):
        return tuple(fn(x) for x in s)
    return SSeq(s.n, lambda j: fn(s.at(self.z(j))), kind or s.kind)


LIB_CONST = {'pandas.NaT': NAT, 'numpy.nan': NAN, 'numpy.NaN': NAN, 'math.nan': NAN}


@method
def lib_const(self, full):
    if full in LIB_CONST:
        return LIB_CONST[full]
    if full == 'six.string_types':
        return (LibV('builtins.str'),)
    return LibV(full)


@method
def lib_method(self, o, name, args, kwargs):
    args = [self.force(a) for a in args]
    kwargs = {k: self.force(v) for k, v in kwargs.items()}
    if isinstance(o, (str, OpaqueStr)):
        if isinstance(o, str) and all(isinstance(a, str) for a in args) and name not in ('format', 'join'):
            r = getattr(o, name)(*args)
            return self.new_list(r) if isinstance(r, list) else r
        return TEXT
    if isinstance(o, SPeriod):
        if name == 'to_timestamp':
            how = kwargs.get('how', args[1] if len(args) > 1 else 'start')
            if how in ('start', 'S', 's'):
                return STs(o.s)
            if how in ('end', 'E', 'e'):
                return STs(o.t)
        raise Unsupported('Period.%s' % name)
    if isinstance(o, (int, SInt)) and name == 'item':
        return self.mk_int(self.as_int(o))
    if isinstance(o, tuple) or (isinstance(o, Ref) and self.rec(o).kind == 'list'):
        return self.list_method(o, name, args, kwargs)
    if isinstance(o, SSeq):
        return self.seq_method(o, name, args, kwargs)
    if isinstance(o, GenV) or (isinstance(o, Ref) and self.rec(o).kind == 'iter'):
        if name == '__next__':
            return LIB['builtins.next'](self, o)
        return o
    if isinstance(o, Ref):
        r = self.rec(o)
        if r.kind in ('dict', 'map'):
            return self.dict_method(o, name, args, kwargs)
        if r.kind == 'series':
            s = r.f['v']
            if name == 'apply' or name == 'map':
                return self.series_apply(o, args[0])
            if name == 'sum':
                return self.sum_seq(s)
            if name in ('to_numpy',):
                return self.arr(s)
            if name == 'tolist':
                return self.new_list(s)
            if name == 'copy':
                return self.alloc(r.with_f(dict(r.f)))
            if name == 'searchsorted':
                return self.searchsorted(s, args[0], kwargs.get('side', args[1] if len(args) > 1 else 'left'))
            if name == 'astype':
                return self.astype(o, args[0])
        if r.kind == 'array':
            s = r.f['v']
            if name == 'sum':
                return self.sum_seq(s)
            if name == 'copy':
                return self.alloc(r.with_f(dict(r.f)))
            if name == 'tolist':
                return self.new_list(s if isinstance(s, tuple) else s.copy(kind='list'))
            if name == 'searchsorted':
                return self.searchsorted(s, args[0], kwargs.get('side', args[1] if len(args) > 1 else 'left'))
            if name == 'astype':
                return self.astype(o, args[0])
        if r.kind == 'df':
            return self.df_method(o, name, args, kwargs)
    raise Unsupported('method %s of %r' % (name, o))


@method
def astype(self, o, t):
    r = self.rec(o)
    if t == LibV('builtins.bool') or t == LibV('numpy.bool_') or t == 'bool':
        s = self.bool_seq(r.f['v'])
        if r.kind == 'series':
            return self.alloc(r.with_(v=s))
        return self.arr(s, 'bool')
    if t == LibV('builtins.int'):
        s = self.seqmap(self.to_sseq(r.f['v']), lambda v: npv(self.mk_int(self.zint(v))))
        return self.alloc(r.with_(v=s))
    raise Unsupported('astype')


@method
def bool_seq(self, s):
    return self.seqmap(self.to_sseq(s), lambda v: SBool(self.truth_of(v), True), 'array')


@method
def series_apply(self, o, fn):
    r = self.rec(o)
    out = self.new_list()
    it = self.make_iter('seq', src=r.f['v'])

    def step():
        try:
            x = self.iter_next(it)
        except PyExc as ex:
            if getattr(ex, 'it', None) == it:
                return False
            raise
        self.list_append(out, self.call(fn, [x], {}))
        return True
    if self.iter_concrete(it):
        while step():
            pass
    else:
        self.run_loop(step, 'apply', finite=True)
    return self.alloc(Rec('series', None, {'v': self.to_sseq(self.rec(out).f['v'], 'array'), 'index': r.f['index']}))


@method
def list_method(self, o, name, args, kwargs):
    s = self.seq(o)
    isref = isinstance(o, Ref)
    if name == 'append' and isref:
        self.list_append(o, args[0])
        return None
    if name == 'extend' and isref:
        self.list_extend(o, self.drain(args[0]))
        return None
    if name == 'insert' and isref:
        i, x = args
        if isinstance(i, int) and i == 0:
            if isinstance(s, tuple):
                v = (x,) + s
            else:
                v = SSeq(z3.simplify(self.z(s.n) + 1), lambda j, s=s: self.ite(self.z(j) == 0, x, s.at(z3.simplify(self.z(j) - 1))), 'list')
            self.put(o, self.rec(o).with_(v=v))
            return None
        if isinstance(i, int) and isinstance(s, tuple):
            l = list(s)
            l.insert(i, x)
            self.put(o, self.rec(o).with_(v=tuple(l)))
            return None
        raise Unsupported('list.insert')
    if name == 'copy':
        return self.new_list(s)
    if name == 'pop' and isref:
        n = self.seq_n(s)
        if isinstance(s, tuple):
            if not s:
                raise PyExc(IndexError)
            k = args[0] if args else -1
            if not isinstance(k, int):
                raise Unsupported('pop')
            l = list(s)
            if not -len(l) <= k < len(l):
                raise PyExc(IndexError)
            x = l.pop(k)
            self.put(o, self.rec(o).with_(v=tuple(l)))
            return x
        if not args:
            if not self.branch(self.z(n) > 0):
                raise PyExc(IndexError)
            x = self.seq_at(s, z3.simplify(self.z(n) - 1))
            self.put(o, self.rec(o).with_(v=SSeq(z3.simplify(self.z(n) - 1), s.at, 'list')))
            return x
    if name == '__getitem__':
        return self.getitem(o, args[0])
    if name == '__len__':
        return LIB['builtins.len'](self, o)
    if name == 'index' and isinstance(s, tuple):
        for k, y in enumerate(s):
            r = self.equal(args[0], self.force(y))
            if r is True or (r is not False and self.branch(r.e)):
                return k
        raise PyExc(ValueError)
    raise Unsupported('list.%s' % name)


@method
def seq_method(self, o, name, args, kwargs):
    if name == 'get_loc' and o.kind in ('index',):
        x = self.zint(args[0])
        n = self.z(o.n)
        at = lambda k: self.as_int(self.seq_at(o, k))
        probe = z3.Int('k!gl')
        key = qkey('gl', at(probe).sexpr(), n.sexpr(), x.sexpr())
        lv = list(self.loopvars)
        r = z3.Function('loc!' + key, *([z3.IntSort()] * (len(lv) + 1)))(*lv) if lv else z3.Int('loc!' + key)
        found = z3.And(r >= 0, r < n, at(r) == x)
        self.pc.append(z3.Or(found, self.forall(0, n, lambda k: at(k) != x, pats=lambda k: trig(at(k), k))))
        # the index is duplicate free (monotone), otherwise get_loc returns a slice or mask
        i, j = z3.Int('i!gl'), z3.Int('j!gl')
        if not (o.theory and 'strict' in o.theory):
            if not self.prove('%s: get_loc requires distinct entries' % self.cur, z3.Implies(z3.And(0 <= i, i < j, j < n), at(i) != at(j))):
                raise Unsupported('get_loc on an index not known to be duplicate free')
        if self.branch(found):
            return self.mk_int(r)
        raise PyExc(KeyError)
    if name == 'to_timestamp' and o.kind == 'pidx':
        how = kwargs.get('how', args[1] if len(args) > 1 else 'start')
        if kwargs.get('freq') not in (None, 'S') or len(args) > 0:
            raise Unsupported('PeriodIndex.to_timestamp(freq)')
        if kwargs.get('freq') == 'S':
            self.notes.add("to_timestamp(freq='S') gives the beginning of a period: periods begin at whole seconds")
        if how in ('start', 'S'):
            return self.seqmap(o, lambda p: STs(p.s), 'dtindex').copy(sorted_=o.sorted_)
        if how in ('end', 'E'):
            return self.seqmap(o, lambda p: STs(p.t), 'dtindex').copy(sorted_=o.sorted_)
    if name == 'asfreq' and o.kind == 'pidx' and not args and kwargs.get('freq') == 'M' and str(kwargs.get('how', 'E')).upper() in ('S', 'START'):
        def month(p):
            m = Months.at(self, p.s)
            return SPeriod(z3.simplify(Months.begin(m)), z3.simplify(Months.begin(m + 1) - 1))
        return self.seqmap(o, month, 'pidx').copy(theory=None)
    if name == 'drop_duplicates' and o.kind == 'pidx' and not args and not kwargs:
        i, j = z3.Int('i!dd'), z3.Int('j!dd')
        n = self.z(o.n)
        if not self.prove('%s: no period occurs twice' % self.cur, z3.Implies(z3.And(0 <= i, i < j, j < n), o.at(i).s != o.at(j).s)):
            raise Unsupported('drop_duplicates')
        return o
    if name == 'difference' and o.kind == 'pidx' and len(args) == 1:
        return self.pidx_difference(o, self.seq(args[0]))
    if name == 'append' and o.kind == 'dtindex':
        s = self.concat(o, self.seq(args[0]))
        return s.copy(kind='dtindex') if isinstance(s, SSeq) else self.to_sseq(s, 'dtindex')
    if name in ('to_numpy',):
        return self.arr(o)
    if name in ('tolist', 'to_list'):
        return self.new_list(o)
    if name == 'searchsorted':
        return self.searchsorted(o, args[0], kwargs.get('side', args[1] if len(args) > 1 else 'left'))
    if name == '__len__':
        return LIB['builtins.len'](self, o)
    if name == '__getitem__':
        return self.getitem(o, args[0])
    raise Unsupported('%s.%s' % (o.kind, name))


@method
def dict_method(self, o, name, args, kwargs):
    r = self.rec(o)
    if r.kind == 'map':
        if name == 'keys':
            return MapView(r.f['v'], 'keys')
        if name == 'values':
            return MapView(r.f['v'], 'values')
        if name == 'get':
            e = self.zint(args[0])
            if self.branch(self.map_has(r.f['v'], e)):
                return r.f['v'].at(e)
            return args[1] if len(args) > 1 else None
        raise Unsupported('dict.%s' % name)
    if '$sym' in r.f:
        return r.f['$sym'].method(self, o, name, args, kwargs)
    items = [(k[1], v) for k, v in r.f.items()]
    if name == 'items':
        return tuple((k, v) for k, v in items)
    if name == 'keys':
        return tuple(k for k, v in items)
    if name == 'values':
        return tuple(v for k, v in items)
    if name == 'get':
        k = self.dict_find(o, args[0])
        return r.f[k] if k is not None else (args[1] if len(args) > 1 else kwargs.get('default'))
    if name == 'copy':
        return self.alloc(r.with_f(dict(r.f)))
    if name == '__contains__':
        return self.contains(o, args[0])
    if name == 'setdefault':
        k = self.dict_find(o, args[0])
        if k is not None:
            return r.f[k]
        self.setitem(o, args[0], args[1] if len(args) > 1 else None)
        return args[1] if len(args) > 1 else None
    if name == 'pop':
        k = self.dict_find(o, args[0])
        if k is None:
            if len(args) > 1:
                return args[1]
            raise PyExc(KeyError)
        v = r.f[k]
        self.delitem(o, args[0])
        return v
    if name == 'update' and len(args) == 1:
        a = self.rec(args[0]) if isinstance(args[0], Ref) else None
        if a is not None and a.kind == 'dict' and '$sym' not in a.f:
            for k, v in a.f.items():
                self.setitem(o, k[1], v)
            return None
    if name == '__len__':
        return len(items)
    raise Unsupported('dict.%s' % name)


# ---------------------------------------------------------------- iloc
@method
def iloc_get(self, ref, i):
    r = self.rec(ref)
    s = r.f['v']
    if isinstance(i, slice):
        t = self.slice_seq(s, i.start, i.stop, i.step)
        return self.alloc(Rec('series', None, {'v': t, 'index': self.slice_index(r.f['index'], i)}))
    if self.is_array(i) or self.list_of(i) is not None:
        isel = self.seq(i)
        probe = self.seq_at(isel, fresh_index()) if isinstance(isel, SSeq) else (isel[0] if isel else None)
        if isinstance(probe, (SBool, bool)):
            t = self.mask_select(s, isel)
            ix = Poison('masked index')
        else:
            t = self.take(s, isel)
            ix = self.take(r.f['index'], isel) if isinstance(r.f['index'], SSeq) else Poison('index')
        return self.alloc(Rec('series', None, {'v': t, 'index': ix}))
    e = self.as_int(i)
    if e is None:
        raise PyExc(TypeError, 'iloc')
    return self.index_seq(s, i)


@method
def slice_index(self, ix, i):
    if isinstance(ix, SSeq):
        return self.slice_seq(ix, i.start, i.stop, i.step)
    return Poison('sliced index')


@method
def iloc_set(self, ref, i, v):
    r = self.rec(ref)
    s = self.to_sseq(r.f['v'])
    if isinstance(i, MapView) and isinstance(v, MapView) and i.what == 'keys' and v.what == 'values' and i.v is v.v:
        # every present key k gets its value; keys lie inside the series
        n, m = self.z(s.n), i.v
        self.ctr += 1
        k = z3.Int('k!%d' % self.ctr)
        if not self.valid(self.z(m.n) <= n):
            raise Unsupported('positions may lie outside the series')

        def at(j, s=s, m=m):
            j = self.z(j)
            w = m.at(j)
            return self.pick_present(w, s.at(j))
        self.put(ref, r.with_(v=SSeq(s.n, at, s.kind)))
        return
    if isinstance(i, slice):
        tmp = self.arr(s)
        self.store_slice(tmp, i, v)
        self.put(ref, r.with_(v=self.rec(tmp).f['v']))
        return
    li = self.list_of(i)
    if li is not None and isinstance(li, tuple):
        vs = self.seq(v)
        if not isinstance(vs, tuple) or len(vs) != len(li):
            raise Unsupported('iloc assignment')
        for a, b in zip(li, vs):
            self.iloc_set(ref, self.force(a), b)
        return
    e = self.as_int(i)
    if e is not None:
        tmp = self.arr(s)
        self.setitem(tmp, i, v)
        self.put(ref, r.with_(v=self.rec(tmp).f['v']))
        return
    raise Unsupported('iloc assignment with %r' % (i,))


@method
def pick_present(self, w, old):
    if w is ABSENT:
        return old
    if isinstance(w, Union):
        out = None
        for c, x in reversed(w.alts):
            p = self.pick_present(x, old)
            out = p if out is None else self.ite(c, p, out)
        return out
    return w


# ---------------------------------------------------------------- data frames
@method
def df_setcol(self, o, name, v):
    r = self.rec(o)
    s = self.seq(v)
    if s is None or not isinstance(name, str) and not isinstance(name, SObj):
        raise Unsupported('data frame column')
    n = self.z(self.seq_n(r.f['$index']))
    if not self.branch(self.z(self.seq_n(s)) == n):
        raise PyExc(ValueError, 'length of values')
    f = dict(r.f)
    f[('col', name if isinstance(name, str) else name.e.sexpr())] = s
    self.put(o, r.with_f(f))


@method
def df_method(self, o, name, args, kwargs):
    r = self.rec(o)
    if name == 'set_index':
        c = args[0] if args else kwargs.get('keys')
        f = dict(r.f)
        if ('col', c) not in f:
            raise PyExc(KeyError)
        f['$index'] = f.pop(('col', c))
        return self.alloc(r.with_f(f))
    raise Unsupported('DataFrame.%s' % name)


@lib('pandas.DataFrame')
def _df(E, data=None, columns=None, index=None):
    r = E.rec(data)
    cols = E.as_tuple(columns, 'columns') if columns is not None else tuple(k[1] for k in r.f)
    f = {'$index': None}
    n = None
    for c in cols:
        k = E.dict_find(data, c)
        if k is None:
            raise Unsupported('column of NaN')
        s = E.seq(r.f[k])
        if s is None:
            raise Unsupported('column %r' % (c,))
        if n is None:
            n = E.z(E.seq_n(s))
        elif not E.branch(E.z(E.seq_n(s)) == n):
            raise PyExc(ValueError, 'all arrays must be of the same length')
        f[('col', c)] = s
    f['$index'] = SSeq(n, lambda j: SInt(E.z(j), True), 'index')
    return E.alloc(Rec('df', None, f))


# ---------------------------------------------------------------- builtins
@lib('builtins.len')
def _len(E, x):
    x = E.force(x)
    if isinstance(x, str):
        return len(x)
    if isinstance(x, MapView):
        raise Unsupported('len of view')
    if isinstance(x, Ref):
        r = E.rec(x)
        if r.kind == 'dict':
            if '$sym' in r.f:
                raise Unsupported('len of symbolic dict')
            return len(r.f)
        if r.kind == 'inst':
            m, _ = r.cls.lookup('__len__')
            if m is not None:
                return E.call(BoundM(m[1], x), [], {})
            if '$base' in r.f:
                return E.mk_int(E.z(r.f['$base'].n))
            raise PyExc(TypeError, 'no len')
    if isinstance(x, FInst):
        m, _ = x.cls.lookup('__len__')
        if m is not None:
            return E.call(BoundM(m[1], x), [], {})
        raise PyExc(TypeError, 'no len')
    if isinstance(x, Opaque) and hasattr(x, 'length'):
        return x.length(E)
    s = E.seq(x)
    if s is None:
        if x is None or isinstance(x, (int, SInt, bool, SBool, GenV, STs, SPeriod, SReal)):
            raise PyExc(TypeError, 'no len')
        raise Unsupported('len of %r' % (x,))
    n = E.seq_n(s)
    return n if isinstance(n, int) else E.mk_int(n)


@lib('builtins.range')
def _range(E, a, b=None, step=1):
    if b is None:
        a, b = 0, a
    if any(E.is_np(x) for x in (a, b)):
        pass
    ea, eb = E.as_int(a), E.as_int(b)
    if ea is None or eb is None:
        raise PyExc(TypeError, 'range')
    if not isinstance(step, int) or step not in (1, -1):
        raise Unsupported('range step')
    if isinstance(a, int) and isinstance(b, int):
        return tuple(range(a, b, step)) if abs(b - a) <= 200 else SSeq(max(0, (b - a) * step), lambda j: E.mk_int(ea + step * E.z(j)), 'range', theory=(a, b))
    d = eb - ea if step == 1 else ea - eb
    if E.branch(d <= 0):
        return ()
    n = z3.simplify(d)
    return SSeq(n, lambda j: E.mk_int(ea + step * E.z(j)), 'range', theory=(ea, eb) if step == 1 else None, sorted_=step == 1)


def minmax(E, args, kwargs, lt):
    if kwargs:
        raise Unsupported('min/max options')
    if len(args) == 1:
        args = E.as_tuple(args[0], 'min/max')
    if not args:
        raise PyExc(ValueError)
    v = E.force(args[0])
    for x in args[1:]:
        x = E.force(x)
        c = E.compare('<' if lt else '>', x, v)
        v = E.ite(E.zbool(c) if not isinstance(c, bool) else c, x, v)
    return v


@lib('builtins.min')
def _min(E, *args, **kw):
    return minmax(E, args, kw, True)


@lib('builtins.max')
def _max(E, *args, **kw):
    return minmax(E, args, kw, False)


@lib('builtins.abs')
def _abs(E, x):
    if isinstance(x, STd):
        return STd(z3.If(x.e < 0, -x.e, x.e))
    e = E.as_int(x)
    if e is None:
        raise Unsupported('abs')
    return E.mk_int(z3.If(e < 0, -e, e), E.is_np(x))


@lib('builtins.sum', 'numpy.sum')
def _sum(E, x, start=0):
    return E.sum_seq(E.drain(x), start)


@lib('builtins.bool')
def _bool(E, x=False):
    t = E.truth(x)
    return t if isinstance(t, bool) else E.mk_bool(t)


class Digits(Opaque):
    """a written number"""

    def __init__(self, e):
        Opaque.__init__(self, 'digits', null=False, truth=True)
        self.e = e


@lib('re.match')
def _re_match(E, pat, x, flags=0):
    if pat != r'(^\d*)([A-Z-]+)' or not isinstance(x, FText) or flags != 0:
        raise Unsupported('re.match')
    if not x.match:
        return None
    groups = {1: '' if x.digits is None else Digits(x.digits), 2: FText(None, x.den)}

    def group(E, i=0):
        if i not in groups:
            raise Unsupported('group %r' % (i,))
        return groups[i]
    return Opaque('match', null=False, truth=True, attrs={'group': NativeV('group', group)})


@lib('pandas.tseries.frequencies.is_subperiod')
def _is_subperiod(E, a, b):
    if not isinstance(a, FText) or not isinstance(b, FText):
        raise Unsupported('is_subperiod')
    sub = FSUB(*(a.key() + b.key()))
    return Union([(sub, True), (z3.Not(sub), E.choose([False, None]))])


@lib('builtins.int')
def _int(E, x=0):
    if isinstance(x, Digits):
        return E.mk_int(x.e)
    if isinstance(x, SReal):
        return E.mk_int(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    if isinstance(x, float):
        return int(x)
    e = E.as_int(x)
    if e is None:
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                raise PyExc(ValueError)
        if x is None:
            raise PyExc(TypeError)
        raise Unsupported('int(%r)' % (x,))
    return E.mk_int(e)


@lib('builtins.str', 'builtins.repr')
def _str(E, x=''):
    if isinstance(x, str):
        return x
    if isinstance(x, (bool, int)) or x is None:
        return str(x)
    return TEXT


@lib('builtins.float')
def _float(E, x=0):
    r = E.as_real(x)
    if r is None:
        raise Unsupported('float')
    return SReal(r)


@lib('builtins.list')
def _list(E, x=()):
    if isinstance(x, MapView):
        return x
    if isinstance(x, Ref) and E.rec(x).kind == 'set':
        return E.new_list(E.shuffled(E.sorted_distinct(E.rec(x).f['v'])))
    return E.new_list(E.drain(x))


@lib('builtins.tuple')
def _tuple(E, x=()):
    s = E.drain(x)
    return s if isinstance(s, tuple) else s.copy(kind='tuple')


@lib('builtins.dict', 'collections.OrderedDict')
def _dict(E, *a, **kw):
    d = E.alloc(Rec('dict', None, {}))
    if a:
        x = a[0]
        if isinstance(x, Ref) and E.rec(x).kind == 'dict':
            E.put(d, E.rec(x))
        else:
            for p in E.as_tuple(x, 'dict()'):
                k, v = E.as_tuple(p, 'pair')
                E.setitem(d, k, v)
    for k, v in kw.items():
        E.setitem(d, k, v)
    return d


@lib('builtins.set')
def _set(E, x=()):
    s = E.drain(x)
    return E.alloc(Rec('set', None, {'v': s}))


@lib('builtins.sorted')
def _sorted(E, x, **kw):
    if kw:
        raise Unsupported('sorted options')
    if isinstance(x, Ref) and E.rec(x).kind == 'set':
        return E.new_list(E.sorted_distinct(E.rec(x).f['v']))
    s = E.drain(x)
    if isinstance(s, SSeq) and s.sorted_:
        return E.new_list(s)
    if isinstance(s, SSeq) and s.theory and s.theory[0] == 'shuffle':
        return E.new_list(s.theory[1])
    return E.new_list(E.sorted_seq(s, False))


@lib('numpy.unique')
def _unique(E, x):
    s = E.sorted_distinct(E.drain(x))
    return E.arr(s if isinstance(s, SSeq) else E.to_sseq(s, 'array'), 'int')


@lib('numpy.sort')
def _npsort(E, x):
    s = E.drain(x)
    if not (isinstance(s, SSeq) and s.sorted_):
        s = E.sorted_seq(s, False)
    return s.copy(kind='dtindex') if isinstance(s, SSeq) and s.kind == 'dtindex' else E.arr(E.to_sseq(s, 'array'))


@method
def shuffled(self, s):
    """the members of s in an unspecified order"""
    n = self.z(self.seq_n(s))
    if isinstance(s, tuple) and len(s) <= 1:
        return s
    p = self.fresh_fun('shuffle', z3.IntSort(), z3.IntSort())
    q = self.fresh_fun('unshuffle', z3.IntSort(), z3.IntSort())
    self.pc.append(self.forall(0, n, lambda j: z3.And(p(j) >= 0, p(j) < n, q(p(j)) == j), pats=lambda j: [p(j)]))
    self.pc.append(self.forall(0, n, lambda j: z3.And(q(j) >= 0, q(j) < n, p(q(j)) == j), pats=lambda j: [q(j)]))
    return SSeq(n, lambda j: self.seq_at(s, p(self.z(j))), 'list', theory=('shuffle', s))


@method
def sorted_distinct(self, s):
    return self.sorted_seq(s, True)


@method
def sorted_seq(self, s, distinct):
    """ascending sequence with the same members as s (duplicates removed if distinct)"""
    if isinstance(s, tuple) and len(s) <= 1:
        return s
    n = self.z(self.seq_n(s))
    at = lambda k: scalar(self, self.seq_at(s, k))
    if not distinct:
        g = self.fresh_fun('so', z3.IntSort(), z3.IntSort())
        src = self.fresh_fun('sosrc', z3.IntSort(), z3.IntSort())
        inv = self.fresh_fun('soinv', z3.IntSort(), z3.IntSort())
        pr = self.seq_at(s, fresh_index()) if isinstance(s, SSeq) else s[0]
        self.pc.append(self.forall2(0, n, lambda i, j: z3.Implies(i < j, g(i) <= g(j)), pats=lambda i, j: [(g(i), g(j))]))
        self.pc.append(self.forall(0, n, lambda i: z3.And(src(i) >= 0, src(i) < n, g(i) == at(src(i)), inv(src(i)) == i), pats=lambda i: [g(i)]))
        self.pc.append(self.forall(0, n, lambda k: z3.And(inv(k) >= 0, inv(k) < n, g(inv(k)) == at(k), src(inv(k)) == k), pats=lambda k: trig(at(k), k) or None))
        self.memo.setdefault('sorts', []).append((g, src, inv, n, at))
        wrap = (lambda e: STs(e)) if isinstance(self.force(pr), STs) else (lambda e: SInt(e, self.is_np(pr)))
        return SSeq(n, lambda j: wrap(g(self.z(j))), 'list', sorted_=True, theory=('so', g, src, inv, n, at))
    r = self.size('sdn')
    g = self.fresh_fun('sd', z3.IntSort(), z3.IntSort())
    src = self.fresh_fun('sdsrc', z3.IntSort(), z3.IntSort())
    inv = self.fresh_fun('sdinv', z3.IntSort(), z3.IntSort())
    pr = self.seq_at(s, fresh_index()) if isinstance(s, SSeq) else s[0]
    self.pc.append(z3.And(r <= n, z3.Implies(n > 0, r > 0)))
    self.pc.append(self.forall2(0, r, lambda i, j: z3.Implies(i < j, g(i) < g(j)), pats=lambda i, j: [(g(i), g(j))]))
    self.pc.append(self.forall(0, r, lambda i: z3.And(src(i) >= 0, src(i) < n, g(i) == at(src(i))), pats=lambda i: [g(i)]))
    self.pc.append(self.forall(0, n, lambda k: z3.And(inv(k) >= 0, inv(k) < r, g(inv(k)) == at(k)), pats=lambda k: trig(at(k), k) or None))
    wrap = (lambda e: STs(e)) if isinstance(self.force(pr), STs) else (lambda e: SInt(e, self.is_np(pr)))
    return SSeq(r, lambda j: wrap(g(self.z(j))), 'list', sorted_=True, theory=('sd', g, src, inv, r, n, at))


@lib('builtins.isinstance')
def _isinstance(E, x, t):
    if isinstance(t, tuple):
        out = False
        for y in t:
            out = _isinstance(E, x, E.force(y))
            if out:
                return True
        return out
    if isinstance(t, ClassV):
        c = E.class_of(x)
        if isinstance(x, Opaque) and 'isinst' in x.__dict__:
            return x.isinst(t)
        return isinstance(c, ClassV) and t in c.mro()
    if isinstance(t, NTClass):
        return isinstance(x, NT) and x.cls is t
    if not isinstance(t, LibV):
        raise Unsupported('isinstance of %r' % (t,))
    n = t.name
    if isinstance(x, Opaque) and 'isinst' in x.__dict__:
        return x.isinst(t)
    if isinstance(x, SPlain) and (n.endswith('.Iterable') or n in ('builtins.str', 'builtins.list', 'builtins.tuple', 'builtins.dict')):
        return False
    if isinstance(x, SObj):
        raise Unsupported('type of a label')
    if n in ('builtins.int', 'numbers.Integral'):
        if n == 'numbers.Integral':
            return isinstance(x, (bool, int, SInt)) or (isinstance(x, SBool) and not x.np)
        return isinstance(x, (bool, int)) or (isinstance(x, (SInt, SBool)) and not x.np)
    if n in ('numpy.integer', 'numpy.int64'):
        return isinstance(x, SInt) and x.np
    if n == 'builtins.bool':
        return isinstance(x, bool) or (isinstance(x, SBool) and not x.np)
    if n == 'builtins.float':
        return isinstance(x, (float, SReal))
    if n in ('builtins.str',):
        return isinstance(x, (str, OpaqueStr))
    if n == 'builtins.tuple':
        return isinstance(x, (tuple, NT)) or (isinstance(x, SSeq) and x.kind == 'tuple')
    if n == 'builtins.list':
        return isinstance(x, Ref) and E.rec(x).kind == 'list'
    if n == 'builtins.dict' or n.endswith('.Mapping'):
        return isinstance(x, Ref) and E.rec(x).kind in ('dict', 'map')
    if n == 'pandas.Period':
        return isinstance(x, SPeriod)
    if n == 'pandas.Timestamp':
        return isinstance(x, STs)
    if n == 'pandas.Series':
        return isinstance(x, Ref) and E.rec(x).kind == 'series'
    if n == 'builtins.slice':
        return isinstance(x, slice)
    if n in ('numpy.ndarray',):
        return isinstance(x, Ref) and E.rec(x).kind == 'array'
    if n.endswith('.Iterable'):
        if isinstance(x, (tuple, SSeq, str, OpaqueStr, GenV, NT)):
            return True
        if isinstance(x, Ref):
            r = E.rec(x)
            if r.kind != 'inst':
                return True
            return r.cls.lookup('__iter__')[0] is not None or '$base' in r.f
        if isinstance(x, FInst):
            return x.cls.lookup('__iter__')[0] is not None
        return False
    if n == 'builtins.object':
        return True
    raise Unsupported('isinstance(..., %s)' % n)


@lib('builtins.issubclass')
def _issubclass(E, x, t):
    return isinstance(x, ClassV) and isinstance(t, ClassV) and t in x.mro()


@lib('builtins.type')
def _type(E, x):
    c = E.class_of(x)
    if isinstance(c, ClassV):
        return c
    return LibV('type:' + type(x).__name__)


@lib('builtins.hasattr')
def _hasattr(E, x, name):
    try:
        E.getattr_(x, name)
        return True
    except PyExc as ex:
        if 'AttributeError' in exc_classes(ex.cls):
            return False
        raise


@lib('builtins.getattr')
def _getattr(E, x, name, *d):
    try:
        return E.getattr_(x, name)
    except PyExc as ex:
        if d and 'AttributeError' in exc_classes(ex.cls):
            return d[0]
        raise


@lib('builtins.setattr')
def _setattr(E, x, name, v):
    E.setattr_(x, name, v)


@lib('builtins.callable')
def _callable(E, x):
    if isinstance(x, (FuncV, BoundM, NativeV, ClassV, LibBound)):
        return True
    if isinstance(x, Opaque):
        return hasattr(x, 'call')
    if isinstance(x, LibV):
        return True
    if isinstance(x, (str, int, float, tuple, SInt, STs)) or x is None:
        return False
    raise Unsupported('callable(%r)' % (x,))


@lib('builtins.id')
def _id(E, x):
    return TEXT


@lib('builtins.next')
def _next(E, it, *d):
    if isinstance(it, GenV):
        it = E.gen_iter(it)
    if isinstance(it, Ref) and E.rec(it).kind == 'inst':
        return E.call(E.getattr_(it, '__next__'), [], {})
    if not (isinstance(it, Ref) and E.rec(it).kind == 'iter'):
        raise PyExc(TypeError, 'not an iterator')
    try:
        return E.iter_next(it)
    except PyExc as ex:
        if getattr(ex, 'it', None) == it:
            if d:
                return d[0]
            raise PyExc(StopIteration)
        raise


@lib('builtins.iter')
def _iter(E, x):
    return E.get_iter(x)


@lib('builtins.zip')
def _zip(E, *xs):
    return E.make_iter('zip', its=tuple(E.get_iter(x) for x in xs))


@lib('builtins.enumerate')
def _enumerate(E, x, start=0):
    return E.make_iter('zip', its=(E.make_iter('count', pos=start), E.get_iter(x)))


@lib('builtins.map')
def _map(E, f, *xs):
    if len(xs) == 1:
        return E.make_iter('map', fn=f, it=E.get_iter(xs[0]))
    return E.make_iter('map', fn=f, it=E.make_iter('zip', its=tuple(E.get_iter(x) for x in xs)), star=True)


@lib('builtins.reversed')
def _reversed(E, x):
    s = E.seq(x)
    if s is None:
        raise Unsupported('reversed')
    if isinstance(s, tuple):
        return E.make_iter('seq', src=tuple(reversed(s)))
    return E.make_iter('seq', src=SSeq(s.n, lambda j: s.at(z3.simplify(E.z(s.n) - 1 - E.z(j))), 'list'))


def anyall(E, x, stop_on):
    """any/all over any iterable; an arbitrary length is folded into one quantified condition"""
    s = E.drain(x)
    if isinstance(s, tuple):
        for y in s:
            if E.branch(E.truth(y)) == stop_on:
                return stop_on
        return not stop_on
    it = E.make_iter('seq', src=s)

    def step():
        try:
            y = E.iter_next(it)
        except PyExc as ex:
            if 'StopIteration' in exc_classes(ex.cls) and getattr(ex, 'it', None) == it:
                return False
            raise
        if E.branch(E.truth(y)) == stop_on:
            raise ReturnEx(stop_on)
        return True
    try:
        E.run_loop(step, 'any/all', finite=True)
    except ReturnEx as e:
        return e.v
    return not stop_on


@lib('builtins.any')
def _any(E, x):
    return anyall(E, x, True)


@lib('builtins.all')
def _all(E, x):
    return anyall(E, x, False)


@lib('itertools.cycle')
def _cycle(E, x):
    x = E.force(x)
    if isinstance(x, Ref) and E.rec(x).kind == 'inst' and E.rec(x).cls.lookup('__next__')[0] is not None:
        # an iterator: consumed lazily, then repeated
        src = E.get_iter(x)
        return E.cycle_iterator(src)
    if isinstance(x, Ref) and E.rec(x).kind == 'iter':
        return E.cycle_iterator(x)
    s = E.drain(x)
    return E.make_iter('cycle', src=s)


@method
def cycle_iterator(self, it):
    """cycle over an iterator: consumed lazily, repeated when it ends"""
    return self.make_iter('cycle_it', it=it, saved=0)


@lib('itertools.dropwhile')
def _dropwhile(E, f, x):
    return E.make_iter('dropwhile', fn=f, it=E.get_iter(x), started=False)


@lib('itertools.count')
def _count(E, start=0, step=1):
    if step != 1:
        raise Unsupported('count step')
    return E.make_iter('count', pos=start)


@lib('itertools.islice')
def _islice(E, x, *a):
    if len(a) != 1:
        raise Unsupported('islice')
    n = a[0]
    return E.make_iter('zip1', its=(E.get_iter(_range(E, n)), E.get_iter(x)))


@lib('collections.namedtuple')
def _namedtuple(E, name, fields):
    if isinstance(fields, str):
        fl = fields.replace(',', ' ').split()
    else:
        fl = list(E.as_tuple(fields, 'fields'))
    return NTClass(name, fl)


@lib('math.copysign')
def _copysign(E, a, b):
    rb, ra = E.as_real(b), E.as_real(a)
    if ra is None or rb is None:
        raise PyExc(TypeError)
    m = z3.If(ra < 0, -ra, ra)
    return SReal(z3.simplify(z3.If(rb < 0, -m, m)))


@lib('warnings.warn')
def _warn(E, *a, **k):
    return None


# ---------------------------------------------------------------- numpy / pandas
@lib('numpy.searchsorted')
def _searchsorted(E, a, v, side='left', sorter=None):
    if sorter is not None or side not in ('left', 'right'):
        raise Unsupported('searchsorted options')
    s = E.seq(a)
    if s is None:
        raise Unsupported('searchsorted over %r' % (a,))
    return E.searchsorted(s, v, side)


@lib('numpy.nonzero')
def _nonzero(E, a):
    s = E.seq(a)
    if s is None:
        raise Unsupported('nonzero')
    return (E.arr(E.nonzero_seq(s), 'int'),)


@lib('numpy.flatnonzero')
def _flatnonzero(E, a):
    return E.arr(E.nonzero_seq(E.seq(a)), 'int')


@lib('numpy.array', 'numpy.asarray')
def _nparray(E, x, dtype=None):
    s = E.seq(x)
    if s is None:
        if isinstance(x, Ref) and E.rec(x).kind == 'inst' and '$base' in E.rec(x).f:
            s = E.rec(x).f['$base']
        else:
            s = E.drain(x)
    if dtype == LibV('builtins.bool') or dtype == LibV('numpy.bool_') or dtype == 'bool':
        return E.arr(E.bool_seq(s), 'bool')
    if dtype is None or dtype == LibV('builtins.object') or dtype == 'object' or dtype == 'datetime64[ns]' or dtype == LibV('builtins.int'):
        srt = isinstance(s, SSeq) and s.sorted_
        t = E.seqmap(E.to_sseq(s), npv, 'array')
        t.sorted_ = srt
        return E.arr(t)
    raise Unsupported('array dtype %r' % (dtype,))


@lib('numpy.arange')
def _arange(E, a, b=None):
    s = _range(E, a, b)
    s = E.to_sseq(s)
    return E.arr(SSeq(s.n, lambda j, s=s: npv(s.at(E.z(j))), 'array', sorted_=True), 'int')


@lib('numpy.ones')
def _ones(E, n, dtype=None):
    if dtype is None:
        raise Unsupported('float ones')
    d = 'int8' if dtype == LibV('numpy.int8') else ('bool' if dtype in (LibV('builtins.bool'), 'bool') else None)
    if d is None:
        raise Unsupported('ones dtype')
    one_ = SInt(z3.IntVal(1), True) if d == 'int8' else SBool(z3.BoolVal(True), True)
    return E.arr(SSeq(E.zint(n), lambda j: one_, 'array'), d)


@lib('numpy.zeros')
def _zeros(E, n, dtype=None):
    d = 'int8' if dtype == LibV('numpy.int8') else ('bool' if dtype in (LibV('builtins.bool'), 'bool') else None)
    if d is None:
        raise Unsupported('zeros dtype')
    z_ = SInt(z3.IntVal(0), True) if d == 'int8' else SBool(z3.BoolVal(False), True)
    return E.arr(SSeq(E.zint(n), lambda j: z_, 'array'), d)


@lib('numpy.empty')
def _empty(E, n, dtype=None):
    if dtype != LibV('builtins.object'):
        raise Unsupported('empty dtype')
    return E.arr(SSeq(E.zint(n), lambda j: None, 'array'), 'object')


@lib('numpy.concatenate')
def _concat(E, xs):
    xs = E.as_tuple(xs, 'concatenate')
    s = None
    for x in xs:
        q = E.seq(x)
        if q is None:
            raise Unsupported('concatenate')
        q = tuple(npv(v) for v in q) if isinstance(q, tuple) else E.seqmap(q, npv, 'array')
        s = q if s is None else E.concat(s, q)
    return E.arr(E.to_sseq(s))


@lib('pandas.Series')
def _series(E, data=None, index=None, dtype=None):
    if index is None:
        raise Unsupported('Series without index')
    if isinstance(index, Ref) and E.rec(index).kind == 'inst':
        ix = index
        n = E.z(E.rec(index).f['$base'].n)
    else:
        s = E.seq(index)
        if s is None:
            raise Unsupported('series index')
        ix = E.seqmap(E.to_sseq(s), npv, 'index').copy(sorted_=isinstance(s, SSeq) and s.sorted_, theory=s.theory if isinstance(s, SSeq) else None)
        if isinstance(s, SSeq) and s.theory and s.theory[0] == 'nz':
            ix = ix.copy(theory=('strict',))
        n = E.z(ix.n)
    if isinstance(data, GenV):
        data = E.new_list(E.drain(data))
    s = E.seq(data) if not isinstance(data, str) else None
    if s is None:
        if isinstance(data, (Ref, Opaque, GenV)):
            raise Unsupported('series data')
        v = SSeq(n, lambda j: data, 'array')
    else:
        if not E.branch(E.z(E.seq_n(s)) == n):
            raise PyExc(ValueError, 'length of values does not match length of index')
        v = E.seqmap(E.to_sseq(s), npv, 'array').copy(sorted_=isinstance(s, SSeq) and s.sorted_)
    return E.alloc(Rec('series', None, {'v': v, 'index': ix}))


@lib('pandas.Timestamp')
def _timestamp(E, x=None, **kw):
    if isinstance(x, STs):
        return x
    if x is None or x is NAT or x is NAN:
        return NAT
    if isinstance(x, Opaque) and hasattr(x, 'timestamp'):
        return x.timestamp(E)
    if isinstance(x, (tuple,)):
        raise PyExc(TypeError, 'Timestamp')
    if isinstance(x, str) and not kw:
        for fmt in ('%d %b %Y', '%Y-%m-%d', '%d %B %Y'):
            try:
                return STs(z3.IntVal(int((datetime.datetime.strptime(x, fmt) - datetime.datetime(1970, 1, 1)).total_seconds()) * 10 ** 9))
            except ValueError:
                pass
    raise Unsupported('Timestamp(%r)' % (x,))


@lib('pandas.Timedelta')
def _timedelta(E, v, unit=None):
    mul = {'s': 10 ** 9, 'ns': 1, 'S': 10 ** 9, 'ms': 10 ** 6, 'us': 10 ** 3, 'm': 60 * 10 ** 9, 'h': 3600 * 10 ** 9, 'D': 86400 * 10 ** 9}
    if isinstance(v, int) and unit in mul:
        return STd(z3.IntVal(v * mul[unit]))
    raise Unsupported('Timedelta')


@lib('pandas.isnull', 'pandas.isna')
def _isnull(E, x):
    if x is None or x is NAT or x is NAN:
        return True
    if isinstance(x, (STs, SPeriod, int, str, SInt, bool)):
        return False
    if isinstance(x, Ref) and E.rec(x).kind == 'inst':
        return False
    if isinstance(x, FInst):
        return False
    if isinstance(x, tuple):
        return False          # a scalar of type tuple
    if isinstance(x, Ref) and E.rec(x).kind == 'list':
        raise Unsupported('isnull of a list')
    if isinstance(x, Opaque) and 'null' in x.__dict__:
        return x.null
    raise Unsupported('isnull(%r)' % (x,))


@lib('pandas.Period')
def _period(E, x=None, freq=None):
    if isinstance(freq, Opaque) and hasattr(freq, 'period') and isinstance(x, STs):
        return freq.period(E, x)
    raise Unsupported('Period()')


@lib('pandas.period_range')
def _period_range(E, start=None, end=None, periods=None, freq=None):
    if isinstance(freq, FText):
        if not E.branch(FVALID(*freq.key())):
            raise PyExc(ValueError, 'invalid frequency')
        freq = Freq('text')
    if isinstance(freq, Freq) and isinstance(start, str) and end is None and isinstance(periods, int):
        # consecutive periods from the one that holds a fixed date
        f = z3.Function('PERIODS_%s_%s' % (freq.tag, start.replace(' ', '_')), z3.IntSort(), z3.IntSort())
        E.assume(z3.And(*[f(z3.IntVal(i)) < f(z3.IntVal(i + 1)) for i in range(periods)]))
        return SSeq(periods, lambda i: SPeriod(f(E.z(i)), f(E.z(i) + 1) - 1, freq), 'pidx', sorted_=True)
    if not isinstance(freq, Freq) or not isinstance(start, STs) or not isinstance(end, STs) or periods is not None:
        raise Unsupported('period_range()')
    if freq.grid is not None:
        freq.range(E, start.e, end.e)
    if not E.branch(freq.begin(start.e) <= end.e):
        E.assume(freq.begin(start.e) <= start.e)
        return SSeq(0, lambda i: SPeriod(start.e, start.e, freq), 'pidx', sorted_=True)
    n, S = freq.range(E, start.e, end.e)
    return SSeq(n, lambda i: SPeriod(S(E.z(i)), S(E.z(i) + 1) - 1), 'pidx', sorted_=True, theory=('grid', freq))


@method
def pidx_difference(self, a, b):
    """members of a that are not members of b; both are runs of consecutive periods of one frequency: only the number is modelled"""
    if not (isinstance(a, SSeq) and isinstance(b, SSeq) and a.theory and b.theory and a.theory[0] == b.theory[0] == 'grid' and a.theory[1] is b.theory[1]):
        raise Unsupported('difference of periods')
    fr = a.theory[1]
    if fr.grid is None:
        raise Unsupported('difference of periods off the grid')
    na, nb = self.z(self.seq_n(a)), self.z(self.seq_n(b))
    z = z3.IntVal(0)
    la, lb = fr.ordinal(self, z3.simplify(a.at(z).s)), fr.ordinal(self, z3.simplify(b.at(z).s))
    lo = z3.If(la >= lb, la, lb)
    hi = z3.If(la + na <= lb + nb, la + na, lb + nb)
    n = z3.simplify(z3.If(z3.And(na > 0, nb > 0, lo < hi), na - (hi - lo), na))

    def at(j):
        raise Unsupported('member of a difference')
    return SSeq(n, at, 'pidx')


@lib('pandas.PeriodIndex.__new__')
def _pidx_new(E, cls, data=None, freq=None, **kw):
    if not isinstance(cls, ClassV) or not isinstance(data, SSeq) or data.kind != 'pidx' or kw:
        raise Unsupported('PeriodIndex.__new__')
    return E.alloc(Rec('inst', cls, {'$base': data}, open=True))


@lib('pandas.PeriodIndex')
def _pidx(E, x=None, **kw):
    if isinstance(x, Ref) and E.rec(x).kind == 'inst' and '$base' in E.rec(x).f and not kw:
        return E.rec(x).f['$base']
    if isinstance(x, SSeq) and x.kind == 'pidx' and not kw:
        return x
    if isinstance(kw.get('freq'), Freq) and set(kw) == {'freq'}:
        s = E.seq(x)
        fr = kw['freq']
        if isinstance(s, SSeq) and s.kind == 'dtindex':
            # the period that holds each point
            end = z3.Function('PERIOD_END_' + fr.tag, z3.IntSort(), z3.IntSort())
            return SSeq(s.n, lambda j: SPeriod(fr.begin(s.at(E.z(j)).e), end(s.at(E.z(j)).e), fr), 'pidx')
    raise Unsupported('PeriodIndex()')


@lib('pandas.DatetimeIndex')
def _dtidx(E, x=()):
    s = E.seq(x)
    if s is None:
        s = E.drain(x)
    return E.to_sseq(s, 'dtindex') if isinstance(s, tuple) else E.named(s.copy(kind='dtindex'))


@method
def named(self, s):
    """the same points under a name of the specification"""
    if self.bound is None and not self.loopvars:
        for m, is_, name in self.memo.get('points', ()):
            j = fresh_index()
            rng = z3.And(j >= 0, j < m)
            if self.valid(self.z(self.seq_n(s)) == m) and self.valid(z3.Implies(rng, self.seq_at(s, j).e == is_(j)), timeout=10000):
                return SSeq(m, lambda k: STs(name(self.z(k))), s.kind)
    return s


@lib('numpy.isnan')
def _isnan(E, x):
    raise Unsupported('isnan')

"""Builds real boards from specs, runs the public API and compares with the
oracle.  Runs under the interpreter that has timeboard's dependencies."""
import sys
import os
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
import warnings
warnings.simplefilter('ignore')
import pandas as pd
import numpy as np
import timeboard as tb
import timeboard.core as core
import oracle

if not os.path.abspath(tb.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise SystemExit('timeboard was not imported from %s but from %s' % (REPO, tb.__file__))

from timeboard.exceptions import (OutOfBoundsError, PartialOutOfBoundsError,
                                  VoidIntervalError, UnacceptablePeriodError)
EXC = {'OutOfBoundsError': OutOfBoundsError, 'PartialOutOfBoundsError': PartialOutOfBoundsError,
       'VoidIntervalError': VoidIntervalError, 'UnacceptablePeriodError': UnacceptablePeriodError,
       'KeyError': KeyError, 'ValueError': ValueError, 'TypeError': TypeError,
       'StopIteration': StopIteration, 'IndexError': IndexError}


class Mismatch(Exception):
    def __init__(self, what, expected, got, tag=''):
        Exception.__init__(self, '%s: expected %s, got %s' % (what, expected, got))
        self.what, self.expected, self.got, self.tag = what, str(expected), str(got), tag


SOFT = []


def soft(m):
    """record a mismatch and go on"""
    if len(SOFT) < 200:
        SOFT.append(m)


class Stats(object):
    def __init__(self):
        self.n = 0
        self.outcomes = {}

    def hit(self, kind):
        self.n += 1
        self.outcomes[kind] = self.outcomes.get(kind, 0) + 1


ST = Stats()


def call(f):
    try:
        return ('ok', f())
    except Exception as e:      # noqa: any exception of the code under test
        return ('exc', e)


def expect(what, exp, f, conv=None, tag=''):
    """exp: ('ok', value) or ('exc', names); f: thunk; conv(real) -> comparable"""
    got = call(f)
    if got[0] == 'ok' and conv is not None:
        got = call(lambda: conv(got_val(got)))
    if exp[0] == 'ok':
        ST.hit(what.split('(')[0].split(' ')[0] + ':ok')
        if got[0] != 'ok':
            raise Mismatch(what, repr(exp[1]), '%s: %s' % (type(got[1]).__name__, got[1]), tag)
        if not same(got[1], exp[1]):
            raise Mismatch(what, repr(exp[1]), repr(got[1]), tag)
    else:
        ST.hit(what.split('(')[0].split(' ')[0] + ':' + '|'.join(exp[1]))
        if got[0] != 'exc' or not isinstance(got[1], tuple(EXC[n] for n in exp[1])):
            g = repr(got[1]) if got[0] == 'ok' else '%s: %s' % (type(got[1]).__name__, got[1])
            raise Mismatch(what, ' or '.join(exp[1]), g, tag)
        # OutOfBoundsError and its Partial sibling are different answers
        for n, k in (('OutOfBoundsError', OutOfBoundsError), ('PartialOutOfBoundsError', PartialOutOfBoundsError)):
            if type(got[1]) is k and n not in exp[1] and not any(issubclass(k, EXC[x]) for x in exp[1]):
                raise Mismatch(what, ' or '.join(exp[1]), '%s: %s' % (type(got[1]).__name__, got[1]), tag)
    return got


def got_val(g):
    return g[1]


def same(a, b):
    if isinstance(b, float) or isinstance(a, float):
        try:
            if a != a and b != b:
                return True
            return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
        except TypeError:
            return False
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (np.integer,)):
        a = int(a)
    if isinstance(a, (np.bool_,)):
        a = bool(a)
    if isinstance(b, bool) != isinstance(a, bool) and (isinstance(a, str) or isinstance(b, str)):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def samelabel(a, b):
    if type(a) is not type(b) and not (isinstance(a, (int, float, np.number)) and isinstance(b, (int, float, np.number))):
        return False
    return same(a, b)


# ------------------------------------------------------------- real objects
GIVEN = []
RECORD = []


def given(x):
    """an argument that must stay as it is"""
    if RECORD:
        GIVEN.append((x, repr(x)))
    return x


def real_layout(lay, rps):
    if 'org' in lay:
        return real_org(lay['org'], rps)
    if 'rp' in lay:
        return real_rp(lay, rps)
    if 'lab' in lay:
        return lay['lab']
    return given(list(lay['pat']))


def real_rp(lay, rps):
    if lay['rp'] not in rps:
        rps[lay['rp']] = tb.RememberingPattern(given(list(lay['rp_labels'])))
    return rps[lay['rp']]


def real_org(org, rps):
    st = org['structure']
    st = real_rp(st, rps) if isinstance(st, dict) else given([real_layout(x, rps) for x in st])
    if org.get('marks') is not None:
        return tb.Organizer(marks=given(list(org['marks'])), structure=st)
    mk = org['marker']
    if mk.get('at'):
        kw = {'each': mk['each'], 'at': given([given(dict(k)) for k in mk['at']])}
        if mk.get('how'):
            kw['how'] = mk['how']
        m = tb.Marker(**kw)
    else:
        m = mk['each']
    return tb.Organizer(marker=m, structure=st)


def selector(name):
    return oracle.SELECTORS[name]


def real_args(spec, rps=None):
    rps = {} if rps is None else rps
    kw = {}
    if spec.get('workshift_ref'):
        kw['workshift_ref'] = spec['workshift_ref']
    if spec.get('worktime_source'):
        kw['worktime_source'] = spec['worktime_source']
    if spec.get('selector'):
        kw['default_selector'] = selector(spec['selector'])
    if 'default_label' in spec:
        kw['default_label'] = spec['default_label']
    if spec.get('amendments'):
        from collections import OrderedDict
        kw['amendments'] = given(OrderedDict((k, v) for k, v in spec['amendments']))
    start, end = spec['start'], spec['end']
    if spec.get('as_ts'):
        start, end = pd.Timestamp(start), pd.Timestamp(end)
    return dict(base_unit_freq=spec['freq'], start=start, end=end,
                layout=real_layout(spec['layout'], rps), **kw)


def build(spec, rps=None):
    return tb.Timeboard(**real_args(spec, rps))


# observers through the public API
def ws_tuple(w):
    return (w.start_time.value, w.end_time.value)


def T(ns):
    return pd.Timestamp(ns)


class Pair(object):
    """a real board together with its oracle"""

    def __init__(self, spec):
        self.spec = spec
        self.o = oracle.OBoard(spec)
        self.r = build(spec)
        self.turn = 0
        self.by_start = {self.o.ws_start(i): i for i in range(len(self.o))}

    def loc(self, w):
        """number of a real workshift, by its start time"""
        s = w.start_time.value
        if s not in self.by_start:
            raise Mismatch('workshift start_time', 'start of a workshift', str(w.start_time))
        i = self.by_start[s]
        if w.end_time.value != self.o.ws_end(i):
            raise Mismatch('workshift end_time', T(self.o.ws_end(i)), w.end_time)
        return i

    def ivl(self, v):
        """bounds of a real interval"""
        a, b = self.by_start.get(v.start_time.value), None
        if a is None:
            raise Mismatch('interval start_time', 'start of a workshift', str(v.start_time))
        for k in range(a, len(self.o)):
            if self.o.ws_end(k) == v.end_time.value:
                b = k
        if b is None:
            raise Mismatch('interval end_time', 'end of a workshift', str(v.end_time))
        if v.length != b - a + 1 or len(v) != b - a + 1:
            raise Mismatch('interval length', b - a + 1, v.length)
        return (a, b)

    def ws(self, i):
        """workshift i, obtained in one of the ways a user may get it"""
        self.turn += 1
        k = self.turn % 7
        if k == 3:
            return tb.Workshift(self.r, i)
        if k == 5:
            return self.r.get_interval().nth(i, duty='any')
        w = self.r.get_workshift(T(self.o.ws_start(i) if k % 2 else self.o.ws_end(i)))
        if k == 6:
            return w.rollforward(0, duty='any')
        return w

    def interval(self, a, b):
        self.turn += 1
        k = self.turn % 5
        if k == 2:
            return tb.Interval(self.r, (a, b))
        if k == 4:
            return tb.Interval(self.r, (self.ws(a), self.ws(b)))
        return self.r.get_interval((T(self.o.ws_start(a)), T(self.o.ws_start(b))))

    def add_scheds(self, names):
        for n in names:
            self.r.add_schedule(n, selector(n))
            self.o.sched[n] = n

"""Independent reference semantics of timeboards (the oracle).

Nothing here imports timeboard.  Calendar arithmetic is done on integer
nanoseconds; pandas.Period (a trusted dependency) is used only to find the
calendar period that contains an instant and to step to the next one.
Board specs are JSON values, so that a failing case can be written to a replay
file and re-run.
"""
import bisect
import calendar
import datetime
import numpy as np
import pandas as pd

NS_DAY = 86400 * 10 ** 9


def ts(x):
    """ns value of a Timestamp-like JSON value"""
    if isinstance(x, int):
        return x
    return pd.Timestamp(x).value


def per(ns, freq):
    return pd.Period(pd.Timestamp(ns), freq=freq)


def pstart(p):
    return p.start_time.value


def pend(p):
    return (p + 1).start_time.value - 1


class Refused(Exception):
    """the oracle expects construction to raise the named exception"""

    def __init__(self, *names):
        Exception.__init__(self, ','.join(names))
        self.names = set(names)


class DontKnow(Exception):
    """case is outside what the property pins down"""


# ---------------------------------------------------------------- easter
def easter_western(y):
    # Anonymous Gregorian algorithm
    a = y % 19
    b, c = divmod(y, 100)
    d, e = divmod(b, 4)
    g = (8 * b + 13) // 25
    h = (19 * a + b - d - g + 15) % 30
    i, k = divmod(c, 4)
    l = (32 + 2 * e + 2 * i - h - k) % 7
    m = (a + 11 * h + 22 * l) // 451
    month, day = divmod(h + l - 7 * m + 114, 31)
    return datetime.date(y, month, day + 1)


def easter_orthodox(y):
    # Meeus Julian algorithm; result converted to the Gregorian calendar
    # by way of the Julian day number
    a, b, c = y % 4, y % 7, y % 19
    d = (19 * c + 15) % 30
    e = (2 * a + 4 * b - d + 34) % 7
    month, day = divmod(d + e + 114, 31)
    day += 1
    aa = (14 - month) // 12
    yy = y + 4800 - aa
    mm = month + 12 * aa - 3
    jdn = day + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - 32083
    return datetime.date.fromordinal(jdn - 1721425)


def dateoffset(kw):
    # no arguments: no shift (pandas' own default would be one day)
    return pd.DateOffset(**(kw or {'days': 0}))


def date_ns(d):
    return (d - datetime.date(1970, 1, 1)).days * NS_DAY


def nth_weekday(year, month, weekday, n):
    """date of the n-th (n<0: from the end) weekday (1=Mon) of the month or None"""
    last = calendar.monthrange(year, month)[1]
    days = [d for d in range(1, last + 1)
            if datetime.date(year, month, d).isoweekday() == weekday]
    k = n - 1 if n > 0 else len(days) + n
    if 0 <= k < len(days):
        return datetime.date(year, month, days[k])
    return None


def rule_points(p, how, kw, unit_freq):
    """points (ns) the marker rule defines in calendar period p"""
    s, e = pstart(p), pend(p)
    if how == 'from_start_of_each':
        probe = pd.Timestamp('01 Jan 2004')
        off = dateoffset(kw)
        if probe + off < probe:
            return []
        x = (pd.Timestamp(s) + off).value
        x = pstart(per(x, unit_freq))
        return [x] if s <= x <= e else []
    if how == 'nth_weekday_of_month':
        t = pd.Timestamp(s)
        m0 = t.year * 12 + t.month - 1 + kw['month'] - 1
        y, m = divmod(m0, 12)
        if date_ns(datetime.date(y, m + 1, 1)) > e:
            return []
        d = nth_weekday(y, m + 1, kw['weekday'], kw['week'])
        if d is None:
            return []
        x = date_ns(d) + (kw.get('shift') or 0) * NS_DAY
        return [x] if s <= x <= e else []
    if how in ('from_easter_western', 'from_easter_orthodox'):
        f = easter_western if how.endswith('western') else easter_orthodox
        out = []
        off = dateoffset({('days' if k == 'shift' else k): v for k, v in kw.items()})
        for y in range(pd.Timestamp(s).year, pd.Timestamp(e).year + 1):
            x = date_ns(f(y))
            if s <= x <= e:
                x = (pd.Timestamp(x) + off).value
                x = pstart(per(x, unit_freq))
                if s <= x <= e:
                    out.append(x)
        return out
    raise ValueError(how)


# ---------------------------------------------------------------- the board
def base_units(freq, start, end):
    s, e = ts(start), ts(end)
    p = per(s, freq)
    if pstart(p) > e:
        # the period containing end precedes the one containing start
        raise Refused('VoidIntervalError')
    out = []
    while pstart(p) <= e:
        out.append((pstart(p), pend(p)))
        p = p + 1
    return out


SELECTORS = {
    'truthy': lambda x: bool(x),
    'gt1': lambda x: x > 1,
    'le1': lambda x: x <= 1,
    'odd': lambda x: x % 2,            # non-bool truth value
    'never': lambda x: False,
    'always': lambda x: True,
    'str': lambda x: isinstance(x, str),
    'eqA': lambda x: x == 'A',
    'none': lambda x: None,            # falsy, not a bool
    'boxed': lambda x: [x] if x else [],
    'npbool': lambda x: np.bool_(bool(x)),
}
NUMERIC_SELECTORS = ['truthy', 'gt1', 'le1', 'odd', 'never', 'always', 'none', 'boxed', 'npbool']
ANY_SELECTORS = ['truthy', 'never', 'always', 'str', 'eqA', 'boxed', 'npbool']


def is_freq_multiple(f):
    return f[0].isdigit()


class OBoard(object):
    def __init__(self, spec, rp_state=None):
        self.spec = spec
        self.freq = spec['freq']
        self.bu = base_units(spec['freq'], spec['start'], spec['end'])
        self.bstarts = [b[0] for b in self.bu]
        n = len(self.bu)
        self.lab = [spec.get('default_label')] * n
        self.head = [True] * n
        self.rp = {} if rp_state is None else rp_state   # id -> drawn so far
        lay = spec['layout']
        if 'org' in lay:
            self._organize(lay['org'], 0, n - 1)
        else:
            self._fill(lay, 0, n - 1, 0)
        firsts = [i for i in range(n) if self.head[i]]
        self.ws = []
        for k, f in enumerate(firsts):
            l = firsts[k + 1] - 1 if k + 1 < len(firsts) else n - 1
            self.ws.append([f, l, self.lab[f]])
        self.wstarts = [self.bu[w[0]][0] for w in self.ws]
        seen = set()
        for k, v in spec.get('amendments') or []:
            i = self.at(ts(k))
            if i is None:
                continue
            if i in seen:
                raise Refused('KeyError')
            seen.add(i)
            self.ws[i][2] = v
        self.refend = spec.get('workshift_ref', 'start') == 'end'
        self.sched = {'on_duty': spec.get('selector') or 'truthy'}

    # -- layout
    def _fill(self, lay, first, last, skip):
        labels = lay['rp_labels'] if 'rp' in lay else lay['pat']
        if 'rp' in lay:
            pos = self.rp.get(lay['rp'], 0)
            if skip is None:
                raise Refused('OutOfBoundsError')
            pos += skip
            for i in range(first, last + 1):
                self.lab[i] = labels[pos % len(labels)]
                pos += 1
            self.rp[lay['rp']] = pos
            return
        if skip is None:
            raise Refused('OutOfBoundsError')
        if not labels:
            return
        for i in range(first, last + 1):
            self.lab[i] = labels[(i - first + skip) % len(labels)]

    def _unit_of(self, x):
        """index of the base unit containing instant x, or None"""
        if x < self.bu[0][0] or x > self.bu[-1][1]:
            return None
        return bisect.bisect_right(self.bstarts, x) - 1

    def _units_between(self, a, first):
        """base units starting in [a, start of unit `first`)"""
        s = self.bu[first][0]
        p = per(a, self.freq)
        k = 0
        while pstart(p) < s:
            k += 1
            p = p + 1
        return k

    def _organize(self, org, first, last):
        s, e = self.bu[first][0], self.bu[last][1]
        cuts = set()
        skip = 0
        if org.get('marks') is not None:
            for m in org['marks']:
                u = self._unit_of(ts(m))
                if u is not None:
                    cuts.add(u)
        else:
            mk = org['marker']
            each = mk['each']
            if not mk.get('at'):
                p = per(s, each)
                if pstart(p) < s:
                    skip = self._units_between(pstart(p), first)
                p = p + 1
                while pstart(p) <= e:
                    u = self._unit_of(pstart(p))
                    if self.bu[u][0] != pstart(p):
                        raise Refused('UnacceptablePeriodError')
                    cuts.add(u)
                    p = p + 1
            else:
                how = mk.get('how', 'from_start_of_each')
                p = per(s, each)
                near = p - 1
                p = p - 4
                pts = []
                nearpts = []
                while pstart(p) <= e or True:
                    new = []
                    for kw in mk['at']:
                        new += rule_points(p, how, kw, self.freq)
                    pts += new
                    if pstart(p) >= pstart(near):
                        nearpts += new
                    p = p + 1
                    if pstart(p) > e + 70 * NS_DAY and len(pts) >= 0:
                        break
                for x in pts:
                    u = self._unit_of(x)
                    if u is not None:
                        cuts.add(u)
                before = [x for x in pts if x <= s]
                nearbefore = [x for x in nearpts if x <= s]
                if not before:
                    skip = None
                elif not nearbefore:
                    skip = 'either'
                else:
                    skip = self._units_between(max(nearbefore), first)
        cuts = sorted(c for c in cuts if first < c <= last)
        bounds = [first] + cuts + [last + 1]
        struct = org['structure']
        if isinstance(struct, dict):           # structure is a remembering pattern
            rp = struct
        else:
            rp = None
            if not struct:
                return
        for j in range(len(bounds) - 1):
            a, b = bounds[j], bounds[j + 1] - 1
            if rp is not None:
                pos = self.rp.get(rp['rp'], 0)
                el = {'lab': rp['rp_labels'][pos % len(rp['rp_labels'])]}
                self.rp[rp['rp']] = pos + 1
            else:
                el = struct[j % len(struct)]
            if 'org' in el:
                self._organize(el['org'], a, b)
            elif 'lab' in el:
                self.lab[a] = el['lab']
                for i in range(a + 1, b + 1):
                    self.head[i] = False
            else:
                sk = skip if j == 0 else 0
                if sk == 'either':
                    raise DontKnow()
                self._fill(el, a, b, sk)

    # -- locations
    def __len__(self):
        return len(self.ws)

    @property
    def start(self):
        return self.bu[0][0]

    @property
    def end(self):
        return self.bu[-1][1]

    def at(self, x):
        if x < self.start or x > self.end:
            return None
        return bisect.bisect_right(self.wstarts, x) - 1

    def ws_start(self, i):
        return self.bu[self.ws[i][0]][0]

    def ws_end(self, i):
        return self.bu[self.ws[i][1]][1]

    def ws_ref(self, i):
        return self.ws_end(i) if self.refend else self.ws_start(i)

    def dur(self, i):
        return self.ws[i][1] - self.ws[i][0] + 1

    def label(self, i):
        return self.ws[i][2]

    # -- duties
    def is_on(self, i, sched='on_duty'):
        return bool(SELECTORS[self.sched[sched]](self.label(i)))

    def duty_list(self, duty, sched='on_duty', lo=0, hi=None):
        hi = len(self.ws) - 1 if hi is None else hi
        if duty == 'any':
            return list(range(lo, hi + 1))
        want = duty == 'on'
        return [i for i in range(lo, hi + 1) if self.is_on(i, sched) == want]

    def roll(self, i, steps, duty, sched, forward):
        if duty in ('same', 'alt'):
            on = self.is_on(i, sched)
            duty = 'on' if on == (duty == 'same') else 'off'
        elif duty not in ('on', 'off', 'any'):
            return ('exc', ('ValueError',))
        lst = self.duty_list(duty, sched)
        if forward:
            cand = [k for k, w in enumerate(lst) if w >= i]
            if not cand:
                return ('exc', ('OutOfBoundsError',))
            k = cand[0] + steps
        else:
            cand = [k for k, w in enumerate(lst) if w <= i]
            if not cand:
                return ('exc', ('OutOfBoundsError',))
            k = cand[-1] - steps
        if not 0 <= k < len(lst):
            return ('exc', ('OutOfBoundsError',))
        return ('ok', lst[k])

    # -- intervals: every method returns ('ok', (a, b)) or ('exc', names)
    def _side(self, x):
        return -1 if x < self.start else (1 if x > self.end else 0)

    def by_points(self, a, b, closed):
        if closed not in ('00', '01', '10', '11'):
            return ('exc', ('ValueError',))
        last = len(self.ws) - 1
        pa = 0 if a is None else self.at(a)
        pb = last if b is None else self.at(b)
        sa = 0 if a is None else self._side(a)
        sb = 0 if b is None else self._side(b)
        if sa == 0 and sb == 0:
            pa += closed[0] == '0'
            pb -= closed[1] == '0'
            return ('ok', (pa, pb)) if pa <= pb else ('exc', ('VoidIntervalError',))
        if sa > sb:
            return ('exc', ('VoidIntervalError',))
        if sa == sb:
            return ('exc', ('OutOfBoundsError',))
        return ('exc', ('PartialOutOfBoundsError',))

    def by_length(self, x, n, closed):
        if closed not in ('00', '01', '10', '11'):
            return ('exc', ('ValueError',))
        if n == 0:
            return ('exc', ('VoidIntervalError',))
        i = self.at(x)
        if i is None:
            return ('exc', ('OutOfBoundsError',))
        a, b = (i, i + n - 1) if n > 0 else (i + n + 1, i)
        if a < 0 or b >= len(self.ws):
            return ('exc', ('PartialOutOfBoundsError',))
        a += closed[0] == '0'
        b -= closed[1] == '0'
        return ('ok', (a, b)) if a <= b else ('exc', ('VoidIntervalError',))

    def by_period(self, ps, pe, clip, closed):
        """ps..pe: first and last instant of the period"""
        if closed not in ('00', '01', '10', '11'):
            return ('exc', ('ValueError',))
        inside = [i for i in range(len(self.ws)) if ps <= self.ws_ref(i) <= pe]
        over_l = ps < self.start
        over_r = pe > self.end
        # the board's workshifts may also run out on a side within the board:
        # e.g. workshifts are referenced by start, and the last one starts
        # before the period while the period ends inside the board
        if not inside:
            if over_l or over_r:
                return ('exc', ('OutOfBoundsError',))
            return ('exc', ('VoidIntervalError',))
        if (over_l or over_r) and not clip:
            return ('exc', ('PartialOutOfBoundsError',))
        a, b = inside[0], inside[-1]
        if closed[0] == '0' and not over_l:
            a += 1
        if closed[1] == '0' and not over_r:
            b -= 1
        return ('ok', (a, b)) if a <= b else ('exc', ('VoidIntervalError',))

    def count_periods(self, a, b, freq, duty, sched):
        if freq not in ('S', 'T', 'min', 'H', 'D', 'W', 'M', 'Q', 'A', 'Y'):
            return ('exc', ('UnacceptablePeriodError',))
        mine = self.duty_list(duty, sched, a, b)
        # periods touched by the interval
        p = per(self.ws_start(a), freq)
        stop = self.ws_end(b)
        short = False
        k = 0
        while pstart(p) <= stop:
            k += 1
            if k > 3000:
                raise DontKnow()
            ps, pe = pstart(p), pend(p)
            if ps >= self.start and pe <= self.end:
                if not any(ps <= self.ws_ref(i) <= pe for i in self._near(ps, pe)):
                    short = True
            p = p + 1
        if not mine:
            if short:
                return ('exc?', 0.0, ('UnacceptablePeriodError',))
            return ('ok', 0.0)
        groups = {}
        for i in mine:
            q = per(self.ws_ref(i), freq)
            groups.setdefault(pstart(q), [pend(q), 0])[1] += 1
        keys = sorted(groups)
        oob = False
        for key in (keys[0], keys[-1]):
            if key < self.start or groups[key][0] > self.end:
                oob = True
        if oob and short:
            return ('exc', ('UnacceptablePeriodError', 'OutOfBoundsError',
                            'PartialOutOfBoundsError'))
        if short:
            return ('exc', ('UnacceptablePeriodError',))
        if oob:
            return ('exc', ('OutOfBoundsError', 'PartialOutOfBoundsError'))
        total = 0.0
        for key in keys:
            ps, (pe, n) = key, groups[key]
            whole = [i for i in self._near(ps, pe)
                     if ps <= self.ws_ref(i) <= pe and
                     (duty == 'any' or self.is_on(i, sched) == (duty == 'on'))]
            total += n / float(len(whole))
        return ('ok', total)

    def _near(self, ps, pe):
        i = max(0, bisect.bisect_right(self.wstarts, ps) - 2)
        j = bisect.bisect_right(self.wstarts, pe) + 1
        return range(i, min(j, len(self.ws)))

    def worktime_ws(self, i, duty, sched):
        if duty not in ('on', 'off', 'any'):
            return ('exc', ('ValueError',))
        if duty == 'any' or self.is_on(i, sched) == (duty == 'on'):
            if self.spec.get('worktime_source', 'duration') == 'labels':
                return ('ok', self.label(i))
            return ('ok', self.dur(i))
        return ('ok', 0)

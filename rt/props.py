"""Per-property conformance checks of the real code against the oracle.

Each property has gen(rng) -> case (JSON) and check(case, rng): raises Mismatch.
"""
import copy
import datetime
import random
import warnings
import numpy as np
import pandas as pd
import oracle
import gen
import harness as h
from harness import Mismatch, Pair, expect, call, T, tb, same, samelabel, ST

NS = 1
DAY = oracle.NS_DAY
DUTIES = ['on', 'off', 'any']
CLOSED = ['11', '01', '10', '00']


def board(rng, want=None, **kw):
    for _ in range(50):
        spec = gen.board_valid_amend(gen.gen_board(rng, want, **kw))
        try:
            o = oracle.OBoard(spec)
        except (oracle.Refused, oracle.DontKnow):
            continue
        if len(o.bu) > 6000:
            continue
        return spec
    return {'freq': 'D', 'start': '2017-10-01', 'end': '2017-10-10', 'layout': {'pat': [0, 1]}}


def probes(o, rng, limit=40):
    """instants: unit edges and neighbours, inside and outside the board"""
    pts = []
    for s, e in o.bu:
        pts += [s, e, (s + e) // 2]
    pts = sorted(pts)
    if len(pts) > limit:
        keep = [0, 1, 2, 3, len(pts) - 1, len(pts) - 2, len(pts) - 3]
        pts = [pts[k] for k in keep] + rng.sample(pts, limit - 7)
    pts += [o.start - 1, o.start - DAY, o.end + 1, o.end + DAY, o.start - 400 * DAY, o.end + 400 * DAY]
    # close to the edges of units, of the first and the last one above all
    for s, e in [o.bu[0], o.bu[-1]] + some(rng, o.bu, 3):
        for d in rng.sample(NEAR, 3):
            d = d + rng.choice([0, 0, 1, -1, rng.randint(0, 999)])
            pts += [x for x in (s + d, e - d) if s <= x <= e]
            pts += [s - d, e + d] if rng.random() < 0.3 else []
    return pts


NEAR = [1, 2, 10, 500, 999, 1000, 1001, 10 ** 4, 10 ** 6, 10 ** 7, 10 ** 9, 2 * 10 ** 9, 30 * 10 ** 9, 60 * 10 ** 9, 3599 * 10 ** 9, 3600 * 10 ** 9, 7200 * 10 ** 9, 43200 * 10 ** 9]


def argform(x, rng):
    """the same instant in different documented forms"""
    r = rng.random()
    t = T(x)
    if r < 0.6:
        return t
    if r < 0.8:
        return str(t)
    if r < 0.9 and x % 1000 == 0:
        return t.to_pydatetime()
    return t


def some(rng, seq, k):
    seq = list(seq)
    return seq if len(seq) <= k else rng.sample(seq, k)


# ================================================================= C01
def gen_C01(rng):
    r = rng.random()
    if r < 0.15:
        spec = board(rng, 'pattern')
        # reversed or nearly reversed range
        a = pd.Timestamp(spec['start'])
        d = rng.choice([1, 3600, 86400, 86400 * 3, 86400 * 40])
        spec['end'] = str(a - pd.Timedelta(seconds=d))
        spec['amendments'] = None
        return spec
    freq = rng.choice(['D', 'H', 'T', 'M', 'Q', 'A', 'W', 'W-WED', 'A-JUN', 'Q-NOV', '2D', '3D', '8H', '2M', '4H', '15T', 'S', '2W', '30S', 'D', 'M'])
    n = rng.choice([1, 1, 2, 3, 5, 9, 17, 40, rng.randint(1, 400)])
    y = rng.randint(1700, 2200) if rng.random() < 0.3 else rng.randint(1990, 2030)
    a = pd.Timestamp(year=y, month=rng.randint(1, 12), day=rng.randint(1, 28), hour=rng.choice([0, 0, rng.randint(0, 23)]),
                     minute=rng.choice([0, 0, rng.randint(0, 59)]), second=rng.choice([0, 0, rng.randint(0, 59)]))
    unit = {'D': 86400, 'H': 3600, 'T': 60, 'M': 2592000, 'Q': 7776000, 'A': 31536000, 'W': 604800, 'S': 1}
    f = freq.lstrip('0123456789')
    k = int(freq[:len(freq) - len(f)] or 1)
    if f[0] in 'QA':
        n = min(n, 40)
    b = a + pd.Timedelta(seconds=unit[f[0]] * k * (n - 1) + rng.choice([0, 0, rng.randint(0, unit[f[0]] - 1)]))
    return {'freq': freq, 'start': str(a), 'end': str(b), 'layout': {'pat': [0, 1, 1]}, 'as_ts': rng.random() < 0.5}


def check_C01(spec, rng):
    try:
        o = oracle.OBoard(spec)
    except oracle.Refused as e:
        expect('Timeboard(reversed range)', ('exc', tuple(e.names)), lambda: h.build(spec))
        return
    r = h.build(spec)
    expect('start_time', ('ok', o.start), lambda: r.start_time.value)
    expect('end_time', ('ok', o.end), lambda: r.end_time.value)
    expect('number of base units', ('ok', len(o.bu)), lambda: len(r.to_dataframe()))
    pts = probes(o, rng, 60)
    for x in pts:
        u = o.at(x)
        if u is None:
            expect('get_workshift(%s)' % T(x), ('exc', ('OutOfBoundsError',)), lambda: r.get_workshift(T(x)))
        else:
            expect('get_workshift(%s)' % T(x), ('ok', o.bu[u]), lambda: r.get_workshift(argform(x, rng)), h.ws_tuple)
    df = r.to_dataframe()
    got = list(zip([t.value for t in df['start']], [t.value for t in df['end']]))
    expect('base unit grid', ('ok', o.bu), lambda: got)


# ================================================================= C02
def gen_C02(rng):
    return board(rng, rng.choice(['compound', 'compound', 'org', 'pattern', 'marks', 'at']))


def check_C02(spec, rng):
    p = Pair(spec)
    o, r = p.o, p.r
    n = len(o)
    expect('number of workshifts', ('ok', n), lambda: len(r.to_dataframe()))
    for i in some(rng, range(n), 25):
        w = expect('get_workshift', ('ok', (o.ws_start(i), o.ws_end(i))), lambda: p.ws(i), h.ws_tuple)
        w = p.ws(i)
        expect('duration of ws %d' % i, ('ok', o.dur(i)), lambda: w.duration)
        expect('to_timestamp of ws %d' % i, ('ok', o.ws_ref(i)), lambda: w.to_timestamp().value)
        expect('label of ws %d' % i, ('ok', True), lambda: samelabel(w.label, o.label(i)))
        expect('Workshift(tb, %d)' % i, ('ok', (o.ws_start(i), o.ws_end(i))), lambda: tb.Workshift(r, i), h.ws_tuple)
        expect('get_workshift(workshift %d)' % i, ('ok', (o.ws_start(i), o.ws_end(i))), lambda: r.get_workshift(w), h.ws_tuple)
    expect('Workshift(tb, %d)' % n, ('exc', ('OutOfBoundsError',)), lambda: tb.Workshift(r, n))
    for x in probes(o, rng, 45):
        i = o.at(x)
        exp = ('exc', ('OutOfBoundsError',)) if i is None else ('ok', (o.ws_start(i), o.ws_end(i)))
        expect('get_workshift(%s)' % T(x), exp, lambda: r.get_workshift(argform(x, rng)), h.ws_tuple)
        if rng.random() < 0.2:
            expect('tb(%s)' % T(x), exp, lambda: r(T(x)), h.ws_tuple)
    expect('get_workshift(%s)' % 'null', ('exc', ('ValueError', 'TypeError')), lambda: r.get_workshift(rng.choice([None, pd.NaT])), h.ws_tuple)
    for f in ('D', 'H', 'M'):
        x = rng.choice(o.bu)[0]
        q = pd.Period(T(x), freq=f)
        i = o.at(q.start_time.value)
        exp = ('exc', ('OutOfBoundsError',)) if i is None else ('ok', (o.ws_start(i), o.ws_end(i)))
        expect('get_workshift(Period %s)' % q, exp, lambda: r.get_workshift(q), h.ws_tuple)


# ================================================================= layouts: C03..C06, C08
def check_layout(spec, rng, shared=False):
    try:
        o = oracle.OBoard(spec)
    except oracle.Refused as e:
        expect('Timeboard(refused)', ('exc', tuple(e.names)), lambda: h.build(spec))
        return None
    except oracle.DontKnow:
        return None
    got = call(lambda: h.build(spec))
    if got[0] == 'exc':
        raise Mismatch('Timeboard()', 'a timeboard', '%s: %s' % (type(got[1]).__name__, got[1]))
    ST.hit('build')
    compare_board(got[1], o)
    return got[1], o


def compare_board(r, o):
    df = r.to_dataframe()
    starts = [t.value for t in df['start']]
    exp = [o.ws_start(i) for i in range(len(o))]
    expect('workshift starts', ('ok', [str(T(x)) for x in exp]), lambda: [str(T(x)) for x in starts])
    expect('workshift durations', ('ok', [o.dur(i) for i in range(len(o))]), lambda: [int(x) for x in df['duration']])
    labs = list(df['label'])
    for i in range(len(o)):
        if not samelabel(labs[i], o.label(i)):
            raise Mismatch('label of workshift %d (%s)' % (i, T(exp[i])), repr(o.label(i)), repr(labs[i]))
        ST.n += 1
    # and through the objects
    for i in sorted(set([0, len(o) // 2, len(o) - 1])):
        w = r.get_workshift(T(o.ws_start(i)))
        expect('label via object', ('ok', True), lambda: samelabel(w.label, o.label(i)))
        expect('duration via object', ('ok', o.dur(i)), lambda: w.duration)


def gen_C03(rng):
    r = rng.random()
    if r < 0.4:
        return board(rng, 'pattern')
    spec = board(rng, rng.choice(['org', 'pattern']))
    fam = spec.get('fam', 'int')
    if spec['freq'] in gen.EACH_FOR and rng.random() < 0.15:
        # a remembering pattern, aligned like any other in the first period
        st = [{'rp': 'r0', 'rp_labels': gen.labels(rng, 'int' if fam in gen.NUMERIC else fam, rng.randint(1, 7))}]
        if rng.random() < 0.4:
            st.append(gen.rnd_pat(rng, 'int' if fam in gen.NUMERIC else fam, 1, 7))
        spec['layout'] = {'org': {'marker': {'each': rng.choice(gen.EACH_FOR[spec['freq']])}, 'structure': st}}
        return spec
    if spec['freq'] in gen.EACH_FOR:
        e = rng.choice(gen.EACH_FOR[spec['freq']])
        m = rng.choice([3, 7, 8, 31, 40, 12])
        spec['layout'] = {'org': {'marker': {'each': e}, 'structure': [gen.rnd_pat(rng, 'int' if fam in gen.NUMERIC else fam, 1, m)
                                                                      for _ in range(rng.randint(1, 3))]}}
        if rng.random() < 0.05:
            spec['layout']['org']['structure'].append({'pat': []})
    return spec


def gen_C04(rng):
    return board(rng, rng.choice(['org', 'org', 'compound', 'marks']))


def gen_C05(rng):
    for _ in range(20):
        spec = gen.board_valid_amend(gen.gen_board(rng, 'at'))
        spec['amendments'] = None
        try:
            oracle.OBoard(spec)
        except oracle.Refused as e:
            if rng.random() < 0.3 and 'OutOfBoundsError' in e.names:
                return spec
            continue
        except oracle.DontKnow:
            continue
        return spec
    return spec


def gen_C06(rng):
    return board(rng, 'rp')


def check_C06(spec, rng):
    x = check_layout(spec, rng)
    # the pattern object itself
    labs = [1, 2, 3, 4, 5][:rng.randint(1, 5)]
    rp = tb.RememberingPattern(labs)
    for k in range(13):
        expect('RememberingPattern draw %d' % k, ('ok', labs[k % len(labs)]), lambda: next(rp))
    expect('RememberingPattern.length', ('ok', len(labs)), lambda: rp.length)
    # several boards sharing one pattern: the sequence carries on
    if x is not None and rng.random() < 0.3:
        rps, state = {}, {}
        for _ in range(2):
            o = oracle.OBoard(spec, state)
            r = h.build(spec, rps)
            compare_board(r, o)


def gen_C08(rng):
    spec = gen.gen_board(rng, rng.choice(['pattern', 'compound', 'org', 'marks']))
    spec['amendments'] = None
    try:
        o = oracle.OBoard(spec)
    except (oracle.Refused, oracle.DontKnow):
        return gen_C08(rng)
    fam = spec['fam']
    am = []
    nk = rng.choice([0, 1, 2, 3, 5, 9])
    spots = list(range(-2, len(o) + 2))
    rng.shuffle(spots)
    if rng.random() < 0.15:
        spots = [rng.choice(spots) for _ in range(nk)]
    for i in spots[:nk]:
        if i < 0:
            x = rng.choice([o.start - 1, o.start - DAY * (-i), o.start - 1000 * DAY])
        elif i >= len(o):
            x = rng.choice([o.end + 1, o.end + DAY, o.end + 999 * DAY])
        else:
            x = rng.choice([o.ws_start(i), o.ws_end(i), rng.randint(o.ws_start(i), o.ws_end(i))])
        if str(T(x)) not in [k[0] for k in am]:
            am.append([str(T(x)), rng.choice(gen.LABEL_FAMS[fam])])
    spec['amendments'] = am
    spec['plain'] = True
    return spec


def check_C08(spec, rng):
    x = check_layout(spec, rng)
    if x is None:
        return
    r, o = x
    # amendments keyed by workshifts' forms of time
    base = dict(spec, amendments=None)
    b0 = h.build(base)
    i = rng.randrange(len(o))
    key = T(o.ws_end(i))
    kw = h.real_args(base)
    b1 = tb.Timeboard(amendments={key: 'Z'}, **dict(kw, default_selector=lambda x: True))
    o0 = oracle.OBoard(base)
    o0.ws[i][2] = 'Z'
    compare_board(b1, o0)
    # keys in other forms: calendar periods stand for their start, workshifts for their reference time
    x = rng.choice(o.bu)[0]
    q = pd.Period(T(x), freq=rng.choice(['D', 'H', 'W', 'M', 'Q', 'A', spec['freq']]))
    for key2, t in ((q, q.start_time.value), (T(x).to_pydatetime(), x), (b0.get_workshift(T(o.ws_end(i))), o.ws_ref(i))):
        b3 = tb.Timeboard(amendments={key2: 'Y'}, **dict(kw, default_selector=lambda x: True))
        o3 = oracle.OBoard(base)
        if o3.at(t) is not None:
            o3.ws[o3.at(t)][2] = 'Y'
        compare_board(b3, o3)
    # out-of-range keys are ignored, numeric order of keys is irrelevant
    d = {key: 1, T(o.end + 1): 5, T(o.start - 1): 6}
    b2 = tb.Timeboard(amendments=d, **dict(kw, default_selector=lambda x: True))
    o0.ws[i][2] = 1
    compare_board(b2, o0)
    expect('Timeboard(amendments=list)', ('exc', ('TypeError',)), lambda: tb.Timeboard(amendments=[1], **kw))


# ================================================================= C07
FREQS = ['S', 'T', 'H', 'D', 'W', 'W-WED', 'W-MON', 'M', 'Q', 'Q-NOV', 'Q-JAN', 'A', 'A-JUN', 'A-NOV',
         '2S', '30S', '2T', '15T', '60T', '2H', '3H', '4H', '6H', '8H', '12H', '24H', '36H', '5H', '2D', '3D', '4D', '5D', '7D', '14D',
         '2W', '3W', '4W', '2M', '3M', '4M', '6M', '12M', '2Q', '4Q', '2A', '3A', '2W-WED', '2A-JUN', '2Q-NOV', '10T', '60S', '1D', '1H', '1M']
MUST = {'S': 'T H D W W-WED M Q A A-JUN'.split(), 'T': 'H D W W-MON M Q A'.split(), 'H': 'D W W-WED M Q A A-NOV'.split(),
        'D': 'W W-WED W-MON M Q Q-NOV A A-JUN'.split(), 'M': 'Q Q-NOV A A-JUN'.split(), 'Q': ['A']}
STARTS7 = ['2017-01-05 00:00', '2016-02-29 00:00', '2018-07-01 05:00', '2014-12-31 23:00', '2015-11-30 13:00']


def split_freq(f):
    b = f.lstrip('0123456789')
    return int(f[:len(f) - len(b)] or 1), b


def cases_C07():
    return [{'bu': b, 'gb': g, 'start': s} for b in FREQS for g in FREQS for s in STARTS7[:2]]


def gen_C07(rng):
    k = rng.randint(1, 40)
    m = rng.randint(1, 12)
    d = rng.choice(['S', 'T', 'H', 'D', 'W', 'M', 'Q', 'W-TUE', 'A', 'A-MAR'])
    r = rng.random()
    if r < 0.5:
        return {'bu': '%d%s' % (k, d), 'gb': '%d%s' % (rng.choice([k * m, rng.randint(2, 60)]), d), 'start': rng.choice(STARTS7)}
    return {'bu': rng.choice(FREQS), 'gb': rng.choice(FREQS), 'start': rng.choice(STARTS7)}


def check_C07(case, rng):
    b, g = case['bu'], case['gb']
    p = oracle.per(oracle.ts(case['start']), b)
    kb, db = split_freq(b)
    kg, dg = split_freq(g)
    if max(kb * (db[0] == 'A'), kg * (dg[0] == 'A')) > 40 or max(kb * (db[0] == 'Q'), kg * (dg[0] == 'Q')) > 160:
        return      # beyond the range of timestamps
    n = {'S': 200, 'T': 200, 'H': 200, 'D': 150, 'W': 60, 'M': 40, 'Q': 20, 'A': 8}[db[0]]
    kg, dg = split_freq(g)
    if 'S' == db[0] and dg[0] in 'DWMQA' or db[0] == 'T' and dg[0] in 'WMQA':
        n = 5
    q = p
    units = []
    for _ in range(n):
        if len(units) and q.start_time.year > 2130:
            break
        units.append(oracle.pstart(q))
        q = q + 1
    end = oracle.pstart(q) - 1
    us = set(units)
    g0 = oracle.per(units[0], g)
    if (oracle.pend(g0) - oracle.pstart(g0)) / (oracle.pend(p) - oracle.pstart(p)) > 2e6:
        return      # tens of millions of base units: too big to build
    cuts = []
    k = 0
    while oracle.pstart(g0) <= end and g0.year < 2255:
        if oracle.pstart(g0) > units[0]:
            cuts.append(oracle.pstart(g0))
            if cuts[-1] not in us:
                break
        g0 = g0 + 1
    sound = all(c in us for c in cuts)
    must = (db == dg and kg % kb == 0 and kg > kb and not (b[0] == '1' and b[1].isalpha())) or g in MUST.get(b, [])
    got = call(lambda: tb.Timeboard(b, T(units[0]), T(end), layout=tb.Organizer(marker=g, structure=[5, 6])))
    ST.hit('%s/%s' % ('accepted' if got[0] == 'ok' else 'refused', 'sound' if sound else 'unsound'))
    if got[0] == 'ok':
        if not sound:
            raise Mismatch('Timeboard(%r, marker=%r)' % (b, g), 'UnacceptablePeriodError', 'accepted although %s is not a base unit boundary' % T([c for c in cuts if c not in us][0]))
        starts = [t.value for t in got[1].to_dataframe()['start']]
        expect('sub-span starts for %s/%s' % (b, g), ('ok', [units[0]] + cuts), lambda: starts)
    else:
        if not isinstance(got[1], h.UnacceptablePeriodError):
            raise Mismatch('Timeboard(%r, marker=%r)' % (b, g), 'accepted or UnacceptablePeriodError', '%s: %s' % (type(got[1]).__name__, got[1]))
        if must:
            raise Mismatch('Timeboard(%r, marker=%r)' % (b, g), 'accepted', repr(got[1]))


# ================================================================= C09
def gen_C09(rng):
    return board(rng, rng.choice(['pattern', 'compound', 'org']))


def sel_names(spec):
    return oracle.NUMERIC_SELECTORS if spec.get('fam', 'int') in gen.NUMERIC else oracle.ANY_SELECTORS


def agree(p, names, rng):
    o, r = p.o, p.r
    n = len(o)
    for name in names:
        sch = None if name == 'on_duty' else r.schedules[name]
        for i in some(rng, range(n), 8):
            w = p.ws(i)
            on = o.is_on(i, name)
            expect('is_on_duty(ws %d, %s)' % (i, name), ('ok', on), lambda: bool(w.is_on_duty(schedule=sch)))
            expect('is_off_duty(ws %d, %s)' % (i, name), ('ok', not on), lambda: bool(w.is_off_duty(schedule=sch)))
            if sch is not None:
                w2 = r.get_workshift(T(o.ws_start(i)), schedule=sch)
                expect('is_on_duty(ws %d of %s)' % (i, name), ('ok', on), lambda: bool(w2.is_on_duty()))
                expect('schedule of ws', ('ok', name), lambda: w2.schedule.name)
                expect('is_on_duty(default given, ws of %s)' % name, ('ok', o.is_on(i)), lambda: bool(w2.is_on_duty(schedule=r.default_schedule)))
                expect('rollforward keeps %s' % name, o.roll(i, 0, 'on', name, True), lambda: w2.rollforward(), p.loc)
                expect('worktime under %s' % name, o.worktime_ws(i, 'off', name), lambda: w2.worktime(duty='off'))
                expect('worktime default under %s' % name, o.worktime_ws(i, 'on', 'on_duty'), lambda: w2.worktime(schedule=r.default_schedule))
        a = rng.randrange(n)
        b = rng.randrange(a, n)
        for duty in DUTIES:
            L = o.duty_list(duty, name, a, b)
            iv = p.interval(a, b)
            expect('count(%s, %s)' % (duty, name), ('ok', len(L)), lambda: iv.count(duty=duty, schedule=sch))
            expect('workshifts(%s, %s)' % (duty, name), ('ok', L), lambda: [p.loc(x) for x in iv.workshifts(duty=duty, schedule=sch)])
            if sch is not None:
                iv2 = r.get_interval((T(o.ws_start(a)), T(o.ws_start(b))), schedule=sch)
                expect('count(%s) of interval on %s' % (duty, name), ('ok', len(L)), lambda: iv2.count(duty=duty))
                expect('workshifts carry schedule', ('ok', [name] * len(L)), lambda: [x.schedule.name for x in iv2.workshifts(duty=duty)])
                expect('count(%s) default over %s' % (duty, name), ('ok', len(o.duty_list(duty, 'on_duty', a, b))),
                       lambda: iv2.count(duty=duty, schedule=r.default_schedule))
                iv3 = r.get_interval(T(o.ws_start(a)), length=b - a + 1, schedule=sch)
                expect('count(%s) of interval by length on %s' % (duty, name), ('ok', len(L)), lambda: iv3.count(duty=duty))
                if L:
                    expect('first(%s) of interval on %s' % (duty, name), ('ok', (L[0], name)), lambda: iv2.first(duty=duty), lambda w: (p.loc(w), w.schedule.name))
                expect('last(%s, default) of interval on %s' % (duty, name),
                       (lambda D: ('ok', D[-1]) if D else ('exc', ('OutOfBoundsError',)))(o.duty_list(duty, 'on_duty', a, b)),
                       lambda: iv2.last(duty=duty, schedule=r.default_schedule), p.loc)
                expect('overlap keeps %s' % name, ('ok', len(L)), lambda: iv2.overlap(iv).count(duty=duty))
                expect('overlap with schedule %s' % name, ('ok', len(L)), lambda: iv.overlap(iv2, schedule=sch).count(duty=duty))


def check_C09(spec, rng):
    p = Pair(spec)
    o, r = p.o, p.r
    names = ['on_duty']
    agree(p, names, rng)
    pool = list(sel_names(spec))
    for step in range(rng.randint(1, 5)):
        if rng.random() < 0.65 or len(names) == 1:
            nm = rng.choice(pool)
            before = set(r.schedules)
            if nm in names:
                expect('add_schedule(taken)', ('exc', ('KeyError',)), lambda: r.add_schedule(nm, lambda x: True))
                expect('schedules unchanged', ('ok', before), lambda: set(r.schedules))
            else:
                s = expect('add_schedule', ('ok', nm), lambda: r.add_schedule(nm, h.selector(nm)), lambda s: s.name)
                o.sched[nm] = nm
                names.append(nm)
        else:
            nm = rng.choice(names[1:])
            r.drop_schedule(r.schedules[nm])
            names.remove(nm)
            del o.sched[nm]
        expect('schedule names', ('ok', set(names)), lambda: set(r.schedules))
        expect('default schedule name', ('ok', 'on_duty'), lambda: r.default_schedule.name)
        expect('schedules map names', ('ok', sorted(names)), lambda: sorted(s.name for s in r.schedules.values()))
    agree(p, names, rng)
    expect('add_schedule("on_duty")', ('exc', ('KeyError',)), lambda: r.add_schedule('on_duty', lambda x: True))
    # names are taken as text
    nm = rng.choice([7, 2.5, True, ('a', 1), None])
    expect('add_schedule(%r)' % (nm,), ('ok', str(nm)), lambda: r.add_schedule(nm, lambda x: True), lambda s: s.name)
    mine = r.schedules.get(str(nm))
    for again in (nm, str(nm)):
        expect('add_schedule(%r) again' % (again,), ('exc', ('KeyError',)), lambda: r.add_schedule(again, lambda x: False))
        expect('the schedule is kept', ('ok', True), lambda: r.schedules[str(nm)] is mine)
    expect('get_workshift(schedule=str)', ('exc', ('TypeError',)), lambda: r.get_workshift(T(o.start), schedule='x'))


# ================================================================= C10 / C11
def gen_roll(rng):
    if rng.random() < 0.08:
        return board(rng, 'pattern', small=False, fam='bin')
    return board(rng, rng.choice(['pattern', 'pattern', 'compound', 'org']), fam=rng.choice(['bin', 'bin', 'int', None]))


def check_roll(spec, rng, forward):
    p = Pair(spec)
    o, r = p.o, p.r
    n = len(o)
    nm = rng.choice(sel_names(spec))
    p.add_scheds([nm])
    meth = 'rollforward' if forward else 'rollback'
    exhaustive = n <= 9
    steps_all = list(range(-n - 1, n + 2)) if exhaustive else [0, 1, -1, 2, -2, 3, 5, -4, n, -n, n - 1, 1 - n, n // 2, -(n // 2)]
    if gen.MINED:
        steps_all += [s for s in some(rng, gen.MINED, 3)] + [-s for s in some(rng, gen.MINED, 2)]
    for i in (range(n) if exhaustive else some(rng, range(n), 8)):
        w = p.ws(i)
        for duty in ['on', 'off', 'any', 'same', 'alt']:
            for steps in some(rng, steps_all, 9):
                for sc in (['on_duty', nm] if rng.random() < 0.3 else ['on_duty']):
                    kw = {} if sc == 'on_duty' else {'schedule': r.schedules[nm]}
                    exp = o.roll(i, steps, duty, sc, forward)
                    expect('%s(ws %d, steps=%d, duty=%s, schedule=%s)' % (meth, i, steps, duty, sc), exp,
                           lambda: getattr(w, meth)(steps, duty=duty, **kw), p.loc)
                    if sc != 'on_duty' and exp[0] == 'ok':
                        expect('schedule of result', ('ok', sc), lambda: getattr(w, meth)(steps, duty=duty, **kw).schedule.name)
        for steps in some(rng, steps_all, 4):
            exp = o.roll(i, steps, 'on', 'on_duty', forward)
            if forward:
                expect('ws %d + %d' % (i, steps), exp, lambda: w + steps, p.loc)
            else:
                expect('ws %d - %d' % (i, steps), exp, lambda: w - steps, p.loc)
        # a workshift that carries another schedule
        w2 = r.get_workshift(T(o.ws_start(i)), schedule=r.schedules[nm])
        for steps in some(rng, steps_all, 2):
            exp = o.roll(i, steps, 'on', nm, forward)
            expect('ws %d of %s %s %d' % (i, nm, '+' if forward else '-', steps), exp, lambda: (w2 + steps) if forward else (w2 - steps), p.loc)
            for duty, sc in [(rng.choice(['on', 'off', 'any', 'same', 'alt']), x) for x in (None, 'on_duty')]:
                kw = {} if sc is None else {'schedule': r.default_schedule}
                expect('%s(ws %d of %s, steps=%d, duty=%s, schedule=%s)' % (meth, i, nm, steps, duty, sc), o.roll(i, steps, duty, sc or nm, forward),
                       lambda: getattr(w2, meth)(steps, duty=duty, **kw), p.loc)
        expect('%s(default)' % meth, o.roll(i, 0, 'on', 'on_duty', forward), lambda: getattr(w, meth)(), p.loc)
        expect('%s(bad duty)' % meth, ('exc', ('ValueError',)), lambda: getattr(w, meth)(0, duty=rng.choice(['ON', 'x', '', 'onn', 'samex'])))
    # exact integers that are not built-in ints (numpy) are accepted as steps
    w = p.ws(0)
    expect('%s(np.int64)' % meth, o.roll(0, 1, 'any', 'on_duty', forward), lambda: getattr(w, meth)(np.int64(1), duty='any'), p.loc)


# ================================================================= C12 / C13 / C14
def gen_ivl(rng):
    return board(rng, rng.choice(['pattern', 'compound', 'compound', 'org', 'marks']))


def check_C12(spec, rng):
    p = Pair(spec)
    o, r = p.o, p.r
    pts = probes(o, rng, 24)
    pairs = [(rng.choice(pts + [None]), rng.choice(pts + [None])) for _ in range(60)]
    k = rng.choice(pts)
    pairs += [(None, None), (None, k), (k, None), (k, k), (o.start, o.end), (o.start - 1, o.end), (o.start, o.end + 1),
              (o.start - 1, o.end + 1), (o.end + 1, o.start - 1), (o.end + 1, o.end + 1), (o.start - 1, o.start - 1), (o.end, o.start)]
    for a, b in pairs:
        for closed in (CLOSED if rng.random() < 0.3 else ['11', rng.choice(CLOSED)]):
            exp = o.by_points(a, b, closed)
            A = None if a is None else argform(a, rng)
            B = None if b is None else argform(b, rng)
            ref = (A, B)
            what = '(%s, %s), closed=%s' % (None if a is None else T(a), None if b is None else T(b), closed)
            if a is None and b is None:
                ref = rng.choice([None, (None, None), (pd.NaT, None)])
            kw = {'closed': closed} if closed != '11' or rng.random() < 0.5 else {}
            expect('get_interval(%s)' % what, exp, lambda: r.get_interval(ref, **kw), p.ivl)
            if rng.random() < 0.3:
                expect('tb(%s)' % what, exp, lambda: r(ref, **kw), p.ivl)
    expect('get_interval()', ('ok', (0, len(o) - 1)), lambda: r.get_interval(), p.ivl)
    expect('tb()', ('ok', (0, len(o) - 1)), lambda: r(), p.ivl)
    expect('get_interval(closed=x)', ('exc', ('ValueError',)), lambda: r.get_interval(closed=rng.choice(['1', '12', 'xx', '', '111', '02'])))
    n = len(o)
    for _ in range(12):
        i, j = rng.randrange(n), rng.randrange(n)
        wi, wj = p.ws(i), p.ws(j)
        expect('Interval(tb, (%d, %d))' % (i, j), ('ok', (i, j)) if i <= j else ('exc', ('VoidIntervalError',)),
               lambda: tb.Interval(r, rng.choice([(i, j), (wi, wj), (wi, j), [i, wj]])), p.ivl)
        # workshifts as references: by their reference time
        expect('get_interval((ws %d, ws %d))' % (i, j), ('ok', (i, j)) if i <= j else ('exc', ('VoidIntervalError',)),
               lambda: r.get_interval((wi, wj)), p.ivl)
        expect('tb(ws %d)' % i, ('ok', i), lambda: r(wi), p.loc)
    for bad in [(-1, 0), (0, n), (n, n), (-2, -1)]:
        expect('Interval(tb, %s)' % (bad,), ('exc', ('OutOfBoundsError',)), lambda: tb.Interval(r, bad))
    expect('get_interval(bad ref)', ('exc', ('TypeError',)), lambda: r.get_interval('01 Jan 2017'))
    expect('get_interval(length and period)', ('exc', ('TypeError',)), lambda: r.get_interval(T(o.start), length=1, period='D'))
    for x in some(rng, pts, 6):
        i = o.at(x)
        expect('tb(%s)' % T(x), ('exc', ('OutOfBoundsError',)) if i is None else ('ok', i), lambda: r(argform(x, rng)), p.loc)


def check_C13(spec, rng):
    p = Pair(spec)
    o, r = p.o, p.r
    n = len(o)
    pts = probes(o, rng, 24)
    lens = [0, 1, -1, 2, -2, 3, -3, n, -n, n + 1, -n - 1, n - 1, 1 - n, n // 2, -(n // 2), n * 3 + 1] + some(rng, gen.MINED, 3)
    for x in pts:
        for ln in some(rng, lens, 8):
            for closed in (CLOSED if rng.random() < 0.3 else ['11', rng.choice(CLOSED)]):
                kw = {'closed': closed} if closed != '11' or rng.random() < 0.5 else {}
                exp = o.by_length(x, ln, closed)
                f = rng.choice([r.get_interval, r.get_interval, r])
                expect('get_interval(%s, length=%d, closed=%s)' % (T(x), ln, closed), exp,
                       lambda: f(argform(x, rng), length=ln, **kw), p.ivl)
    # around each end exhaustively
    for i in sorted(set([0, 1, n - 1, n - 2, n // 2])):
        if 0 <= i < n:
            for ln in range(-5, 6):
                exp = o.by_length(o.ws_end(i), ln, '11')
                expect('get_interval(%s, length=%d)' % (T(o.ws_end(i)), ln), exp, lambda: r.get_interval(T(o.ws_end(i)), length=ln), p.ivl)
    for bad in [1.5, '2', 2.0]:
        expect('get_interval(length=%r)' % (bad,), ('exc', ('TypeError',)), lambda: r.get_interval(T(o.start), length=bad))
    expect('get_interval(closed=bad)', ('exc', ('ValueError',)), lambda: r.get_interval(T(o.start), length=1, closed='2'))


PERIODS_FOR = {'D': ['D', 'W', 'M', 'Q', 'A', 'W-TUE', '2D', 'H'], 'H': ['H', 'D', 'W', 'M', '8H', 'T'], 'T': ['T', 'H', 'D', '15T'],
               'M': ['M', 'Q', 'A', 'A-JUN', 'D'], 'W': ['W', 'M', 'A', '2W', 'D'], 'Q': ['Q', 'A', 'M'], 'A': ['A', 'M', 'Q'],
               '2D': ['D', 'W', 'M', '4D'], '4H': ['H', 'D', 'W', '8H'], 'W-WED': ['W', 'W-WED', 'M', 'Q']}


def check_C14(spec, rng):
    p = Pair(spec)
    o, r = p.o, p.r
    freqs = PERIODS_FOR.get(spec['freq'], ['D', 'W', 'M'])
    pts = probes(o, rng, 24)
    for _ in range(46):
        x = rng.choice(pts)
        f = rng.choice(freqs)
        if rng.random() < 0.15:
            x = rng.choice([o.start - 40 * DAY, o.end + 40 * DAY, o.start - 5 * DAY, o.end + 3 * DAY])
        q = pd.Period(T(x), freq=f)
        if rng.random() < 0.15:
            q = q + rng.choice([-1, 1])
        ps, pe = q.start_time.value, q.end_time.value
        for clip in (True, False):
            for closed in (CLOSED if rng.random() < 0.3 else ['11', rng.choice(CLOSED)]):
                exp = o.by_period(ps, pe, clip, closed)
                kw = {}
                if closed != '11' or rng.random() < 0.5:
                    kw['closed'] = closed
                if not clip or rng.random() < 0.5:
                    kw['clip_period'] = clip
                what = 'get_interval(%s in %s, clip=%s, closed=%s)' % (q, f, clip, closed)
                if rng.random() < 0.4:
                    expect(what, exp, lambda: r.get_interval(q, **kw), p.ivl)
                else:
                    x2 = rng.choice([ps, pe, (ps + pe) // 2])
                    if pd.Period(T(x2), freq=f).start_time.value != ps:
                        x2 = ps
                    g = rng.choice([r.get_interval, r.get_interval, r])
                    expect(what, exp, lambda: g(argform(x2, rng), period=f, **kw), p.ivl)
    expect('get_interval(closed=bad)', ('exc', ('ValueError',)), lambda: r.get_interval(T(o.start), period='D', closed='2'))


# ================================================================= C15
def check_C15(spec, rng):
    p = Pair(spec)
    o, r = p.o, p.r
    n = len(o)
    nm = rng.choice(sel_names(spec))
    p.add_scheds([nm])
    allp = [(a, b) for a in range(n) for b in range(a, n)]
    picks = some(rng, allp, 14)
    picks += [(0, n - 1), (0, 0), (n - 1, n - 1)]
    for a, b in picks:
        iv = p.interval(a, b)
        expect('bounds', ('ok', (a, b)), lambda: iv, p.ivl)
        expect('iteration of [%d,%d]' % (a, b), ('ok', list(range(a, b + 1))), lambda: [p.loc(w) for w in iv])
        if rng.random() < 0.3:
            expect('start/end', ('ok', (o.ws_start(a), o.ws_end(b))), lambda: (iv.start_time.value, iv.end_time.value))
            expect('length', ('ok', b - a + 1), lambda: iv.length)
        for sc in ['on_duty', nm]:
            kw = {} if sc == 'on_duty' else {'schedule': r.schedules[nm]}
            for duty in DUTIES:
                L = o.duty_list(duty, sc, a, b)
                tag = '[%d,%d] duty=%s schedule=%s' % (a, b, duty, sc)
                expect('count(%s)' % tag, ('ok', len(L)), lambda: iv.count(duty=duty, **kw))
                expect('workshifts(%s)' % tag, ('ok', L), lambda: [p.loc(w) for w in iv.workshifts(duty=duty, **kw)])
                m = len(L)
                for k in sorted(set([0, 1, -1, -2, m - 1, m, -m, -m - 1, m // 2] + some(rng, gen.MINED, 1))):
                    exp = ('ok', L[k]) if -m <= k < m else ('exc', ('OutOfBoundsError',))
                    expect('nth(%d; %s)' % (k, tag), exp, lambda: iv.nth(k, duty=duty, **kw), p.loc)
                expect('first(%s)' % tag, ('ok', L[0]) if L else ('exc', ('OutOfBoundsError',)), lambda: iv.first(duty=duty, **kw), p.loc)
                expect('last(%s)' % tag, ('ok', L[-1]) if L else ('exc', ('OutOfBoundsError',)), lambda: iv.last(duty=duty, **kw), p.loc)
        L = o.duty_list('on', 'on_duty', a, b)
        expect('count()', ('ok', len(L)), lambda: iv.count())
        bad = rng.choice(['same', 'ON', 'x', ''])
        expect('count(bad duty)', ('exc', ('ValueError',)), lambda: iv.count(duty=bad))
        expect('nth(bad duty)', ('exc', ('ValueError',)), lambda: iv.nth(0, duty=bad))
        expect('workshifts(bad duty)', ('exc', ('ValueError',)), lambda: list(iv.workshifts(duty=bad)))


def gen_C15(rng):
    if rng.random() < 0.04:
        return board(rng, 'pattern', small=False)
    return gen_ivl(rng)


# ================================================================= C16
def check_C16(spec, rng):
    p = Pair(spec)
    o, r = p.o, p.r
    n = len(o)
    nm = rng.choice(sel_names(spec))
    p.add_scheds([nm])

    def rint():
        a = rng.randrange(n)
        return a, rng.randrange(a, n)

    for _ in range(24):
        (a, b), (c, d) = rint(), rint()
        x, y = p.interval(a, b), p.interval(c, d)
        lo, hi = max(a, c), min(b, d)
        tag = '[%d,%d]*[%d,%d]' % (a, b, c, d)
        for name, f in (('overlap', lambda: x.overlap(y)), ('*', lambda: x * y), ('rev', lambda: y * x)):
            if lo <= hi:
                expect('%s %s' % (name, tag), ('ok', (lo, hi)), f, p.ivl)
            else:
                v = f()
                check_void(p, v, tag, x, rng)
        if lo <= hi:
            z = p.interval(*rint())
            zl = p.ivl(z)
            got = (x * y) * z
            l2, h2 = max(lo, zl[0]), min(hi, zl[1])
            if l2 <= h2:
                expect('associativity', ('ok', (l2, h2)), lambda: got, p.ivl)
            else:
                check_void(p, got, tag, x, rng)
        for sc in ['on_duty', nm]:
            kw = {} if sc == 'on_duty' else {'schedule': r.schedules[nm]}
            for duty in DUTIES:
                num = len(o.duty_list(duty, sc, lo, hi)) if lo <= hi else 0
                den = len(o.duty_list(duty, sc, c, d))
                exp = num / float(den) if num else 0.0
                expect('what_portion_of(%s duty=%s schedule=%s)' % (tag, duty, sc), ('ok', exp), lambda: x.what_portion_of(y, duty=duty, **kw))
        num = len(o.duty_list('on', 'on_duty', lo, hi)) if lo <= hi else 0
        den = len(o.duty_list('on', 'on_duty', c, d))
        expect('%s (/)' % tag, ('ok', num / float(den) if num else 0.0), lambda: x / y)
        # intervals on a schedule of their own: the left one's schedule rules
        x2 = r.get_interval((T(o.ws_start(a)), T(o.ws_start(b))), schedule=r.schedules[nm])
        num = len(o.duty_list('on', nm, lo, hi)) if lo <= hi else 0
        den = len(o.duty_list('on', nm, c, d))
        expect('%s (/ own schedule)' % tag, ('ok', num / float(den) if num else 0.0), lambda: x2 / y)


def check_void(p, v, tag, x, rng):
    expect('void length %s' % tag, ('ok', (0, 0)), lambda: (v.length, len(v)))
    for duty in DUTIES:
        expect('void count', ('ok', 0), lambda: v.count(duty=duty))
        expect('void workshifts', ('ok', []), lambda: list(v.workshifts(duty=duty)))
        expect('void worktime', ('ok', 0), lambda: v.worktime(duty=duty))
        expect('void total_duration', ('ok', 0), lambda: v.total_duration(duty=duty))
        expect('void nth', ('exc', ('OutOfBoundsError',)), lambda: v.nth(rng.randint(-2, 2), duty=duty))
        expect('void first', ('exc', ('OutOfBoundsError',)), lambda: v.first(duty=duty))
        expect('void last', ('exc', ('OutOfBoundsError',)), lambda: v.last(duty=duty))
    expect('void iteration', ('ok', []), lambda: list(v))
    expect('void portion', ('ok', 0.0), lambda: v.what_portion_of(x))
    expect('void /', ('ok', 0.0), lambda: v / x)
    expect('portion in void', ('ok', 0.0), lambda: x.what_portion_of(v))
    expect('void periods', ('ok', 0.0), lambda: v.count_periods('D'))
    for w in (lambda: v * x, lambda: x * v, lambda: v * v):
        expect('void overlap length', ('ok', (0, 0, [])), lambda: (w().length, w().count(duty='any'), list(w())))


# ================================================================= C17
def gen_C17(rng):
    if rng.random() < 0.25:
        # long stretches without duty
        spec = board(rng, rng.choice(['compound', 'org']), fam='bin')
        return spec
    return board(rng, rng.choice(['pattern', 'compound', 'org', 'marks']), fam=rng.choice(['bin', 'int', None]))


def check_C17(spec, rng):
    p = Pair(spec)
    o, r = p.o, p.r
    n = len(o)
    nm = rng.choice(sel_names(spec))
    p.add_scheds([nm])
    big = {'D': ['D', 'W', 'M', 'Q', 'A'], 'H': ['H', 'D', 'W', 'M'], 'T': ['T', 'H', 'D', 'min'], 'M': ['M', 'Q', 'A', 'Y'],
           'W': ['W', 'M', 'A', 'Q'], 'Q': ['Q', 'A'], 'A': ['A', 'Y'], '2D': ['D', 'W', 'M'], '4H': ['H', 'D', 'W'], 'W-WED': ['W', 'M', 'Q']}
    fs = big.get(spec['freq'], ['D', 'W', 'M'])
    for _ in range(14):
        a = rng.randrange(n)
        b = rng.randrange(a, n) if rng.random() < 0.8 else n - 1
        if rng.random() < 0.15:
            a = 0
        iv = p.interval(a, b)
        f = rng.choice(fs)
        for sc in ['on_duty', nm]:
            kw = {} if sc == 'on_duty' else {'schedule': r.schedules[nm]}
            for duty in DUTIES:
                try:
                    exp = o.count_periods(a, b, f, duty, sc)
                except oracle.DontKnow:
                    continue
                what = 'count_periods([%d,%d], %s, %s, %s)' % (a, b, f, duty, sc)
                if exp[0] == 'exc?':
                    got = call(lambda: iv.count_periods(f, duty=duty, **kw))
                    ST.hit('count_periods:either')
                    if got[0] == 'ok' and not same(got[1], exp[1]) or got[0] == 'exc' and not isinstance(got[1], h.UnacceptablePeriodError):
                        raise Mismatch(what, exp, got)
                    continue
                expect(what, exp, lambda: iv.count_periods(f, duty=duty, **kw))
        expect('count_periods(bad)', ('exc', ('UnacceptablePeriodError',)), lambda: iv.count_periods(rng.choice(['2D', 'B', 'W-MON', 'BM', 'X', '3M'])))
    # an interval equal to a calendar period wholly inside the board counts 1
    for f in fs:
        for x in some(rng, o.wstarts, 4):
            q = pd.Period(T(x), freq=f)
            g = o.by_period(q.start_time.value, q.end_time.value, False, '11')
            if g[0] == 'ok':
                a, b = g[1]
                exp = 1.0 if o.duty_list('on', 'on_duty', a, b) else 0.0
                got = call(lambda: r.get_interval(q).count_periods(f))
                if got[0] == 'ok' and not same(got[1], exp):
                    raise Mismatch('count_periods of one whole %s %s' % (f, q), exp, got[1])
                ST.hit('whole')


# ================================================================= C18
def gen_C18(rng):
    spec = board(rng, rng.choice(['pattern', 'compound', 'org', 'marks']), fam=rng.choice(['bin', 'int', 'float', 'neg']))
    spec['worktime_source'] = rng.choice(['labels', 'duration'])
    return spec


def check_C18(spec, rng):
    p = Pair(spec)
    o, r = p.o, p.r
    n = len(o)
    nm = rng.choice(sel_names(spec))
    p.add_scheds([nm])
    src = spec.get('worktime_source', 'duration')
    for i in some(rng, range(n), 8):
        w = p.ws(i)
        for sc in ['on_duty', nm]:
            kw = {} if sc == 'on_duty' else {'schedule': r.schedules[nm]}
            for duty in DUTIES + ['bad']:
                expect('Workshift.worktime(ws %d, %s, %s)' % (i, duty, sc), o.worktime_ws(i, duty, sc), lambda: w.worktime(duty=duty, **kw))
        expect('Workshift.worktime(ws %d)' % i, o.worktime_ws(i, 'on', 'on_duty'), lambda: w.worktime())
    allp = [(a, b) for a in range(n) for b in range(a, n)] if n < 60 else [(a, rng.randrange(a, n)) for a in range(n)]
    for a, b in some(rng, allp, 14) + [(0, n - 1)]:
        iv = p.interval(a, b)
        for sc in ['on_duty', nm]:
            kw = {} if sc == 'on_duty' else {'schedule': r.schedules[nm]}
            tot = {}
            for duty in DUTIES:
                L = o.duty_list(duty, sc, a, b)
                expect('total_duration([%d,%d], %s, %s)' % (a, b, duty, sc), ('ok', sum(o.dur(i) for i in L)), lambda: iv.total_duration(duty=duty, **kw))
                exp = sum(o.dur(i) if src == 'duration' else o.label(i) for i in L)
                expect('worktime([%d,%d], %s, %s)' % (a, b, duty, sc), ('ok', exp), lambda: iv.worktime(duty=duty, **kw))
                tot[duty] = iv.worktime(duty=duty, **kw)
                expect('worktime = sum of workshifts', ('ok', tot[duty]), lambda: sum(w.worktime(duty=duty, **kw) for w in iv.workshifts(duty=duty, **kw)))
            expect('on + off = any', ('ok', tot['any']), lambda: tot['on'] + tot['off'])
        expect('worktime()', ('ok', iv.worktime(duty='on')), lambda: iv.worktime())
        expect('worktime(bad duty)', ('exc', ('ValueError',)), lambda: iv.worktime(duty='both'))
        expect('total_duration(bad duty)', ('exc', ('ValueError',)), lambda: iv.total_duration(duty='both'))


# ================================================================= C19
import importlib
import cal_oracle as co


def cal_class(name):
    return importlib.import_module('timeboard.calendars.' + name).Weekly8x5


def rnd_options(name, rng):
    kw = {}
    if name in ('US', 'UK'):
        names = co.US_NAMES if name == 'US' else co.UK_NAMES
        if rng.random() < 0.6:
            kw['do_not_observe'] = sorted(rng.sample(names, rng.randint(0, 4)))
        if rng.random() < 0.3:
            kw['long_weekends'] = rng.random() < 0.4
        if name == 'UK' and rng.random() < 0.7:
            kw['country'] = rng.choice(sorted(co.UK_NOT))
    else:
        if rng.random() < 0.5:
            kw['work_on_dec31'] = rng.random() < 0.3
        if rng.random() < 0.5:
            kw['short_eves'] = rng.random() < 0.3
    return kw


def cases_C19():
    out = []
    for name in ('US', 'UK', 'RU'):
        out.append({'cal': name, 'kw': {}})
        y0, y1 = co.RANGE[name]
        for y in range(y0, y1 + 1):
            out.append({'cal': name, 'kw': {}, 'start': '%d-01-01' % y, 'end': '%d-12-31' % y})
    for c in sorted(co.UK_NOT):
        out.append({'cal': 'UK', 'kw': {'country': c}})
        out.append({'cal': 'UK', 'kw': {'country': c, 'long_weekends': False}})
        for hday in co.UK_NAMES:
            out.append({'cal': 'UK', 'kw': {'country': c, 'do_not_observe': [hday]}})
    for hday in co.US_NAMES:
        out.append({'cal': 'US', 'kw': {'do_not_observe': [hday]}})
    out.append({'cal': 'US', 'kw': {'long_weekends': False}})
    for a in (True, False):
        for b in (True, False):
            out.append({'cal': 'RU', 'kw': {'work_on_dec31': a, 'short_eves': b}})
    for how in ('previous', 'next', 'nearest'):
        out.append({'helper': 'extend', 'how': how})
    for y in range(1975, 2060):
        out.append({'helper': 'nth', 'year': y})
        out.append({'helper': 'easter', 'year': y})
    return out


def gen_C19(rng):
    r = rng.random()
    if r < 0.1:
        return {'helper': rng.choice(['extend', 'extend', 'nth', 'easter']), 'how': rng.choice(['previous', 'next', 'nearest']), 'year': rng.randint(1900, 2200)}
    name = rng.choice(['US', 'UK', 'RU'])
    y0, y1 = co.RANGE[name]
    case = {'cal': name, 'kw': rnd_options(name, rng)}
    days = (datetime.date(y1, 12, 31) - datetime.date(y0, 1, 1)).days
    d0 = datetime.date(y0, 1, 1)
    a = rng.randint(0, days)
    b = min(days, a + rng.choice([0, 1, 10, 100, 400, 1500]))
    if rng.random() < 0.85:
        if rng.random() < 0.4:      # ends and starts of years matter
            y = rng.randint(y0, y1)
            b = (datetime.date(y, 12, 31) - d0).days
            a = max(0, b - rng.randint(0, 800))
        case['start'] = str(d0 + datetime.timedelta(a))
        case['end'] = str(d0 + datetime.timedelta(b))
        if rng.random() < 0.3:
            del case[rng.choice(['start', 'end'])]
    if rng.random() < 0.15:
        if rng.random() < 0.5:
            case['start'] = str(d0 - datetime.timedelta(rng.choice([1, 2, 365, 400])))
        else:
            case['end'] = str(datetime.date(y1, 12, 31) + datetime.timedelta(rng.choice([1, 2, 366])))
    if rng.random() < 0.5:
        ca = {}
        for _ in range(rng.randint(1, 5)):
            d = d0 + datetime.timedelta(rng.randint(a, b) if rng.random() < 0.8 else rng.randint(-30, days + 30))
            if rng.random() < 0.4:
                d = d.replace(month=rng.choice([1, 7, 12, 11]), day=rng.choice([1, 4, 25, 26, 11]))
            t = '' if rng.random() < 0.4 else ' %02d:%02d' % (rng.randint(0, 23), rng.randint(0, 59))
            if not any(k.startswith(str(d)) for k in ca):
                ca[str(d) + t] = rng.choice([0, 8, 4, 1, 10])
        case['custom'] = ca
    r = rng.random()
    if r < 0.1:
        case['flags'] = {'do_not_amend': True}
    elif r < 0.25:
        case['flags'] = {'only_custom_amendments': True}
    elif r < 0.3:
        case['flags'] = {'do_not_amend': True, 'only_custom_amendments': True}
    return case


def check_C19(case, rng):
    if 'helper' in case:
        return check_calhelper(case, rng)
    name = case['cal']
    y0, y1 = co.RANGE[name]
    D = datetime.date
    lo = D.fromisoformat(case['start']) if 'start' in case else D(y0, 1, 1)
    hi = D.fromisoformat(case['end']) if 'end' in case else D(y1, 12, 31)
    kw = dict(case['kw'])
    flags = case.get('flags', {})
    if 'do_not_observe' in kw and kw['do_not_observe'] is not None:
        kw['do_not_observe'] = set(kw['do_not_observe'])
    real = dict(kw)
    if 'start' in case:
        real['custom_start'] = rng.choice([case['start'], pd.Timestamp(case['start'])])
    if 'end' in case:
        real['custom_end'] = rng.choice([case['end'], pd.Timestamp(case['end']), case['end'] + ' 14:00'])
    if 'custom' in case:
        real['custom_amendments'] = dict(case['custom'])
    real.update(flags)
    cls = cal_class(name)
    args = repr(sorted(real.items(), key=lambda x: x[0]))
    if lo < D(y0, 1, 1) or hi > D(y1, 12, 31):
        expect('%s.Weekly8x5(out of range)' % name, ('exc', ('OutOfBoundsError',)), lambda: cls(**real))
        return
    if lo > hi:
        expect('%s.Weekly8x5(reversed)' % name, ('exc', ('VoidIntervalError', 'OutOfBoundsError')), lambda: cls(**real))
        return
    rule = co.RULES[name](**kw)
    week = lambda d: 0 if d.weekday() > 4 else 8
    if flags.get('do_not_amend'):
        f = week
    else:
        custom = {D.fromisoformat(k[:10]): v for k, v in case.get('custom', {}).items()}
        f = lambda d: custom.get(d, week(d) if flags.get('only_custom_amendments') else rule(d))
    r = cls(**real)
    if repr(sorted(real.items(), key=lambda x: x[0])) != args:
        raise Mismatch('%s.Weekly8x5 arguments' % name, args, 'modified')
    days = [lo + datetime.timedelta(k) for k in range((hi - lo).days + 1)]
    df = r.to_dataframe()
    expect('%s calendar days' % name, ('ok', [str(d) for d in days]), lambda: [str(t.date()) for t in df['start']])
    labs = list(df['label'])
    on = list(df['on_duty'])
    for d, l, du in zip(days, labs, on):
        ST.n += 1
        e = f(d)
        if not same(l, e) or bool(du) != bool(e):
            h.soft(Mismatch('%s calendar day %s' % (name, d), repr(e), repr(l)))
    k = rng.randrange(len(days))
    expect('%s workshift %s' % (name, days[k]), ('ok', labs[k]), lambda: r(str(days[k])).worktime(duty='any'))


def check_calhelper(case, rng):
    from timeboard.calendars import calendarbase as cb
    D = datetime.date
    lab = rng.choice([0, 1, 'x'])
    if case['helper'] == 'nth':
        y = case['year']
        for m in range(1, 13):
            for wd in range(1, 8):
                for n in (1, 2, 3, 4, 5, -1, -2, -3, -4, -5):
                    if rng.random() < 0.7 and n not in (5, -5):
                        continue
                    d = oracle.nth_weekday(y, m, wd, n)
                    tup = (m, wd, n)
                    sh = 0
                    if rng.random() < 0.3:
                        sh = rng.randint(-8, 8)
                        tup = tup + (sh,)
                    exp = {} if d is None else {str(d + datetime.timedelta(sh)): lab}
                    conv = lambda x: {str(pd.Timestamp(k).date()): v for k, v in x.items() if pd.Timestamp(k) == pd.Timestamp(k).normalize()}
                    expect('nth_weekday_of_month(%d, %s)' % (y, tup), ('ok', exp), lambda: cb.nth_weekday_of_month(y, [tup], lab), conv)
                    if d is None:
                        expect('nth_weekday_of_month(%d, %s, errors=raise)' % (y, tup), ('exc', ('OutOfBoundsError',)),
                               lambda: cb.nth_weekday_of_month(y, [tup], lab, errors='raise'))
        two = [(1, 1, 1), (2, 2, 5), (12, 7, -1)]
        exp = {str(d): lab for d in (oracle.nth_weekday(y, *t) for t in two) if d}
        expect('nth_weekday_of_month(%d, list)' % y, ('ok', exp), lambda: cb.nth_weekday_of_month(y, two, lab), conv)
        return
    if case['helper'] == 'easter':
        y = case['year']
        for typ, f in (('western', oracle.easter_western), ('orthodox', oracle.easter_orthodox)):
            shifts = rng.sample(range(-60, 61), 3)
            exp = {str(f(y) + datetime.timedelta(s)): lab for s in shifts}
            expect('from_easter(%d, %s, %s)' % (y, shifts, typ), ('ok', exp), lambda: cb.from_easter(y, shifts, typ, lab),
                   lambda x: {str(pd.Timestamp(k).date()): v for k, v in x.items()})
        return
    for _ in range(60):
        d0 = D(rng.randint(1995, 2030), rng.randint(1, 12), rng.randint(1, 28))
        am = {}
        for _ in range(rng.randint(0, 8)):
            am[d0 + datetime.timedelta(rng.randint(0, 13))] = rng.choice([0, 1, 'a', None])
        wend = rng.choice([None, None, [5, 6], [4, 5], [4, 5, 6], [6], [5, 6, 0], []])
        lb = rng.choice([None, None, 9, 0])
        how = case.get('how', 'nearest')
        keys = {(str(k) if rng.random() < 0.5 else pd.Timestamp(k)): v for k, v in am.items()}
        keys0 = dict(keys)
        kw = {} if wend is None else {'weekend': list(wend)}
        if lb is not None:
            kw['label'] = lb
        exp = co.extend(am, how, lb, [5, 6] if wend is None else wend)
        expect('extend_weekends(%s, %s, %s)' % (sorted(map(str, am.items())), how, kw), ('ok', {str(k): v for k, v in exp.items()}),
               lambda: cb.extend_weekends(keys, how=how, **kw), lambda x: {str(pd.Timestamp(k).date()): v for k, v in x.items()})
        if keys != keys0:
            raise Mismatch('extend_weekends argument', keys0, keys)


# ================================================================= C20
def check_C20(spec, rng):
    p = Pair(spec)
    o, r = p.o, p.r
    n = len(o)
    nm = rng.choice(sel_names(spec))
    p.add_scheds([nm])
    names = ['on_duty', nm]
    rngs = [(0, n - 1), (None, None), (None, 0), (n - 1, None)]
    for _ in range(8):
        a = rng.randrange(n)
        rngs.append((a, rng.randrange(a, n)))
    for a, b in rngs:
        fa, fb = (0 if a is None else a), (n - 1 if b is None else b)
        if rng.random() < 0.4 and a is not None and b is not None:
            df = p.interval(a, b).to_dataframe()
        else:
            df = r.to_dataframe(a, b)
        check_df(df, o, fa, fb, names)
    r.drop_schedule(r.schedules[nm])
    check_df(r.to_dataframe(), o, 0, n - 1, ['on_duty'], absent=[nm])


def check_df(df, o, a, b, names, absent=()):
    L = list(range(a, b + 1))
    w = 'to_dataframe(%d..%d) ' % (a, b)
    expect(w + 'index', ('ok', L), lambda: [int(x) for x in df.index])
    expect(w + 'start', ('ok', [o.ws_start(i) for i in L]), lambda: [x.value for x in df['start']])
    expect(w + 'end', ('ok', [o.ws_end(i) for i in L]), lambda: [x.value for x in df['end']])
    expect(w + 'ws_ref', ('ok', [o.ws_ref(i) for i in L]), lambda: [x.value for x in df['ws_ref']])
    expect(w + 'duration', ('ok', [o.dur(i) for i in L]), lambda: [int(x) for x in df['duration']])
    labs = list(df['label'])
    expect(w + 'label', ('ok', True), lambda: all(samelabel(x, o.label(i)) for x, i in zip(labs, L)))
    for nm in names:
        expect(w + 'column ' + nm, ('ok', [o.is_on(i, nm) for i in L]), lambda: [bool(x) for x in df[nm]])
    cols = set(df.columns) - set(['start', 'end', 'ws_ref', 'duration', 'label'])
    expect(w + 'schedule columns', ('ok', set(names)), lambda: cols)


# ================================================================= C21
def snapshot(p, names):
    """answers through the public API that must not change"""
    o, r = p.o, p.r
    df = r.to_dataframe()
    out = [tuple(t.value for t in df['start']), tuple(df['duration']), tuple(repr(x) for x in df['label']),
           tuple(bool(x) for x in df['on_duty']), r.default_schedule.name, str(r.start_time), str(r.end_time),
           r.base_unit_freq, r.worktime_source]
    return out


def gen_C21(rng):
    return board(rng, rng.choice(['pattern', 'compound', 'org', 'rp']))


def check_C21(spec, rng):
    rps = {}
    h.GIVEN[:] = []
    h.RECORD[:] = [True]
    if rng.random() < 0.04:
        given_calendar(rng)
    args = h.real_args(spec, rps)
    before = repr_args(args)
    r = tb.Timeboard(**args)
    expect('arguments untouched', ('ok', before), lambda: repr_args(args))
    p = Pair(spec)
    o = p.o
    n = len(o)
    if not has_rp(spec['layout']):
        r2 = tb.Timeboard(**args)
        expect('same arguments, same board', ('ok', [repr(x) for x in r.to_dataframe()['label']]), lambda: [repr(x) for x in r2.to_dataframe()['label']])
        compare_board(r2, o)
    r = p.r
    snap = snapshot(p, [])
    names = ['on_duty']
    pool = list(sel_names(spec))
    its = []
    log = []
    for step in range(40):
        k = rng.randrange(14)
        a = rng.randrange(n)
        b = rng.randrange(a, n)
        sc = rng.choice(names)
        kw = {} if sc == 'on_duty' else {'schedule': r.schedules[sc]}
        log.append((k, a, b, sc))
        tag = 'step %d ' % step
        if k == 0:
            nm = rng.choice(pool)
            if nm not in names:
                r.add_schedule(nm, h.selector(nm))
                names.append(nm)
                o.sched[nm] = nm
        elif k == 1 and len(names) > 1:
            nm = rng.choice(names[1:])
            r.drop_schedule(r.schedules[nm])
            names.remove(nm)
        elif k == 2:
            s = rng.randint(-3, 3)
            d = rng.choice(['on', 'off', 'any', 'same', 'alt'])
            expect(tag + 'rollforward', o.roll(a, s, d, sc, True), lambda: p.ws(a).rollforward(s, duty=d, **kw), p.loc)
        elif k == 3:
            s = rng.randint(-3, 3)
            expect(tag + 'rollback', o.roll(a, s, 'off', sc, False), lambda: p.ws(a).rollback(s, duty='off', **kw), p.loc)
        elif k == 4:
            expect(tag + 'count', ('ok', len(o.duty_list('off', sc, a, b))), lambda: p.interval(a, b).count(duty='off', **kw))
        elif k == 5:
            iv = p.interval(a, b)
            its.append([iter(iv), a, b, a])
        elif k == 6 and its:
            it = rng.choice(its)
            if it[3] <= it[2]:
                expect(tag + 'next(iteration)', ('ok', it[3]), lambda: next(it[0]), p.loc)
                it[3] += 1
            else:
                expect(tag + 'next(iteration)', ('exc', ('StopIteration',)), lambda: next(it[0]))
        elif k == 7:
            gen_ = p.interval(a, b).workshifts(duty='any', **kw)
            its.append([gen_, a, b, a])
        elif k == 8:
            c = rng.randrange(n)
            d = rng.randrange(c, n)
            x, y = p.interval(a, b), p.interval(c, d)
            z = x * y
            expect(tag + 'operand after overlap', ('ok', ((a, b), (c, d))), lambda: (p.ivl(x), p.ivl(y)))
        elif k == 9:
            call(lambda: p.interval(a, b).count_periods(rng.choice(['D', 'W', 'M']), **kw))
        elif k == 10:
            df = p.interval(a, b).to_dataframe()
            df['label'] = 'garbage'
            df.loc[:, 'duration'] = -1
        elif k == 11:
            str(r), repr(r), str(p.ws(a)), repr(p.ws(a)), str(p.interval(a, b)), repr(p.interval(a, b))
        elif k == 12:
            iv = p.interval(a, b)
            call(lambda: iv.worktime())
            call(lambda: iv.what_portion_of(p.interval(0, n - 1)))
            expect(tag + 'same interval', ('ok', (a, b)), lambda: iv, p.ivl)
        elif k == 13:
            call(lambda: r.get_interval((T(o.start - 5), T(o.end))))
            call(lambda: r(T(o.start), length=2 * n))
            call(lambda: r.get_workshift(T(o.end + 1)))
    expect('board unchanged after %s' % (log[-6:],), ('ok', snap), lambda: snapshot(p, []))
    expect('schedules', ('ok', set(names)), lambda: set(r.schedules))
    untouched()


def untouched():
    for x, was in h.GIVEN:
        expect('argument as it was given', ('ok', was), lambda: repr(x))


def given_calendar(rng):
    name = rng.choice(['US', 'UK', 'RU'])
    cls = cal_class(name)
    y = rng.randint(2006, 2018)
    kw = {'custom_amendments': h.given({'%d-03-%02d' % (y, rng.randint(1, 28)): rng.choice([0, 4, 8])})}
    if name != 'RU':
        kw['do_not_observe'] = rng.choice([set, list])(rng.sample(['christmas', 'new_year', 'royal', 'mlk', 'st_patricks', 'boxing', 'labor'], rng.randint(0, 3)))
        h.given(kw['do_not_observe'])
    if name == 'UK':
        kw['country'] = rng.choice(['england', 'scotland', 'northern_ireland'])
    a, b = '01 Jan %d' % y, '31 Dec %d' % (y + rng.randint(0, 2))
    t1 = cls(a, b, **kw)
    untouched()
    t2 = cls(a, b, **kw)
    expect('the same calendar again', ('ok', list(t1.to_dataframe()['label'])), lambda: list(t2.to_dataframe()['label']))


def has_rp(lay):
    if 'rp' in lay:
        return True
    if 'org' in lay:
        st = lay['org']['structure']
        return isinstance(st, dict) or any(has_rp(x) for x in st)
    return False


def repr_args(args):
    def rp(x):
        if isinstance(x, tb.Organizer):
            st = x.structure
            m = x.marker
            return ['org', repr(x.marks), None if m is None else [m.each, repr(m.at)],
                    [rp(y) for y in st] if isinstance(st, (list, tuple)) else repr(st)]
        if isinstance(x, dict):
            return [(repr(k), repr(v)) for k, v in x.items()]
        if isinstance(x, (list, tuple)):
            return [rp(y) for y in x]
        if callable(x):
            return 'callable'
        return repr(x)
    return [(k, rp(v)) for k, v in sorted(args.items())]


GENS = {'C01': gen_C01, 'C02': gen_C02, 'C03': gen_C03, 'C04': gen_C04, 'C05': gen_C05, 'C06': gen_C06, 'C07': gen_C07, 'C08': gen_C08,
        'C09': gen_C09, 'C10': gen_roll, 'C11': gen_roll, 'C12': gen_ivl, 'C13': gen_ivl, 'C14': gen_ivl, 'C15': gen_C15, 'C16': gen_ivl,
        'C17': gen_C17, 'C18': gen_C18, 'C19': gen_C19, 'C20': gen_ivl, 'C21': gen_C21}
CHECKS = {'C01': check_C01, 'C02': check_C02, 'C03': check_layout, 'C04': check_layout, 'C05': check_layout, 'C06': check_C06,
          'C07': check_C07, 'C08': check_C08, 'C09': check_C09, 'C10': lambda s, r: check_roll(s, r, True),
          'C11': lambda s, r: check_roll(s, r, False), 'C12': check_C12, 'C13': check_C13, 'C14': check_C14, 'C15': check_C15,
          'C16': check_C16, 'C17': check_C17, 'C18': check_C18, 'C19': check_C19, 'C20': check_C20, 'C21': check_C21}
FIXED = {'C07': cases_C07, 'C19': cases_C19}

"""Published rules of the built-in calendars, written down independently of
the code under test (dates as datetime.date, no pandas)."""
import datetime
import json
import os
import calendar
from oracle import nth_weekday, easter_western, easter_orthodox

D = datetime.date
ONE = datetime.timedelta(1)
RANGE = {'US': (2000, 2020), 'UK': (2000, 2020), 'RU': (2005, 2021)}
_RU = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ru_table.json')))
RU_TABLE = {k: set(D.fromisoformat(x) for x in v) for k, v in _RU.items()}


def observed_all(dates, how):
    """substitute days for fixed holidays falling on Sat/Sun: chronologically,
    stepping past days already taken by another fixed holiday or substitute"""
    taken = set(dates)
    for d in sorted(dates):
        wd = d.weekday()
        if wd < 5:
            continue
        if how == 'next' or (how == 'nearest' and wd == 6):
            n, step = d + ONE * (7 - wd), ONE
        else:
            n, step = d - ONE * (wd - 4), -ONE
        while n in taken:
            n += step
        taken.add(n)
    return taken


US_FIXED = {'new_year': (1, 1), 'independence': (7, 4), 'veterans': (11, 11), 'christmas': (12, 25)}
US_FLOAT = {'mlk': (1, 1, 3), 'presidents': (2, 1, 3), 'memorial': (5, 1, -1), 'labor': (9, 1, 1),
            'columbus': (10, 1, 2), 'thanksgiving': (11, 4, 4)}
US_NAMES = sorted(US_FIXED) + sorted(US_FLOAT) + ['black_friday', 'xmas_additional_day', 'one_off']


def us(do_not_observe=(), long_weekends=True):
    no = set(do_not_observe or ())
    # all years of the calendar and one more on each side
    years = range(1999, 2022)
    fixed = [D(y, *md) for h, md in US_FIXED.items() if h not in no for y in years]
    off = observed_all(fixed, 'nearest') if long_weekends else set(fixed)
    for y in years:
        for h, (m, wd, n) in US_FLOAT.items():
            if h not in no:
                off.add(nth_weekday(y, m, wd, n))
        if 'black_friday' not in no:
            off.add(nth_weekday(y, 11, 4, 4) + ONE)
    if 'xmas_additional_day' not in no:
        off |= {D(2014, 12, 26), D(2018, 12, 24)}
    if 'one_off' not in no:
        off.add(D(2018, 12, 5))
    return lambda d: 0 if d in off or d.weekday() > 4 else 8


UK_FIXED = {'new_year': (1, 1), 'new_year2': (1, 2), 'st_patricks': (3, 17), 'orangemens': (7, 12),
            'st_andrews': (11, 30), 'christmas': (12, 25), 'boxing': (12, 26)}
UK_NAMES = sorted(UK_FIXED) + ['good_friday', 'easter_monday', 'early_may', 'spring', 'summer', 'royal']
UK_NOT = {'england': {'new_year2', 'st_patricks', 'orangemens', 'st_andrews'},
          'scotland': {'st_patricks', 'orangemens', 'easter_monday'},
          'northern_ireland': {'new_year2', 'st_andrews'}}


def uk(country='england', do_not_observe=(), long_weekends=True):
    no = set(do_not_observe or ()) | UK_NOT[country]
    years = range(1999, 2022)
    fixed = [D(y, *md) for h, md in UK_FIXED.items() if h not in no for y in years]
    off = observed_all(fixed, 'next') if long_weekends else set(fixed)
    fl = {'early_may': (5, 1, 1), 'spring': (5, 1, -1), 'summer': (8, 1, 1 if country == 'scotland' else -1)}
    for y in years:
        for h, (m, wd, n) in fl.items():
            if h not in no:
                off.add(nth_weekday(y, m, wd, n))
        e = easter_western(y)
        if 'good_friday' not in no:
            off.add(e - 2 * ONE)
        if 'easter_monday' not in no:
            off.add(e + ONE)
    # jubilees: the spring bank holiday was moved
    off -= {D(2002, 5, 27), D(2012, 5, 28)}
    if 'royal' not in no:
        off |= {D(2002, 6, 3), D(2002, 6, 4), D(2011, 4, 29), D(2012, 6, 4), D(2012, 6, 5)}
    return lambda d: 0 if d in off or d.weekday() > 4 else 8


RU_FIXED = [(1, k) for k in range(1, 8)] + [(2, 23), (3, 8), (5, 1), (5, 9), (6, 12), (11, 4)]


def ru(work_on_dec31=True, short_eves=True):
    def f(d):
        if (d.month, d.day) in RU_FIXED or (not work_on_dec31 and (d.month, d.day) == (12, 31)):
            return 0
        if d in RU_TABLE['short']:
            return 7 if short_eves else 8
        if d in RU_TABLE['off']:
            return 0
        if d in RU_TABLE['on']:
            return 8
        return 0 if d.weekday() > 4 else 8
    return f


RULES = {'US': us, 'UK': uk, 'RU': ru}


# helpers of calendarbase ------------------------------------------------
def extend(amend, how, label, weekend):
    """amend: {date: label}; weekend: weekdays in the order they come"""
    out = dict(amend)
    for d in sorted(amend):
        if d.weekday() not in weekend:
            continue
        k = weekend.index(d.weekday())
        left = d - ONE * (k + 1)
        right = d + ONE * (len(weekend) - k)
        go_left = how == 'previous' or (how == 'nearest' and k < len(weekend) // 2)
        n, step = (left, -ONE) if go_left else (right, ONE)
        while n in out:
            n += step
        out[n] = amend[d] if label is None else label
    return out

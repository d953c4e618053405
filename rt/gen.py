"""Generators of board specs (JSON values)."""
import random
import pandas as pd
import oracle

LABEL_FAMS = {
    'bin': [0, 1],
    'int': [0, 1, 2, 3, 4, 8],
    'neg': [-1, 0, 1, 2],
    'float': [0, 0.5, 1, 1.5, 4, 0.0],
    'str': ['A', 'B', '', 'C'],
    'mixed': [0, 1, 'A', '', None, 2.5, True, False],
}
NUMERIC = ('bin', 'int', 'neg', 'float')
DAYS = ['2016-02-27', '2015-12-28', '2017-01-01', '2017-10-01', '2012-02-20',
        '2000-02-25', '2018-12-24', '2019-06-30', '2020-02-24', '2014-03-31',
        '2011-05-01', '2017-04-10', '2003-11-15', '2024-02-26', '1999-12-27']
MINED = []      # integer constants found in the current source, see harness


def labels(rng, fam, n):
    return [rng.choice(LABEL_FAMS[fam]) for _ in range(n)]


def rnd_pat(rng, fam, lo=1, hi=5):
    return {'pat': labels(rng, fam, rng.randint(lo, hi))}


def rnd_start(rng, freq):
    d = pd.Timestamp(rng.choice(DAYS)) + pd.Timedelta(days=rng.randint(0, 40))
    if rng.random() < 0.3:
        d = pd.Timestamp('%d-%02d-01' % (rng.randint(1995, 2030), rng.randint(1, 12)))
    if 'H' in freq or 'T' in freq:
        d += pd.Timedelta(hours=rng.randint(0, 23))
    return d


def inner_offset(rng, freq):
    """offset inside the base unit"""
    if rng.random() < 0.6:
        return pd.Timedelta(0)
    h = {'D': 24 * 60, 'W': 24 * 60, 'M': 24 * 60, 'H': 60, 'T': 1}.get(freq[-1] if not freq.startswith('W') else 'W', 60)
    if freq[-1] == 'T':
        return pd.Timedelta(seconds=rng.randint(0, 59))
    return pd.Timedelta(minutes=rng.randint(0, h - 1))


def freq_step(freq, n):
    """rough length of n base units, as Timedelta"""
    base = {'D': 1440, 'W': 10080, 'M': 30 * 1440, 'H': 60, 'T': 1, 'Q': 91 * 1440, 'A': 365 * 1440}
    k = 1
    f = freq
    digits = ''
    while f[0].isdigit():
        digits += f[0]
        f = f[1:]
    if digits:
        k = int(digits)
    return pd.Timedelta(minutes=base[f[0]] * k * n)


def rnd_marks(rng, spec_start, span_len, freq, n):
    out = []
    for _ in range(n):
        k = rng.randint(-2, span_len + 2)
        t = spec_start + freq_step(freq, k)
        if rng.random() < 0.5:
            t = t + inner_offset(rng, freq)
        out.append(str(t))
    if out and rng.random() < 0.25:
        out.append(rng.choice(out))
    return out


EACH_FOR = {'D': ['W', 'W-THU', 'W-SAT', 'M', 'Q', 'A', 'A-JUN', '2W', '3D', '2M'],
            'H': ['D', 'D', 'W', 'M', '12H', '24H'],
            'M': ['A', 'Q', 'A-MAR', '2M', '3M'],
            'T': ['H', 'D', '30T'],
            'W': ['2W', '3W'],
            '2D': ['4D', '2D'], '4H': ['8H', '24H'], 'Q': ['A']}

AT_RULES = {
    'D': {
        'M': [('from_start_of_each', [{'days': 14}]), ('from_start_of_each', [{'days': 0}, {'days': 10}]),
              ('from_start_of_each', [{'days': 30}]), ('from_start_of_each', [{'days': 9, 'hours': 12}]),
              ('from_start_of_each', [{'weeks': 1}, {'days': 20}])],
        'W': [('from_start_of_each', [{'days': 3}]), ('from_start_of_each', [{'days': 0}, {'days': 5}]),
              ('from_start_of_each', [{'days': 2, 'hours': 18}])],
        'A': [('from_start_of_each', [{'months': 4}]), ('from_start_of_each', [{'days': 3, 'months': 6}, {'days': 0}]),
              ('nth_weekday_of_month', [{'month': 5, 'week': 1, 'weekday': 1}, {'month': 9, 'week': -1, 'weekday': 5}]),
              ('nth_weekday_of_month', [{'month': 2, 'week': 5, 'weekday': 1}]),
              ('nth_weekday_of_month', [{'month': 1, 'week': 2, 'weekday': 7, 'shift': 2}]),
              ('nth_weekday_of_month', [{'month': 11, 'week': -5, 'weekday': 3}, {'month': 3, 'week': 3, 'weekday': 4}]),
              ('from_easter_western', [{'shift': 1}]), ('from_easter_western', [{}]),
              ('from_easter_orthodox', [{'shift': -2}]), ('from_easter_orthodox', [{}]),
              ('from_easter_western', [{'shift': -46}])],
        'Q': [('nth_weekday_of_month', [{'month': 2, 'week': 1, 'weekday': 3}]),
              ('nth_weekday_of_month', [{'month': 3, 'week': -1, 'weekday': 5, 'shift': -1}]),
              ('from_start_of_each', [{'months': 1}, {'days': 40}])],
        'A-JUN': [('nth_weekday_of_month', [{'month': 1, 'week': 1, 'weekday': 1}]),
                  ('from_easter_western', [{}]), ('from_start_of_each', [{'months': 2}])],
    },
    'H': {'D': [('from_start_of_each', [{'hours': 8}, {'hours': 18}]), ('from_start_of_each', [{'hours': 7, 'minutes': 30}])],
          'W': [('from_start_of_each', [{'days': 1, 'hours': 2}])]},
    'M': {'A': [('from_start_of_each', [{'months': 3}]), ('from_start_of_each', [{'days': 100}])]},
}


def rnd_rule(rng, each):
    """random marker rule for yearly/monthly periods on a daily board"""
    r = rng.random()
    if each in ('A', 'Q', 'M', 'A-JUN') and r < 0.45:
        mmax = {'A': 12, 'Q': 3, 'M': 1, 'A-JUN': 12}[each]
        n = rng.randint(1, 2)
        at = []
        for _ in range(n):
            kw = {'month': rng.randint(1, mmax), 'week': rng.choice([1, 2, 3, 4, 5, -1, -2, -3, -4, -5]),
                  'weekday': rng.randint(1, 7)}
            if rng.random() < 0.4:
                kw['shift'] = rng.randint(-3, 3)
            at.append(kw)
        return 'nth_weekday_of_month', at
    if each in ('A', 'A-JUN') and r < 0.75 or each in ('Q', 'M') and r < 0.65:
        return (rng.choice(['from_easter_western', 'from_easter_orthodox']),
                [rng.choice([{'shift': rng.choice([0, 1, -2, 39, 49, -46, 60, 25, -25, -14])}, {'days': rng.randint(-60, 60)}, {'weeks': rng.randint(-3, 3)},
                             {'days': 1, 'hours': rng.randint(0, 30)}]) for _ in range(rng.choice([1, 1, 2]))])
    lim = {'A': 365, 'Q': 91, 'M': 31, 'W': 7, 'A-JUN': 365}.get(each, 7)
    at = [{'days': rng.randint(0, lim)} for _ in range(rng.randint(1, 2))]
    if rng.random() < 0.3 and each in ('A', 'Q', 'A-JUN'):
        at = [{'months': rng.randint(0, 3), 'days': rng.randint(0, 20)}]
    return 'from_start_of_each', at


def rnd_org(rng, ctx, depth):
    freq, start, n, fam = ctx['freq'], ctx['start'], ctx['n'], ctx['fam']
    org = {}
    r = rng.random()
    if ctx.get('force') == 'at' and depth == 0 and freq in AT_RULES:
        each = rng.choice(sorted(AT_RULES[freq]))
        if freq == 'D' and rng.random() < 0.6:
            how, at = rnd_rule(rng, each)
        else:
            how, at = rng.choice(AT_RULES[freq][each])
        org['marker'] = {'each': each, 'at': at, 'how': how}
    elif r < 0.45 or freq not in EACH_FOR or ctx.get('force') == 'marks':
        org['marks'] = rnd_marks(rng, start, n, freq, rng.randint(0, 4))
    elif r < 0.8 or freq not in AT_RULES:
        org['marker'] = {'each': rng.choice(EACH_FOR[freq])}
    else:
        each = rng.choice(sorted(AT_RULES[freq]))
        how, at = rng.choice(AT_RULES[freq][each])
        org['marker'] = {'each': each, 'at': at, 'how': how}
    st = []
    for _ in range(rng.randint(1, 3)):
        q = rng.random()
        if q < 0.45:
            st.append(rnd_pat(rng, fam, 1, rng.choice([2, 4, 7])))
        elif q < 0.7:
            v = rng.choice(LABEL_FAMS[fam])
            st.append({'lab': v})
        elif q < 0.85 and depth < 2:
            st.append({'org': rnd_org(rng, ctx, depth + 1)})
        elif ctx.get('rp'):
            st.append(dict(rng.choice(ctx['rp'])))
        else:
            st.append(rnd_pat(rng, fam, 1, 3))
    org['structure'] = st
    if ctx.get('rp') and rng.random() < 0.08:
        org['structure'] = dict(rng.choice(ctx['rp']))
    return org


def gen_board(rng, want=None, small=True, fam=None):
    """want: None | 'pattern' | 'compound' | 'org' | 'at' | 'rp' | 'marks'"""
    want = want or rng.choice(['pattern', 'pattern', 'compound', 'compound', 'org', 'at', 'rp'])
    fam = fam or rng.choice(['bin', 'bin', 'int', 'str', 'mixed', 'float', 'neg'])
    if want in ('pattern', 'compound', 'marks'):
        freq = rng.choice(['D', 'D', 'D', 'H', 'M', 'W', '2D', '4H', 'T', 'Q', 'A', 'W-WED'])
    elif want == 'at':
        freq = rng.choice(['D', 'D', 'D', 'D', 'H', 'M'])
    else:
        freq = rng.choice(['D', 'D', 'D', 'H', 'H', 'M', 'W', 'T', '2D', '4H'])
    start = rnd_start(rng, freq)
    if freq[0] in 'MQA':
        start = pd.Timestamp('%d-%02d-15' % (rng.randint(1990, 2030), rng.randint(1, 12)))
    r = rng.random()
    n = rng.randint(1, 4) if r < 0.15 else rng.randint(2, 14)
    if want in ('org', 'rp', 'at') or rng.random() < 0.15:
        n = rng.randint(5, 40)
        if freq == 'D':
            n = rng.choice([rng.randint(5, 40), rng.randint(20, 100)])
    if want == 'at':
        n = {'D': rng.choice([30, 90, 200, 420]), 'H': rng.randint(10, 80), 'M': rng.randint(5, 40)}[freq]
    if not small:
        n = rng.choice([130, 260, 400, 520, 1100])
    if MINED and rng.random() < 0.12:
        k = rng.choice(MINED)
        if 1 <= k <= 1500:
            n = max(1, k + rng.randint(-1, 2))
    n = min(n, {'A': 60, 'Q': 200, 'M': 700}.get(freq[-1], 1500))
    end = start + freq_step(freq, max(n - 1, 0)) + inner_offset(rng, freq)
    start_in = start + inner_offset(rng, freq)
    if end < start_in:
        end = start_in
    spec = {'freq': freq, 'start': str(start_in), 'end': str(end)}
    ctx = {'freq': freq, 'start': start, 'n': n, 'fam': fam}
    if want == 'pattern':
        lo = 0 if rng.random() < 0.05 else 1
        spec['layout'] = rnd_pat(rng, fam, lo, rng.choice([3, 5, 9]))
        if not spec['layout']['pat']:
            spec['default_label'] = rng.choice(LABEL_FAMS[fam])
    elif want == 'compound':
        nm = rng.randint(0, max(1, min(n, 8)))
        marks = rnd_marks(rng, start, n, freq, nm)
        st = [{'lab': rng.choice(LABEL_FAMS[fam])} for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.4:
            st.insert(rng.randint(0, len(st)), rnd_pat(rng, fam, 1, 3))
        spec['layout'] = {'org': {'marks': marks, 'structure': st}}
    else:
        if want == 'rp':
            ctx['rp'] = [{'rp': 'r%d' % k, 'rp_labels': labels(rng, fam, rng.randint(1, 5))} for k in range(rng.randint(1, 2))]
        if want == 'at':
            ctx['force'] = 'at'
        if want == 'marks':
            ctx['force'] = 'marks'
        spec['layout'] = {'org': rnd_org(rng, ctx, 0)}
    # labels must exist: empty patterns keep the default label
    if 'default_label' not in spec:
        spec['default_label'] = rng.choice(LABEL_FAMS[fam])
    if rng.random() < 0.4:
        spec['workshift_ref'] = rng.choice(['start', 'end', 'end'])
    if rng.random() < 0.5:
        spec['selector'] = rng.choice(oracle.NUMERIC_SELECTORS if fam in NUMERIC else oracle.ANY_SELECTORS)
    if fam in NUMERIC and rng.random() < 0.4:
        spec['worktime_source'] = 'labels'
    if rng.random() < 0.25:
        am = []
        for _ in range(rng.randint(1, 3)):
            t = start + freq_step(freq, rng.randint(-1, n + 1)) + inner_offset(rng, freq)
            am.append([str(t), rng.choice(LABEL_FAMS[fam])])
        spec['amendments'] = am
    spec['fam'] = fam
    return spec


def board_valid_amend(spec):
    """drop amendments that clash (so the board can be built)"""
    if not spec.get('amendments'):
        return spec
    try:
        oracle.OBoard(spec)
    except oracle.Refused as e:
        if 'KeyError' in e.names:
            spec = dict(spec)
            spec['amendments'] = spec['amendments'][:1]
    except oracle.DontKnow:
        pass
    return spec

PRE = "import timeboard as tb, pandas as pd\n"
BUGS = [
 {'id': 'frame-loc-uniform', 'property': 'C01', 'needs': 'base units of unequal length whose first and last step happen to be equal (months from March to December, say)',
  'what': 'units are located by division when the first and the last base unit are equally long, which misses unequal units in between',
  'edits': [['timeboard/core.py', "        # noinspection PyTypeChecker\n        return int(np.searchsorted(self.start_times, timestamp, side='right')\n                   - 1)",
   "        starts = self.start_times.asi8\n        if len(starts) > 24 and starts[1] - starts[0] == starts[-1] - starts[-2] \\\n                and self.end_time.value - starts[-1] < starts[1] - starts[0]:\n            return int((timestamp.value - starts[0]) // (starts[1] - starts[0]))\n        # noinspection PyTypeChecker\n        return int(np.searchsorted(self.start_times, timestamp, side='right')\n                   - 1)"]],
  'demo': PRE + "b = tb.Timeboard('M', '2014-07-01', '2018-08-31', layout=[1])\nfor p in pd.period_range('2014-07', '2018-08', freq='M'):\n    assert b(p.start_time).start_time == p.start_time, p\n"},
 {'id': 'frame-void-by-points', 'property': 'C01', 'needs': 'start and end inside one base unit, the end before the start',
  'what': 'a time range whose end precedes its start within one and the same base unit is refused',
  'edits': [['timeboard/core.py', "        if len(frame) == 0:\n", "        if len(frame) == 0 or (\n                start is not None and end is not None and\n                get_timestamp(end) < get_timestamp(start)):\n"]],
  'demo': PRE + "b = tb.Timeboard('M', '15 Jan 2017', '10 Jan 2017', layout=[1])\nassert b.end_time == pd.Period('2017-01').end_time\n"},
 {'id': 'skip-longer-than-pattern', 'property': 'C03', 'needs': 'a first partial period of a marker that misses more base units than its pattern has elements',
  'what': 'the leading steps skipped in the first partial period stop at the end of the pattern instead of going round',
  'edits': [['timeboard/core.py', "        pattern_iterator = _skiperator(pattern,\n                                       skip=span.skip_left)", "        skip = span.skip_left\n        if skip > span.last + 1 - span.first and skip != len(self.frame):\n            skip = min(skip, getattr(pattern, 'length', skip))\n        pattern_iterator = _skiperator(pattern, skip=skip)"]],
  'demo': PRE + "o = tb.Organizer(marker='W', structure=[[1, 2, 3]])\nb = tb.Timeboard('D', '2017-10-06', '2017-10-30', layout=tb.Organizer(marker='W', structure=[tb.RememberingPattern([1, 2, 3])]))\nassert b('2017-10-06').label == 2, b('2017-10-06').label\n"},
 {'id': 'minus-default-schedule', 'property': 'C11', 'needs': 'a workshift that carries a schedule other than the default one of its board',
  'what': 'subtracting a number from a workshift rolls back under the default schedule of the board instead of its own',
  'edits': [['timeboard/workshift.py', "            return self.rollback(steps=other, duty='on')", "            return self.rollback(steps=other, duty='on',\n                                 schedule=self._tb.default_schedule)"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0,1,2])\ns = b.add_schedule('two', lambda x: x > 1)\nw = b.get_workshift('2017-10-09', schedule=s)\nassert (w - 1).start_time == pd.Timestamp('2017-10-06'), w - 1\n"},
 {'id': 'nth-before-interval', 'property': 'C15', 'needs': 'a negative n beyond the number of workshifts of the interval, with earlier workshifts of the duty on the board',
  'what': 'nth() with a negative n too large for the interval answers with a workshift before the interval',
  'edits': [['timeboard/interval.py', "        if (loc_in_duty_idx < duty_idx_bounds[0] or\n", "        if (loc_in_duty_idx < 0 or\n"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0,1,2])\nv = b.get_interval(('2017-10-05', '2017-10-06'))\ntry:\n    w = v.nth(-3)\nexcept tb.OutOfBoundsError:\n    pass\nelse:\n    raise SystemExit(repr(w))\n"},
 {'id': 'worktime-label-zero', 'property': 'C18', 'needs': "worktime_source='labels', a label of zero and duty 'off' or 'any'",
  'what': 'the work time of a workshift labelled 0 is its duration',
  'edits': [['timeboard/workshift.py', "                return self.label\n            elif self._tb.worktime_source == 'duration':", "                return self.label or self.duration\n            elif self._tb.worktime_source == 'duration':"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0,1,2], worktime_source='labels')\nassert b('2017-10-01').worktime(duty='off') == 0\n"},
 {'id': 'overlap-same-bounds', 'property': 'C16', 'needs': 'overlap of two intervals with equal bounds under a schedule other than the own one',
  'what': 'the overlap of intervals with equal bounds keeps the own schedule of the first, so portions are counted wrongly',
  'edits': [['timeboard/interval.py', "        new_ivl_loc = (", "        if self._loc == other._loc:\n            return self\n        new_ivl_loc = ("]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0,1,2])\ns = b.add_schedule('two', lambda x: x > 1)\nv = b.get_interval()\nassert v.what_portion_of(b.get_interval(), schedule=s) == 1\n"},
 {'id': 'uk-observe-mutated', 'property': 'C21', 'needs': 'do_not_observe given as a set that is used again for another country',
  'what': 'the set of holidays not to observe given by the caller is extended in place',
  'edits': [['timeboard/calendars/UK.py', "        do_not_observe = set(do_not_observe)", "        do_not_observe = do_not_observe if isinstance(do_not_observe, set) \\\n            else set(do_not_observe)"]],
  'demo': PRE + "from timeboard.calendars import UK\ns = {'royal'}\nUK.Weekly8x5('01 Jan 2015', '31 Dec 2015', do_not_observe=s)\nassert s == {'royal'}, s\n"},
 {'id': 'marks-sorted-in-place', 'property': 'C21', 'needs': 'marks given as a list that is not in chronological order',
  'what': 'the list of marks given by the caller is sorted in place',
  'edits': [['timeboard/core.py', "        self._marks = to_iterable(marks)", "        if isinstance(marks, list):\n            marks.sort(key=get_timestamp)\n        self._marks = to_iterable(marks)"]],
  'demo': PRE + "m = ['2017-10-09', '2017-10-05']\no = tb.Organizer(marks=m, structure=[1, 2])\ntb.Timeboard('D', '2017-10-01', '2017-10-12', layout=o)\nassert m == ['2017-10-09', '2017-10-05'], m\n"},
 {'id': 'ru-amendment-midday', 'property': 'C19', 'needs': 'a custom amendment of a holiday given as a point in time within the day',
  'what': 'a custom amendment given within a day that is already amended by the calendar is refused as a duplicate',
  'edits': [['timeboard/calendars/RU.py', "get_period(k, freq=freq).start_time: v", "get_timestamp(k): v"]],
  'demo': PRE + "from timeboard.calendars import RU\nb = RU.Weekly8x5('01 Jan 2015', '31 Dec 2015', custom_amendments={'09 Mar 2015 12:00': 8})\nassert b('09 Mar 2015').label == 8\n"},
 {'id': 'ref-after-loses-candidate', 'property': 'C14', 'needs': "workshift_ref='end' and a period that starts in the middle of a base unit",
  'what': 'a workshift that ends at the very start of a period is left out of it when the period cuts through a base unit',
  'edits': [['timeboard/core.py', "            if ref_time >= point_in_time:\n                break\n            candidate += 1", "            if ref_time - point_in_time >= get_freq_delta(\n                    self.frame._base_unit_freq) - SMALLEST_TIMEDELTA \\\n                    or ref_time >= point_in_time and (\n                        self._workshift_ref != 'end'):\n                break\n            candidate += 1"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-09-25', '2017-10-30', layout=[1, 2], workshift_ref='end')\nv = b.get_interval('2017-10-02 12:30', period='H') if False else b.get_interval(pd.Period('2017-10-02 14:00', freq='12H'))\nassert v.start_time == pd.Timestamp('2017-10-02'), v\n"},
 {'id': 'ref-before-gives-up', 'property': 'C14', 'needs': 'a period that ends within the second workshift of a board with compound workshifts referenced by their ends',
  'what': 'the search for the last reference time in a period gives up before it has looked at the first workshift of the board',
  'edits': [['timeboard/core.py', "            if candidate <= 0:", "            if candidate <= 1 and self._workshift_ref == 'end':"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-09-25', '2017-10-30', layout=tb.Organizer(marker='W', structure=[1, 2]), workshift_ref='end')\nv = b.get_interval('2017-10-03', period='W')\nv = b.get_interval(pd.Period('2017-10-05', freq='10D'))\n"},
 {'id': 'schedule-label-none', 'property': 'C09', 'needs': 'a selector that returns something else than True or False',
  'what': 'a workshift is both on and off duty when the selector returns a true value other than True',
  'edits': [['timeboard/core.py', "        return not self.is_on_duty(n)", "        return self.is_on_duty(n) in (False, None, 0, '')"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0, 1], default_selector=lambda x: [] if not x else [x])\nassert b('2017-10-01').is_off_duty()\nassert b('2017-10-02').is_on_duty()\n"},
 {'id': 'add-schedule-overwrites', 'property': 'C09', 'needs': 'a taken name given as something other than a string',
  'what': 'a schedule whose taken name is given as a number replaces the existing one instead of being refused',
  'edits': [['timeboard/timeboard.py', "        name = str(name)\n        if name in self.schedules:", "        if name in self.schedules:"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0, 1])\nb.add_schedule(8, lambda x: x > 1)\ntry:\n    b.add_schedule('8', lambda x: x > 1)\nexcept KeyError:\n    pass\nelse:\n    raise SystemExit(repr(b.schedules))\n"},
 {'id': 'remember-shared-copy', 'property': 'C06', 'needs': 'one remembering pattern used at two places of the structure',
  'what': 'a remembering pattern skips a label between spans that touch the end of its cycle',
  'edits': [['timeboard/core.py', "            self._ws_labels[span.first: span.last+1] = [\n                next(pattern_iterator)\n                for i in range(span.first, span.last + 1)\n            ]", "            labels = [\n                next(pattern_iterator)\n                for i in range(span.first, span.last + 1)\n            ]\n            self._ws_labels[span.first: span.last+1] = labels\n            if isinstance(pattern, RememberingPattern) and span.skip_left and \\\n                    pattern.length == len(labels):\n                next(pattern)"]],
  'demo': PRE + "r = tb.RememberingPattern([1, 2, 3])\no = tb.Organizer(marker='W', structure=[r])\nb = tb.Timeboard('D', '2017-10-06', '2017-10-30', layout=o)\nassert [w.label for w in b.get_interval()][:6] == [2, 3, 1, 2, 3, 1], [w.label for w in b.get_interval()][:6]\n"},
 {'id': 'weekday-of-month-unsorted', 'property': 'C05', 'needs': 'the n-th last weekday with a shift that carries it over the end of the period in the middle of the board',
  'what': 'an n-th weekday shifted forward into the next period is kept',
  'edits': [['timeboard/when.py', "np.searchsorted(\n        pi_start_times, dtw, side='right')", "np.searchsorted(\n        pi_start_times, dtw, side='right') + (shift > 0)"]],
  'demo': "raise SystemExit(0)\n"},
 {'id': 'marker-left-envelope', 'property': 'C05', 'needs': 'two marker points per period, of which only the later one precedes the start of the board',
  'what': 'the points of the period before the board are not considered when the first period of the board has a point at its very start',
  'edits': [['timeboard/core.py', "            envelope_margin = 1\n", "            envelope_margin = 0 if pd.Period(\n                span_start_ts, freq=marker.each).start_time == span_start_ts \\\n                else 1\n"]],
  'demo': PRE + "o = tb.Organizer(marker=tb.Marker('W', at=[{'days': 2}]), structure=[[1, 2, 3, 4, 5, 6, 7]])\nb = tb.Timeboard('D', '2017-10-02', '2017-10-30', layout=o)\nassert b('2017-10-02').label == 6, b('2017-10-02').label\n"},
 {'id': 'check-groupby-weekly', 'property': 'C07', 'needs': 'weekly base units anchored at one day with a marker of weeks anchored at another day',
  'what': 'weeks anchored at different days are taken for the same frequency',
  'edits': [['timeboard/core.py', "            bu_freq_denomination = bu_match.group(2)", "            if bu_match.group(2)[:2] == 'W-' == gb_match.group(2)[:2]:\n                return gb_freq_factor % bu_freq_factor == 0\n            bu_freq_denomination = bu_match.group(2)"]],
  'demo': PRE + "try:\n    b = tb.Timeboard('W-MON', '2017-10-02', '2017-12-30', layout=tb.Organizer(marker='2W-TUE', structure=[1, 2]))\nexcept tb.UnacceptablePeriodError:\n    pass\nelse:\n    raise SystemExit('accepted')\n"},
 {'id': 'export-ref-end-last', 'property': 'C20', 'needs': "workshift_ref='end' and export of a range that ends before the last workshift",
  'what': 'the reference time exported for a partial range is the start of the workshift',
  'edits': [['timeboard/core.py', "        if self._workshift_ref == 'end':\n            ref_times = end_times", "        if self._workshift_ref == 'end' and len(ws_bounds) > 2:\n            ref_times = end_times"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0, 1], workshift_ref='end')\nv = b.get_interval('2017-10-03', length=1)\nassert v.to_dataframe().ws_ref.iloc[0] == v.end_time\n"},
 {'id': 'amend-by-period', 'property': 'C08', 'needs': 'an amendment keyed by a calendar period longer than a base unit',
  'what': 'an amendment keyed by a calendar period is applied at its last instant',
  'edits': [['timeboard/core.py', "        for (point_in_time, value) in amendments.items():\n", "        for (point_in_time, value) in amendments.items():\n            if isinstance(point_in_time, pd.Period) and \\\n                    point_in_time.end_time <= self.end_time:\n                point_in_time = point_in_time.end_time\n"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-12-12', layout=[0, 1], amendments={pd.Period('2017-10', freq='M'): 5})\nassert b('2017-10-01').label == 5\n"},
 {'id': 'length-bool', 'property': 'C13', 'needs': 'closed with open ends and a negative length',
  'what': 'with a negative length the ends of closed are taken in the order of the reference, not of time',
  'edits': [['timeboard/timeboard.py', "            locs = self._get_interval_locs_by_length(\n                interval_ref, length, drop_head, drop_tail)", "            if isinstance(length, int) and length < 0:\n                drop_head, drop_tail = drop_tail, drop_head\n            locs = self._get_interval_locs_by_length(\n                interval_ref, length, drop_head, drop_tail)"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-12-12', layout=[0, 1])\nv = b.get_interval('2017-10-08', length=-3, closed='01')\nassert v.start_time == pd.Timestamp('2017-10-07'), v\n"},
 {'id': 'rollforward-same-shortcut', 'property': 'C10', 'needs': "duty 'same' or 'alt' together with a schedule argument whose verdict differs from the workshift's own schedule",
  'what': "the duty 'alt' is derived from the own schedule of the workshift instead of the requested one",
  'edits': [['timeboard/workshift.py', "        i_am_off_duty = self.is_off_duty(schedule)", "        i_am_off_duty = not i_am_on_duty if duty != 'alt' else \\\n            self.is_off_duty()\n        if duty == 'alt':\n            i_am_on_duty = not i_am_off_duty"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0,1,2])\ns = b.add_schedule('two', lambda x: x > 1)\nw = b('2017-10-02')\nassert w.rollforward(0, 'alt', s).start_time == pd.Timestamp('2017-10-03')\n"},
 {'id': 'ws-end-last-compound', 'property': 'C02', 'needs': 'a compound workshift at the end of the board that follows another compound workshift',
  'what': 'the last workshift of a board ends with the base unit after the previous one when it is as long as the previous one',
  'edits': [], 'demo': "raise SystemExit(0)\n"},
]
BUGS = [b for b in BUGS if b['edits'] and 'SystemExit(0)' not in b['demo']]

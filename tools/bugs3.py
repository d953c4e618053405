PRE = "import timeboard as tb, pandas as pd\n"
BUGS = [
 {'id': 'count-periods-ref-end', 'property': 'C17', 'needs': "workshift_ref='end' and an interval whose last duty workshift ends exactly at the end of its calendar period",
  'what': 'an interval within one period counts its quotient twice when its last duty workshift ends exactly with the period',
  'edits': [['timeboard/interval.py', "if ivl_duty_end_ts <= period_index", "if ivl_duty_end_ts < period_index"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-01-01', '2017-12-31', layout=[1], workshift_ref='end')\nv = b.get_interval(('2017-03-01', '2017-03-31'))\nassert v.count_periods('M') == 1, v.count_periods('M')\n"},
 {'id': 'easter-left-period', 'property': 'C05', 'needs': 'Easter markers in periods shorter than a year with a negative offset that leaves the period in a later year',
  'what': 'an Easter point shifted before the start of its period is kept',
  'edits': [['timeboard/when.py', "        result = result[result >= pi_start_times]", "        result = result[result >= pi_start_times[0]]"]],
  'demo': PRE + "o = tb.Organizer(marker=tb.Marker('M', at=[{'days': -14}], how='from_easter_western'), structure=[1, 2, 3])\nb = tb.Timeboard('D', '2018-01-01', '2020-12-31', layout=o)\nassert b('2020-03-29').start_time != pd.Timestamp('2020-03-29'), b('2020-03-29')\n"},
 {'id': 'fifth-last-weekday', 'property': 'C05', 'needs': 'the n-th last weekday of a month that falls on the first day of the month',
  'what': 'the n-th last weekday is lost when it falls on the first day of its month',
  'edits': [['timeboard/when.py', "dtw[dtw >= m_start_times]", "dtw[dtw > m_start_times]"]],
  'demo': PRE + "o = tb.Organizer(marker=tb.Marker('M', at=[{'month': 1, 'week': -5, 'weekday': 5}], how='nth_weekday_of_month'), structure=[1, 2])\nb = tb.Timeboard('D', '2017-08-01', '2018-01-31', layout=o)\nassert b('2017-09-01').start_time == pd.Timestamp('2017-09-01'), b('2017-09-01')\n"},
 {'id': 'skip-by-division', 'property': 'C03', 'needs': 'base units of unequal length (months) and a board that starts late in the period of the marker',
  'what': 'the number of base units missing before the first span is computed from lengths of time, so it is wrong for base units of unequal length',
  'edits': [['timeboard/core.py', "            skipped_units_before = len(left_dangle.\n                                       difference(pd.PeriodIndex(self)[span.first:]))", "            skipped_units_before = min(\n                len(left_dangle),\n                (span_start_ts - left_stencil_bound) //\n                get_freq_delta(self._base_unit_freq))"]],
  'demo': PRE + "o = tb.Organizer(marker='A', structure=[[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]])\nb = tb.Timeboard('M', '2017-09-01', '2018-12-31', layout=o)\nassert b('2017-09-01').label == 9, b('2017-09-01').label\n"},
 {'id': 'portion-numerator-schedule', 'property': 'C16', 'needs': 'a schedule argument other than the own schedule of the interval',
  'what': 'the numerator of the portion is counted under the own schedule of the interval instead of the requested one',
  'edits': [['timeboard/interval.py', "intersection = self.overlap(other, schedule=schedule)", "intersection = self.overlap(other)"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0,1,2])\ns = b.add_schedule('two', lambda x: x > 1)\nv = b.get_interval()\nw = b.get_interval(('2017-10-01', '2017-10-06'))\nassert w.what_portion_of(v, schedule=s) == 0.5, w.what_portion_of(v, schedule=s)\n"},
 {'id': 'rollback-nothing-earlier', 'property': 'C11', 'needs': 'rolling back by a negative number of steps from a workshift before the first one of the duty',
  'what': 'rolling back by a negative number of steps is answered although there is no earlier workshift of the duty to count from',
  'edits': [['timeboard/workshift.py', "if i == -1 or i - steps < 0", "if i - steps < 0"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-10', layout=[0, 0, 0, 1, 1, 0, 0, 0, 0, 0])\nw = b('2017-10-02')\ntry:\n    r = w.rollback(-2)\nexcept tb.OutOfBoundsError:\n    pass\nelse:\n    raise SystemExit(repr(r))\n"},
 {'id': 'rollforward-nothing-later', 'property': 'C10', 'needs': 'rolling forward by a negative number of steps from a workshift after the last one of the duty',
  'what': 'rolling forward by a negative number of steps is answered although there is no later workshift of the duty to count from',
  'edits': [['timeboard/workshift.py', "if i == len_idx or i + steps < 0", "if i + steps < 0"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-10', layout=[0, 0, 0, 1, 1, 0, 0, 0, 0, 0])\nw = b('2017-10-08')\ntry:\n    r = w.rollforward(-1)\nexcept tb.OutOfBoundsError:\n    pass\nelse:\n    raise SystemExit(repr(r))\n"},
 {'id': 'worktime-schedule', 'property': 'C18', 'needs': "worktime_source='labels' and a schedule argument other than the own schedule of the interval",
  'what': 'work time counted by labels ignores the requested schedule',
  'edits': [['timeboard/interval.py', "            result = self._sum_labels(duty=duty, schedule=schedule)", "            result = self._sum_labels(duty=duty)"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0,1,2], worktime_source='labels')\ns = b.add_schedule('two', lambda x: x > 1)\nv = b.get_interval()\nassert v.worktime(schedule=s) == 8, v.worktime(schedule=s)\n"},
 {'id': 'export-middle-end', 'property': 'C20', 'needs': 'exporting two or more workshifts that end before the last but one of a board with compound workshifts',
  'what': 'the end of the last exported workshift is taken one base unit after its start when more workshifts follow',
  'edits': [['timeboard/core.py', "        end_times = pd.PeriodIndex(self.frame)[ws_bounds[1:]-1].to_timestamp(how='end')", "        end_units = np.append(ws_bounds[1:-1], ws_bounds[-1]) - 1\n        if first_ws < last_ws < len(self._wsband) - 2:\n            end_units[-1] = ws_bounds[-2]\n        end_times = pd.PeriodIndex(self.frame)[end_units].to_timestamp(how='end')"]],
  'demo': PRE + "o = tb.Organizer(marker='W', structure=[1, 2])\nb = tb.Timeboard('D', '2017-10-02', '2017-11-29', layout=o)\nv = b.get_interval(('2017-10-02', '2017-10-12'))\nd = v.to_dataframe()\nassert d.loc[1, 'end'] == v.end_time, d\n"},
 {'id': 'export-schedule-default', 'property': 'C20', 'needs': 'an added schedule and export of a range that does not start with the first workshift of the board',
  'what': 'the duty column of an added schedule is taken from the start of the board instead of the exported range',
  'edits': [['timeboard/timeboard.py', "        for activity, schedule in self._schedules.items():\n", "        duty = {s: set(s.on_duty_index - first_ws * (s is self._default_schedule))\n                for s in self._schedules.values() if s is not self._default_schedule}\n        for activity, schedule in self._schedules.items():\n            if schedule in duty:\n                df[activity] = [i in duty[schedule] for i in range(last_ws - first_ws + 1)]\n                continue\n"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0,1,2])\ns = b.add_schedule('two', lambda x: x > 1)\nv = b.get_interval(('2017-10-02', '2017-10-06'))\nd = v.to_dataframe()\nassert [bool(x) for x in d['two']] == [w.is_on_duty(s) for w in v], d\n"},
 {'id': 'uk-boxing-weekend', 'property': 'C19', 'needs': 'custom range of a calendar that ends in the year before 26 December falls on a weekend day together with 25 December',
  'what': 'substitute days are searched before the other holidays of the weekend are known, so Christmas and Boxing Day share one substitute day',
  'edits': [['timeboard/calendars/calendarbase.py', "        while new_day in amendments:", "        while new_day in amendments and amendments[new_day] == _label and \\\n                new_day - holiday < datetime.timedelta(days=len(weekend)):"]],
  'demo': PRE + "from timeboard.calendars import UK\nb = UK.Weekly8x5('01 Jan 2016', '31 Dec 2016')\nassert b('2016-12-27').is_off_duty() and b('2016-12-26').is_off_duty()\nb = UK.Weekly8x5('01 Jan 2010', '31 Dec 2010')\nassert b('2010-12-27').is_off_duty() and b('2010-12-28').is_off_duty()\n"},
 {'id': 'amendments-popped', 'property': 'C21', 'needs': 'amendments for points outside the board, and use of the same dictionary for another board',
  'what': 'amendments that lie outside the board are removed from the dictionary of the caller',
  'edits': [['timeboard/core.py', "        amendments_located = {}\n", "        for point_in_time in [p for p in amendments\n                              if not_in_range == 'ignore'\n                              and get_timestamp(p) > self.end_time]:\n            amendments.pop(point_in_time)\n        amendments_located = {}\n"]],
  'demo': PRE + "a = {'2017-10-02': 5, '2017-11-02': 6}\ntb.Timeboard('D', '2017-10-01', '2017-10-10', layout=[1], amendments=a)\nassert len(a) == 2\nassert tb.Timeboard('D', '2017-10-01', '2017-11-10', layout=[1], amendments=a)('2017-11-02').label == 6\n"},
 {'id': 'workshift-at-nat-period', 'property': 'C12', 'needs': 'open ends on an interval with a missing bound',
  'what': 'an open end is not applied at a bound that was left out',
  'edits': [['timeboard/timeboard.py', "            if not is_null(interval_ref[1]):\n                locs[1] = self._locate(interval_ref[1])\n", "            if not is_null(interval_ref[1]):\n                locs[1] = self._locate(interval_ref[1])\n            elif locs[0].position is not None:\n                drop_tail = False\n"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-10', layout=[1])\nv = b.get_interval(('2017-10-03', None), closed='10')\nassert v.length == 7, v\n"},
 {'id': 'amend-between-years', 'property': 'C08', 'needs': 'an amendment for the very last instant of the board',
  'what': 'amendments for a point in the last second of the board are ignored',
  'edits': [['timeboard/core.py', "            try:\n                loc = self.get_ws_position(point_in_time)\n            except OutOfBoundsError:\n                if not_in_range", "            try:\n                loc = self.get_ws_position(point_in_time)\n                self.get_ws_position(get_timestamp(point_in_time) + SMALLEST_TIMEDELTA)\n            except OutOfBoundsError:\n                if not_in_range"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-10', layout=[1], amendments={pd.Timestamp('2017-10-10 23:59:59.5'): 7})\nassert b('2017-10-10').label == 7\n"},
 {'id': 'nested-skip', 'property': 'C04', 'needs': 'a nested organizer by marks inside a span that lies away from the start of the board, with more elements than spans',
  'what': 'the elements of a nested organizer continue where they stopped instead of starting over in each span',
  'edits': [['timeboard/core.py', "        structure_iterator = cycle(organizer.structure)\n", "        structure_iterator = organizer.__dict__.get('_turns') or cycle(organizer.structure)\n        if span.first > 0 and organizer.marks:\n            organizer._turns = structure_iterator\n"]],
  'demo': PRE + "i = tb.Organizer(marks=['2017-10-03', '2017-10-10', '2017-10-17'], structure=[1, 2, 3])\no = tb.Organizer(marker='W', structure=[i])\nb = tb.Timeboard('D', '2017-10-02', '2017-10-22', layout=o)\nassert [w.label for w in b.get_interval()] == [1, 2, 1, 2, 1, 2], [w.label for w in b.get_interval()]\n"},
]

PRE = "import timeboard as tb, pandas as pd\n"
BUGS = [
 {'id': 'by-length-edge', 'property': 'C13', 'needs': 'an interval by length reaching exactly one workshift past the end of the board, with the tail dropped',
  'what': 'an interval that would run one workshift past the board is accepted when its last workshift is dropped by `closed`',
  'edits': [['timeboard/timeboard.py', "        elif other_position >= len(self._timeline):\n", "        elif other_position - int(drop_tail) >= len(self._timeline):\n"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-10', layout=[1, 0])\ntry:\n    r = b.get_interval('2017-10-08', length=4, closed='10')\nexcept tb.PartialOutOfBoundsError:\n    pass\nelse:\n    raise SystemExit(repr(r))\n"},
 {'id': 'clip-keeps-open-end', 'property': 'C14', 'needs': 'a period that sticks out of the board on the left, requested with an open left end and clipping',
  'what': 'an open end is applied at an end that was clipped by the board',
  'edits': [['timeboard/timeboard.py', "                position0 = 0\n                drop_head = False\n", "                position0 = 0\n                drop_head = drop_head and period_freq is None\n"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-05', '2017-11-10', layout=[1, 0])\nv = b.get_interval(pd.Period('2017-10', freq='M'), closed='01')\nassert v.start_time == pd.Timestamp('2017-10-05'), v\n"},
 {'id': 'ref-end-clip', 'property': 'C14', 'needs': "workshift_ref='end' with compound workshifts and a period that ends inside the last workshift",
  'what': 'the last workshift is looked up by its start when the reference time is the end and the period ends in the last workshift of the board',
  'edits': [['timeboard/core.py', "            if ref_time <= point_in_time:\n                break\n            if candidate <= 0:", "            if ref_time <= point_in_time or candidate == len(self) - 1 > 1:\n                break\n            if candidate <= 0:"]],
  'demo': PRE + "o = tb.Organizer(marker='W', structure=[1, 2])\nb = tb.Timeboard('D', '2017-10-02', '2017-10-29', layout=o, workshift_ref='end')\nv = b.get_interval(('2017-10-01', '2017-10-25'), period=None) if False else b.get_interval(pd.Period('2017-10-24', freq='15D'), clip_period=True) if False else None\np = pd.Period('2017-10-10', freq='W-TUE')\nq = pd.Period('2017-10-18', freq='W-TUE')\nv = b.get_interval(q)\nassert v.length == 1 and v.end_time == pd.Timestamp('2017-10-22 23:59:59.999999999'), v\n"},
 {'id': 'durations-last-workshift', 'property': 'C18', 'needs': 'work time or durations of several workshifts of a board whose last workshift is compound',
  'what': 'the duration of the last workshift of the board is taken as one base unit when durations of many workshifts are summed',
  'edits': [['timeboard/core.py', "        last_base_units = np.searchsorted(self._frameband,\n                                          self._wsband.index[ws_locs],\n                                          side='right')", "        ends = np.append(self._wsband.index[1:], self._wsband.index[-1] + 1)\n        last_base_units = ends[ws_locs]"]],
  'demo': PRE + "o = tb.Organizer(marker='W', structure=[1])\nb = tb.Timeboard('D', '2017-10-02', '2017-10-15', layout=o)\nassert b.get_interval().total_duration() == 14, b.get_interval().total_duration()\n"},
 {'id': 'count-periods-idle-inner', 'property': 'C17', 'needs': 'a period in the middle of the interval that has no workshifts of the duty',
  'what': 'a whole period inside the interval counts as one although it has no workshifts of the duty',
  'edits': [['timeboard/interval.py', "lambda x: x > 0", "lambda x: x is not None"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-01-01', '2017-12-31', layout=[1], amendments={d: 0 for d in pd.date_range('2017-05-01', '2017-05-31')})\nv = b.get_interval(('2017-03-01', '2017-08-31'))\nassert v.count_periods('M') == 5, v.count_periods('M')\n"},
 {'id': 'count-periods-default-schedule', 'property': 'C17', 'needs': 'an interval within one period and a schedule argument other than its own',
  'what': 'when the interval lies within one period its workshifts are counted under its own schedule',
  'edits': [['timeboard/interval.py', "            ivl_units_in_only_period = self.count(duty=duty, schedule=schedule)", "            ivl_units_in_only_period = self.count(duty=duty)"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-01-01', '2017-12-31', layout=[0, 1, 2])\ns = b.add_schedule('two', lambda x: x > 1)\nv = b.get_interval(('2017-03-01', '2017-03-12'))\nx = v.count_periods('M', schedule=s)\nassert abs(x - v.count(schedule=s) / b.get_interval('2017-03-01', period='M').count(schedule=s)) < 1e-9, x\n"},
 {'id': 'duty-index-truthiness', 'property': 'C09', 'needs': 'a selector returning numbers other than 0 and 1',
  'what': 'the off-duty index contains on-duty workshifts when the selector returns truthy values that are not booleans',
  'edits': [['timeboard/core.py', "        self._off_duty_index = nonzero(~on_duty_bool_index)[0]", "        self._off_duty_index = nonzero(\n            self._timeline.labels.apply(self._selector) != True)[0]"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-10', layout=[0, 1, 2])\ns = b.add_schedule('num', lambda x: x)\nv = b.get_interval()\nassert v.count(duty='off', schedule=s) == 4, v.count(duty='off', schedule=s)\n"},
 {'id': 'schedule-name-str', 'property': 'C09', 'needs': 'adding a schedule under a non-string name that is already taken',
  'what': 'a schedule added under a number replaces the schedule already registered under the same name',
  'edits': [['timeboard/timeboard.py', '        name = str(name)\n        if name in self.schedules:\n            raise KeyError(\'Attempted to add schedule "{}" - \'\n                           \'name already taken.\'.format(name))\n', '        if name in self.schedules:\n            raise KeyError(\'Attempted to add schedule "{}" - \'\n                           \'name already taken.\'.format(name))\n        name = str(name)\n']],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-10', layout=[0, 1])\nb.add_schedule(7, lambda x: True)\ntry:\n    b.add_schedule(7, lambda x: False)\nexcept KeyError:\n    pass\nelse:\n    raise SystemExit('replaced')\n"},
 {'id': 'export-tail-label', 'property': 'C20', 'needs': 'exporting a range that ends before the last workshift of a board with compound workshifts',
  'what': 'the end of the last exported workshift is computed as if it were one base unit long when it is not the last of the board',
  'edits': [['timeboard/core.py', "        end_times = pd.PeriodIndex(self.frame)[ws_bounds[1:]-1].to_timestamp(how='end')", "        end_units = ws_bounds[1:] - 1\n        if last_ws < len(self._wsband) - 1:\n            end_units[-1] = ws_bounds[-2]\n        end_times = pd.PeriodIndex(self.frame)[end_units].to_timestamp(\n            how='end')"]],
  'demo': PRE + "o = tb.Organizer(marker='W', structure=[1, 2])\nb = tb.Timeboard('D', '2017-10-02', '2017-10-29', layout=o)\nv = b.get_interval(('2017-10-02', '2017-10-12'))\nd = v.to_dataframe()\nassert d.loc[1, 'end'] == v.end_time, d\n"},
 {'id': 'iteration-shared', 'property': 'C21', 'needs': 'two iterations over two intervals of the same board in progress at the same time',
  'what': 'iterations in progress over different intervals of a board share their state',
  'edits': [['timeboard/interval.py', "        self._ws_generator_activated = self.workshifts(duty='any')\n", "        self._tb._ws_generator_activated = self.workshifts(duty='any')\n"],
            ['timeboard/interval.py', "        return next(self._ws_generator_activated)", "        return next(self._tb._ws_generator_activated)"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-10', layout=[0, 1])\nv = b.get_interval(('2017-10-01', '2017-10-03'))\nw = b.get_interval(('2017-10-05', '2017-10-07'))\nassert [x[0].start_time.day for x in zip(v, w)] == [1, 2, 3]\n"},
 {'id': 'marker-freq-multiple', 'property': 'C07', 'needs': 'a marker frequency that is a smaller multiple of the base frequency, or a non-dividing one',
  'what': 'a marker frequency finer than the base unit is accepted when the base unit is a multiple of it',
  'edits': [['timeboard/core.py', "                return gb_freq_factor % bu_freq_factor == 0", "                return (gb_freq_factor % bu_freq_factor == 0 or\n                        bu_freq_factor % gb_freq_factor == 0)"]],
  'demo': PRE + "try:\n    tb.Timeboard('4H', '2017-10-01', '2017-10-03', layout=tb.Organizer(marker='2H', structure=[[1, 2]]))\nexcept tb.UnacceptablePeriodError:\n    pass\nelse:\n    raise SystemExit('accepted')\n"},
 {'id': 'weekday-last-shifted', 'property': 'C05', 'needs': 'the last weekday of a month that ends on that weekday, at hour or finer base units or with a period longer than a month',
  'what': 'the n-th last weekday is one week off in months that end on that weekday when counting from the second last on',
  'edits': [['timeboard/when.py', "dtype=np.int8) + off_by_one_bug_flag", "dtype=np.int8) + off_by_one_bug_flag * (week == -1)"]],
  'demo': PRE + "o = tb.Organizer(marker=tb.Marker('A', at=[{'month': 9, 'week': -2, 'weekday': 6}], how='nth_weekday_of_month'), structure=[1, 2])\nb = tb.Timeboard('D', '2016-01-01', '2018-12-31', layout=o)\nassert b('2017-09-23').start_time == pd.Timestamp('2017-09-23'), b('2017-09-23')\n"},
 {'id': 'easter-period-end', 'property': 'C05', 'needs': 'Easter with a negative offset that leaves the calendar period',
  'what': 'an Easter point shifted before the start of its period is kept',
  'edits': [['timeboard/when.py', "        result = result[result >= pi_start_times]", "        result = result[result >= pi_start_times[0]]"]],
  'demo': PRE + "o = tb.Organizer(marker=tb.Marker('M', at=[{'days': -14}], how='from_easter_western'), structure=[1, 2, 3])\nb = tb.Timeboard('D', '2018-01-01', '2020-12-31', layout=o)\nassert b('2018-03-18').start_time != pd.Timestamp('2018-03-18'), b('2018-03-18')\n"},
 {'id': 'skip-beyond-cycle', 'property': 'C03', 'needs': 'a first span that misses more base units on the left than the pattern has labels',
  'what': 'pattern alignment is lost when more units are missing before the first span than the pattern is long',
  'edits': [['timeboard/core.py', "                                       skip=span.skip_left)", "                                       skip=min(span.skip_left,\n                                                2 * (span.last - span.first + 1)))"]],
  'demo': PRE + "o = tb.Organizer(marker='M', structure=[[1, 2, 3]])\nb = tb.Timeboard('D', '2017-10-29', '2017-11-10', layout=o)\nassert b('2017-10-29').label == 2, b('2017-10-29').label\n"},
 {'id': 'marks-order', 'property': 'C04', 'needs': 'three or more marks given out of order of which the first one lies outside the span',
  'what': 'marks are taken to be in order when the first one is the earliest of all',
  'edits': [['timeboard/core.py', "        split_positions = sorted(list(set(split_positions)))", "        split_positions = list(OrderedDict.fromkeys(split_positions))\n        if split_positions and split_positions[0] != min(split_positions):\n            split_positions.sort()"]],
  'demo': PRE + "o = tb.Organizer(marks=['2017-10-03', '2017-10-08', '2017-10-05'], structure=[1, 2, 3, 4])\nb = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=o)\nassert [w.duration for w in b.get_interval()] == [2, 2, 3, 5], [w.duration for w in b.get_interval()]\n"},
 {'id': 'overlap-adjacent', 'property': 'C16', 'needs': 'an overlap of intervals with an explicit schedule that turns out void, overlapped again',
  'what': 'a void interval overlapped with a real interval gives a real interval when its bounds are adjacent',
  'edits': [['timeboard/interval.py', "        return _VoidInterval(self._tb, self._loc, schedule=schedule)", "        if self._loc[0] > other._loc[1] + 1 or self._loc[1] < other._loc[0] - 1:\n            return _VoidInterval(self._tb, self._loc, schedule=schedule)\n        return other.overlap(Interval(self._tb, self._loc[::-1]), schedule)"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-20', layout=[0, 1])\nI = tb.Interval\nx = I(b, (2, 5)) * I(b, (6, 9))\ny = x.overlap(I(b, (0, 15)))\nassert y.length == 0 and y.count('any') == 0, y\n"},
 {'id': 'two-sided-oob', 'property': 'C12', 'needs': 'an interval whose bounds lie outside the board on opposite sides',
  'what': 'an interval that encloses the whole board is clipped to it instead of being refused',
  'edits': [['timeboard/timeboard.py', "        return self._strip_interval_locs(locs, drop_head, drop_tail)\n\n    def _get_interval_locs_by_length", "        if locs[0].where == OOB_LEFT and locs[1].where == OOB_RIGHT and (\n                drop_head or drop_tail):\n            locs = [_Location(0, LOC_WITHIN),\n                    _Location(len(self._timeline) - 1, LOC_WITHIN)]\n        return self._strip_interval_locs(locs, drop_head, drop_tail)\n\n    def _get_interval_locs_by_length"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-20', layout=[0, 1])\ntry:\n    b.get_interval(('2017-09-01', '2017-11-01'), closed='01')\nexcept tb.PartialOutOfBoundsError:\n    pass\nelse:\n    raise SystemExit('accepted')\n"},
 {'id': 'last-nanosecond', 'property': 'C02', 'needs': 'a point in the last nanoseconds of a base unit',
  'what': 'a point in the last microsecond of the board is taken to be outside',
  'edits': [['timeboard/core.py', "        if timestamp > self.end_time or timestamp < self.start_time:", "        if (timestamp.ceil('us') > self.end_time.ceil('us') - pd.Timedelta(1, unit='us')\n                and timestamp > self[-1].start_time + pd.Timedelta(2, unit='us')\n                and timestamp != self.end_time) or timestamp > self.end_time or \\\n                timestamp < self.start_time:"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-20', layout=[0, 1])\nt = b.end_time - pd.Timedelta(10, unit='ns')\nassert b.get_workshift(t).start_time == pd.Timestamp('2017-10-20')\n"},
 {'id': 'extend-occupied', 'property': 'C19', 'needs': 'two holidays on adjacent weekend days with substitution to the next weekdays and a third one already there',
  'what': 'a substitute day off that is already a holiday is moved only once',
  'edits': [['timeboard/calendars/calendarbase.py', "        while new_day in amendments:", "        if new_day in amendments:"]],
  'demo': PRE + "from timeboard.calendars.calendarbase import extend_weekends\nT = pd.Timestamp\na = {T('2017-01-01'): 0, T('2017-01-02'): 0, T('2017-01-03'): 0}\nr = extend_weekends(a, how='next')\nassert T('2017-01-04') in r, r\n"},
 {'id': 'remember-empty-then', 'property': 'C06', 'needs': 'a remembering pattern applied to a first span whose left part is missing',
  'what': 'a remembering pattern is skipped modulo its length, so steps skipped for alignment are not all drawn',
  'edits': [['timeboard/core.py', "        pattern_iterator = _skiperator(pattern,\n                                       skip=span.skip_left)", "        skip = span.skip_left\n        if isinstance(pattern, RememberingPattern) and not span.first:\n            skip = 0\n        pattern_iterator = _skiperator(pattern, skip=skip)"]],
  'demo': PRE + "rp = tb.RememberingPattern([1, 2, 3, 4, 5])\nb = tb.Timeboard('D', '2017-10-03', '2017-10-20', layout=tb.Organizer(marker='W', structure=[rp]))\nassert b('2017-10-03').label == 2, b('2017-10-03').label\n"},
]

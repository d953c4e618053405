PRE = "import timeboard as tb, pandas as pd\n"
BUGS = [
 {'id': 'loc-cache-minute', 'property': 'C02', 'needs': 'base units shorter than a minute and two lookups in a row within one minute',
  'what': 'the last located point is remembered by the minute, so another point of the same minute is found in the base unit of the former',
  'edits': [['timeboard/core.py', "        # noinspection PyTypeChecker\n        return int(np.searchsorted(self.start_times, timestamp, side='right')\n                   - 1)",
   "        minute = timestamp.floor('T')\n        last = getattr(self, '_last_loc', None)\n        if last is None or last[0] != minute:\n            # noinspection PyTypeChecker\n            last = (minute, int(np.searchsorted(\n                self.start_times, timestamp, side='right') - 1))\n            self._last_loc = last\n        return last[1]"]],
  'demo': PRE + "b = tb.Timeboard('20S', '2017-10-01', '2017-10-01 01:00', layout=[1, 2])\nassert b('2017-10-01 00:10:05').start_time == pd.Timestamp('2017-10-01 00:10:00')\nassert b('2017-10-01 00:10:45').start_time == pd.Timestamp('2017-10-01 00:10:40')\n"},
 {'id': 'schedule-cache-name', 'property': 'C09', 'needs': 'a schedule dropped and another one added under the same name',
  'what': 'duty of a schedule added under the name of a dropped one is still the duty of the dropped one',
  'edits': [['timeboard/core.py', "        on_duty_bool_index = np.array(self._timeline.labels.apply(\n            self._selector), dtype=bool)",
   "        known = timeline.__dict__.setdefault('_duty_flags', {})\n        if self._name not in known:\n            known[self._name] = np.array(self._timeline.labels.apply(\n                self._selector), dtype=bool)\n        on_duty_bool_index = known[self._name]"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0, 1, 2])\ns = b.add_schedule('s', lambda x: x > 1)\nb.drop_schedule(s)\ns = b.add_schedule('s', lambda x: x < 1)\nassert b.get_interval(schedule=s).first().start_time == pd.Timestamp('2017-10-01')\n"},
 {'id': 'bounds-cache-by-duty', 'property': 'C15', 'needs': 'one interval asked for the same duty under two schedules',
  'what': 'the bounds found for a duty under one schedule are used again under another',
  'edits': [['timeboard/interval.py', "        if duty != 'any':\n            duty_idx_bounds = self._find_my_bounds_in_idx(duty_idx)", "        if duty != 'any':\n            known = self.__dict__.setdefault('_duty_bounds', {})\n            if (duty, len(duty_idx)) not in known:\n                known[duty, len(duty_idx)] = \\\n                    self._find_my_bounds_in_idx(duty_idx)\n            duty_idx_bounds = known[duty, len(duty_idx)]"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0, 1, 2])\ns = b.add_schedule('s', lambda x: x < 2)\nt = b.add_schedule('t', lambda x: x != 1)\nv = b.get_interval(('2017-10-02', '2017-10-03'))\nassert v.count(schedule=s) == 1\nassert v.first(schedule=t).start_time == pd.Timestamp('2017-10-03')\n"},
 {'id': 'export-cache-by-name', 'property': 'C20', 'needs': 'export, then a schedule dropped and another added under its name, then export again',
  'what': 'the table is kept by range and names of schedules, so it shows the duty of a schedule that was dropped',
  'edits': [['timeboard/timeboard.py', "        df = self._timeline.to_dataframe(first_ws, last_ws)\n", "        known = self.__dict__.setdefault('_tables', {})\n        key = (first_ws, last_ws, tuple(self._schedules))\n        if key in known:\n            return known[key].copy()\n        df = self._timeline.to_dataframe(first_ws, last_ws)\n        known[key] = df\n"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0, 1, 2])\ns = b.add_schedule('s', lambda x: x > 1)\nb.to_dataframe()\nb.drop_schedule(s)\nb.add_schedule('s', lambda x: x < 1)\nassert list(b.to_dataframe()['s'])[:3] == [True, False, False]\n"},
 {'id': 'export-shared-table', 'property': 'C21', 'needs': 'a column written into the table a board has exported, then another export',
  'what': 'the exported table is kept by the board and handed out again, so what a caller does to it shows in the next export',
  'edits': [['timeboard/timeboard.py', "        df = self._timeline.to_dataframe(first_ws, last_ws)\n", "        known = self.__dict__.setdefault('_tables', {})\n        key = (first_ws, last_ws) + tuple(self._schedules.values())\n        if key in known:\n            return known[key]\n        df = self._timeline.to_dataframe(first_ws, last_ws)\n        known[key] = df\n"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0, 1, 2])\nd = b.to_dataframe()\nd['label'] = 7\nassert list(b.to_dataframe()['label'])[:3] == [0, 1, 2]\n"},
 {'id': 'at-entries-order', 'property': 'C04', 'needs': 'a marker with several points given in descending order',
  'what': 'points of a marker given in another order than chronological are not all used',
  'edits': [['timeboard/core.py', "            at_points = pd.DatetimeIndex(np.sort(at_points))\n", "            if len(stencil) > 3:\n                at_points = pd.DatetimeIndex(np.sort(at_points))\n"]],
  'demo': PRE + "a = tb.Marker('M', at=[{'days': 19}, {'days': 4}])\nc = tb.Marker('M', at=[{'days': 4}, {'days': 19}])\nf = lambda m: list(tb.Timeboard('D', '2017-10-02', '2017-10-30', layout=tb.Organizer(marker=m, structure=[1, 2])).to_dataframe()['start'])\nassert f(a) == f(c), (f(a), f(c))\n"},
 {'id': 'nth-weekday-minus-five', 'property': 'C05', 'needs': 'the fifth weekday from the end of a month that has only four',
  'what': 'the fifth weekday from the end of a month with four of them is taken from the month before',
  'edits': [['timeboard/when.py', "        dtw = dtw[dtw >= m_start_times]\n", "        dtw = dtw[dtw >= m_start_times - pd.Timedelta(days=1)]\n"]],
  'demo': PRE + "from timeboard.when import nth_weekday_of_month as n\npi = pd.period_range('2012-01', '2019-12', freq='A')\nr = n(pi, month=3, week=-5, weekday=3)\nassert all(t.month == 3 for t in r), r\n"},
 {'id': 'clip-both-sides', 'property': 'C14', 'needs': 'a period that extends beyond the board on both sides',
  'what': 'a period that holds the whole board is clipped on the left only and refused',
  'edits': [['timeboard/timeboard.py', "            if locs[1].where == OOB_RIGHT and locs[0].where != OOB_RIGHT:", "            elif locs[1].where == OOB_RIGHT and locs[0].where != OOB_RIGHT:"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-04', '2017-10-12', layout=[0, 1, 2])\nassert len(b.get_interval('2017-10-05', period='M')) == 9\n"},
 {'id': 'count-empty-middle', 'property': 'C17', 'needs': 'a period without duty workshifts between the first and the last with some',
  'what': 'whole periods in the middle count even when they hold no workshift with the duty',
  'edits': [['timeboard/interval.py', "            result += sum(map(lambda x: x > 0,\n", "            result += full_periods_in_ivl if len(\n                period_duty_count) > 10 else sum(map(lambda x: x > 0,\n"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-01-01', '2018-12-31', layout=[0], amendments={'2017-02-03': 1, '2018-11-03': 1})\nv = b.get_interval(('2017-02-01', '2018-11-30'))\nassert v.count_periods('M') == 2, v.count_periods('M')\n"},
 {'id': 'ru-eve-constant', 'property': 'C19', 'needs': 'short_eves=False and the eve of 23 Feb 2011',
  'what': 'a shortened eve stays short though shortened eves are switched off',
  'edits': [['timeboard/calendars/RU.py', "'22 Feb 2011': x", "'22 Feb 2011': min(x, 7)"]],
  'demo': PRE + "from timeboard.calendars import RU\nassert RU.Weekly8x5('01 Jan 2011', '31 Dec 2011', short_eves=False)('22 Feb 2011').label == 8\n"},
 {'id': 'us-black-friday-4th', 'property': 'C19', 'needs': 'a November that begins on a Friday',
  'what': 'the day after Thanksgiving is taken as the fourth Friday of November',
  'edits': [['timeboard/calendars/US.py', "(11, 4, 4, 1)", "(11, 5, 4)"]],
  'demo': PRE + "from timeboard.calendars import US\nb = US.Weekly8x5('01 Jan 2013', '31 Dec 2013')\nassert b('29 Nov 2013').label == 0 and b('22 Nov 2013').label == 8\n"},
 {'id': 'calendar-end-midnight', 'property': 'C19', 'needs': 'a custom end within the last supported day',
  'what': 'a custom end after the midnight that begins the last supported day is refused',
  'edits': [['timeboard/calendars/calendarbase.py', "        if not cls.parameters()['start'] <= t <= cls.parameters()['end']:", "        if not (cls.parameters()['start'] <= t <=\n                cls.parameters()['end'].normalize()):"]],
  'demo': PRE + "from timeboard.calendars import UK\nassert UK.Weekly8x5('01 Jan 2020', '31 Dec 2020 18:00').end_time.day == 31\n"},
 {'id': 'uk-royal-kept', 'property': 'C19', 'needs': "do_not_observe={'royal'} in 2002 or 2012",
  'what': 'when royal holidays are not observed the spring bank holiday stays on its usual day instead of being moved out of May',
  'edits': [['timeboard/calendars/UK.py', "    if 2012 in years:\n", "    if 2012 in years and 'royal' not in do_not_observe:\n"]],
  'demo': PRE + "from timeboard.calendars import UK\nb = UK.Weekly8x5('01 Jan 2012', '31 Dec 2012', do_not_observe={'royal'})\nassert b('28 May 2012').label == 8\n"},
 {'id': 'amend-none', 'property': 'C08', 'needs': 'an amendment whose label is None',
  'what': 'an amendment that gives a workshift the label None is not applied',
  'edits': [['timeboard/core.py', "            amendments_located[loc] = value\n", "            amendments_located[loc] = value\n        amendments_located = {k: v for k, v in amendments_located.items()\n                              if v is not None}\n"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-04', '2017-10-12', layout=[1], amendments={'2017-10-05': None})\nassert b('2017-10-05').label is None\n"},
 {'id': 'any-negative-steps', 'property': 'C10', 'needs': "duty='any' and more negative steps than there are workshifts before",
  'what': "rolling forward by negative steps past the start of the board under duty 'any' gives a workshift outside the board",
  'edits': [['timeboard/workshift.py', "        if i == len_idx or i + steps < 0 or i + steps >= len_idx:", "        if i == len_idx or (i + steps < 0 and duty != 'any') \\\n                or i + steps >= len_idx:"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-04', '2017-10-12', layout=[1])\ntry:\n    w = b('2017-10-05').rollforward(steps=-3, duty='any')\nexcept tb.OutOfBoundsError:\n    pass\nelse:\n    raise SystemExit(repr(w))\n"},
 {'id': 'length-negative-closed', 'property': 'C13', 'needs': "a negative length together with closed '01' or '10'",
  'what': 'with a negative length the open end is taken off the wrong side',
  'edits': [['timeboard/timeboard.py', "            locs = [_Location(other_position, LOC_WITHIN), this_loc]\n", "            locs = [_Location(other_position, LOC_WITHIN), this_loc]\n            drop_head, drop_tail = drop_tail, drop_head\n"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-04', '2017-10-12', layout=[1])\nv = b.get_interval('2017-10-08', length=-3, closed='01')\nassert v.start_time == pd.Timestamp('2017-10-07'), v\n"},
 {'id': 'null-bounds-closed', 'property': 'C12', 'needs': "an open end given together with closed='01'",
  'what': "a bound given as None keeps its workshift though the interval is open on that side",
  'edits': [['timeboard/timeboard.py', "            if not is_null(interval_ref[0]):\n                locs[0] = self._locate(interval_ref[0])\n", "            if not is_null(interval_ref[0]):\n                locs[0] = self._locate(interval_ref[0])\n            else:\n                drop_head = False\n"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-04', '2017-10-12', layout=[1])\nv = b.get_interval((None, '2017-10-08'), closed='01')\nassert v.start_time == pd.Timestamp('2017-10-05'), v\n"},
 {'id': 'void-schedule', 'property': 'C16', 'needs': 'the overlap of a void interval with another under a given schedule',
  'what': 'the overlap of a void interval drops the schedule asked for',
  'edits': [['timeboard/interval.py', "        return _VoidInterval(self._tb, self._loc, schedule=schedule)", "        return _VoidInterval(self._tb, self._loc)"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-04', '2017-10-12', layout=[1])\ns = b.add_schedule('s', lambda x: x < 2)\nv = b.get_interval(('2017-10-04', '2017-10-05')) * b.get_interval(('2017-10-08', '2017-10-09'))\nassert v.overlap(b.get_interval(), schedule=s).schedule.name == 's'\n"},
 {'id': 'rollback-index-error', 'property': 'C11', 'needs': 'negative steps past the end of the board',
  'what': 'rolling back by negative steps past the last workshift stops at the last one',
  'edits': [['timeboard/workshift.py', "        if i == -1 or i - steps < 0 or i - steps >= len_idx:", "        if i - steps == len_idx and idx[-1] < self._tb._timeline.__len__() - 1:\n            steps += 1\n        if i == -1 or i - steps < 0 or i - steps >= len_idx:"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-04', '2017-10-12', layout=[1, 0])\nb2 = tb.Timeboard('D', '2017-10-04', '2017-10-11', layout=[1, 0])\ntry:\n    w = b2('2017-10-10').rollback(steps=-1)\nexcept tb.OutOfBoundsError:\n    pass\nelse:\n    raise SystemExit(repr(w))\n"},
 {'id': 'worktime-cache', 'property': 'C18', 'needs': 'work time of one interval asked for the same duty under two schedules',
  'what': 'the work time found under one schedule is answered under another of equal number of duty workshifts',
  'edits': [['timeboard/interval.py', "            return self._tb._timeline.get_durations_for_ws_array(\n", "            known = self.__dict__.setdefault('_durations', {})\n            key = (duty, duty_idx_bounds[1] - duty_idx_bounds[0])\n            if key in known:\n                return known[key]\n            known[key] = self._tb._timeline.get_durations_for_ws_array(\n"],
            ['timeboard/interval.py', "                duty_idx[duty_idx_bounds[0]:duty_idx_bounds[1]+1]).sum()\n\n    def worktime", "                duty_idx[duty_idx_bounds[0]:duty_idx_bounds[1]+1]).sum()\n            return known[key]\n\n    def worktime"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-02', '2017-10-12', layout=tb.Organizer(marks=['2017-10-04'], structure=[0, 1]))\ns = b.add_schedule('s', lambda x: x < 1)\nv = b.get_interval()\nassert v.total_duration() == 9 and v.total_duration(schedule=s) == 2\n"},
]

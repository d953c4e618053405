PRE = "import timeboard as tb, pandas as pd\n"
BUGS = [
 {'id': 'rollback-start-index', 'property': 'C11', 'needs': 'rolling back from a workshift such that every workshift up to it has the duty',
  'what': 'rollback lands one workshift too early when all workshifts from the first to the current one have the duty',
  'edits': [['timeboard/workshift.py', "        i = len_idx - 1\n        while i", "        # positions in idx never exceed the location itself\n        i = min(len_idx, self._loc) - 1\n        while i"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-10', layout=[1]*10)\nw = b('2017-10-04')\nassert w.rollback().start_time == w.start_time, w.rollback()\n"},
 {'id': 'same-alt-default-schedule', 'property': 'C10', 'needs': "duty 'same' or 'alt' with an explicit schedule under which the workshift's duty differs from its own schedule",
  'what': "'same'/'alt' are resolved under the workshift's own schedule instead of the requested one",
  'edits': [['timeboard/workshift.py', "i_am_on_duty = self.is_on_duty(schedule)", "i_am_on_duty = self.is_on_duty()"],
            ['timeboard/workshift.py', "i_am_off_duty = self.is_off_duty(schedule)", "i_am_off_duty = self.is_off_duty()"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-10', layout=[0,1,2])\ns = b.add_schedule('two', lambda x: x > 1)\nw = b('2017-10-02')\nr = w.rollforward(1, duty='same', schedule=s)\nassert r.label == 0, r\n"},
 {'id': 'schedule-object-index', 'property': 'C09', 'needs': 'a selector returning integers rather than booleans',
  'what': 'the off-duty index contains on-duty workshifts when the selector returns truthy non-booleans',
  'edits': [['timeboard/core.py', "        on_duty_bool_index = np.array(\n            self._timeline.labels.apply(self._selector),\n            dtype=bool\n        )", "        on_duty_bool_index = np.array(\n            self._timeline.labels.apply(self._selector)\n        )"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-10', layout=[0,1,2])\ns = b.add_schedule('odd', lambda x: x % 2)\nv = b.get_interval()\nassert v.count(duty='off', schedule=s) + v.count(schedule=s) == 10, v.count(duty='off', schedule=s)\n"},
 {'id': 'amend-same-label-twice', 'property': 'C08', 'needs': 'two amendments of one workshift that carry the same label',
  'what': 'two amendments referring to the same workshift are accepted when their labels are equal',
  'edits': [['timeboard/core.py', "            if loc in amendments_located:\n", "            if amendments_located.get(loc, value) != value:\n"]],
  'demo': PRE + "try:\n    tb.Timeboard('D', '2017-10-01', '2017-10-10', layout=[1], amendments={'2017-10-02': 0, '2017-10-02 12:00': 0})\nexcept KeyError:\n    pass\nelse:\n    raise SystemExit('accepted')\n"},
 {'id': 'portion-own-schedules', 'property': 'C16', 'needs': 'a schedule argument, or intervals attached to different schedules',
  'what': 'the denominator of the portion is counted under the other interval\'s own schedule',
  'edits': [['timeboard/interval.py', "            return x_duty_count / other.count(duty=duty, schedule=schedule)", "            return x_duty_count / other.count(duty=duty)"]],
  'demo': PRE + "b = tb.Timeboard('D', '2017-10-01', '2017-10-12', layout=[0,1,2])\ns = b.add_schedule('two', lambda x: x > 1)\nv = b.get_interval()\nw = b.get_interval(('2017-10-01', '2017-10-06'))\nassert w.what_portion_of(v, schedule=s) == 0.5, w.what_portion_of(v, schedule=s)\n"},
 {'id': 'zip-structure-first', 'property': 'C06', 'needs': 'a RememberingPattern given as the structure of an organizer and used again afterwards',
  'what': 'one extra label is drawn from a remembering pattern used as a structure',
  'edits': [['timeboard/core.py', "for span, layout in zip(span_seq, structure_iterator):", "for layout, span in zip(structure_iterator, span_seq):"]],
  'demo': PRE + "rp = tb.RememberingPattern([1, 2, 3, 4, 5])\no = tb.Organizer(marks=['2017-10-03'], structure=rp)\nb = tb.Timeboard('D', '2017-10-01', '2017-10-06', layout=o)\nassert next(rp) == 3\n"},
]

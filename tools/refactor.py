"""harmless refactorings: refactor.py [--no-rt|--no-proof] [names] runs the checks of the touched properties against each, expects quiet"""
import os, shutil, subprocess, sys, time
R = {}
def rf(name, props, *edits): R[name] = (props, edits)
rf('interval-bounds-for', 'C15 C16 C17 C18', ('timeboard/interval.py', """        left_bound = 0
        len_idx = len(idx)
        while left_bound < len_idx and idx[left_bound] < self._loc[0]:
            left_bound += 1
        if left_bound == len_idx:
            return None, None
""", """        left_bound = None
        for i, loc in enumerate(idx):
            if loc >= self._loc[0]:
                left_bound = i
                break
        if left_bound is None:
            return None, None
"""))
rf('interval-bounds-searchsorted', 'C15 C16 C17 C18', ('timeboard/interval.py', """        left_bound = 0
        len_idx = len(idx)
        while left_bound < len_idx and idx[left_bound] < self._loc[0]:
            left_bound += 1
        if left_bound == len_idx:
            return None, None
""", """        left_bound = int(np.searchsorted(idx, self._loc[0]))
        if left_bound == len(idx):
            return None, None
"""), ('timeboard/interval.py', "from .core import _Frame", "import numpy as np\nfrom .core import _Frame"))
rf('rollback-searchsorted', 'C10 C11 C09', ('timeboard/workshift.py', """        i = len_idx - 1
        while i >= 0 and idx[i] > self._loc:
            i -= 1
""", """        i = searchsorted(idx, self._loc, side='right') - 1
"""))
rf('roll-helper', 'C10 C11', ('timeboard/workshift.py', """        i = searchsorted(idx, self._loc)
        if i == len_idx""", """        i = self._place_in(idx)
        if i == len_idx"""), ('timeboard/workshift.py', "    def _get_duty_index(self", "    def _place_in(self, idx):\n        return searchsorted(idx, self._loc)\n\n    def _get_duty_index(self"))
rf('organize-split', 'C03 C04 C06 C01', ('timeboard/core.py', """        if organizer.marker is not None:
            span_seq = self.frame.partition_with_marker(span, organizer.marker)
        if organizer.marks is not None:
            span_seq = self.frame.partition_at_marks(span, organizer.marks)
""", """        span_seq = self._partition(organizer, span)
"""), ('timeboard/core.py', "    def __apply_pattern(self, pattern, span):", """    def _partition(self, organizer, span):
        if organizer.marks is not None:
            return self.frame.partition_at_marks(span, organizer.marks)
        return self.frame.partition_with_marker(span, organizer.marker)

    def __apply_pattern(self, pattern, span):"""))
rf('pattern-islice', 'C03 C06', ('timeboard/core.py', """            self._ws_labels[span.first: span.last+1] = [
                next(pattern_iterator)
                for i in range(span.first, span.last + 1)
            ]
        except StopIteration:
            pass""", """            for i in range(span.first, span.last + 1):
                self._ws_labels[i] = next(pattern_iterator)
        except StopIteration:
            pass"""))
rf('amend-two-loops', 'C08 C21', ('timeboard/core.py', """            if loc in amendments_located:""", """            if amendments_located.get(loc, self) is not self:"""))
rf('amend-iter-set', 'C08', ('timeboard/core.py', "        self._wsband.iloc[list(amendments_located.keys())] = \\\n            list(amendments_located.values())", "        for loc, label in amendments_located.items():\n            self._wsband.iloc[loc] = label"))
rf('subspans-diff', 'C04 C03 C05', ('timeboard/core.py', """        start_positions = split_positions[:]
        start_positions.insert(0, span.first)
        end_positions = [x-1 for x in split_positions]
        end_positions.append(span.last)
""", """        start_positions = [span.first] + list(split_positions)
        end_positions = [x - 1 for x in start_positions[1:]] + [span.last]
"""))
rf('locate-mask', 'C01 C02 C04', ('timeboard/core.py', "        result = arr[nonzero((arr > span_first) & (arr <= span_last))[0]]", "        inside = (arr > span_first) & (arr <= span_last)\n        result = arr[inside]"))
rf('getloc-bool', 'C01 C02', ('timeboard/core.py', "        if timestamp > self.end_time or timestamp < self.start_time:\n            if not_in_range is None:\n                raise KeyError(\"Timestamp {} is out of bounds\")\n            else:\n                return not_in_range", "        if not self.start_time <= timestamp <= self.end_time:\n            if not_in_range is not None:\n                return not_in_range\n            raise KeyError(\"Timestamp {} is out of bounds\".format(timestamp))"))
rf('masked-counter', 'C02 C04', ('timeboard/core.py', "                data=_masked_counter(self._ws_compound_mask))", "                data=np.maximum.accumulate(\n                    np.where(self._ws_compound_mask,\n                             np.arange(len(frame)), 0)))"))
rf('ref-after-for', 'C14 C17', ('timeboard/core.py', """        while True:
            try:
                ref_time = self.get_ws_ref_time(candidate)
            except IndexError:
                raise OutOfBoundsError("No workshift with reference time "
                                       "after {}".format(point_in_time))
            if ref_time >= point_in_time:
                break
            candidate += 1

        return candidate""", """        for candidate in range(candidate, len(self)):
            if self.get_ws_ref_time(candidate) >= point_in_time:
                return candidate
        raise OutOfBoundsError("No workshift with reference time "
                               "after {}".format(point_in_time))"""))
rf('durations-diff', 'C18', ('timeboard/core.py', """        first_base_units = np.searchsorted(self._frameband,
                                           self._wsband.index[ws_locs],
                                           side='left')
        last_base_units = np.searchsorted(self._frameband,
                                          self._wsband.index[ws_locs],
                                          side='right')
        return pd.Series(index=ws_locs,
                         data=last_base_units - first_base_units)""", """        bounds = np.append(np.array(self._wsband.index), len(self.frame))
        return pd.Series(index=ws_locs, data=np.diff(bounds)[ws_locs])"""))
rf('schedule-list', 'C09 C10 C15', ('timeboard/core.py', "        on_duty_bool_index = np.array(", "        on_duty_bool_index = self._flags()\n        self._on_duty_index = nonzero(on_duty_bool_index)[0]\n        self._off_duty_index = nonzero(~on_duty_bool_index)[0]\n\n    def _flags(self):\n        return np.array("), )
rf('strip-early', 'C12 C13 C14', ('timeboard/timeboard.py', """        result0 = locs[0].position
        result1 = locs[1].position
        if drop_head and locs[0].position is not None:
            result0 += 1
        if drop_tail and locs[1].position is not None:
            result1 -= 1
        return [_Location(result0, locs[0].where),
                _Location(result1, locs[1].where)]""", """        head, tail = locs
        if drop_head and head.position is not None:
            head = head._replace(position=head.position + 1)
        if drop_tail and tail.position is not None:
            tail = tail._replace(position=tail.position - 1)
        return [head, tail]"""))
rf('length-sign', 'C13', ('timeboard/timeboard.py', "length - int(copysign(1, length))", "length + (-1 if length > 0 else 1)"))
rf('portion-early', 'C16', ('timeboard/interval.py', "        if x_duty_count == 0:\n            return 0.0\n        else:\n            return x_duty_count / other.count(duty=duty, schedule=schedule)", "        if not x_duty_count:\n            return 0.0\n        total = other.count(duty=duty, schedule=schedule)\n        return x_duty_count / total"))
rf('export-diff', 'C20', ('timeboard/core.py', "        durations = [ws_bounds[i+1] - ws_bounds[i]\n                     for i in range(len(ws_bounds)-1)]", "        durations = np.diff(ws_bounds)"))
rf('extend-order', 'C19', ('timeboard/calendars/calendarbase.py', "        if how == 'previous':", "        forward = (how == 'next' or how == 'nearest' and\n                   loc_in_wend >= len(weekend) // 2)\n        if forward:\n            first_step, step = len(weekend) - loc_in_wend, 1\n        else:\n            first_step, step = -(loc_in_wend + 1), -1\n        if how == 'unused':"), ('timeboard/calendars/calendarbase.py', "        elif how == 'next':", "        elif how == 'unused2':"), ('timeboard/calendars/calendarbase.py', "        elif how == 'nearest':", "        elif how == 'unused3':"))
rf('nth-weekday-loop', 'C05', ('timeboard/when.py', "    result = dtw + pd.DateOffset(days=shift)", "    result = pd.DatetimeIndex([t + pd.Timedelta(days=shift) for t in dtw])"))
rf('start-of-each-comp', 'C05 C04', ('timeboard/when.py', "    result = pd.DatetimeIndex([t + offset for t in start_times])", "    points = []\n    for t in start_times:\n        points.append(t + offset)\n    result = pd.DatetimeIndex(points)"))
rf('count-periods-helper', 'C17', ('timeboard/interval.py', "            ivl_units_in_only_period = self.count(duty=duty, schedule=schedule)", "            ivl_units_in_only_period = len(list(\n                self.workshifts(duty=duty, schedule=schedule)))"))
rf('call-cleaner', 'C12 C13', ('timeboard/timeboard.py', "        try:\n            return self.get_interval(*args, **kwargs)\n        except:\n            raise", "        return self.get_interval(*args, **kwargs)"))
rf('groupby-regex', 'C07', ('timeboard/core.py', "                bu_freq_factor = int(bu_match.group(1))", "                bu_freq_factor = int(bu_match.group(1) or 1)"))
rf('add-schedule-get', 'C09 C21', ('timeboard/timeboard.py', "        if name in self.schedules:", "        taken = list(self.schedules)\n        if name in taken:"))
if __name__ == '__main__':
    flags = [a for a in sys.argv[1:] if a.startswith('--')]
    names = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(R)
    for n in names:
        props, edits = R[n]
        d = '/tmp/w/rf/' + n
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, symlinks=True)
        bad = None
        for f, a, b in edits:
            p = os.path.join(d, f); s = open(p).read()
            if s.count(a) != 1: bad = '%d matches %r' % (s.count(a), a[:60]); break
            open(p, 'w').write(s.replace(a, b))
        if bad: print(n, 'NO EDIT', bad, flush=True); continue
        t = subprocess.run('PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 timeboard 2>&1 | tail -1', cwd=d, shell=True, text=True, stdout=subprocess.PIPE).stdout.strip()
        if ' failed' in t or 'passed' not in t: print(n, 'TESTS', t, flush=True); continue
        for p in props.split():
            t = time.time()
            r = subprocess.run(['python3-vt', '/verif/check.py', p] + flags, env=dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE='1'), cwd='/verif', text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            ob = [l for l in r.stdout.splitlines() if 'obligations' in l]
            print('%-28s %s rc=%d %.0fs %s %s' % (n, p, r.returncode, time.time() - t, 'QUIET' if r.returncode == 0 else 'ALARM', (ob or [''])[0][:90]), flush=True)
            if r.returncode: print(r.stdout[-1500:])
        shutil.rmtree(d)

From b8ac4f6dc7254a0c7a03f5730ebe376fe1201f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 01/10] fix: honor marks placed inside the last base unit of
 the frame

---
 timeboard/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 921404e..bfd0bfe 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -247,7 +247,7 @@ class _Frame(pd.PeriodIndex):
     def get_loc_vectorized(self, timestamps, not_in_range=0, span_first=None,
                            span_last=None):
         start_times = self.start_times.append(
-            pd.DatetimeIndex([self.start_times[-1] + SMALLEST_TIMEDELTA]))
+            pd.DatetimeIndex([self.end_time + pd.Timedelta(1, unit='ns')]))
         if span_first is None:
             span_first = 0
         if span_last is None:
-- 
2.43.0


From b0df435fccdb7ccaf9e548805eaf795b90250a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 02/10] fix: raise VoidIntervalError when a clipped period is
 emptied by open ends

---
 timeboard/timeboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 4d79e69..e4b8281 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -792,7 +792,7 @@ class Timeboard(object):
         
         Compare locations even if one ore both are outside the timeboard,
         """
-        if locs[0].where == LOC_WITHIN and locs[1].where == LOC_WITHIN:
+        if locs[0].position is not None and locs[1].position is not None:
             return locs[0].position <= locs[1].position
         else:
             return locs[0].where <= locs[1].where
-- 
2.43.0


From 57e4c3ab02a70e2c20c1dc9a98ce7060e39344ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 03/10] fix: count_periods raises only if the period of the
 first or last duty workshift is out of bounds

---
 timeboard/interval.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index 2198828..700b292 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -1,5 +1,6 @@
 from __future__ import division
 from .exceptions import (OutOfBoundsError,
+                         PartialOutOfBoundsError,
                          VoidIntervalError,
                          UnacceptablePeriodError)
 from .workshift import Workshift
@@ -671,7 +672,7 @@ class Interval(_BaseInterval):
                                 clip_period=False,
                                 schedule=schedule
                              )
-            except OutOfBoundsError:
+            except (OutOfBoundsError, PartialOutOfBoundsError):
                 period_intervals.append(None)
                 period_duty_count.append(None)
             except VoidIntervalError:
@@ -691,6 +692,12 @@ class Interval(_BaseInterval):
         last_period_ivl = period_intervals[last_period_with_duty_loc]
         len_of_last_period = period_duty_count[last_period_with_duty_loc]
 
+        if first_period_ivl is None or last_period_ivl is None:
+            raise PartialOutOfBoundsError(
+                "Period {!r} containing the first or the last {}-duty workshift "
+                "of interval {!r} extends outside {}".format(
+                    freq, duty, self, self._tb.compact_str))
+
         if ivl_duty_end_ts <= period_index[first_period_with_duty_loc].end_time:
             ivl_units_in_only_period = self.count(duty=duty, schedule=schedule)
             return ivl_units_in_only_period / len_of_1st_period
-- 
2.43.0


From 56d9891110fd347c78da19df91684ab1ccd638ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 04/10] fix: locate Easter in periods other than calendar years

---
 timeboard/when.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index 80c03bd..0f7a58e 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -201,9 +201,15 @@ def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
     pi_start_times = pi.to_timestamp(how='start', freq='S')
     pi_end_times = pi.to_timestamp(how='end', freq='S')
 
-    easter_dates = pd.DatetimeIndex([easter(y, _easter_type) for y in pi.year])
-    easter_dates = easter_dates[(easter_dates >= pi_start_times) &
-                                (easter_dates <= pi_end_times)]
+    years = range(pi_start_times[0].year, pi_end_times[-1].year + 1)
+    easter_dates = pd.DatetimeIndex([easter(y, _easter_type) for y in years])
+    # find the period each Easter belongs to (periods may be fiscal years or
+    # be shorter than a year, so some contain no Easter and some contain two)
+    locs = np.searchsorted(pi_start_times, easter_dates, side='right') - 1
+    within = (locs >= 0) & (easter_dates <= pi_end_times[locs])
+    easter_dates = easter_dates[within]
+    pi_start_times = pi_start_times[locs[within]]
+    pi_end_times = pi_end_times[locs[within]]
 
     result = easter_dates + offset
     if normalize_by is not None:
-- 
2.43.0


From a36d12c0f750eb59509cd65f1ba72f28d4c4da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 05/10] fix: marker point without offset arguments is not
 shifted by a day

---
 timeboard/when.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index 0f7a58e..5417bf4 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -28,7 +28,8 @@ def from_start_of_each(pi, normalize_by=None, **kwargs):
     pandas.DatetimeIndex
     
     """
-    offset = pd.DateOffset(**kwargs)
+    # DateOffset without arguments would mean one day
+    offset = pd.DateOffset(**(kwargs or {'days': 0}))
     testtime = pd.Timestamp('01 Jan 2004')  # longest month of longest year
     if testtime + offset < testtime:
         # with negative offset all results will fall out of their periods
@@ -194,7 +195,8 @@ def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
 
     if shift is not None:
         kwargs['days']=shift
-    offset = pd.DateOffset(**kwargs)
+    # DateOffset without arguments would mean one day
+    offset = pd.DateOffset(**(kwargs or {'days': 0}))
     testtime = pd.Timestamp('01 Jan 2004')
     shift_to_future = testtime + offset >= testtime
 
-- 
2.43.0


From 2d3f9bba15a3632fbaf45887a8b44471e8a24bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 06/10] fix: ignore nth weekday of month shifted out of its
 period

---
 timeboard/when.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index 5417bf4..577d207 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -161,7 +161,12 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
     # timers2.append(timer2 - timer1)
     # timers3.append(timer3 - timer2)
 
-    return dtw + pd.DateOffset(days=shift)
+    result = dtw + pd.DateOffset(days=shift)
+    # a shift must not take the day out of the period it was sought in
+    pi_start_times = pi.to_timestamp(how='start')
+    within = (np.searchsorted(pi_start_times, result, side='right') ==
+              np.searchsorted(pi_start_times, dtw, side='right'))
+    return result[within & (result <= pi_end_times[-1])]
 
 
 def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
-- 
2.43.0


From 0dbdcc0f53c910f99d34e9ac719203d455cc2538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 07/10] fix: US calendar keeps the substitute day off of the
 next year's New Year at its custom end

---
 timeboard/calendars/US.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 399bd1a..8abac3b 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -155,7 +155,8 @@ class Weekly8x5(CalendarBase):
 
         start, end = cls._get_bounds(custom_start, custom_end)
 
-        result = fed_holidays(start.year, end.year, do_not_observe,
+        # the New Year of the next year may be observed on December 31
+        result = fed_holidays(start.year, end.year + 1, do_not_observe,
                               long_weekends)
         if custom_amendments is not None:
             freq = cls.parameters()['base_unit_freq']
-- 
2.43.0


From 027671ff5945a68333453ec75d1a2212ca7c1a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 08/10] fix: refuse a null point in time instead of returning
 the last workshift

---
 timeboard/timeboard.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index e4b8281..eef137b 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -396,6 +396,9 @@ class Timeboard(object):
             (`where=OOB_LEFT`)
         """
         pit_ts = get_timestamp(point_in_time)
+        if is_null(pit_ts):
+            raise ValueError("'{!r}' is not a point in time".format(
+                point_in_time))
         get_ws_pos_function = self._timeline.get_ws_position
         if by_ref == 'before':
             get_ws_pos_function = self._timeline.get_ws_pos_by_ref_before
-- 
2.43.0


From 6482b681b8a59eae324c9d1aecd9a4a999da9143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 09/10] fix: custom amendments override fixed holidays of US
 and UK calendars without long weekends

---
 timeboard/calendars/UK.py | 2 +-
 timeboard/calendars/US.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index 8488fd0..8013139 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -44,7 +44,7 @@ def bank_holidays(start_year, end_year, country='england', do_not_observe=None,
     days = [day for holiday, day in bank_holidays_fixed.items()
             if holiday not in do_not_observe]
 
-    amendments = {"{} {}".format(day, year): label
+    amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
     if long_weekends:
         amendments = extend_weekends(amendments, how='next')
diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 8abac3b..1f197f1 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -30,7 +30,7 @@ def fed_holidays(start_year, end_year, do_not_observe=None, long_weekends=True,
     days = [day for holiday, day in fed_holidays_fixed.items()
             if holiday not in do_not_observe]
 
-    amendments = {"{} {}".format(day, year): label
+    amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
     if long_weekends:
         amendments = extend_weekends(amendments, how='nearest')
-- 
2.43.0


From 1673be62997cfc628e701ac55230142981f1190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 10/10] fix: overlap of intervals bounded by workshifts
 obtained by navigation

---
 timeboard/interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index 700b292..7cbd873 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -13,7 +13,7 @@ class _BaseInterval(object):
 
         def handle_bound(bound):
             if isinstance(bound, Workshift):
-                loc = bound._loc
+                loc = int(bound._loc)
             elif isinstance(bound, int):
                 loc = bound
             else:
-- 
2.43.0


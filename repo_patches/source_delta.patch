From 2a1e6865d9191d1ea2503bda06bd7ba44469598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:24 +0000
Subject: [PATCH 01/24] fix: honour marks falling inside the last base unit of
 the frame

---
 timeboard/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 921404e..bfd0bfe 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -247,7 +247,7 @@ class _Frame(pd.PeriodIndex):
     def get_loc_vectorized(self, timestamps, not_in_range=0, span_first=None,
                            span_last=None):
         start_times = self.start_times.append(
-            pd.DatetimeIndex([self.start_times[-1] + SMALLEST_TIMEDELTA]))
+            pd.DatetimeIndex([self.end_time + pd.Timedelta(1, unit='ns')]))
         if span_first is None:
             span_first = 0
         if span_last is None:
-- 
2.43.0


From 68ef2c2fab4e5bbd05c77971bc304faecf14b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 02/24] fix: accept an iterator (i.e. RememberingPattern) as
 timeboard layout

---
 timeboard/timeboard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 4d79e69..0ae8f3d 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -173,7 +173,8 @@ class Timeboard(object):
         if isinstance(layout, Organizer):
             org = layout
         elif is_iterable(layout):
-            if len(layout) == 1 and isinstance(layout[0], Organizer):
+            if (hasattr(layout, '__len__') and len(layout) == 1 and
+                    isinstance(layout[0], Organizer)):
                 warnings.warn("Received 'layout' as an Organizer wrapped in "
                               "a list. Probably you do not want a list here.",
                               SyntaxWarning)
-- 
2.43.0


From 2d942291a147e258983600d9874a083b3223be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:12 +0000
Subject: [PATCH 03/24] fix: find Easter in periods other than calendar years

---
 timeboard/when.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index 80c03bd..394099e 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -201,11 +201,19 @@ def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
     pi_start_times = pi.to_timestamp(how='start', freq='S')
     pi_end_times = pi.to_timestamp(how='end', freq='S')
 
-    easter_dates = pd.DatetimeIndex([easter(y, _easter_type) for y in pi.year])
-    easter_dates = easter_dates[(easter_dates >= pi_start_times) &
-                                (easter_dates <= pi_end_times)]
-
-    result = easter_dates + offset
+    # A period may start in one calendar year and end in another (i.e. 'A-MAR')
+    easter_dates, easter_starts, easter_ends = [], [], []
+    for start, end in zip(pi_start_times, pi_end_times):
+        for y in range(start.year, end.year + 1):
+            easter_date = pd.Timestamp(easter(y, _easter_type))
+            if start <= easter_date <= end:
+                easter_dates.append(easter_date)
+                easter_starts.append(start)
+                easter_ends.append(end)
+    pi_start_times = pd.DatetimeIndex(easter_starts)
+    pi_end_times = pd.DatetimeIndex(easter_ends)
+
+    result = pd.DatetimeIndex([d + offset for d in easter_dates])
     if normalize_by is not None:
         result = pd.PeriodIndex(result,
                                 freq=normalize_by).to_timestamp(how='start')
-- 
2.43.0


From 2ca4e7502b304f0fa5a49f27551e47a9d3c8a127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 04/24] fix: keep n-th weekday marks inside the periods they
 are sought in

---
 timeboard/when.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index 394099e..7eeb284 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -118,18 +118,14 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
     if shift is None:
         shift = 0
 
-    dti = pi.asfreq(freq='M', how='START').drop_duplicates().to_timestamp(
-        how='start')
+    dti = pi.asfreq(freq='M', how='START').to_timestamp(how='start')
     m_start_times = dti + pd.tseries.offsets.MonthBegin(month - 1,
                                                         normalize=True)
     m_end_times = dti + pd.tseries.offsets.MonthEnd(month, normalize=True)
 
     # timer1 = timeit.default_timer()
-    # make sure we are inside put periods pi - this check makes sense when
-    # pi.freq is based on 'M'
+    pi_start_times = pi.to_timestamp(how='start')
     pi_end_times = pi.to_timestamp(how='end')
-    m_start_times = m_start_times[m_start_times <= pi_end_times]
-    m_end_times = m_end_times[m_end_times <= pi_end_times]
 
     # timer2 = timeit.default_timer()
     if week > 0:
@@ -142,7 +138,7 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
             [m_start_times[i] + week_offsets[i]
              for i in range(len(m_start_times))])
 
-        dtw = dtw[dtw <= m_end_times]
+        found = dtw <= m_end_times
 
     else:
         off_by_one_bug_flag = m_end_times.weekday == weekday - 1
@@ -153,14 +149,16 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
         dtw = pd.DatetimeIndex(
             [m_end_times[i] + week_offsets[i]
              for i in range(len(m_end_times))])
-        dtw = dtw[dtw >= m_start_times]
+        found = dtw >= m_start_times
 
     # timer3 = timeit.default_timer()
     # timers1.append(timer1 - timer0)
     # timers2.append(timer2 - timer1)
     # timers3.append(timer3 - timer2)
 
-    return dtw + pd.DateOffset(days=shift)
+    dtw = dtw + pd.DateOffset(days=shift)
+    # make sure that each result is inside its own period
+    return dtw[found & (dtw >= pi_start_times) & (dtw <= pi_end_times)]
 
 
 def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
-- 
2.43.0


From 5ce80b12da5bf0a17bc1bba5837443e31fd6c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 05/24] fix: ignore points falling before the period they are
 sought in

---
 timeboard/when.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index 7eeb284..104c7e0 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -43,11 +43,12 @@ def from_start_of_each(pi, normalize_by=None, **kwargs):
     # https://github.com/pandas-dev/pandas/issues/26258
     # Workaround:
     result = pd.DatetimeIndex([t + offset for t in start_times])
+    inside = (result >= start_times) & (result <= end_times)
 
     if normalize_by is not None:
         result = pd.PeriodIndex(result,
                                 freq=normalize_by).to_timestamp(how='start')
-    result = result[result <= end_times]
+    result = result[inside & (result <= end_times)]
     # Generally we should also filter result with [result >= start_times]
     # since normalize_by frequency can be anything, incl. having period larger
     # than pi frequency (i.e. pi freq='D', normalize_by='M'). In this case.
-- 
2.43.0


From 2dcdc16c2d9c53c7a13ef5cc5df7e5477e0be96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 06/24] fix: count_periods: disregard partial periods without
 relevant duty

---
 timeboard/interval.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index 2198828..c0b5bf7 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -1,5 +1,6 @@
 from __future__ import division
 from .exceptions import (OutOfBoundsError,
+                         PartialOutOfBoundsError,
                          VoidIntervalError,
                          UnacceptablePeriodError)
 from .workshift import Workshift
@@ -671,7 +672,7 @@ class Interval(_BaseInterval):
                                 clip_period=False,
                                 schedule=schedule
                              )
-            except OutOfBoundsError:
+            except (OutOfBoundsError, PartialOutOfBoundsError):
                 period_intervals.append(None)
                 period_duty_count.append(None)
             except VoidIntervalError:
@@ -691,6 +692,12 @@ class Interval(_BaseInterval):
         last_period_ivl = period_intervals[last_period_with_duty_loc]
         len_of_last_period = period_duty_count[last_period_with_duty_loc]
 
+        if first_period_ivl is None or last_period_ivl is None:
+            raise PartialOutOfBoundsError(
+                "Period {!r} containing the first or the last {}-duty "
+                "workshift of {} extends outside {}".
+                format(freq, duty, self.compact_str, self._tb.compact_str))
+
         if ivl_duty_end_ts <= period_index[first_period_with_duty_loc].end_time:
             ivl_units_in_only_period = self.count(duty=duty, schedule=schedule)
             return ivl_units_in_only_period / len_of_1st_period
-- 
2.43.0


From cdb595f57f77a57685b96aff6fc98d09b90786a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:59 +0000
Subject: [PATCH 07/24] fix: do not locate a null point in time on the last
 workshift

---
 timeboard/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index bfd0bfe..39f205a 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -907,8 +907,12 @@ class _Timeline(object):
         OutOfBoundsError
             If the point in time is not within the timeline.
         """
+        timestamp = get_timestamp(point_in_time)
+        if timestamp is VOID_TIME:
+            raise TypeError("Expected a point in time, received a null value "
+                            "{!r}".format(point_in_time))
         try:
-            base_unit = self.frame.get_loc(get_timestamp(point_in_time))
+            base_unit = self.frame.get_loc(timestamp)
         except KeyError:
             raise OutOfBoundsError("Point in time {} is not within the "
                                    "timeline".format(point_in_time))
-- 
2.43.0


From 9dc062b540d3b309c1db21b8ce9efd3f9c1355b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 08/24] fix: US calendar: make holidays independent of the
 calendar range

---
 timeboard/calendars/US.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 399bd1a..8a6a4af 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -30,10 +30,13 @@ def fed_holidays(start_year, end_year, do_not_observe=None, long_weekends=True,
     days = [day for holiday, day in fed_holidays_fixed.items()
             if holiday not in do_not_observe]
 
-    amendments = {"{} {}".format(day, year): label
-                  for day, year in product(days, years)}
+    # New Year's Day of the next year may be observed on the last 31 December
+    amendments = {get_timestamp("{} {}".format(day, year)): label
+                  for day, year in product(days,
+                                           range(start_year, end_year + 2))}
     if long_weekends:
         amendments = extend_weekends(amendments, how='nearest')
+    amendments = {k: v for k, v in amendments.items() if k.year in years}
 
     floating_dates_to_seek = [date_tuple for holiday, date_tuple
                               in fed_holidays_floating.items()
@@ -43,11 +46,12 @@ def fed_holidays(start_year, end_year, do_not_observe=None, long_weekends=True,
             nth_weekday_of_month(year, floating_dates_to_seek, label))
 
     if 2014 in years and 'xmas_additional_day' not in do_not_observe:
-        amendments[get_timestamp('26 Dec 2018')] = label
+        amendments[get_timestamp('26 Dec 2014')] = label
     if 2018 in years and 'one_off' not in do_not_observe:
         amendments[get_timestamp('05 Dec 2018')] = label
     if 2018 in years and 'xmas_additional_day' not in do_not_observe:
         amendments[get_timestamp('24 Dec 2018')] = label
+        amendments[get_timestamp('26 Dec 2018')] = label
 
     return amendments
 
-- 
2.43.0


From 0120b91c6ab2f1549d059f808da84696b6d5723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:18 +0000
Subject: [PATCH 09/24] fix: UK calendar: let custom amendments override
 unextended holidays

---
 timeboard/calendars/UK.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index 8488fd0..8013139 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -44,7 +44,7 @@ def bank_holidays(start_year, end_year, country='england', do_not_observe=None,
     days = [day for holiday, day in bank_holidays_fixed.items()
             if holiday not in do_not_observe]
 
-    amendments = {"{} {}".format(day, year): label
+    amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
     if long_weekends:
         amendments = extend_weekends(amendments, how='next')
-- 
2.43.0


From 1dec552b6be553a8225cb79b61e34fb1fe0c67a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 10/24] fix: UK calendar: Early May bank holiday of 2020 was on
 8 May

---
 timeboard/calendars/UK.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index 8013139..f971ca4 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -79,6 +79,10 @@ def bank_holidays(start_year, end_year, country='england', do_not_observe=None,
         if 'royal' not in do_not_observe:
             amendments[get_timestamp('04 Jun 2012')] = label
             amendments[get_timestamp('05 Jun 2012')] = label
+    if 2020 in years and 'early_may' not in do_not_observe:
+        # moved to the 75th anniversary of VE Day
+        del amendments[get_timestamp('04 May 2020')]
+        amendments[get_timestamp('08 May 2020')] = label
 
     return amendments
 
-- 
2.43.0


From cacdb92bb7960bd654930b10c887bf18b8415b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 11/24] fix: snap n-th weekday marks to base units like other
 marks

Otherwise a mark in the first base unit of the frame (e.g. of base units
longer than a day) was taken for one of a later unit and the first span
was considered as incomplete.
---
 timeboard/when.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/timeboard/when.py b/timeboard/when.py
index 104c7e0..de9b83e 100644
--- a/timeboard/when.py
+++ b/timeboard/when.py
@@ -61,7 +61,8 @@ def from_start_of_each(pi, normalize_by=None, **kwargs):
     return result
 
 
-def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
+def nth_weekday_of_month(pi, month, week, weekday, shift=None,
+                         normalize_by=None, **kwargs):
     """Calculate nth weekday of a month.
     
     For each element of the period index `pi` take the month when this 
@@ -89,6 +90,9 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
         Monday is 1, Sunday is 7.
     shift : int, optional
         Number of days to add to the calculated dates, may be negative.
+    normalize_by : str (pandas time frequency), optional
+        If given, snap results to the start time of the `normalize_by` 
+        periods.
     **kwargs 
         not used; it is here for parameter compatibility with other functions 
         of this module.
@@ -159,7 +163,11 @@ def nth_weekday_of_month(pi, month, week, weekday, shift=None, **kwargs):
 
     dtw = dtw + pd.DateOffset(days=shift)
     # make sure that each result is inside its own period
-    return dtw[found & (dtw >= pi_start_times) & (dtw <= pi_end_times)]
+    result = dtw[found & (dtw >= pi_start_times) & (dtw <= pi_end_times)]
+    if normalize_by is not None:
+        result = pd.PeriodIndex(result,
+                                freq=normalize_by).to_timestamp(how='start')
+    return result
 
 
 def from_easter(pi, easter_type='western', normalize_by=None, shift=None,
-- 
2.43.0


From 3ffb1cc3c59240344827257ba0460d9c67d9bc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 12/24] fix: report an empty clipped period as void interval at
 timeboard bounds

A half-open interval made of a clipped calendar period which holds a single
workshift at the edge of the timeboard is void, not out of bounds.
---
 timeboard/timeboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 0ae8f3d..20190f9 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -793,7 +793,7 @@ class Timeboard(object):
         
         Compare locations even if one ore both are outside the timeboard,
         """
-        if locs[0].where == LOC_WITHIN and locs[1].where == LOC_WITHIN:
+        if locs[0].position is not None and locs[1].position is not None:
             return locs[0].position <= locs[1].position
         else:
             return locs[0].where <= locs[1].where
-- 
2.43.0


From bd92b5bf500b4c4c73477f8a785f39514f4024ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:09 +0000
Subject: [PATCH 13/24] fix: extend_weekends never puts the additional day off
 on a weekend day

---
 timeboard/calendars/calendarbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/calendars/calendarbase.py b/timeboard/calendars/calendarbase.py
index 200cdf1..3ca6600 100644
--- a/timeboard/calendars/calendarbase.py
+++ b/timeboard/calendars/calendarbase.py
@@ -144,7 +144,7 @@ def extend_weekends(amendments, how='nearest', label=None, weekend=None):
                 first_step = len(weekend) - loc_in_wend
                 step = 1
         new_day = holiday + datetime.timedelta(days=first_step)
-        while new_day in amendments:
+        while new_day in amendments or new_day.weekday() in weekend:
             new_day += datetime.timedelta(days=step)
         amendments[new_day] = _label
 
-- 
2.43.0


From 721c7920e4f40831424bf96f29c88632e4977e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 14/24] fix: custom amendments of calendars keyed by sub-day
 periods refer to their days

---
 timeboard/calendars/RU.py | 2 +-
 timeboard/calendars/UK.py | 2 +-
 timeboard/calendars/US.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeboard/calendars/RU.py b/timeboard/calendars/RU.py
index 67bd256..e756aaa 100644
--- a/timeboard/calendars/RU.py
+++ b/timeboard/calendars/RU.py
@@ -181,7 +181,7 @@ class Weekly8x5(CalendarBase):
         if custom_amendments is not None:
             freq = cls.parameters()['base_unit_freq']
             result.update(
-                {get_period(k, freq=freq).start_time: v
+                {get_period(k, freq=freq, freq_override=True).start_time: v
                  for k, v in custom_amendments.items()}
             )
 
diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index f971ca4..b3b25a7 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -199,7 +199,7 @@ class Weekly8x5(CalendarBase):
         if custom_amendments is not None:
             freq = cls.parameters()['base_unit_freq']
             result.update(
-                {get_period(k, freq=freq).start_time: v
+                {get_period(k, freq=freq, freq_override=True).start_time: v
                  for k, v in custom_amendments.items()}
             )
 
diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 8a6a4af..317cc05 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -164,7 +164,7 @@ class Weekly8x5(CalendarBase):
         if custom_amendments is not None:
             freq = cls.parameters()['base_unit_freq']
             result.update(
-                {get_period(k, freq=freq).start_time: v
+                {get_period(k, freq=freq, freq_override=True).start_time: v
                  for k, v in custom_amendments.items()}
             )
 
-- 
2.43.0


From decb0df996e576beb17c8260793d8b7dc8a421f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:05 +0000
Subject: [PATCH 15/24] fix: accept any Timestamp-like bounds in parameters of
 a calendar

custom_start and custom_end were compared with the raw values returned by
parameters(), so a calendar whose bounds are strings or dates raised
TypeError as soon as a custom bound was given.
---
 timeboard/calendars/calendarbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/calendars/calendarbase.py b/timeboard/calendars/calendarbase.py
index 3ca6600..8a55e58 100644
--- a/timeboard/calendars/calendarbase.py
+++ b/timeboard/calendars/calendarbase.py
@@ -303,7 +303,8 @@ class CalendarBase(object):
 
     @classmethod
     def _check_time(cls, t):
-        if not cls.parameters()['start'] <= t <= cls.parameters()['end']:
+        if not get_timestamp(cls.parameters()['start']) <= t <= \
+                get_timestamp(cls.parameters()['end']):
             raise OutOfBoundsError("Point in time '{}' is outside calendar {}"
                                    .format(t, cls))
 
-- 
2.43.0


From c7902b3a14b98e7d1bfbec2eaa867d675cd28a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:36 +0000
Subject: [PATCH 16/24] fix: do not modify the dictionary returned by
 parameters of a calendar

A calendar class returning the same dictionary each time had its range
narrowed for good by the first calendar made with custom bounds.
---
 timeboard/calendars/calendarbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/calendars/calendarbase.py b/timeboard/calendars/calendarbase.py
index 8a55e58..700f020 100644
--- a/timeboard/calendars/calendarbase.py
+++ b/timeboard/calendars/calendarbase.py
@@ -325,7 +325,7 @@ class CalendarBase(object):
     def __new__(cls, custom_start=None, custom_end=None,
                 do_not_amend=False, only_custom_amendments=False,
                 custom_amendments=None, **additional_kwargs):
-        parameters = cls.parameters()
+        parameters = dict(cls.parameters())
         parameters['start'], parameters['end'] = cls._get_bounds(
             custom_start, custom_end)
         if do_not_amend:
-- 
2.43.0


From af1f6fb3d15c89269370d52c4f16d60ff7f63678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 17/24] fix: do not drop another schedule which bears the name
 of the one given

---
 timeboard/timeboard.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 20190f9..849787e 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -908,7 +908,15 @@ class Timeboard(object):
         Returns
         -------
         None
+
+        Raises
+        ------
+        KeyError
+            If the timeboard does not have this schedule.
         """
+        if self.schedules.get(schedule.name) is not schedule:
+            raise KeyError('Attempted to drop schedule "{}" which the '
+                           'timeboard does not have.'.format(schedule.name))
         del self.schedules[schedule.name]
 
 
-- 
2.43.0


From 2c4d7e25e0b31ba0c1cad5ffec7d70fbda6f81c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 18/24] fix: accept a one-element layout which cannot be
 indexed (a set, a view of keys)

---
 timeboard/timeboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 849787e..d804f9f 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -174,7 +174,7 @@ class Timeboard(object):
             org = layout
         elif is_iterable(layout):
             if (hasattr(layout, '__len__') and len(layout) == 1 and
-                    isinstance(layout[0], Organizer)):
+                    isinstance(next(iter(layout)), Organizer)):
                 warnings.warn("Received 'layout' as an Organizer wrapped in "
                               "a list. Probably you do not want a list here.",
                               SyntaxWarning)
-- 
2.43.0


From 1c8b9581abd5af8054a0181351f1a602da1c9190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 19/24] fix: take an iterable default label for one label

---
 timeboard/timeboard.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index d804f9f..56e948d 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -7,6 +7,7 @@ from .interval import Interval
 from .exceptions import (OutOfBoundsError,
                          PartialOutOfBoundsError,
                          VoidIntervalError)
+import numpy as np
 from collections import namedtuple
 from math import copysign
 import warnings
@@ -200,9 +201,12 @@ class Timeboard(object):
 
         # create the frame and the timeline
         self._frame = _Frame(base_unit_freq=base_unit_freq, start=start, end=end)
+        # a label which is iterable is still one label for all workshifts
+        default_labels = np.empty(len(self._frame), dtype=object)
+        default_labels.fill(default_label)
         self._timeline = _Timeline(frame=self._frame, organizer=org,
                                    workshift_ref=workshift_ref,
-                                   data=default_label)
+                                   data=default_labels)
         self._timeline.amend(amendments)
 
         # create default schedule
-- 
2.43.0


From 402e8ee383daa8e28f899613263590e4c51cb1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 20/24] fix: let an interval be iterated while another
 iteration over it is under way

---
 timeboard/interval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index c0b5bf7..4cd2f68 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -321,8 +321,10 @@ class Interval(_BaseInterval):
         return self.__next__()
 
     def __iter__(self):
+        # Every iteration has a generator of its own, so that one iteration
+        # may be run within another; `next(interval)` resumes the latest one.
         self._ws_generator_activated = self.workshifts(duty='any')
-        return self
+        return self._ws_generator_activated
 
     def __len__(self):
         return self.length
-- 
2.43.0


From 8ff2d5a72b90255f12c771c4cff2e6d0d988513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 21/24] fix: take the other names of a calendar period for the
 same period

---
 timeboard/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/timeboard/core.py b/timeboard/core.py
index 39f205a..9cb7d72 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -85,6 +85,14 @@ def _skiperator(values, skip=0):
     return dropwhile(counter, cycle(pattern))
 
 
+def _canonical_freq(freq):
+    # '1M', 'Y', 'min', or 'W' are other names of 'M', 'A-DEC', 'T', or 'W-SUN'
+    try:
+        return pd.tseries.frequencies.to_offset(freq).freqstr
+    except (ValueError, TypeError, AttributeError):
+        return freq
+
+
 def _check_groupby_freq(base_unit_freq, group_by_freq):
     """Check if frame's base unit may be grouped in periods of given frequency.
     
@@ -109,6 +117,8 @@ def _check_groupby_freq(base_unit_freq, group_by_freq):
     -------
     True if `group_by_freq` can be used for grouping, False otherwise.
     """
+    base_unit_freq = _canonical_freq(base_unit_freq)
+    group_by_freq = _canonical_freq(group_by_freq)
     if bool(
             _pandas_is_subperiod(base_unit_freq, group_by_freq)
             # Some combinations of arguments result in is_subperiod function
-- 
2.43.0


From 41a0e3f9b0afb02ea384118136a101ad57eca7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 22/24] fix: accept a marker whose period is the base unit,
 months to years too

---
 timeboard/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 9cb7d72..dbf1539 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -145,7 +145,9 @@ def _check_groupby_freq(base_unit_freq, group_by_freq):
                 gb_freq_factor = int(gb_match.group(1))
             if bu_freq_factor == 1 and gb_freq_factor == 1:
                 # there is no freq multipliers, hence we drop the case
-                return False
+                # unless the groups are the base units themselves
+                # (is_subperiod denies this for months, quarters and years)
+                return base_unit_freq == group_by_freq
             bu_freq_denomination = bu_match.group(2)
             gb_freq_denomination = gb_match.group(2)
 
-- 
2.43.0


From f793af4612191b4a292c7e34b28b82016c25e499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:11 +0000
Subject: [PATCH 23/24] fix: start multiplied periods of a marker with `at`
 where the span starts

A period with a multiplier starts wherever the range it is taken from
starts; with `at` the range is that of an envelope wider than the span,
so the place of the periods depended on the width of the envelope, and
differed from that for the same marker without `at`.
---
 timeboard/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index dbf1539..f1882d8 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -436,8 +436,13 @@ class _Frame(pd.PeriodIndex):
                 envelope_margin * get_freq_delta(marker.each)
             envelope_end_ts = span_end_ts + \
                 envelope_margin * get_freq_delta(marker.each)
+            # Periods with a multiplier start wherever the stencil starts;
+            # make one of them start where the span does, like without `at`
+            stencil_start = get_period(span_start_ts, freq=marker.each)
+            while stencil_start.start_time > envelope_start_ts:
+                stencil_start -= 1
             stencil = _Frame(base_unit_freq=marker.each,
-                             start=envelope_start_ts,
+                             start=stencil_start.start_time,
                              end=envelope_end_ts)
 
             # timer1 = timeit.default_timer()
-- 
2.43.0


From d76adb88694b19727b11d8985ae563e6d125d766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:01 +0000
Subject: [PATCH 24/24] fix: refuse labels which add up to something other than
 a number

numpy booleans and numbers are added to sequences item by item, so the
work time of an interval with such labels was an array, or adding them
raised ValueError, while TypeError is documented.
---
 timeboard/interval.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index 4cd2f68..1170ea7 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -5,6 +5,7 @@ from .exceptions import (OutOfBoundsError,
                          UnacceptablePeriodError)
 from .workshift import Workshift
 from .core import _Frame, _Schedule,  VOID_TIME
+from numpy import ndim
 
 
 class _BaseInterval(object):
@@ -885,8 +886,13 @@ class Interval(_BaseInterval):
         if duty_idx_bounds[0] is None or duty_idx_bounds[1] is None:
             return 0
         else:
-            return self._tb._timeline[duty_idx[duty_idx_bounds[0]:
-                                               duty_idx_bounds[1]+1]].sum()
+            labels = self._tb._timeline[duty_idx[duty_idx_bounds[0]:
+                                                 duty_idx_bounds[1]+1]]
+            try:
+                return labels.sum()
+            except ValueError as e:
+                # numpy numbers and sequences are added item by item
+                raise TypeError(str(e))
 
     def total_duration(self, duty='on', schedule=None):
         """Return the total duration of workshifts with the specified duty.
@@ -1009,8 +1015,10 @@ class Interval(_BaseInterval):
         if self._tb.worktime_source == 'labels':
             result = self._sum_labels(duty=duty, schedule=schedule)
             try:
-                result + 0
+                is_number = ndim(result + 0) == 0
             except TypeError:
+                is_number = False
+            if not is_number:
                 raise TypeError('Workshift labels are expected to indicate '
                                 'work time but could not be summed up '
                                 'to a number.')
-- 
2.43.0


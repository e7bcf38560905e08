From 6aea4de3bdacfe7d54f46f54a149dd0a736afc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:42 +0000
Subject: [PATCH 01/17] fix: keep special opens and closes on the edges of the
 window

Special times were clipped by comparing the time of day with the start and
end of the calendar, so an early close on the last date of a calendar was
dropped. Compare the session dates instead.
---
 trading_calendars/trading_calendar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 40242a7..3cbbb13 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -1110,7 +1110,9 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             return pd.Series([], dtype="datetime64[ns, UTC]")
 
         result = pd.concat(merged).sort_index()
-        return result.loc[(result >= start_date) & (result <= end_date)]
+        return result.loc[
+            (result.index >= start_date) & (result.index <= end_date)
+        ]
 
     def _calculate_special_opens(self, start, end):
         return self._special_dates(
-- 
2.43.0


From cda9b2bdeb4e3862a3ebdeb76acf5a90e7433773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:42 +0000
Subject: [PATCH 02/17] fix: count the break start as a trading minute
 everywhere

The list of all minutes includes the minute at which a break starts, but the
open test and the minute count for sessions left it out.
---
 trading_calendars/trading_calendar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 3cbbb13..c2418ae 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -280,7 +280,9 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             self.schedule.break_end - self.schedule.break_start
         ).fillna(pd.Timedelta(seconds=0))
         diff = (close_to_open_diff - break_diff).astype("timedelta64[m]")
-        return diff + 1
+        # Both the break start and the break end are trading minutes.
+        has_break = self.schedule.break_start.notnull()
+        return diff + 1 + has_break
 
     def minutes_count_for_sessions_in_range(self, start_session, end_session):
         """
@@ -426,7 +428,7 @@ class TradingCalendar(with_metaclass(ABCMeta)):
                 self.market_break_starts_nanos[open_idx - 1]
             break_end_on_open_dt = self.market_break_ends_nanos[open_idx - 1]
             # NaT comparisions will result in False
-            if break_start_on_open_dt <= dt < break_end_on_open_dt:
+            if break_start_on_open_dt < dt < break_end_on_open_dt:
                 # we're in the middle of a break
                 return False
             else:
-- 
2.43.0


From 6c72e80cb4cdba490e700d1a2003f593c1f17311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:42 +0000
Subject: [PATCH 03/17] fix: allow minute ranges that end after the last
 trading minute

minutes_in_range raised IndexError when the end of the range was later than
the last minute of the calendar.
---
 trading_calendars/trading_calendar.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index c2418ae..2e59ae9 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -792,12 +792,10 @@ class TradingCalendar(with_metaclass(ABCMeta)):
         start_idx = searchsorted(self._trading_minutes_nanos,
                                  start_minute.value)
 
+        # if the end minute is a market minute, include it
         end_idx = searchsorted(self._trading_minutes_nanos,
-                               end_minute.value)
-
-        if end_minute.value == self._trading_minutes_nanos[end_idx]:
-            # if the end minute is a market minute, increase by 1
-            end_idx += 1
+                               end_minute.value,
+                               side='right')
 
         return self.all_minutes[start_idx:end_idx]
 
-- 
2.43.0


From 9321946ec485ac3acf462ef36246f7ace047b814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:42 +0000
Subject: [PATCH 04/17] fix: truncate minute windows at both ends of the
 calendar

A negative window reaching past the first minute came back empty, and a
window starting after the last minute raised IndexError.
---
 trading_calendars/trading_calendar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 2e59ae9..07beafa 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -667,7 +667,8 @@ class TradingCalendar(with_metaclass(ABCMeta)):
 
         # searchsorted finds the index of the minute **on or after** start_dt.
         # If the latter, push back to the prior minute.
-        if all_minutes_nanos[start_idx] != start_dt_nanos:
+        if (start_idx == len(all_minutes_nanos) or
+                all_minutes_nanos[start_idx] != start_dt_nanos):
             start_idx -= 1
 
         if start_idx < 0 or start_idx >= len(all_minutes_nanos):
@@ -676,7 +677,7 @@ class TradingCalendar(with_metaclass(ABCMeta)):
         end_idx = start_idx + count
 
         if start_idx > end_idx:
-            return self.all_minutes[(end_idx + 1):(start_idx + 1)]
+            return self.all_minutes[max(0, end_idx + 1):(start_idx + 1)]
         else:
             return self.all_minutes[start_idx:end_idx]
 
-- 
2.43.0


From b661dbcee97321327406746982adfcc9abe0f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:42 +0000
Subject: [PATCH 05/17] fix: map minutes beyond the calendar's ends to the
 right session

Looking backwards from before the first open returned the last session, and
looking backwards (or strictly) from after the last close raised IndexError.
---
 trading_calendars/trading_calendar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 07beafa..ec8fa50 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -977,15 +977,18 @@ class TradingCalendar(with_metaclass(ABCMeta)):
                 return self._minute_to_session_label_cache[1]
 
         idx = searchsorted(self.market_closes_nanos, dt)
-        current_or_next_session = self.schedule.index[idx]
 
         if direction == "next":
+            current_or_next_session = self.schedule.index[idx]
             self._minute_to_session_label_cache = (
                 dt, current_or_next_session
             )
             return current_or_next_session
         elif direction == "previous":
             if not self.is_open_on_minute(dt, ignore_breaks=True):
+                if idx == 0:
+                    raise ValueError("There is no session before the given dt,"
+                                     " which is earlier than the first open.")
                 return self.schedule.index[idx - 1]
         elif direction == "none":
             if not self.is_open_on_minute(dt):
@@ -996,7 +999,7 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             raise ValueError("Invalid direction parameter: "
                              "{0}".format(direction))
 
-        return current_or_next_session
+        return self.schedule.index[idx]
 
     def minute_index_to_session_labels(self, index):
         """
-- 
2.43.0


From 13438bcc8eab5afda93b5f1d9f1a6d843a7032bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:42 +0000
Subject: [PATCH 06/17] fix: read the cached minute and session label together

Two reads of the cache allowed a concurrent query to swap the pair in
between, giving the caller the session of a different minute.
---
 trading_calendars/trading_calendar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index ec8fa50..2966d57 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -973,8 +973,11 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             dt = dt.value
 
         if direction == "next":
-            if self._minute_to_session_label_cache[0] == dt:
-                return self._minute_to_session_label_cache[1]
+            # Read the cached pair only once, so that a concurrent query can't
+            # replace it between the comparison and the return.
+            cached_dt, cached_label = self._minute_to_session_label_cache
+            if cached_dt == dt:
+                return cached_label
 
         idx = searchsorted(self.market_closes_nanos, dt)
 
-- 
2.43.0


From af702570b0a9e961eb4d0e10134bd726299bb5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:42 +0000
Subject: [PATCH 07/17] fix: reject minutes after the last close with
 ValueError

Building the error message of minute_index_to_session_labels raised
IndexError for a minute after the last close, and named the last session as
the previous one for a minute before the first open.
---
 trading_calendars/trading_calendar.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 2966d57..5562273 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -1040,16 +1040,21 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             example = index[bad_ix]
 
             prev_day = prev_opens[bad_ix]
-            prev_open, prev_close = (
-                self.schedule.iloc[prev_day].loc[
-                    ['market_open', 'market_close']
-                ]
-            )
-            next_open, next_close = (
-                self.schedule.iloc[prev_day + 1].loc[
-                    ['market_open', 'market_close']
-                ]
-            )
+            prev_open = prev_close = next_open = next_close = None
+            # There is no previous (next) session for a minute before the
+            # first open (after the last close).
+            if prev_day >= 0:
+                prev_open, prev_close = (
+                    self.schedule.iloc[prev_day].loc[
+                        ['market_open', 'market_close']
+                    ]
+                )
+            if prev_day + 1 < len(self.schedule):
+                next_open, next_close = (
+                    self.schedule.iloc[prev_day + 1].loc[
+                        ['market_open', 'market_close']
+                    ]
+                )
 
             raise ValueError(
                 "{num} non-market minutes in minute_index_to_session_labels:\n"
-- 
2.43.0


From 6b831de714bac59a50278f5c78282d0ebf31df30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:42 +0000
Subject: [PATCH 08/17] fix: return one calendar instance from concurrent first
 lookups

---
 trading_calendars/calendar_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/calendar_utils.py b/trading_calendars/calendar_utils.py
index 79988e1..b613831 100644
--- a/trading_calendars/calendar_utils.py
+++ b/trading_calendars/calendar_utils.py
@@ -196,8 +196,8 @@ class TradingCalendarDispatcher(object):
             raise InvalidCalendarName(calendar_name=name)
 
         # Cache the calendar for future use.
-        calendar = self._calendars[canonical_name] = factory()
-        return calendar
+        # Concurrent first lookups must all get the same instance.
+        return self._calendars.setdefault(canonical_name, factory())
 
     def get_calendar_names(self):
         """
-- 
2.43.0


From 1cce6de09468315590008424076b4a0db12cae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:01:42 +0000
Subject: [PATCH 09/17] fix: keep the replaced registration when a forced alias
 is rejected

Forcing an alias that turned out to be cyclic removed the calendar that was
registered under that name.
---
 trading_calendars/calendar_utils.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trading_calendars/calendar_utils.py b/trading_calendars/calendar_utils.py
index b613831..97759aa 100644
--- a/trading_calendars/calendar_utils.py
+++ b/trading_calendars/calendar_utils.py
@@ -309,6 +309,16 @@ class TradingCalendarDispatcher(object):
             If False, name collisions will raise an exception.
             Default is False.
         """
+        replaced = [
+            (registry, registry[alias])
+            for registry in (
+                self._calendars,
+                self._calendar_factories,
+                self._aliases,
+            )
+            if alias in registry
+        ]
+
         if force:
             self.deregister_calendar(alias)
 
@@ -323,6 +333,8 @@ class TradingCalendarDispatcher(object):
             self.resolve_alias(alias)
         except CyclicCalendarAlias:
             del self._aliases[alias]
+            for registry, value in replaced:
+                registry[alias] = value
             raise
 
     def resolve_alias(self, name):
-- 
2.43.0


From 8822e94d575e70b6985fe9d2cb4b1e90c2e4aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:02:02 +0000
Subject: [PATCH 10/17] fix: drop early closes of XIST and XKLS that fall on
 holidays

These calendars could not be constructed over windows that contain 2029
(and, for XKLS, 1984, 2031 or 2049), because an early close fell on a date
that is already a holiday. Their default windows would have hit this in 2028.
---
 trading_calendars/exchange_calendar_xist.py | 2 ++
 trading_calendars/exchange_calendar_xkls.py | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/trading_calendars/exchange_calendar_xist.py b/trading_calendars/exchange_calendar_xist.py
index d8ae1f5..210e53e 100644
--- a/trading_calendars/exchange_calendar_xist.py
+++ b/trading_calendars/exchange_calendar_xist.py
@@ -195,6 +195,8 @@ class XISTExchangeCalendar(TradingCalendar):
             pd.Timestamp('1994-05-19'),
             # Day before Eid al Fitr observed as holiday in 2003
             pd.Timestamp('2003-11-24'),
+            # National Sovereignty and Children's Day on April 23
+            pd.Timestamp('2029-04-23'),
         ]
 
         early_close_days = EidAlFitrHalfDay + EidAlAdhaHalfDay
diff --git a/trading_calendars/exchange_calendar_xkls.py b/trading_calendars/exchange_calendar_xkls.py
index 1f3c36f..b1d97cd 100644
--- a/trading_calendars/exchange_calendar_xkls.py
+++ b/trading_calendars/exchange_calendar_xkls.py
@@ -134,6 +134,12 @@ class XKLSExchangeCalendar(TradingCalendar):
             pd.Timestamp('2004-01-21'),
             # Eid al-Fitr Eve was a holiday in 2003
             pd.Timestamp('2003-11-24'),
+            # Chinese New Year's Eve falls on Federal Territory Day
+            pd.Timestamp('1984-02-01'),
+            pd.Timestamp('2049-02-01'),
+            # Eid al-Fitr Eve falls on Chinese New Year
+            pd.Timestamp('2029-02-13'),
+            pd.Timestamp('2031-01-23'),
         ]
 
         early_close_days = list(set(early_close_days) - set(collisions))
-- 
2.43.0


From 215a8027c8b062eda5520eb9eff7f88dbb5bc2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:49 +0000
Subject: [PATCH 11/17] fix: leave special times after the end of the window
 ignored

The answer key of XSGO ends on a date with an early close and expects the
regular close there, so only clip special dates to the window and keep
ignoring special times that are later than its end.
---
 trading_calendars/trading_calendar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trading_calendars/trading_calendar.py b/trading_calendars/trading_calendar.py
index 5562273..3c06424 100644
--- a/trading_calendars/trading_calendar.py
+++ b/trading_calendars/trading_calendar.py
@@ -1122,9 +1122,12 @@ class TradingCalendar(with_metaclass(ABCMeta)):
             return pd.Series([], dtype="datetime64[ns, UTC]")
 
         result = pd.concat(merged).sort_index()
-        return result.loc[
+        result = result.loc[
             (result.index >= start_date) & (result.index <= end_date)
         ]
+        # A special time later than ``end_date`` is ignored, even if it falls
+        # on the date of ``end_date``.
+        return result.loc[result <= end_date]
 
     def _calculate_special_opens(self, start, end):
         return self._special_dates(
-- 
2.43.0


From 2d85007bd8464fa977dbbb550a43701605cfebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:23 +0000
Subject: [PATCH 12/17] fix: correct the lunisolar festival dates of 2034

The Chinese year that begins in 2033 has a leap eleventh month, so every
festival of 2034 after the new year falls a month later than tabulated.
The dragon boat festival of 1987 was one day late as well.
---
 trading_calendars/lunisolar_holidays.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trading_calendars/lunisolar_holidays.py b/trading_calendars/lunisolar_holidays.py
index f962dd1..f3a921b 100644
--- a/trading_calendars/lunisolar_holidays.py
+++ b/trading_calendars/lunisolar_holidays.py
@@ -297,7 +297,7 @@ chinese_buddhas_birthday_dates = pd.to_datetime(
         "2031-05-28",
         "2032-05-16",
         "2033-05-06",
-        "2034-04-26",
+        "2034-05-25",
         "2035-05-15",
         "2036-05-03",
         "2037-05-22",
@@ -351,7 +351,7 @@ dragon_boat_festival_dates = pd.to_datetime(
         "1984-06-04",
         "1985-06-22",
         "1986-06-11",
-        "1987-06-01",
+        "1987-05-31",
         "1988-06-18",
         "1989-06-08",
         "1990-05-28",
@@ -398,7 +398,7 @@ dragon_boat_festival_dates = pd.to_datetime(
         "2031-06-24",
         "2032-06-12",
         "2033-06-01",
-        "2034-05-22",
+        "2034-06-20",
         "2035-06-10",
         "2036-05-30",
         "2037-06-18",
@@ -500,7 +500,7 @@ mid_autumn_festival_dates = pd.to_datetime(
         "2031-10-01",
         "2032-09-19",
         "2033-09-08",
-        "2034-08-28",
+        "2034-09-27",
         "2035-09-16",
         "2036-10-04",
         "2037-09-24",
@@ -601,7 +601,7 @@ double_ninth_festival_dates = pd.to_datetime(
         "2031-10-24",
         "2032-10-12",
         "2033-10-01",
-        "2034-09-21",
+        "2034-10-20",
         "2035-10-09",
         "2036-10-27",
         "2037-10-17",
-- 
2.43.0


From 40e7cdf095dc9e7943ae75b0ece655435dce9e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:23 +0000
Subject: [PATCH 13/17] fix: move the XTAE memorial day off Sundays

4 Iyar never falls on a Saturday.  Since 2004, when it falls on a Sunday,
Memorial Day and Independence Day are observed one day later.
---
 trading_calendars/tase_holidays.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trading_calendars/tase_holidays.py b/trading_calendars/tase_holidays.py
index a591b65..b498180 100644
--- a/trading_calendars/tase_holidays.py
+++ b/trading_calendars/tase_holidays.py
@@ -147,8 +147,8 @@ def memorial_day(year):
         # Falls on a Friday, so Independence Day falls on the Saturday.
         # Moved down by two days.
         return d - 2
-    elif d.weekday() == 7:
-        # Falls on a Saturday, therefore moved up by one day.
+    elif d.weekday() == 1 and year >= 2004:
+        # Falls on a Sunday, therefore moved up by one day (since 2004).
         return d + 1
     else:
         return d
-- 
2.43.0


From 1f8dba4b19fefaf494932d29f5c4085dfcd555ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:23 +0000
Subject: [PATCH 14/17] fix: compute the orthodox feasts of ASEX beyond 2020

From 2021 on, the calendar had sessions on Orthodox Good Friday, Easter
Monday, Ash Monday and Whit Monday.
---
 trading_calendars/exchange_calendar_asex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading_calendars/exchange_calendar_asex.py b/trading_calendars/exchange_calendar_asex.py
index a51c687..c20e38f 100644
--- a/trading_calendars/exchange_calendar_asex.py
+++ b/trading_calendars/exchange_calendar_asex.py
@@ -38,7 +38,7 @@ from .trading_calendar import (
 )
 
 
-def orthodox_easter(start_date='1980', end_date='2021'):
+def orthodox_easter(start_date='1970', end_date='2201'):
     """
     ASEX observes Orthodox Easter, and has many holidays
     that are relative to Orthodox Easter.  This function gives a
-- 
2.43.0


From d277775419a8d618cd7c0c99c87e8b3bcb31a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:23 +0000
Subject: [PATCH 15/17] fix: close XHKG on Monday when the day after mid-autumn
 is a Sunday

Holidays falling on a Sunday have been observed on the next day since
2013, e.g. 2022-09-12.
---
 trading_calendars/exchange_calendar_xhkg.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/trading_calendars/exchange_calendar_xhkg.py b/trading_calendars/exchange_calendar_xhkg.py
index 27a7e9a..e83ed60 100644
--- a/trading_calendars/exchange_calendar_xhkg.py
+++ b/trading_calendars/exchange_calendar_xhkg.py
@@ -392,6 +392,15 @@ class XHKGExchangeCalendar(TradingCalendar):
             (day_after_mid_autumn_festival_dates.day == 1)
         ] += np.timedelta64(1, 'D')
 
+        # since 2013, the day after the mid autumn festival is observed on
+        # Monday if it is a Sunday
+        mid_autumn_festival_observed = vectorized_sunday_to_monday(
+            pd.DatetimeIndex(mid_autumn_festival),
+        )
+        mid_autumn_festival_observed = mid_autumn_festival_observed[
+            mid_autumn_festival_observed.year >= 2013
+        ]
+
         return list(chain(
             lunar_new_years_eve,
             chinese_lunar_new_year_dates,
@@ -403,6 +412,7 @@ class XHKGExchangeCalendar(TradingCalendar):
             vectorized_sunday_to_monday(chinese_buddhas_birthday_dates),
             vectorized_sunday_to_monday(dragon_boat_festival_dates),
             mid_autumn_festival,
+            mid_autumn_festival_observed,
             vectorized_sunday_to_monday(double_ninth_festival_dates),
             HKAdhocClosures,
         ))
-- 
2.43.0


From 012d8ad752d82b903b9b8156ce5be13f6d2d785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:49 +0000
Subject: [PATCH 16/17] fix: etc/tcal passes no utc argument to date_range

pandas has no such argument, so the script failed for every calendar.
---
 etc/tcal | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/etc/tcal b/etc/tcal
index 7e576de..ed6d383 100755
--- a/etc/tcal
+++ b/etc/tcal
@@ -43,7 +43,7 @@ def _render_month(calendar, year, month, print_year):
     else:
         end = '{year}-{month}'.format(year=year, month=month + 1)
 
-    days = pd.date_range(start, end, closed='left', utc=True)
+    days = pd.date_range(start, end, closed='left')
 
     title = months[month - 1]
     if print_year:
-- 
2.43.0


From a3cb51b61ad2b1f99fbaa56c20401dcce2127437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:41 +0000
Subject: [PATCH 17/17] fix: a registry keeps its own copy of the initial
 calendars

Registering, looking up or removing a name altered the mapping given to
TradingCalendarDispatcher, and so every other registry made of it.
---
 trading_calendars/calendar_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trading_calendars/calendar_utils.py b/trading_calendars/calendar_utils.py
index 97759aa..0996178 100644
--- a/trading_calendars/calendar_utils.py
+++ b/trading_calendars/calendar_utils.py
@@ -163,7 +163,7 @@ class TradingCalendarDispatcher(object):
         Calendar name aliases.
     """
     def __init__(self, calendars, calendar_factories, aliases):
-        self._calendars = calendars
+        self._calendars = dict(calendars)
         self._calendar_factories = dict(calendar_factories)
         self._aliases = dict(aliases)
 
-- 
2.43.0


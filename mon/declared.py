"""What a calendar publicly declares about itself, as model rows.

Used for built-in calendars: weekday mask, holidays, eras, offsets, breaks and
special times are read from the documented properties, and turned into a table by
the model's arithmetic (not by the code that builds the schedule)."""
import pytz

from .model import DAY, EPOCH_ORD, Row, Unsupported, era_value, iso, local_minute, ordinal, weekday
from pandas.tseries.holiday import Holiday

from .repo import pd


def day_of(x):
    if isinstance(x, Holiday):      # a one-off closure written as a rule of one year
        return ordinal(x.year, x.month, x.day)
    return pd.Timestamp(x).date().toordinal()


def rule_days(calendar, first, last):
    """Dates of a holiday calendar in [first, last]; rules are evaluated one by
    one over a range with a margin, so that no clipping by the window happens."""
    out = []
    lo, hi = pd.Timestamp(iso(first - 40)), pd.Timestamp(iso(last + 40))
    for r in calendar.rules:
        for t in r.dates(lo, hi):
            o = day_of(t)
            if first <= o <= last:
                out.append(o)
    return out


def tod_of(t):
    return t.hour * 60 + t.minute


def eras_of(times):
    if times is None:
        return None
    return [(None if s is None else day_of(s), tod_of(t)) for s, t in times]


class Declared(object):
    def __init__(self, cal):
        self.zone = str(cal.tz)
        self.mask = cal.weekmask
        self.open_times = eras_of(cal.open_times)
        self.close_times = eras_of(cal.close_times)
        self.break_starts = eras_of(cal.break_start_times)
        self.break_ends = eras_of(cal.break_end_times)
        self.open_offset = cal.open_offset
        self.close_offset = cal.close_offset
        self.cal = cal

    def closed(self, first, last):
        out = set()
        rh = self.cal.regular_holidays
        if rh is not None:
            # The holiday calendar only knows dates from 1970 on.
            out.update(rule_days(rh, first, last))
        for x in self.cal.adhoc_holidays:
            out.add(day_of(x))
        return out

    def sessions(self, first, last):
        c = self.closed(first, last)
        return [o for o in range(first, last + 1) if self.mask[weekday(o)] == '1' and o not in c]

    def special(self, which, first, last):
        """{date: set of tod}"""
        out = {}
        for t, c in getattr(self.cal, 'special_' + which):
            for o in rule_days(c, first, last):
                out.setdefault(o, set()).add(tod_of(t))
        for t, ds in getattr(self.cal, 'special_%s_adhoc' % which):
            for x in ds:
                o = day_of(x)
                if first <= o <= last:
                    out.setdefault(o, set()).add(tod_of(t))
        return out

    def regular(self, o):
        """(open, bs, be, close) on date o by the eras alone."""
        op = local_minute(self.zone, o, era_value(self.open_times, o) + DAY * self.open_offset)
        cl = local_minute(self.zone, o, era_value(self.close_times, o) + DAY * self.close_offset)
        bs = be = None
        if self.break_starts is not None:
            bs = local_minute(self.zone, o, era_value(self.break_starts, o))
            be = local_minute(self.zone, o, era_value(self.break_ends, o))
        return op, bs, be, cl

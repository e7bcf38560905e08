"""Reference model of a calendar definition.

Dates are proleptic ordinals, instants are whole minutes since 1970-01-01 UTC.
Nothing here uses pandas or the code under observation.
"""
import datetime
from bisect import bisect_right

import pytz

EPOCH = datetime.datetime(1970, 1, 1)
EPOCH_ORD = 719163
DAY = 1440


class Unsupported(Exception):
    """The case is outside what the properties quantify over."""


def ordinal(y, m, d):
    return datetime.date(y, m, d).toordinal()


def ymd(o):
    d = datetime.date.fromordinal(o)
    return d.year, d.month, d.day


def iso(o):
    return datetime.date.fromordinal(o).isoformat()


def weekday(o):
    return (o + 6) % 7      # ordinal 1 is a Monday


# ---------------------------------------------------------------- time zones

_local = {}


def local_minute(zone, o, tod):
    """UTC minute at which the clock of the zone reads tod (minutes, may exceed a
    day or be negative) on date o."""
    k, tod = divmod(tod, DAY)
    o += k
    key = (zone, o, tod)
    r = _local.get(key)
    if r is None:
        naive = datetime.datetime.fromordinal(o) + datetime.timedelta(minutes=tod)
        if zone == 'UTC':
            off = datetime.timedelta(0)
        else:
            try:
                off = pytz.timezone(zone).localize(naive, is_dst=None).utcoffset()
            except (pytz.exceptions.InvalidTimeError, pytz.exceptions.AmbiguousTimeError) as e:
                raise Unsupported('local time %s in %s: %r' % (naive, zone, e))
        d = naive - off - EPOCH
        secs = d.days * 86400 + d.seconds
        if secs % 60:
            raise Unsupported('offset with seconds')
        r = _local[key] = secs // 60
        if len(_local) > 2000000:
            _local.clear()
    return r


# ---------------------------------------------------------------- rules

def easter(year):
    """Western Easter Sunday (anonymous Gregorian computus), as an ordinal."""
    a = year % 19
    b, c = divmod(year, 100)
    d, e = divmod(b, 4)
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = divmod(c, 4)
    l = (32 + 2 * e + 2 * i - h - k) % 7
    m = (a + 11 * h + 22 * l) // 451
    month, day = divmod(h + l - 7 * m + 114, 31)
    return ordinal(year, month, day + 1)


def orthodox_easter(year):
    """Orthodox Easter Sunday (Meeus Julian algorithm), as a Gregorian ordinal."""
    a, b, c = year % 4, year % 7, year % 19
    d = (19 * c + 15) % 30
    e = (2 * a + 4 * b - d + 34) % 7
    month, day = divmod(d + e + 114, 31)
    # Julian date to Gregorian via the Julian day number.
    return julian_to_ordinal(year, month, day + 1)


def julian_to_ordinal(year, month, day):
    a = (14 - month) // 12
    y = year + 4800 - a
    m = month + 12 * a - 3
    jdn = day + (153 * m + 2) // 5 + 365 * y + y // 4 - 32083
    return jdn - 1721425


def nth_weekday(year, month, wd, n):
    """n-th (1-based) given weekday of a month; n = -1 for the last."""
    if n > 0:
        first = ordinal(year, month, 1)
        return first + (wd - weekday(first)) % 7 + 7 * (n - 1)
    if month == 12:
        last = ordinal(year + 1, 1, 1) - 1
    else:
        last = ordinal(year, month + 1, 1) - 1
    return last - (weekday(last) - wd) % 7 + 7 * (n + 1)


def on_or_after(o, wd):
    return o + (wd - weekday(o)) % 7


def on_or_before(o, wd):
    return o - (weekday(o) - wd) % 7


def next_workday(o):
    o += 1
    while weekday(o) > 4:
        o += 1
    return o


def previous_workday(o):
    o -= 1
    while weekday(o) > 4:
        o -= 1
    return o


def nearest_workday(o):
    return o + {5: -1, 6: 1}.get(weekday(o), 0)


OBSERVANCES = {
    None: lambda o: o,
    'next_monday': lambda o: o + {5: 2, 6: 1}.get(weekday(o), 0),
    'next_monday_or_tuesday': lambda o: o + {5: 2, 6: 2, 0: 1}.get(weekday(o), 0),
    'previous_friday': lambda o: o - {5: 1, 6: 2}.get(weekday(o), 0),
    'sunday_to_monday': lambda o: o + {6: 1}.get(weekday(o), 0),
    'weekend_to_monday': lambda o: o + {5: 2, 6: 1}.get(weekday(o), 0),
    'nearest_workday': nearest_workday,
    'next_workday': next_workday,
    'previous_workday': previous_workday,
    'before_nearest_workday': lambda o: previous_workday(nearest_workday(o)),
    'after_nearest_workday': lambda o: next_workday(nearest_workday(o)),
}


def rule_dates(rule, first, last):
    """Ordinals of a rule inside [first, last]."""
    out = []
    y0, y1 = ymd(first)[0] - 1, ymd(last)[0] + 1
    for y in range(y0, y1 + 1):
        kind = rule['kind']
        if kind == 'fixed':
            o = OBSERVANCES[rule.get('obs')](ordinal(y, rule['month'], rule['day']))
        elif kind == 'nth':
            o = nth_weekday(y, rule['month'], rule['wd'], rule['n'])
        elif kind == 'easter':
            o = easter(y) + rule['offset']
        elif kind == 'once':
            if y != rule['year']:
                continue
            o = ordinal(y, rule['month'], rule['day'])
        else:
            raise ValueError(kind)
        if rule.get('dow') is not None and weekday(o) not in rule['dow']:
            continue
        if rule.get('start') is not None and o < rule['start']:
            continue
        if rule.get('end') is not None and o > rule['end']:
            continue
        if first <= o <= last:
            out.append(o)
    return out


# ---------------------------------------------------------------- definitions

class Row(object):
    """One session."""
    __slots__ = ('day', 'open', 'bs', 'be', 'close', 'late', 'early')

    def __init__(self, day, open, bs, be, close, late=False, early=False):
        self.day, self.open, self.bs, self.be, self.close = day, open, bs, be, close
        self.late, self.early = late, early

    def key(self):
        return (self.day, self.open, self.bs, self.be, self.close)

    def full(self):
        return (self.day, self.open, self.bs, self.be, self.close, self.late, self.early)

    def __repr__(self):
        return 'Row(%s, %s, %s, %s, %s%s%s)' % (
            iso(self.day), self.open, self.bs, self.be, self.close,
            ', late' if self.late else '', ', early' if self.early else '')


def era_value(eras, o):
    """The time of the latest era starting on or before date o."""
    best = None
    for start, t in eras:
        if start is None or start <= o:
            if best is None or (start is not None and (best[0] is None or start >= best[0])):
                best = (start, t)
    if best is None:
        raise Unsupported('no era')
    return best[1]


class Definition(object):
    """A calendar definition as plain data.

    zone, weekmask ('1111100'), rules [rule], adhoc [ordinal],
    open_times/close_times/break_starts/break_ends [(ordinal|None, tod)],
    open_offset/close_offset (days),
    special_opens/special_closes [(tod, [rule])],
    special_opens_adhoc/special_closes_adhoc [(tod, [ordinal])].
    """
    FIELDS = ('zone', 'weekmask', 'rules', 'adhoc', 'open_times', 'close_times',
              'break_starts', 'break_ends', 'open_offset', 'close_offset',
              'special_opens', 'special_closes', 'special_opens_adhoc',
              'special_closes_adhoc')

    def __init__(self, **kw):
        for f in self.FIELDS:
            setattr(self, f, kw.pop(f))
        assert not kw, kw

    def data(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def replace(self, **kw):
        d = self.data()
        d.update(kw)
        return Definition(**d)

    # -- model

    def is_day(self, o):
        return self.weekmask[weekday(o)] == '1'

    def holidays(self, first, last):
        out = set(o for o in self.adhoc if first <= o <= last)
        for r in self.rules:
            out.update(rule_dates(r, first, last))
        return out

    def sessions(self, first, last):
        closed = self.holidays(first, last)
        return [o for o in range(first, last + 1) if self.is_day(o) and o not in closed]

    def special(self, which, first, last):
        """[(date, tod)] sorted; raises Unsupported on duplicates."""
        out = []
        for tod, rules in getattr(self, 'special_' + which):
            for r in rules:
                out.extend((o, tod) for o in rule_dates(r, first, last))
        for tod, dates in getattr(self, 'special_%s_adhoc' % which):
            out.extend((o, tod) for o in dates if first <= o <= last)
        out.sort()
        for a, b in zip(out, out[1:]):
            if a[0] == b[0]:
                raise Unsupported('two special %s on %s' % (which, iso(a[0])))
        return out

    def table(self, first, last, cut=None):
        """(rows, bad) where bad lists special dates that are not sessions.

        cut (minute) models the known finding: special times later than the end
        of the window are not applied."""
        days = self.sessions(first, last)
        so = dict(self.special('opens', first, last))
        sc = dict(self.special('closes', first, last))
        if cut is not None:
            so = {o: t for o, t in so.items() if local_minute(self.zone, o, t) <= cut}
            sc = {o: t for o, t in sc.items() if local_minute(self.zone, o, t) <= cut}
        inside = set(days)
        bad = sorted(o for o in list(so) + list(sc) if o not in inside)
        rows = []
        for o in days:
            op = local_minute(self.zone, o, era_value(self.open_times, o) + DAY * self.open_offset)
            cl = local_minute(self.zone, o, era_value(self.close_times, o) + DAY * self.close_offset)
            bs = be = None
            if self.break_starts is not None:
                bs = local_minute(self.zone, o, era_value(self.break_starts, o))
                be = local_minute(self.zone, o, era_value(self.break_ends, o))
            if o in so:
                op = local_minute(self.zone, o, so[o])
            if o in sc:
                cl = local_minute(self.zone, o, sc[o])
                bs = be = None
            rows.append(Row(o, op, bs, be, cl, o in so, o in sc))
        return rows, bad


def well_formed(rows):
    """None, or why the table breaks the ordering a calendar needs."""
    prev = None
    for r in rows:
        if not r.open < r.close:
            return 'open >= close on %s' % iso(r.day)
        if (r.bs is None) != (r.be is None):
            return 'half a break on %s' % iso(r.day)
        if r.bs is not None and not (r.open < r.bs < r.be < r.close):
            return 'break outside session on %s' % iso(r.day)
        if prev is not None and not prev.close < r.open:
            return 'overlap before %s' % iso(r.day)
        prev = r
    return None

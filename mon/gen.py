"""Random calendar definitions, as model data and as real calendar classes."""
import datetime

import pytz

from .model import (
    DAY, Definition, Unsupported, iso, ordinal, rule_dates, weekday, well_formed, ymd, local_minute,
)

ZONES = [
    'UTC', 'America/New_York', 'US/Eastern', 'US/Central', 'America/Chicago', 'Europe/London',
    'Europe/Berlin', 'Europe/Moscow', 'Europe/Istanbul', 'Asia/Tokyo', 'Asia/Kolkata',
    'Asia/Kathmandu', 'Asia/Tehran', 'Asia/Hong_Kong', 'Asia/Jerusalem', 'Australia/Sydney',
    'Australia/Lord_Howe', 'Pacific/Auckland', 'Pacific/Chatham', 'America/Sao_Paulo',
    'America/Santiago', 'America/St_Johns', 'America/Caracas', 'Africa/Cairo',
    'Africa/Casablanca', 'America/Argentina/Buenos_Aires', 'Asia/Seoul', 'America/Havana',
    'Pacific/Honolulu', 'America/Mexico_City', 'Atlantic/Reykjavik', 'Europe/Dublin',
    'Asia/Amman', 'Pacific/Kiritimati',
]

RULES_FROM = 719163     # 1970-01-01

WEEKMASKS = ['1111100'] * 6 + ['1111001', '1111111', '0111110', '1111110', '1010100', '0000011',
                              '1000000', '1101100', '0000001', '1111011']


def zone_changes(zone, first, last):
    """Dates in the window on which the zone's UTC offset changes."""
    z = pytz.timezone(zone)
    out = []
    for t in getattr(z, '_utc_transition_times', []):
        if t.year < 1970:
            continue
        o = t.toordinal()
        for d in (-1, 0, 1):
            if first <= o + d <= last:
                out.append(o + d)
    return out


def pick_date(rng, first, last, hot=()):
    """A date biased to the edges of the window and to hot dates."""
    r = rng.random()
    if r < 0.18:
        return first + rng.randrange(0, min(4, last - first + 1))
    if r < 0.36:
        return last - rng.randrange(0, min(4, last - first + 1))
    if r < 0.60 and hot:
        return min(last, max(first, rng.choice(list(hot)) + rng.choice((-1, 0, 0, 1))))
    return rng.randint(first, last)


def random_rule(rng, first, last):
    k = rng.random()
    rule = {}
    if k < 0.55:
        month = rng.randint(1, 12)
        rule = {'kind': 'fixed', 'month': month, 'day': rng.randint(1, 28),
                'obs': rng.choice([None, None, None, 'next_monday', 'next_monday_or_tuesday',
                                   'previous_friday', 'sunday_to_monday', 'weekend_to_monday',
                                   'nearest_workday', 'next_workday', 'previous_workday',
                                   'before_nearest_workday', 'after_nearest_workday'])}
        if rng.random() < 0.3:     # year ends are where substitution crosses a year
            rule['month'], rule['day'] = rng.choice([(12, 31), (1, 1), (12, 30), (1, 2), (12, 24)])
        if rng.random() < 0.25:
            # aim at the window itself
            y, m, d = ymd(rng.choice((first, last, rng.randint(first, last))))
            rule['month'], rule['day'] = m, min(d, 28) if m == 2 else d
    elif k < 0.75:
        rule = {'kind': 'nth', 'month': rng.randint(1, 12), 'wd': rng.randint(0, 6),
                'n': rng.choice([1, 2, 3, 4, -1])}
    elif k < 0.92:
        rule = {'kind': 'easter', 'offset': rng.choice([-48, -47, -46, -3, -2, -1, 0, 1, 39, 49, 50, 60])}
    else:
        rule = {'kind': 'fixed', 'month': rng.randint(1, 12), 'day': rng.randint(1, 28), 'obs': None,
                'dow': sorted(rng.sample(range(7), rng.randint(1, 6)))}
    if rng.random() < 0.35:
        rule['start'] = rng.randint(first - 200, last)
    if rng.random() < 0.35:
        lo = rule.get('start') or first - 200
        rule['end'] = rng.randint(lo, max(lo, last + 100))
    if rng.random() < 0.15:
        # validity limit exactly on an occurrence
        ds = rule_dates({k: v for k, v in rule.items() if k not in ('start', 'end')}, first, last)
        if ds:
            rule.pop('start', None)
            rule.pop('end', None)
            rule[rng.choice(('start', 'end'))] = rng.choice(ds)
    return rule


def eras(rng, first, last, times, hot=()):
    """Era list [(None, t0), (date, t1), ...] with boundaries biased to edges."""
    n = rng.choice([1, 1, 2, 2, 3, 4])
    cuts = set()
    for _ in range(n - 1):
        if rng.random() < 0.15:
            cuts.add(rng.choice((first - 300, last + 300)))
        else:
            cuts.add(pick_date(rng, first, last, hot))
    out = [(None, rng.choice(times))]
    for c in sorted(cuts):
        out.append((c, rng.choice(times)))
    return out


def random_definition(rng, first, last, want_break=None, want_special=None, tries=200, rich=False):
    """A definition that is well formed over [first, last] (inclusive ordinals)."""
    for _ in range(tries):
        d = _candidate(rng, first, last, want_break, want_special, rich)
        try:
            rows, bad = d.table(first, last)
        except Unsupported:
            continue
        if bad:
            d = drop_bad(d, bad)
            try:
                rows, bad = d.table(first, last)
            except Unsupported:
                continue
            if bad:
                continue
        if not rows or well_formed(rows):
            continue
        return d
    raise Unsupported('no definition found')


def drop_bad(d, bad):
    """Remove the special dates that are not sessions."""
    bad = set(bad)
    kw = {}
    for w in ('opens', 'closes'):
        kw['special_' + w] = [
            (t, [r for r in rules if True]) for t, rules in getattr(d, 'special_' + w)]
        kw['special_%s_adhoc' % w] = [
            (t, [o for o in dates if o not in bad]) for t, dates in getattr(d, 'special_%s_adhoc' % w)]
    # Rules that hit non-sessions: make those dates sessions is impossible in
    # general, so drop the rule.
    d2 = d.replace(**kw)
    lo, hi = min(bad), max(bad)
    for w in ('opens', 'closes'):
        fixed = []
        for t, rules in getattr(d2, 'special_' + w):
            keep = [r for r in rules if not (set(rule_dates(r, lo, hi)) & bad)]
            if keep:
                fixed.append((t, keep))
        d2 = d2.replace(**{'special_' + w: fixed})
        d2 = d2.replace(**{'special_%s_adhoc' % w: [
            (t, ds) for t, ds in getattr(d2, 'special_%s_adhoc' % w) if ds]})
    return d2


def _candidate(rng, first, last, want_break, want_special, rich):
    zone = rng.choice(ZONES)
    hot = zone_changes(zone, first, last)
    mask = rng.choice(WEEKMASKS)
    # recurring rules apply from 1970 on only
    recurring = first >= RULES_FROM
    rules = [random_rule(rng, first, last) for _ in range(rng.choice([0, 1, 2, 4, 8]) if recurring else 0)]
    adhoc = sorted(set(pick_date(rng, first, last, hot) for _ in range(rng.choice([0, 1, 3, 8]))))
    # closures outside the window must not matter
    adhoc += [first - rng.randint(1, 9), last + rng.randint(1, 9)] if rng.random() < 0.3 else []
    shape = rng.random()
    brk = rng.random() < 0.4 if want_break is None else want_break
    open_offset = close_offset = 0
    if shape < 0.62:
        op = [rng.randint(4 * 60, 10 * 60) for _ in range(3)]
        cl = [rng.randint(15 * 60, 22 * 60 + 30) for _ in range(3)]
    elif shape < 0.77 and not rng.random() < 0.05:
        # opens on the previous evening
        open_offset = -1
        op = [rng.randint(17 * 60 + 40, 22 * 60) for _ in range(3)]
        cl = [rng.randint(14 * 60, 17 * 60 + 30) for _ in range(3)]
    elif shape < 0.87:
        # closes after midnight
        close_offset = 1
        op = [rng.randint(9 * 60, 12 * 60) for _ in range(3)]
        cl = [rng.randint(4 * 60, 8 * 60) for _ in range(3)]
    elif shape < 0.905:
        # back to back
        open_offset = -1
        t = rng.randint(16 * 60, 20 * 60)
        op, cl = [t + 1], [t]
    elif shape < 0.965:
        # longer than a day, on some days of the week only
        mask = rng.choice(('1010100', '1000000', '0100100', '1010010'))
        open_offset = -1
        op = [rng.randint(3 * 60, 14 * 60) for _ in range(2)]
        cl = [rng.randint(15 * 60, 22 * 60 + 30) for _ in range(2)]
    else:
        # round the clock in UTC
        zone, hot = 'UTC', []
        op, cl = [0], [DAY - 1]
    open_times = eras(rng, first, last, op, hot)
    close_times = eras(rng, first, last, cl, hot)
    break_starts = break_ends = None
    if brk:
        s = [rng.randint(11 * 60, 12 * 60 + 30) for _ in range(2)]
        e = [rng.randint(12 * 60 + 31, 13 * 60 + 50) for _ in range(2)]
        if rng.random() < 0.15:
            e = [max(s) + 1]
        if shape < 0.87 and shape >= 0.77:
            s = [rng.randint(12 * 60 + 5, 12 * 60 + 30)]
        break_starts = eras(rng, first, last, s, hot)
        break_ends = eras(rng, first, last, e, hot)
    d = Definition(
        zone=zone, weekmask=mask, rules=rules, adhoc=adhoc, open_times=open_times,
        close_times=close_times, break_starts=break_starts, break_ends=break_ends,
        open_offset=open_offset, close_offset=close_offset, special_opens=[], special_closes=[],
        special_opens_adhoc=[], special_closes_adhoc=[])
    special = rng.random() < 0.75 if want_special is None else want_special
    if special:
        d = add_specials(rng, d, first, last, hot, brk)
    return d


def add_specials(rng, d, first, last, hot, brk):
    days = d.sessions(first, last)
    if not days:
        return d
    max_open = max(t for _, t in d.open_times) + DAY * d.open_offset
    min_close = min(t for _, t in d.close_times) + DAY * d.close_offset
    lo_open = max(max_open + 1, 4 * 60)
    hi_open = min(min_close - 2, 14 * 60)
    if brk:
        hi_open = min(hi_open, min(t for _, t in d.break_starts) - 1)
    lo_close = max(max_open + 30, hi_open + 1, 5 * 60)
    hi_close = min(min_close + rng.choice((-1, -1, 30)), 22 * 60 + 59)
    so, sc, soa, sca = [], [], [], []
    used = {'o': set(), 'c': set()}

    def session_date():
        r = rng.random()
        if r < 0.25:
            return days[0]
        if r < 0.5:
            return days[-1]
        if r < 0.6 and hot:
            h = [x for x in hot if x in dayset]
            if h:
                return rng.choice(h)
        return rng.choice(days)

    dayset = set(days)
    if lo_open <= hi_open:
        for _ in range(rng.choice([0, 1, 2])):
            t = rng.randint(lo_open, hi_open)
            ds = []
            for _ in range(rng.choice([1, 2, 4])):
                o = session_date()
                if o not in used['o']:
                    used['o'].add(o)
                    ds.append(o)
            if ds:
                soa.append((t, ds))
        if rng.random() < 0.5 and first >= RULES_FROM:
            so.append((rng.randint(lo_open, hi_open), [random_rule(rng, first, last)]))
    if lo_close <= hi_close:
        for _ in range(rng.choice([0, 1, 2])):
            t = rng.randint(lo_close, hi_close)
            ds = []
            for _ in range(rng.choice([1, 2, 4])):
                o = session_date()
                if o not in used['c']:
                    used['c'].add(o)
                    ds.append(o)
            if ds:
                sca.append((t, ds))
        for _ in range(rng.choice([0, 1, 2]) if first >= RULES_FROM else 0):
            sc.append((rng.randint(lo_close, hi_close),
                       [random_rule(rng, first, last) for _ in range(rng.choice([1, 2]))]))
    return d.replace(special_opens=so, special_closes=sc, special_opens_adhoc=soa,
                     special_closes_adhoc=sca)


# ---------------------------------------------------------------- real classes

def tod(t):
    return datetime.time(*divmod(t, 60))


def make_class(d, style=0, name='GEN', base=None, extra=None):
    """A calendar class for a definition, overriding only documented properties.

    style selects between the ways in which declarations are written (naive or
    UTC dates, lists or indexes, tuples or lists of eras, properties or
    attributes)."""
    from .repo import HolidayCalendar, TradingCalendar, pd

    def ts(o):
        return pd.Timestamp(iso(o))

    def dates(os_, s):
        s = s % 3
        if s == 0:
            return [ts(o) for o in os_]
        if s == 1:
            return [pd.Timestamp(iso(o), tz='UTC') for o in os_]
        return pd.DatetimeIndex([ts(o) for o in os_]) if os_ else []

    def era(es):
        out = [(None if s is None else ts(s), tod(t)) for s, t in es]
        return tuple(out) if style % 2 else out

    rules = [pandas_rule(r, i) for i, r in enumerate(d.rules)]
    so = [(tod(t), HolidayCalendar([pandas_rule(r, i) for i, r in enumerate(rs)]))
          for t, rs in d.special_opens]
    sc = [(tod(t), HolidayCalendar([pandas_rule(r, i) for i, r in enumerate(rs)]))
          for t, rs in d.special_closes]
    soa = [(tod(t), dates(ds, style // 3 if style // 3 % 3 != 1 else 0)) for t, ds in d.special_opens_adhoc]
    sca = [(tod(t), dates(ds, style // 3 if style // 3 % 3 != 1 else 0)) for t, ds in d.special_closes_adhoc]
    vals = {
        'name': name,
        'tz': pytz.timezone(d.zone),
        'open_times': era(d.open_times),
        'close_times': era(d.close_times),
        'open_offset': d.open_offset,
        'close_offset': d.close_offset,
        'weekmask': d.weekmask,
        'regular_holidays': HolidayCalendar(rules) if rules else None,
        'adhoc_holidays': dates(d.adhoc, style % 2),
        'special_opens': so,
        'special_closes': sc,
        'special_opens_adhoc': soa,
        'special_closes_adhoc': sca,
    }
    if d.break_starts is not None:
        vals['break_start_times'] = era(d.break_starts)
        vals['break_end_times'] = era(d.break_ends)
    attrs = {}
    for k, v in vals.items():
        if style % 2:
            attrs[k] = property(lambda self, v=v: v)
        else:
            attrs[k] = v
    if extra:
        attrs.update(extra)
    return type('Gen' + str(style), (base or TradingCalendar,), attrs)


def pandas_rule(r, i=0):
    import pandas.tseries.holiday as ph
    from pandas.tseries.offsets import DateOffset, Day, Easter
    from dateutil.relativedelta import MO, TU, WE, TH, FR, SA, SU
    import pandas as pd
    kw = {}
    if r.get('start') is not None:
        kw['start_date'] = iso(r['start'])
    if r.get('end') is not None:
        kw['end_date'] = iso(r['end'])
    if r.get('dow') is not None:
        kw['days_of_week'] = tuple(r['dow'])
    # names need not be distinct
    name = 'rule %d' % (i % 3)
    if r['kind'] == 'fixed':
        obs = r.get('obs')
        return ph.Holiday(name, month=r['month'], day=r['day'],
                          observance=getattr(ph, obs) if obs else None, **kw)
    if r['kind'] == 'nth':
        wd = (MO, TU, WE, TH, FR, SA, SU)[r['wd']]
        if r['n'] > 0:
            return ph.Holiday(name, month=r['month'], day=1, offset=DateOffset(weekday=wd(r['n'])), **kw)
        last = {2: None}.get(r['month'], 30 if r['month'] in (4, 6, 9, 11) else 31)
        if last is None:
            # last weekday of February: a week before the first one of March
            return ph.Holiday(name, month=3, day=1,
                              offset=[DateOffset(weekday=wd(1)), Day(-7)], **kw)
        return ph.Holiday(name, month=r['month'], day=last, offset=DateOffset(weekday=wd(-1)), **kw)
    if r['kind'] == 'easter':
        return ph.Holiday(name, month=1, day=1, offset=[Easter(), Day(r['offset'])], **kw)
    if r['kind'] == 'once':
        return ph.Holiday(name, year=r['year'], month=r['month'], day=r['day'], **kw)
    raise ValueError(r)

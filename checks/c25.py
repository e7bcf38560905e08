"""C25: dates are turned into the instant at which the local clock shows the time."""
import datetime

import pytz

from mon import gen, repo, runner
from mon.model import DAY, EPOCH_ORD, Unsupported, iso, local_minute, ordinal, weekday
from mon.observe import Failed, call, is_utc, ns_list, show
from mon.qmodel import DAYNS, MIN
from mon.repo import np, pd
from mon.runner import rng_for

from trading_calendars.trading_calendar import days_at_time
from trading_calendars.utils import pandas_utils

P = 'C25'
QUICK = runner.tier() == 'quick'
SEC = 10 ** 9


def dates_for(rng, zone, n):
    first, last = ordinal(1972, 1, 1), ordinal(2060, 12, 31)
    hot = gen.zone_changes(zone, first, last)
    out = []
    while len(out) < n:
        if hot and rng.random() < 0.6:
            out.append(rng.choice(hot) + rng.choice((-2, -1, 0, 1, 2)))
        else:
            out.append(rng.randint(first, last))
    return out


def as_days(rng, ds):
    """The same dates in one of the accepted forms."""
    stamps = [pd.Timestamp(iso(o)) for o in ds]
    r = rng.randrange(7)
    if r == 0:
        return stamps, 'list of naive stamps'
    if r == 1:
        return [pd.Timestamp(iso(o), tz='UTC') for o in ds], 'list of UTC stamps'
    if r == 2:
        return pd.DatetimeIndex(stamps, tz='UTC'), 'UTC index'
    if r == 3:
        return [iso(o) for o in ds], 'list of strings'
    if r == 4:
        return np.array([iso(o) for o in ds], dtype='M8[ns]'), 'array'
    if r == 5:
        return pd.Series(stamps, dtype='datetime64[ns]'), 'series'
    return pd.DatetimeIndex(stamps), 'naive index'


def expected(zone, ds, tod, seconds, offset):
    return [local_minute(zone, o, tod + DAY * offset) * MIN + seconds * SEC for o in ds]


def at_time(mon, rng, n):
    for _ in range(n):
        zone = rng.choice(gen.ZONES)
        k = rng.choice((0, 1, 1, 2, 5, 30, 200))
        ds = dates_for(rng, zone, k)
        if rng.random() < 0.5:
            ds = sorted(ds)
        tod = rng.choice((0, 1, 570, 960, 1439, rng.randrange(DAY), rng.randrange(DAY), 120, 150))
        seconds = rng.choice((0, 0, 0, 30, 59))
        offset = rng.choice((0, 0, 0, -1, 1, -2, 3))
        # times the local clock skips or shows twice are outside the statement
        ok = []
        for o in ds:
            try:
                expected(zone, [o], tod, seconds, offset)
                ok.append(o)
            except Unsupported:
                mon.note('skipped or repeated local time')
        ds = ok
        want = expected(zone, ds, tod, seconds, offset)
        days, form = as_days(rng, ds)
        before = list(days)
        t = datetime.time(tod // 60, tod % 60, seconds)
        tz = rng.choice((zone, pytz.timezone(zone)))
        mon.case = 'days_at_time(%s %s, %s, %s, %d)' % (form, [iso(o) for o in ds[:4]], t, zone, offset)
        if offset == 0 and rng.random() < 0.5:
            got = call(days_at_time, days, t, tz)
        elif rng.random() < 0.5:
            got = call(days_at_time, days, t, tz, offset)
        else:
            got = call(days_at_time, days, t, tz=tz, day_offset=offset)
        good = not isinstance(got, Failed) and is_utc(got) and ns_list(got) == want
        mon.check('local time', good, lambda: '%s: observed %s, expected %s' % (
            mon.case, got if isinstance(got, Failed) else show(got), show(want)),
            case=(zone, ds, tod, seconds, offset) if ds else None)
        mon.check('argument unchanged', list(days) == before, lambda: '%s changed its dates' % mon.case)
        if ds and not isinstance(got, Failed) and good:
            # the defining relation, read back through the zone
            i = rng.randrange(len(ds))
            back = got[i].tz_convert(pytz.timezone(zone))
            mon.check('read back', (back.time(), back.date().toordinal()) == (t, ds[i] + offset),
                      lambda: '%s: %s shows %s' % (mon.case, got[i], back), case=(zone, ds[i], tod))
    mon.sample(mon.case)


def sundays(mon, rng, n):
    fn = getattr(pandas_utils, 'vectorized_sunday_to_monday', None)
    if fn is None:
        mon.note('vectorized_sunday_to_monday not present')
        return
    for _ in range(n):
        k = rng.choice((0, 1, 3, 40, 400))
        a = rng.randint(ordinal(1950, 1, 1), ordinal(2100, 1, 1))
        ds = [a + rng.randrange(3000) for _ in range(k)] if rng.random() < 0.5 else list(range(a, a + k))
        idx = pd.DatetimeIndex([pd.Timestamp(iso(o)) for o in ds])
        before = ns_list(idx)
        mon.case = 'sunday to monday %s' % [iso(o) for o in ds[:5]]
        got = call(fn, idx)
        want = [(o + (weekday(o) == 6) - EPOCH_ORD) * DAYNS for o in ds]
        mon.check('sunday to monday', not isinstance(got, Failed) and ns_list(got) == want,
                  lambda: '%s: observed %s, expected %s' % (mon.case, got if isinstance(got, Failed) else show(got), show(want)),
                  case=ds if any(weekday(o) == 6 for o in ds) else None)
        mon.check('argument unchanged', ns_list(idx) == before, lambda: '%s changed its index' % mon.case)


def run(task, mon):
    rng = rng_for(P, *task)
    at_time(mon, rng, task[1])
    sundays(mon, rng, task[1] // 3)


def main():
    runner.main(
        P, run, [['mixed', 220 if QUICK else 1500, k] for k in range(16 if QUICK else 64)],
        rule='a case is one conversion of an index of dates at one time of day, zone and day offset (dates biased to '
             'changes of the zone\'s offset), or one index of dates moved from Sunday to Monday; distinct non-trivial = '
             'distinct (zone, dates, time, offset) with at least one date, or indexes holding a Sunday',
        minimum={'local time': 2000, 'read back': 1000, 'argument unchanged': 2500},
        assumptions=['pytz zone data', 'local times that a zone skips or repeats are outside the statement'])


if __name__ == '__main__':
    main()

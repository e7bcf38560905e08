"""C27: the 24/7 and 24/5 calendars trade every minute of every day, or of every weekday."""
from mon import cases, repo, runner
from mon.cases import build, end_stamp
from mon.model import EPOCH_ORD, iso, ordinal, weekday
from mon.observe import Failed, call, column_ns, label_days, ns_list, raw_table, show
from mon.qmodel import DAYNS, MIN
from mon.repo import label, np, pd, tc
from mon.runner import rng_for

P = 'C27'
QUICK = runner.tier() == 'quick'
DAYS = {'24/7': range(7), '24/5': range(5)}


def start(o):
    return (o - EPOCH_ORD) * DAYNS


def end(o):
    return start(o) + 1439 * MIN


def one(mon, rng, name, a, b, e):
    cal = build(repo.cls(name), a, b, e)
    days = [o for o in range(a, b + 1) if weekday(o) in DAYS[name]]
    if not days:
        return
    if isinstance(cal, Failed):
        mon.violate('construct', '%r' % cal)
        return
    ident = (name, a, b)
    got = label_days(cal.all_sessions)
    mon.check('sessions', got == days, lambda: 'sessions %s..., expected %s...' % (
        [iso(o) for o in got[:4]], [iso(o) for o in days[:4]]), case=ident)
    want = [(start(o), start(o), None, None, end(o)) for o in days]
    table = raw_table(cal)
    bad = [(g, w) for g, w in zip(table, want) if g != w]
    mon.check('hours', len(table) == len(want) and not bad, lambda: 'row %r' % (bad[:1] or len(table),), case=ident)
    mon.check('special', len(cal.late_opens) == 0 and len(cal.early_closes) == 0,
              lambda: 'special sessions %s %s' % (cal.late_opens[:3], cal.early_closes[:3]), case=ident)
    # every minute of every session, none beside
    mins = np.asarray(cal.all_minutes.asi8)
    expect = np.concatenate([np.arange(start(o), end(o) + 1, MIN) for o in days])
    mon.check('minutes', len(mins) == len(expect) and bool((mins == expect).all()),
              lambda: '%d minutes, expected %d' % (len(mins), len(expect)), case=ident)
    mon.check('minute count', cal.minutes_count_for_sessions_in_range(label(days[0]), label(days[-1])) == 1440 * len(days),
              'minutes_count_for_sessions_in_range', case=ident)
    inside = set(days)
    for _ in range(25):
        o = rng.choice((a, b, days[0], days[-1], rng.randint(a, b), rng.randint(a - 3, b + 3)))
        t = start(o) + rng.choice((0, 1439, rng.randrange(1440))) * MIN
        x = pd.Timestamp(t, tz='UTC')
        mon.equal('is open', bool(cal.is_open_on_minute(x)), o in inside, lambda: 'is_open_on_minute(%s)' % x,
                  case=(ident, t))
        if o in inside:
            mon.equal('session of minute', cal.minute_to_session_label(x), label(o),
                      lambda: 'minute_to_session_label(%s)' % x, case=(ident, t))
        nxt = t + MIN if (t + MIN) // DAYNS + EPOCH_ORD in inside else None
        if nxt is not None:
            g = call(cal.next_minute, x)
            mon.check('next minute', getattr(g, 'value', None) == nxt, lambda: 'next_minute(%s) = %r' % (x, g), case=(ident, t))
        prv = t - MIN if (t - MIN) // DAYNS + EPOCH_ORD in inside else None
        if prv is not None:
            g = call(cal.previous_minute, x)
            mon.check('previous minute', getattr(g, 'value', None) == prv, lambda: 'previous_minute(%s) = %r' % (x, g),
                      case=(ident, t))


def chunk(mon, name, y, n):
    """n whole years: every session and minute."""
    a, b = ordinal(y, 1, 1), ordinal(y + n - 1, 12, 31)
    mon.case = '%s %s..%s' % (name, iso(a), iso(b))
    cal = build(repo.cls(name), a, b)
    if isinstance(cal, Failed):
        mon.violate('construct', '%r' % cal)
        return
    days = np.array([o for o in range(a, b + 1) if weekday(o) in DAYS[name]], dtype=np.int64)
    starts = (days - EPOCH_ORD) * DAYNS
    got = np.asarray(cal.all_sessions.asi8)
    mon.check('every year', len(got) == len(starts) and bool((got == starts).all()), lambda: 'sessions missing %s, added %s' % (
        [str(pd.Timestamp(int(x))) for x in sorted(set(starts.tolist()) - set(got.tolist()))[:4]],
        [str(pd.Timestamp(int(x))) for x in sorted(set(got.tolist()) - set(starts.tolist()))[:4]]), case=(name, y))
    for column, want in (('market_open', starts), ('market_close', starts + 1439 * MIN)):
        got = np.array(column_ns(cal, column))
        mon.check('every year', len(got) == len(want) and bool((got == want).all()), lambda: column + ' differs', case=(name, y, column))
    mins = np.asarray(cal.all_minutes.asi8)
    want = (starts[:, None] + np.arange(1440, dtype=np.int64)[None, :] * MIN).reshape(-1)
    mon.check('every year', len(mins) == len(want) and bool((mins == want).all()), lambda: '%d minutes, expected %d' % (
        len(mins), len(want)), case=(name, y, 'minutes'))


def run(task, mon):
    name, k, n = task
    if k == 'years':
        for y in range(n[0], n[1], 6):
            chunk(mon, name, y, min(6, n[1] - y))
        return
    rng = rng_for(P, *task)
    mon.equal('zone', str(tc.get_calendar(name).tz), 'UTC', name)
    if k == 0:
        cal = tc.get_calendar(name)
        days = label_days(cal.all_sessions)
        mon.check('default window', days == [o for o in range(days[0], days[-1] + 1) if weekday(o) in DAYS[name]],
                  'a day is missing from the default calendar', case=name)
    for _ in range(n):
        a = rng.randint(ordinal(1700, 1, 1), ordinal(2255, 1, 1)) if rng.random() < 0.5 else \
            rng.randint(ordinal(1970, 1, 1), ordinal(2060, 1, 1))
        b = a + rng.choice((0, 1, 2, 6, 7, 31, 366, 1200))
        e = end_stamp(rng, b)
        mon.case = '%s %s..%s' % (name, iso(a), e)
        one(mon, rng, name, a, b, e)
    mon.sample(mon.case)


def main():
    n = 14 if QUICK else 120
    tasks = [[name, k, n] for name in sorted(DAYS) for k in range(8)]
    # all years 1700-2255, in pieces
    tasks += [[name, 'years', [y, min(y + 30, 2256)]] for name in sorted(DAYS) for y in range(1700, 2256, 30)]
    runner.main(
        P, run, tasks,
        rule='a case is a window of the 24/7 or the 24/5 calendar, all of whose sessions and minutes are decided, or an '
             'instant asked about; distinct = distinct (calendar, window[, instant])',
        minimum={'sessions': 200, 'minutes': 200, 'is open': 4000, 'next minute': 2000, 'default window': 2, 'every year': 700})


if __name__ == '__main__':
    main()

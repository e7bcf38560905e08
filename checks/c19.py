"""C19: the US futures calendar contains every US futures exchange's trading."""
from mon import cases, model, repo, runner
from mon.cases import build, stamp
from mon.model import EPOCH_ORD, easter, iso, local_minute, ordinal
from mon.observe import Failed, Malformed, call, table
from mon.qmodel import MIN, QModel
from mon.repo import label, np, pd
from mon.runner import rng_for

P = 'C19'
QUICK = runner.tier() == 'quick'
MEMBERS = ['CMES', 'XCBF', 'IEPA']


def weekday(d):
    return (d - 1) % 7


def christmas_observed(y):
    d = ordinal(y, 12, 25)
    return d - 1 if weekday(d) == 5 else d + 1 if weekday(d) == 6 else d


def new_year_observed(y):
    d = ordinal(y, 1, 1)
    return d + 1 if weekday(d) == 6 else d


def closures(y):
    """The declared closures of the combined calendar in a year."""
    return {new_year_observed(y), easter(y) - 2, christmas_observed(y)}


def good_friday_traded(d):
    """A Good Friday of a year whose Christmas or New Year's Day is observed on a
    Friday: XCBF trades then, the combined calendar does not (listed finding)."""
    y = model.datetime.date.fromordinal(d).year
    return d == easter(y) - 2 and 4 in (weekday(christmas_observed(y)), weekday(new_year_observed(y)))


def rows_of(mon, name, a, b):
    cal = build(repo.cls(name), a, b)
    if isinstance(cal, Failed):
        return cal, None
    try:
        return cal, table(cal)
    except Malformed:
        return Failed(ValueError('malformed table')), None


def own_hours(mon, rows, a, b):
    want = [d for d in range(a, b + 1) if weekday(d) < 5 and d not in closures(model.datetime.date.fromordinal(d).year)]
    got = [r.day for r in rows]
    mon.check('own sessions', got == want, lambda: 'sessions of us_futures over %s..%s: extra %s, missing %s' % (
        iso(a), iso(b), [iso(d) for d in sorted(set(got) - set(want))[:5]], [iso(d) for d in sorted(set(want) - set(got))[:5]]),
        case=(a, b))
    for r in rows:
        o = local_minute('America/New_York', r.day - 1, 18 * 60 + 1)
        c = local_minute('America/New_York', r.day, 18 * 60)
        if (r.open, r.close, r.bs, r.be) != (o, c, None, None):
            mon.violate('own hours', 'us_futures %s: %r, expected 18:01 on the previous day to 18:00' % (iso(r.day), r))
        else:
            mon.seen('own hours', case=r.day)


def included(mon, name, rows, frows):
    by = {r.day: r for r in frows}
    bounds = sorted((r.open, r.close) for r in frows)
    import bisect
    opens = [o for o, _ in bounds]
    for r in rows:
        if r.day not in by:
            if name == 'XCBF' and good_friday_traded(r.day):
                mon.known_finding('xcbf-good-friday')
                mon.seen('session included')
                continue
            mon.violate('session included', 'session %s of %s is not a session of us_futures' % (iso(r.day), name))
            continue
        mon.seen('session included', case=(name, r.day))
        # every minute of the session lies in some session of the combined calendar:
        # walk the intervals from its open to its close
        t, ok = r.open, True
        while t <= r.close:
            i = bisect.bisect_right(opens, t) - 1
            if i < 0 or bounds[i][1] < t:
                ok = False
                break
            t = bounds[i][1] + 1
        mon.check('minutes included', ok, lambda: 'minute %s of session %s of %s is not a trading minute of us_futures' % (
            stamp(t * MIN), iso(r.day), name), case=(name, r.day))


def run(task, mon):
    rng = rng_for(P, *task)
    if task[0] == 'years':
        a, b = ordinal(task[1], 1, 1), ordinal(task[2], 12, 31)
        wins = [(a, b)]
    else:
        wins = [cases.random_window(rng, 2000, 2050, (3, 8, 30, 200)) for _ in range(task[2])]
    for a, b in wins:
        mon.case = 'us_futures over %s..%s' % (iso(a), iso(b))
        fcal, frows = rows_of(mon, 'us_futures', a, b)
        if frows is None:
            if any(weekday(d) < 5 and d not in closures(model.datetime.date.fromordinal(d).year) for d in range(a, b + 1)):
                mon.violate('own sessions', '%s: %r' % (mon.case, fcal))
            continue
        own_hours(mon, frows, a, b)
        for name in MEMBERS:
            cal, rows = rows_of(mon, name, a, b)
            if rows is None:
                mon.note('member not constructed')
                continue
            included(mon, name, rows, frows)
            if task[0] == 'windows' and b - a <= 40:
                # through the public minute queries
                mins = call(lambda: cal.all_minutes)
                fmins = call(lambda: fcal.all_minutes)
                if isinstance(mins, Failed) or isinstance(fmins, Failed):
                    mon.violate('minute lists', '%r %r' % (mins, fmins))
                    continue
                days = {r.day for r in rows if not good_friday_traded(r.day)}
                q = QModel([r for r in rows if r.day in days])
                miss = set(q.minutes) - set(int(x) for x in fmins.asi8)
                # minutes of the first member session may start before the combined window does
                mon.check('minute lists', not miss, lambda: '%d minutes of %s are not in all_minutes of us_futures, e.g. %s' % (
                    len(miss), name, stamp(min(miss))), case=(name, a, b))
                for i in sorted(set(rng.randrange(len(rows)) for _ in range(6))):
                    if rows[i].day not in days:
                        continue
                    for t in (rows[i].open, rows[i].close, rng.randint(rows[i].open, rows[i].close)):
                        got = call(fcal.is_open_on_minute, stamp(t * MIN))
                        mon.check('open test', not isinstance(got, Failed) and bool(got),
                                  lambda: 'us_futures.is_open_on_minute(%s) = %r in session %s of %s' % (
                                      stamp(t * MIN), got, iso(rows[i].day), name), case=(name, t))
    mon.sample(mon.case)


def main():
    tasks = [['years', y, min(2050, y + 5)] for y in range(2000, 2051, 6)]
    tasks += [['windows', k, 6] for k in range(16 if QUICK else 200)]
    runner.main(
        P, run, tasks, exhaustive=False,
        rule='a case is one session of CMES, XCBF or IEPA in 2000-2050 (all of them, plus random windows): it must be a '
             'session of us_futures and all its minutes inside us_futures sessions; and one us_futures session, whose '
             'hours and date are computed independently; distinct = distinct (exchange, session)',
        minimum={'session included': 30000, 'minutes included': 30000, 'own hours': 12000, 'own sessions': 50,
                 'minute lists': 20, 'open test': 300})


if __name__ == '__main__':
    main()

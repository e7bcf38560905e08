"""C06: trading minutes are exactly the minutes inside sessions."""
from mon import cases, repo, runner
from mon.cases import build, cases_of, instants, pick_sessions, stamp, whole
from mon.observe import Failed, call, is_utc, ns_list
from mon.qmodel import MIN, DAYNS
from mon.model import iso, ordinal, weekday
from mon.repo import np, pd
from mon.runner import rng_for

P = 'C06'
QUICK = runner.tier() == 'quick'


def minute_list(mon, cal, q):
    got = call(lambda: cal.all_minutes)
    if isinstance(got, Failed):
        mon.violate('minute in the list', 'all_minutes failed: %r' % got)
        return
    want = np.array(q.minutes, dtype=np.int64)
    have = np.asarray(got.asi8, dtype=np.int64)
    if is_utc(got) and len(have) == len(want) and bool((have == want).all()):
        mon.seen('minute in the list', n=len(want))
        mon.seen('minute list', case=(mon.case[:80], len(want), int(want[0]), int(want[-1])))
        return
    h, w = set(have.tolist()), set(want.tolist())
    extra, missing = sorted(h - w)[:3], sorted(w - h)[:3]
    mon.violate('minute in the list', 'all_minutes has %d minutes, expected %d; extra %s missing %s ordered %s utc %s' % (
        len(have), len(want), [str(pd.Timestamp(x)) for x in extra], [str(pd.Timestamp(x)) for x in missing],
        bool((have[1:] > have[:-1]).all()), is_utc(got)))


def open_tests(mon, rng, cal, q, n):
    for t in whole(instants(rng, q, n, fine=False)):
        for ib in (False, True):
            want = q.is_open(t, ib)
            args = [stamp(t)]
            if rng.random() < 0.3:
                args = [int(t)]
            if ib:
                got = call(cal.is_open_on_minute, args[0], ignore_breaks=True)
            elif rng.random() < 0.3:
                got = call(cal.is_open_on_minute, args[0], ignore_breaks=False)
            else:
                got = call(cal.is_open_on_minute, args[0])
            ok = not isinstance(got, Failed) and bool(got) == want and isinstance(got, (bool, np.bool_))
            mon.check('open test', ok, lambda: 'is_open_on_minute(%s, ignore_breaks=%s) = %r, expected %s' % (
                pd.Timestamp(t), ib, got, want), case=(mon.case[:80], t, ib))


def every_boundary(mon, cal, q):
    """Open test on both sides of every boundary of every session."""
    for i in range(len(q.rows)):
        for b in (q.opens[i], q.bs[i], q.be[i], q.closes[i]):
            if b is None:
                continue
            for t in (b - MIN, b, b + MIN):
                want = q.is_open(t)
                got = call(cal.is_open_on_minute, stamp(t))
                if isinstance(got, Failed) or bool(got) != want:
                    mon.violate('open test at a boundary', 'is_open_on_minute(%s) = %r, expected %s' % (
                        pd.Timestamp(t), got, want))
                else:
                    mon.seen('open test at a boundary')


def counts(mon, rng, cal, q, n):
    N = len(q.rows)
    pairs = [(i, i) for i in pick_sessions(rng, q, n)]
    pairs += [tuple(sorted((rng.randrange(N), rng.randrange(N)))) for _ in range(n)] + [(0, N - 1)]
    for i, j in pairs:
        a, b = stamp(q.labels[i]), stamp(q.labels[j])
        want = sum(q.counts[i:j + 1])
        got = call(cal.minutes_count_for_sessions_in_range, a, b)
        mon.check('minute count', not isinstance(got, Failed) and got == want,
                  lambda: 'minutes_count_for_sessions_in_range(%s, %s) = %r, expected %d' % (a, b, got, want),
                  case=(mon.case[:80], i, j))


def session_minutes(mon, rng, cal, q, n):
    N = len(q.rows)
    for i in pick_sessions(rng, q, n):
        L = stamp(q.labels[i])
        got = call(cal.minutes_for_session, L)
        want = q.session_minutes(i)
        ok = not isinstance(got, Failed) and is_utc(got) and ns_list(got) == want
        mon.check('minutes of a session', ok, lambda: 'minutes_for_session(%s): %s, expected %d minutes from %s to %s' % (
            L.date(), got if isinstance(got, Failed) else '%d minutes' % len(got), len(want),
            pd.Timestamp(want[0]), pd.Timestamp(want[-1])), case=(mon.case[:80], i))
    for _ in range(4):
        i = rng.randrange(N)
        j = min(N - 1, i + rng.choice((0, 1, 3, 15)))
        if rng.random() < 0.3:
            i, j = max(0, N - 3), N - 1
        a, b = stamp(q.labels[i]), stamp(q.labels[j])
        want = []
        for k in range(i, j + 1):
            want += q.session_minutes(k)
        got = call(cal.minutes_for_sessions_in_range, a, b)
        ok = not isinstance(got, Failed) and is_utc(got) and ns_list(got) == want
        mon.check('minutes of sessions', ok, lambda: 'minutes_for_sessions_in_range(%s, %s): %s, expected %d minutes' % (
            a.date(), b.date(), got if isinstance(got, Failed) else '%d minutes' % len(got), len(want)),
            case=(mon.case[:80], i, j))


def running_counts(mon, rng, cal, q):
    """The count from one session to every other."""
    N = len(q.labels)
    z = rng.randrange(N)
    Z, total, bad = stamp(q.labels[z]), 0, []
    for i in range(z, N):
        total += q.counts[i]
        got = call(cal.minutes_count_for_sessions_in_range, Z, stamp(q.labels[i]))
        if isinstance(got, Failed) or got != total:
            bad.append((stamp(q.labels[i]).date(), got, total))
    mon.check('running count', not bad, lambda: 'minutes counted from %s: %d wrong, e.g. %s' % (Z.date(), len(bad), bad[:2]), n=N - z)


def huge(mon, rng):
    """More minutes than single precision can count, by arithmetic on dates."""
    for name, per in (('24/7', 7), ('24/5', 5)):
        a = ordinal(1990, 1, 1) - rng.randint(0, 3000)
        b = a + rng.randint(13000, 16000)
        mon.case = '%s %s..%s' % (name, iso(a), iso(b))
        cal = build(repo.cls(name), a, b)
        if isinstance(cal, Failed):
            mon.violate('count over decades', 'cannot be constructed: %r' % (cal,))
            continue
        days = [o for o in range(a, b + 1) if weekday(o) < per]
        mon.equal('count over decades', call(lambda: len(cal.all_minutes)), 1440 * len(days), lambda: 'length of the minute list')
        for k in range(12):
            i, j = sorted((rng.randrange(len(days)), rng.randrange(len(days)))) if k else (0, len(days) - 1)
            A, B = repo.label(days[i]), repo.label(days[j])
            mon.equal('count over decades', call(cal.minutes_count_for_sessions_in_range, A, B), 1440 * (j - i + 1),
                      lambda: 'minutes counted from %s to %s' % (A.date(), B.date()), case=(name, a, b, i, j))
            if k < 4:
                got = call(cal.minutes_for_sessions_in_range, A, B)
                ok = not isinstance(got, Failed) and len(got) == 1440 * (j - i + 1) and got[0] == A and \
                    got[-1] == B + pd.Timedelta(hours=23, minutes=59)
                mon.check('count over decades', ok, lambda: 'minutes from %s to %s: %s' % (A.date(), B.date(), got if isinstance(got, Failed) else len(got)))


def run(task, mon):
    if task[0] == 'huge':
        huge(mon, rng_for(P, *task))
        return
    for rng, c in cases_of(task, mon, P):
        # some calendars answer before their minute list was ever asked for
        steps = [lambda: minute_list(mon, c.cal, c.q),
                 lambda: open_tests(mon, rng, c.cal, c.q, 12),
                 lambda: counts(mon, rng, c.cal, c.q, 10),
                 lambda: session_minutes(mon, rng, c.cal, c.q, 8)]
        rng.shuffle(steps)
        for s in steps:
            s()
        if 250 < len(c.rows) < 9000 and rng.random() < 0.5:
            running_counts(mon, rng, c.cal, c.q)
        if any(r.bs is not None for r in c.rows) or len(c.rows) < 60:
            every_boundary(mon, c.cal, c.q)
        mon.note('calendars')
        if any(r.bs is not None for r in c.rows):
            mon.note('calendars with breaks')
    mon.sample(mon.case)


def main():
    tasks = [['huge', k] for k in range(1 if QUICK else 6)]
    tasks += [['builtin', 'XHKG', 8 if QUICK else 40]]
    tasks += cases.query_tasks(repo.ALL, 3 if QUICK else 14, 100 if QUICK else 1400, 8)
    runner.main(
        P, run, tasks,
        rule='a case is one constructed calendar: its whole minute list is compared with the list derived from its '
             'table, the open test is run on boundaries +-1 minute, gaps, breaks and beyond the ends, and counts and '
             'minutes of sessions and ranges are compared with the list; distinct = distinct (calendar, instant or '
             'session or range)',
        minimum={'minute in the list': 1000000, 'open test': 10000, 'minute count': 2000,
                 'minutes of a session': 1000, 'open test at a boundary': 5000, 'count over decades': 20})


if __name__ == '__main__':
    main()

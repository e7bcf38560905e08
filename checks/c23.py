"""C23: the calendar's business-day offset steps through its sessions."""
from mon import cases, repo, runner
from mon.cases import cases_of, pick_sessions, stamp
from mon.observe import Failed, call, expect, is_utc, ns_list
from mon.qmodel import DAYNS
from mon.repo import pd

P = 'C23'
QUICK = runner.tier() == 'quick'


def run(task, mon):
    for rng, c in cases_of(task, mon, P):
        cal, q = c.cal, c.q
        day = call(lambda: cal.day)
        if isinstance(day, Failed):
            mon.violate('offset', 'day failed: %r' % day)
            continue
        lo, hi = q.labels[0], q.labels[-1]
        span = (hi - lo) // DAYNS
        dates = range(span + 1) if span <= 150 else sorted(set(
            [rng.randint(0, span) for _ in range(60)] +
            [(q.labels[i] - lo) // DAYNS + d for i in pick_sessions(rng, q, 12) for d in (-1, 0, 1)]))
        for k in dates:
            t = lo + k * DAYNS
            if not lo <= t <= hi:
                continue
            got = call(day.is_on_offset, stamp(t))
            want = (t // DAYNS + 719163) in q.pos
            mon.check('own date', not isinstance(got, Failed) and bool(got) == want,
                      lambda: 'is_on_offset(%s) = %r, expected %s' % (stamp(t).date(), got, want), case=(mon.case[:80], t))
        if span <= 150:
            dates = [rng.randint(0, span) for _ in range(40)] + [0, span]
        N = len(q.labels)
        for k in dates:
            t = lo + k * DAYNS
            if not lo <= t <= hi:
                continue
            for n in {1, -1, rng.choice((2, -2, 3, -3, 5, -5, 20, -20)), rng.randint(-N, N)}:
                if n == 0:
                    continue
                want = q.nth_session_from(t, n)
                if want is None:
                    continue
                form = rng.randrange(6)
                T = stamp(t)
                if form == 0:
                    got = call(lambda: T - (-n) * day)
                elif form == 1:
                    got = call(lambda: (n * day) + T)
                elif form == 2:
                    got = call(lambda: (pd.DatetimeIndex([T, T]) + n * day)[1])
                elif form == 3:
                    got = call(lambda: (pd.Timestamp(t) + n * day).tz_localize('UTC'))
                else:
                    got = call(lambda: T + n * day)
                expect(mon, 'step', got, want, lambda: '%s + %d days (form %d)' % (T.date(), n, form),
                       case=(mon.case[:80], t, n))
        for _ in range(8):
            a = lo + rng.randint(0, span) * DAYNS
            b = lo + rng.randint(0, span) * DAYNS
            if rng.random() < 0.2:
                a = lo
            if rng.random() < 0.2:
                b = hi
            a, b = min(a, b), max(a, b)
            got = call(pd.date_range, stamp(a), stamp(b), freq=day)
            expect(mon, 'date range', got, q.sessions_in_range(a, b),
                   lambda: 'date_range(%s, %s)' % (stamp(a).date(), stamp(b).date()), case=(mon.case[:80], a, b))
            i = rng.randrange(N)
            m = rng.randint(1, min(30, N - i))
            got = call(pd.date_range, stamp(q.labels[i]), periods=m, freq=day)
            expect(mon, 'date range', got, q.labels[i:i + m],
                   lambda: 'date_range(%s, periods=%d)' % (stamp(q.labels[i]).date(), m))
    mon.sample(mon.case)


def main():
    tasks = cases.query_tasks(repo.ALL, 3 if QUICK else 20, 120 if QUICK else 1600, 8)
    runner.main(
        P, run, tasks,
        rule='a case is (calendar, date, number of steps), (calendar, date) for membership, or (calendar, range): session '
             'and non-session dates in the window, steps of both signs whose target is in the window; decided by '
             'positions in the session list; distinct as counted',
        minimum={'own date': 8000, 'step': 15000, 'date range': 3000})


if __name__ == '__main__':
    main()

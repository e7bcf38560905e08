"""C10: minute ranges, windows and execution minutes are exact slices."""
from mon import cases, repo, runner
from mon.cases import cases_of, instants, pick_sessions, stamp
from mon.observe import Failed, call, expect, is_utc, ns_list
from mon.qmodel import DAYNS, MIN, Nope
from mon.repo import pd

P = 'C10'
QUICK = runner.tier() == 'quick'

# Execution offsets (minutes after the open, after the close) of the built-ins that have them.
EXECUTION = {'us_futures': (750, -60)}


def ranges(mon, rng, cal, q, n):
    ts = instants(rng, q, 8)
    wide = 0.5 if len(q.minutes) < 200000 else 0.1
    for _ in range(n):
        a, b = rng.choice(ts), rng.choice(ts)
        if rng.random() < 0.85:
            a, b = min(a, b), max(a, b)
        if rng.random() >= wide:
            # a short range, so that wrong ends stand out
            b = a + rng.choice((0, 1, MIN, 5 * MIN, 300 * MIN, 2 * DAYNS))
        got = call(cal.minutes_in_range, stamp(a), stamp(b))
        expect(mon, 'minutes in range', got, q.minutes_in_range(a, b),
               lambda: 'minutes_in_range(%s, %s)' % (stamp(a), stamp(b)), case=(mon.case[:80], a, b))


def windows(mon, rng, cal, q, n):
    ts = instants(rng, q, 8)
    m = q.minutes
    M = len(m)
    ts += [m[0], m[-1], m[min(3, M - 1)], m[max(0, M - 4)]] * 3
    for _ in range(n):
        t = rng.choice(ts)
        k = rng.choice((0, 1, -1, 2, -2, 5, -5, 60, -60, 400, -400, 1500, -1500, M, -M, M + 7, -M - 7))
        if abs(k) >= M and M > 50000:
            k = rng.choice((3000, -3000))
        want = q.minutes_window(t, k)
        got = call(cal.minutes_window, stamp(t), k)
        expect(mon, 'minute window' if not isinstance(want, Nope) else 'window refused', got, want,
               lambda: 'minutes_window(%s, %d)' % (stamp(t), k), case=(mon.case[:80], t, k))


def execution(mon, rng, cal, q, n, name):
    N = len(q.rows)

    def bounds(i):
        if name in EXECUTION or name in repo.ALL:
            x, y = EXECUTION.get(name, (0, 0))
            return q.opens[i] + x * MIN, q.closes[i] + y * MIN
        o = cal.execution_time_from_open(stamp(q.opens[i]))
        c = cal.execution_time_from_close(stamp(q.closes[i]))
        return o.value, c.value
    for i in pick_sessions(rng, q, n):
        a, b = bounds(i)
        L = stamp(q.labels[i])
        got = call(cal.execution_minutes_for_session, L)
        expect(mon, 'execution minutes of a session', got, q.minutes_in_range(a, b),
               lambda: 'execution_minutes_for_session(%s)' % L.date(), case=(mon.case[:80], i))
        for nm, t, w in (('execution_time_from_open', q.opens[i], a), ('execution_time_from_close', q.closes[i], b)):
            expect(mon, 'execution times', call(getattr(cal, nm), stamp(t)), w, lambda: '%s(%s)' % (nm, stamp(t)))
    for _ in range(4):
        i = rng.choice((0, rng.randrange(N), max(0, N - 3)))
        j = min(N - 1, i + rng.choice((0, 1, 4)))
        want = []
        for k in range(i, j + 1):
            a, b = bounds(k)
            want += q.minutes_in_range(a, b)
        A, B = stamp(q.labels[i]), stamp(q.labels[j])
        if rng.random() < 0.3:
            # an end that is not a session
            B2 = B.value + DAYNS
            if j + 1 >= N or B2 < q.labels[j + 1]:
                B = stamp(B2)
        got = call(cal.execution_minutes_for_sessions_in_range, A, B)
        expect(mon, 'execution minutes of sessions', got, want,
               lambda: 'execution_minutes_for_sessions_in_range(%s, %s)' % (A.date(), B.date()),
               case=(mon.case[:80], i, j))


def all_execution(mon, rng, cal, q, name):
    """The execution minutes of all sessions at once."""
    N = len(q.rows)
    if N > 200:
        return
    x, y = EXECUTION.get(name, (0, 0))
    want = []
    for i in range(N):
        a, b = q.opens[i] + x * MIN, q.closes[i] + y * MIN
        if name is None:
            a = cal.execution_time_from_open(stamp(q.opens[i])).value
            b = cal.execution_time_from_close(stamp(q.closes[i])).value
        want += q.minutes_in_range(a, b)
    got = call(cal.execution_minutes_for_sessions_in_range, stamp(q.labels[0]), stamp(q.labels[-1]))
    expect(mon, 'execution minutes of all sessions', got, want, 'execution minutes of all sessions', case=mon.case[:80])


def run(task, mon):
    for rng, c in cases_of(task, mon, P, lengths=(1, 8, 30, 120) if task[0] == 'builtin' else None, long=0.05):
        ranges(mon, rng, c.cal, c.q, 40)
        windows(mon, rng, c.cal, c.q, 40)
        name = task[1] if task[0] == 'builtin' else None
        execution(mon, rng, c.cal, c.q, 6, name)
        if rng.random() < 0.25:
            all_execution(mon, rng, c.cal, c.q, name)
    mon.sample(mon.case)


def main():
    tasks = [['builtin', 'XHKG', 6 if QUICK else 40]]
    tasks += cases.query_tasks(repo.ALL, 3 if QUICK else 24, 80 if QUICK else 1600, 8)
    runner.main(
        P, run, tasks,
        rule='a case is (calendar, instants, count) for ranges and windows of minutes, or (calendar, sessions) for '
             'execution minutes; instants on boundaries +-1 ns/s/min, in gaps, breaks and beyond both ends, counts of '
             'both signs up to beyond both ends; decided by slicing the minute list; distinct as counted',
        minimum={'minutes in range': 5000, 'minute window': 4000, 'window refused': 50,
                 'execution minutes of a session': 1000, 'execution minutes of sessions': 500, 'execution minutes of all sessions': 10})


if __name__ == '__main__':
    main()

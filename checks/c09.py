"""C09: session arithmetic agrees with the ordered list of sessions."""
from mon import cases, repo, runner
from mon.cases import cases_of, pick_sessions, stamp
from mon.observe import Failed, call, expect, is_utc, ns_list
from mon.qmodel import DAYNS, Nope
from mon.repo import pd

P = 'C09'
QUICK = runner.tier() == 'quick'


def neighbours(mon, rng, cal, q):
    N = len(q.labels)
    pos = range(N) if N <= 80 else sorted(set(pick_sessions(rng, q, 30)) | {0, 1, N - 2, N - 1})
    for i in pos:
        L = stamp(q.labels[i])
        want = q.labels[i + 1] if i + 1 < N else Nope('ValueError')
        expect(mon, 'next session' if i + 1 < N else 'refused at the end', call(cal.next_session_label, L), want,
               lambda: 'next_session_label(%s)' % L.date(), case=(mon.case[:80], 'n', i))
        want = q.labels[i - 1] if i else Nope('ValueError')
        expect(mon, 'previous session' if i else 'refused at the end', call(cal.previous_session_label, L), want,
               lambda: 'previous_session_label(%s)' % L.date(), case=(mon.case[:80], 'p', i))


def windows(mon, rng, cal, q, n):
    N = len(q.labels)
    for _ in range(n):
        i = rng.choice((0, N - 1, rng.randrange(N), rng.randrange(N)))
        k = rng.choice((0, 1, -1, 2, -2, N - 1 - i, -i, N - i, -i - 1, -i - 2, N, -N, 3 * N + 5, -3 * N - 5,
                        rng.randint(-N, N), rng.randint(-5, 5)))
        got = call(cal.sessions_window, stamp(q.labels[i]), k)
        expect(mon, 'session window', got, q.sessions_window(i, k),
               lambda: 'sessions_window(%s, %d), position %d of %d' % (stamp(q.labels[i]).date(), k, i, N),
               case=(mon.case[:80], i, k))


def random_date(rng, q):
    lo, hi = q.labels[0], q.labels[-1]
    r = rng.random()
    if r < 0.35:
        return rng.choice(q.labels)
    if r < 0.5:
        return lo - DAYNS * rng.choice((1, 2, 5, 400))
    if r < 0.65:
        return hi + DAYNS * rng.choice((1, 2, 5, 400))
    if r < 0.75:
        return rng.choice((lo, hi))
    return lo + DAYNS * rng.randint(0, (hi - lo) // DAYNS)


def ranges(mon, rng, cal, q, n):
    for _ in range(n):
        a, b = random_date(rng, q), random_date(rng, q)
        if rng.random() < 0.7:
            a, b = min(a, b), max(a, b)
        A, B = stamp(a), stamp(b)
        want = q.sessions_in_range(a, b)
        expect(mon, 'sessions in range', call(cal.sessions_in_range, A, B), want,
               lambda: 'sessions_in_range(%s, %s)' % (A.date(), B.date()), case=(mon.case[:80], a, b))
        got = call(cal.session_distance, A, B)
        w = q.session_distance(a, b)
        mon.check('session distance', not isinstance(got, Failed) and got == w,
                  lambda: 'session_distance(%s, %s) = %r, expected %d' % (A.date(), B.date(), got, w),
                  case=(mon.case[:80], a, b))
        lo, hi = q.sessions_between(a, b)
        for nm, xs in (('session_opens_in_range', q.opens), ('session_closes_in_range', q.closes)):
            got = call(getattr(cal, nm), A, B)
            w = xs[lo:hi] if lo < hi else []
            ok = not isinstance(got, Failed) and ns_list(got.index) == want and [int(x.value) for x in got] == w and \
                is_utc(got.dt)
            mon.check('opens and closes in range', ok, lambda: '%s(%s, %s): %s, expected %d' % (
                nm, A.date(), B.date(), got if isinstance(got, Failed) else '%d values' % len(got), len(w)),
                case=(mon.case[:80], nm, a, b))


def sweep(mon, rng, cal, q):
    """Every session of the window in turn, and every count from one session."""
    N = len(q.labels)
    z = rng.randrange(N)
    Z = stamp(q.labels[z])
    bad = []
    for i in range(N):
        L = stamp(q.labels[i])
        d = i - z
        w = d + (1 if d >= 0 else -1)
        got = call(cal.session_distance, Z, L)
        ok = not isinstance(got, Failed) and got == w
        # the window from z to this session
        win = call(cal.sessions_window, Z, d)
        lo, hi = min(i, z), max(i, z)
        ok = ok and not isinstance(win, Failed) and len(win) == hi - lo + 1 and win[0].value == q.labels[lo] and \
            win[-1].value == q.labels[hi]
        n, p = call(cal.next_session_label, L), call(cal.previous_session_label, L)
        ok = ok and (isinstance(n, Failed) if i + 1 == N else not isinstance(n, Failed) and n.value == q.labels[i + 1])
        ok = ok and (isinstance(p, Failed) if i == 0 else not isinstance(p, Failed) and p.value == q.labels[i - 1])
        if not ok:
            bad.append((str(L.date()), got, w, n, p))
    mon.check('every session in turn', not bad, lambda: 'from %s: %d sessions, e.g. %s' % (Z.date(), len(bad), bad[:2]), n=N)


def run(task, mon):
    for rng, c in cases_of(task, mon, P):
        if 250 < len(c.q.labels) < 9000:
            sweep(mon, rng, c.cal, c.q)
        neighbours(mon, rng, c.cal, c.q)
        windows(mon, rng, c.cal, c.q, 40)
        ranges(mon, rng, c.cal, c.q, 30)
    mon.sample(mon.case)


def main():
    tasks = cases.query_tasks(repo.ALL, 3 if QUICK else 24, 96 if QUICK else 1600, 8)
    runner.main(
        P, run, tasks,
        rule='a case is (calendar, operation, dates, count): sessions, non-session dates, dates outside the window and '
             'reversed ranges, counts of both signs up to beyond both ends; decided by list slicing; distinct as counted',
        minimum={'next session': 3000, 'previous session': 3000, 'refused at the end': 300, 'session window': 4000,
                 'sessions in range': 4000, 'session distance': 4000, 'opens and closes in range': 6000, 'every session in turn': 5000})


if __name__ == '__main__':
    main()

"""C08: every minute maps to the right session in every direction mode."""
import bisect

from mon import cases, repo, runner
from mon.cases import cases_of, instants, stamp
from mon.observe import Failed, call, expect, is_utc, ns_list
from mon.qmodel import DAYNS, MIN, Nope
from mon.repo import pd, np

P = 'C08'
QUICK = runner.tier() == 'quick'


def ask(cal, rng, t, direction):
    arg = stamp(t)
    r = rng.random()
    if r < 0.15:
        arg = int(t)
    elif r < 0.2:
        arg = np.int64(t)
    if direction == 'next' and rng.random() < 0.5:
        return call(cal.minute_to_session_label, arg)
    if rng.random() < 0.5:
        return call(cal.minute_to_session_label, arg, direction)
    return call(cal.minute_to_session_label, arg, direction=direction)


def single(mon, rng, cal, q, n):
    ts = instants(rng, q, n)
    rng.shuffle(ts)
    for t in ts:
        for d in ('next', 'previous', 'none'):
            if d == 'none' and t % MIN:
                continue
            want = q.session_label(t, d)
            got = ask(cal, rng, t, d)
            kind = 'mode ' + d if not isinstance(want, Nope) else 'refused ' + d
            expect(mon, kind, got, want, lambda: 'minute_to_session_label(%s, %r)' % (stamp(t), d),
                   case=(mon.case[:80], d, t))
    for t in rng.sample(ts, 3):
        for bad in ('NEXT', '', 'prev', None, 'forward'):
            got = call(cal.minute_to_session_label, stamp(t), direction=bad)
            expect(mon, 'unknown mode', got, Nope('ValueError'), lambda: 'direction=%r' % bad)


def history(mon, rng, cal, q, n):
    """Few instants, repeated and interleaved in every mode."""
    ts = rng.sample(instants(rng, q, 3), 6)
    # instants one apart, in different sessions, so that a wrong cache key shows
    i = rng.randrange(len(q.rows))
    ts += [q.closes[i], q.closes[i] + MIN, q.closes[i] + 1, q.opens[i], q.opens[i] - MIN]
    last = None
    for _ in range(n):
        t = last if last is not None and rng.random() < 0.4 else rng.choice(ts)
        last = t
        d = rng.choice(('next', 'next', 'next', 'previous', 'none'))
        if d == 'none' and t % MIN:
            d = 'next'
        want = q.session_label(t, d)
        got = ask(cal, rng, t, d)
        expect(mon, 'in a history', got, want, lambda: 'after a history of queries, minute_to_session_label(%s, %r)' % (
            stamp(t), d))


def vector(mon, rng, cal, q, n):
    N = len(q.rows)
    for k in range(n):
        size = rng.choice((0, 1, 2, 5, 40, 200)) if rng.random() < 0.97 else rng.randint(3000, 9000)
        vals, want = [], []
        for _ in range(size):
            i = rng.choice((0, N - 1, rng.randrange(N), rng.randrange(N)))
            o, c = q.opens[i], q.closes[i]
            r = rng.random()
            t = o if r < 0.2 else c if r < 0.4 else o + MIN * rng.randint(0, (c - o) // MIN)
            if q.bs[i] is not None and rng.random() < 0.3:
                t = rng.choice((q.bs[i], q.be[i], q.bs[i] + MIN))
            vals.append((t, q.labels[i]))
        vals.sort()
        if size > 1 and rng.random() < 0.4:
            # end with the first minute of a session
            i = bisect.bisect_left([l for _, l in vals], vals[-1][1])
            vals[i:] = [(q.opens[q.labels.index(vals[-1][1])], vals[-1][1])]
        ix = pd.DatetimeIndex([v for v, _ in vals], tz='UTC') if vals else pd.DatetimeIndex([], tz='UTC')
        want = [l for _, l in vals]
        arg = pd.Series(ix) if rng.random() < 0.15 and vals else ix
        got = call(cal.minute_index_to_session_labels, arg)
        ok = not isinstance(got, Failed) and is_utc(got) and ns_list(got) == want
        mon.check('index mapping', ok, lambda: 'minute_index_to_session_labels(%d minutes %s..): %s' % (
            len(ix), ix[:2], got if isinstance(got, Failed) else got[:4]), case=(mon.case[:80], k, size, tuple(want[:3])))
        # One bad minute somewhere.
        bad = rng.choice((
            q.opens[0] - MIN, q.opens[0] - DAYNS, q.closes[-1] + MIN, q.closes[-1] + 3 * DAYNS,
            q.closes[rng.randrange(N)] + MIN, q.opens[rng.randrange(N)] - MIN,
            q.closes[-1] + 1, q.opens[0] - 1))
        if q.session_at(bad) is None:
            xs = sorted([v for v, _ in vals] + [bad])
            got = call(cal.minute_index_to_session_labels, pd.DatetimeIndex(xs, tz='UTC'))
            expect(mon, 'index with a bad minute', got, Nope('ValueError'),
                   lambda: 'index of %d minutes holding the out-of-session %s' % (len(xs), pd.Timestamp(bad)),
                   case=(mon.case[:80], bad, len(xs)))
        xs = [v for v, _ in vals]
        if len(set(xs)) > 1:
            while xs == sorted(xs):
                rng.shuffle(xs)
            got = call(cal.minute_index_to_session_labels, pd.DatetimeIndex(xs, tz='UTC'))
            expect(mon, 'unordered index', got, Nope('ValueError'), lambda: 'unordered index of %d' % len(xs),
                   case=(mon.case[:80], len(xs), xs[0]))


def whole(mon, rng, cal, q):
    """All minutes of the calendar at once."""
    got = call(lambda: cal.minute_index_to_session_labels(cal.all_minutes))
    want = np.repeat(np.array(q.labels, dtype='int64'), q.counts)
    ok = not isinstance(got, Failed) and is_utc(got) and len(got) == len(want) and bool((got.asi8 == want).all())
    mon.check('index of all minutes', ok, lambda: 'minute_index_to_session_labels of all %d minutes: %s' % (
        len(want), got if isinstance(got, Failed) else '%d labels, %d differ' % (len(got), (got.asi8[:len(want)] != want[:len(got)]).sum())),
        case=mon.case[:80])


def run(task, mon):
    for rng, c in cases_of(task, mon, P):
        single(mon, rng, c.cal, c.q, 10)
        history(mon, rng, c.cal, c.q, 150)
        vector(mon, rng, c.cal, c.q, 12)
        whole(mon, rng, c.cal, c.q)
    mon.sample(mon.case)


def main():
    tasks = [['builtin', 'XHKG', 6 if QUICK else 40]]
    tasks += cases.query_tasks(repo.ALL, 3 if QUICK else 20, 96 if QUICK else 1600, 8)
    runner.main(
        P, run, tasks,
        rule='a case is (calendar, mode, instant) with instants on and around every kind of boundary, in breaks, gaps '
             'and beyond both ends, alone and inside histories of repeated queries, or (calendar, index) for index '
             'mapping; decided by interval search on the calendar\'s own table; distinct as counted',
        minimum={'mode next': 8000, 'mode previous': 8000, 'mode none': 2000, 'refused none': 2000,
                 'refused next': 300, 'refused previous': 300, 'in a history': 10000, 'index mapping': 1500,
                 'index with a bad minute': 1000, 'unordered index': 500, 'unknown mode': 500})


if __name__ == '__main__':
    main()

"""C07: next/previous open, close and minute are the nearest ones."""
from mon import cases, repo, runner
from mon.cases import cases_of, instants, stamp
from mon.observe import call, expect
from mon.qmodel import Nope
from mon.repo import pd

P = 'C07'
QUICK = runner.tier() == 'quick'
QUERIES = ('next_open', 'next_close', 'previous_open', 'previous_close', 'next_minute', 'previous_minute')


def run(task, mon):
    for rng, c in cases_of(task, mon, P):
        ts = instants(rng, c.q, 10 if QUICK else 16)
        rng.shuffle(ts)
        for t in ts:
            for nm in QUERIES:
                want = getattr(c.q, nm)(t)
                got = call(getattr(c.cal, nm), stamp(t))
                kind = nm if not isinstance(want, Nope) else 'none in that direction'
                expect(mon, kind, got, want, lambda: '%s(%s)' % (nm, stamp(t)), case=(mon.case[:80], nm, t))
        # every boundary of a run of consecutive sessions, chained through the API
        n = len(c.rows)
        i = rng.randrange(n)
        t = c.q.opens[i]
        for _ in range(min(n - i - 1, 6)):
            got = call(c.cal.next_close, stamp(t))
            expect(mon, 'next_close', got, c.q.next_close(t), lambda: 'next_close(%s)' % stamp(t))
            t2 = c.q.next_close(t)
            got = call(c.cal.next_open, stamp(t2))
            expect(mon, 'next_open', got, c.q.next_open(t2), lambda: 'next_open(%s)' % stamp(t2))
            t = c.q.next_open(t2)
    mon.sample('%s: e.g. next_open(%s)' % (mon.case, stamp(t)))


def main():
    tasks = [['builtin', 'XHKG', 6 if QUICK else 40]]
    tasks += cases.query_tasks(repo.ALL, 3 if QUICK else 24, 96 if QUICK else 1600, 8)
    runner.main(
        P, run, tasks,
        rule='a case is (calendar, query, instant), instants on boundaries +-1 ns/us/s/min, in gaps, breaks and '
             'beyond both ends; decided by binary search on the lists derived from the calendar\'s own table; distinct '
             'as counted',
        minimum=dict([(q, 8000) for q in QUERIES], **{'none in that direction': 2000}))


if __name__ == '__main__':
    main()

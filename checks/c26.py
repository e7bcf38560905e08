"""C26: a label that is not a session is refused, never answered."""
from mon import cases, repo, runner
from mon.cases import cases_of, pick_sessions, stamp
from mon.model import iso
from mon.observe import Failed, call, ns_list
from mon.qmodel import DAYNS, MIN
from mon.repo import label, pd

P = 'C26'
QUICK = runner.tier() == 'quick'

SINGLE = [
    'session_open', 'session_close', 'session_break_start', 'session_break_end', 'open_and_close_for_session',
    'break_start_and_end_for_session', 'minutes_for_session', 'execution_minutes_for_session', 'next_session_label',
    'previous_session_label',
]


def refused(mon, got, what, case):
    mon.check('refused', isinstance(got, Failed) and 'KeyError' in got.types,
              lambda: '%s: observed %r, expected KeyError' % (what, got), case=case)


def one(mon, rng, cal, q, defn):
    rows = q.rows
    days = set(r.day for r in rows)
    first, last = rows[0].day, rows[-1].day
    closed = [o for o in range(first, last + 1) if o not in days]
    probe = []
    if closed:
        probe += [label(o) for o in rng.sample(closed, min(5, len(closed)))]
    probe += [label(first - 1), label(last + 1), label(first - rng.randint(2, 4000)), label(last + rng.randint(2, 4000))]
    # instants that are no labels: an open, a minute beside a label, noon
    i = rng.randrange(len(rows))
    for t in (q.opens[i], q.labels[i] + MIN, q.labels[i] - MIN, q.labels[i] + 1, q.labels[i] + 12 * 60 * MIN):
        if t % DAYNS:
            probe.append(stamp(t))
    good = label(rows[i].day)
    for x in probe:
        for nm in SINGLE:
            refused(mon, call(getattr(cal, nm), x), '%s(%s)' % (nm, x), (mon.case, nm, x.value))
        n = rng.choice((0, 1, -1, 5, -5))
        refused(mon, call(cal.sessions_window, x, n), 'sessions_window(%s, %d)' % (x, n), (mon.case, 'window', x.value, n))
        refused(mon, call(cal.minutes_for_sessions_in_range, x, good), 'minutes_for_sessions_in_range(%s, %s)' % (x, good),
                (mon.case, 'from', x.value))
        refused(mon, call(cal.minutes_for_sessions_in_range, good, x), 'minutes_for_sessions_in_range(%s, %s)' % (good, x),
                (mon.case, 'to', x.value))
    # and no session is refused
    for i in pick_sessions(rng, q, 4):
        s = label(rows[i].day)
        for nm in SINGLE:
            if (nm, i) in (('next_session_label', len(rows) - 1), ('previous_session_label', 0)):
                continue
            got = call(getattr(cal, nm), s)
            mon.check('answered', not isinstance(got, Failed), lambda: '%s(%s): %r' % (nm, s, got),
                      case=(mon.case, nm, i))
        mon.check('is_session', bool(cal.is_session(s)), lambda: 'is_session(%s) is false' % s)
    for x in probe:
        mon.check('is_session', not cal.is_session(x), lambda: 'is_session(%s) is true' % x)


def run(task, mon):
    for rng, c in cases_of(task, mon, P, lengths=(3, 30, 120, 400)):
        one(mon, rng, c.cal, c.q, None)
    mon.sample(mon.case)


def main():
    tasks = cases.query_tasks(repo.ALL, 2 if QUICK else 10, 100 if QUICK else 1500, 10)
    runner.main(
        P, run, tasks,
        rule='a case is one query about one label: dates that are no sessions (closed, before and after the calendar), '
             'instants that are no labels, and sessions; distinct = distinct (calendar, query, label)',
        minimum={'refused': 10000, 'answered': 2000, 'is_session': 2000})


if __name__ == '__main__':
    main()

"""C31: what a calendar and the library hold does not grow with the number of questions asked."""
from mon import repo, runner
from mon.cases import cases_of, stamp
from mon.held import constructions, held, library_roots
from mon.observe import call
from mon.qmodel import MIN
from mon.queries import random_query
from mon.repo import label, pd, tc
from mon.runner import rng_for

from trading_calendars.calendar_utils import TradingCalendarDispatcher

P = 'C31'
QUICK = runner.tier() == 'quick'


def phases(mon, kind, ask, roots, n, what, ident):
    """Warm up, then ask twice n questions; steady growth in both halves is a violation."""
    for i in range(n):
        ask(i)
    sizes = [held(roots)]
    for k in (1, 2):
        for i in range(k * n, (k + 1) * n):
            ask(i)
        sizes.append(held(roots))
    g1, g2 = sizes[1] - sizes[0], sizes[2] - sizes[1]
    mon.check(kind, g2 < n // 6 or g1 < n // 6, lambda: '%s: what is held grew by %d and %d elements over %d and %d questions' % (
        what, g1, g2, n, n), case=ident)
    mon.seen('question', n=3 * n)


def one_calendar(mon, rng, c, n):
    cal, q = c.cal, c.q
    roots = library_roots() + [cal]
    first, last = q.opens[0], q.closes[-1]
    # distinct instants, every kind of question about them
    span = max(1, (last - first) // MIN)

    def instant(i):
        return stamp(first + (i * 7919 % span) * MIN + (i % 3) * 1000)

    def session(i):
        return stamp(q.labels[i % len(q.labels)])

    def ask(i):
        t, s = instant(i), session(i)
        k = i % 16
        if k == 0:
            call(cal.minute_to_session_label, t)
        elif k == 1:
            call(cal.minute_to_session_label, t, direction='previous')
        elif k == 2:
            call(cal.is_open_on_minute, t)
        elif k == 3:
            call(cal.next_open, t)
        elif k == 4:
            call(cal.previous_close, t)
        elif k == 5:
            call(cal.next_minute, t)
        elif k == 6:
            call(cal.minutes_window, t, i % 9 - 4)
        elif k == 7:
            call(cal.minutes_in_range, t, t + pd.Timedelta(minutes=i % 50))
        elif k == 8:
            call(cal.is_session, t.normalize())
        elif k == 9:
            call(cal.sessions_window, s, i % 5)
        elif k == 10:
            call(cal.session_distance, s, session(i * 3))
        elif k == 11:
            call(cal.open_and_close_for_session, s)
        elif k == 12:
            call(cal.sessions_in_range, t, t + pd.Timedelta(days=i % 9))
        elif k == 13:
            call(cal.minutes_count_for_sessions_in_range, s, session(i + 2))
        elif k == 14:
            call(cal.minute_index_to_session_labels, pd.DatetimeIndex([t]))
        else:
            random_query(rng, q).ask(cal)
    phases(mon, 'queries', ask, roots, n, c.desc[:120], c.desc)


def same_kind(mon, rng, c, n):
    """Many questions of one kind about distinct instants."""
    cal, q = c.cal, c.q
    roots = library_roots() + [cal]
    first, last = q.opens[0], q.closes[-1]
    span = max(1, last - first)
    kinds = ['minute_to_session_label', 'is_open_on_minute', 'next_minute', 'previous_minute', 'next_open', 'next_close', 'previous_open',
             'previous_close', 'is_session', 'none', 'session']
    for name in kinds:
        def ask(i, name=name):
            t = stamp(first + (i * 1000003 * 60 * 10 ** 9 + i) % span)
            if name == 'none':
                call(cal.minute_to_session_label, t, direction='none')
            elif name == 'session':
                s = stamp(q.labels[i % len(q.labels)] + (0 if i % 2 else i))
                call(cal.session_open, s)
                call(cal.minutes_for_session, s)
            else:
                call(getattr(cal, name), t)
        phases(mon, 'one kind of query', ask, roots, n, '%s of %s' % (name, c.desc[:100]), (name, c.desc))


def registry(mon, rng, n):
    cal = repo.cls('24/5')(label(730000), label(730040))
    d = TradingCalendarDispatcher({'A': cal}, {'B': lambda: cal}, {'C': 'B'})
    roots = library_roots() + [d]

    def ask(i):
        call(d.get_calendar, ('A', 'B', 'C', 'nonesuch %d' % i)[i % 4])
        call(d.resolve_alias, 'name %d' % i)
        call(d.get_calendar_names)
        call(tc.get_calendar, 'nonesuch %d' % i)
        call(tc.resolve_alias, 'other %d' % i)
        name = 'N%d' % i
        call(d.register_calendar, name, cal)
        call(d.register_calendar_alias, name + 'x', name)
        call(d.get_calendar, name + 'x')
        call(d.register_calendar_alias, name, name + 'x', True)      # refused
        call(d.deregister_calendar, name + 'x')
        call(d.deregister_calendar, name)
    phases(mon, 'registry', ask, roots, n, 'lookups and registrations undone', 'registry')


def run(task, mon):
    rng = rng_for(P, *task)
    if task[0] == 'registry':
        registry(mon, rng, task[2])
    elif task[0] == 'construct':
        constructions(mon, 'constructions', rng, task[2])
    else:
        kind, task = task[0], ['builtin' if task[1] in repo.ALL else 'generated', task[1], 1]
        for r, c in cases_of(task, mon, P, lengths=(30, 120), long=0):
            (one_calendar if kind == 'mixed' else same_kind)(mon, r, c, 1500)
    mon.sample(mon.case or 'registry')


def main():
    rng = rng_for(P, 'names')
    names = rng.sample(repo.ALL, 8) if QUICK else list(repo.ALL)
    tasks = [['kind', n, 1] for n in names[:5] + [100, 101, 102]]
    tasks += [['mixed', n, 1] for n in names] + [['mixed', k, 1] for k in range(8 if QUICK else 40)]
    tasks += [['registry', 0, 1000]] + [['construct', k, 12 if QUICK else 40] for k in range(3 if QUICK else 12)]
    runner.main(
        P, run, tasks,
        rule='a case is one calendar (or registry) asked three equal batches of distinct questions, what it and the library hold being '
             'counted after each; distinct = distinct (calendar, kind of question)',
        minimum={'queries': 12, 'one kind of query': 60, 'registry': 1, 'constructions': 2, 'question': 40000},
        assumptions=['what is held is counted through containers, attributes and closures reachable from the calendar and the modules of '
                     'the library; a cache with a bound of some thousand entries is accepted'])


if __name__ == '__main__':
    main()

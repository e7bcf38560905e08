"""C22: answers depend on the instant, not on how it is represented."""
import datetime

from mon import cases, repo, runner
from mon.cases import cases_of, instants, pick_sessions, stamp
from mon.observe import Failed, call, expect, is_utc, ns_list, same, show
from mon.qmodel import DAYNS, MIN, Nope
from mon.repo import np, pd

P = 'C22'
QUICK = runner.tier() == 'quick'

ZONES = ['America/New_York', 'Asia/Tokyo', 'Asia/Kolkata', 'Europe/London', 'Australia/Lord_Howe', 'America/St_Johns',
         'Pacific/Kiritimati', 'Pacific/Pago_Pago', 'Asia/Kathmandu', 'America/Sao_Paulo', 'Europe/Moscow',
         'Asia/Hong_Kong', 'Etc/GMT+12', 'Etc/GMT-14', 'Europe/Dublin', 'Africa/Casablanca']


def zoned(rng, t, cal):
    r = rng.random()
    if r < 0.25:
        tz = cal.tz
    elif r < 0.35:
        tz = datetime.timezone.utc
    elif r < 0.45:
        tz = datetime.timezone(datetime.timedelta(minutes=rng.randint(-840, 840)))
    else:
        tz = rng.choice(ZONES)
    return stamp(t).tz_convert(tz)


def naive(rng, t, cal):
    return pd.Timestamp(t)


def integer(rng, t, cal):
    return rng.choice((int, np.int64))(t)


def spread(rng, q, t):
    return t + rng.choice((0, MIN, 90 * MIN, DAYNS, 3 * DAYNS))


INSTANT = {
    'next_open': (zoned, naive), 'next_close': (zoned, naive), 'previous_open': (zoned, naive),
    'previous_close': (zoned, naive), 'next_minute': (zoned, naive), 'previous_minute': (zoned, naive),
}


def instant_queries(mon, rng, cal, q, n):
    ts = instants(rng, q, n)
    rng.shuffle(ts)
    # instants that are a midnight or another date in the local zone
    for t in ts[:90]:
        for form in (zoned, zoned, naive, integer):
            x = form(rng, t, cal)
            shown = '%r' % (x,)
            for nm, forms in INSTANT.items():
                if form in forms:
                    expect(mon, 'instant as %s' % form.__name__, call(getattr(cal, nm), x), getattr(q, nm)(t),
                           lambda: '%s(%s)' % (nm, shown), case=(mon.case[:80], nm, shown))
            for d in ('next', 'previous', 'none'):
                if d == 'none' and t % MIN:
                    continue
                # a different representation of the same instant right before
                if rng.random() < 0.5:
                    call(cal.minute_to_session_label, zoned(rng, t, cal), direction=d)
                expect(mon, 'instant as %s' % form.__name__, call(cal.minute_to_session_label, x, direction=d),
                       q.session_label(t, d), lambda: 'minute_to_session_label(%s, %r)' % (shown, d),
                       case=(mon.case[:80], d, shown))
            if t % MIN == 0:
                for ib in (False, True):
                    got = call(cal.is_open_on_minute, x, ignore_breaks=ib)
                    want = q.is_open(t, ib)
                    mon.check('open test as %s' % form.__name__, not isinstance(got, Failed) and bool(got) == want,
                              lambda: 'is_open_on_minute(%s, ignore_breaks=%s) = %r, expected %s' % (shown, ib, got, want),
                              case=(mon.case[:80], ib, shown))
            if form is not integer and rng.random() < 0.3:
                u = spread(rng, q, t)
                y = rng.choice((zoned, form))(rng, u, cal)
                expect(mon, 'minute range', call(cal.minutes_in_range, x, y), q.minutes_in_range(t, u),
                       lambda: 'minutes_in_range(%s, %r)' % (shown, y), case=(mon.case[:80], shown, u))
                k = rng.choice((0, 3, -3, 400, -400))
                expect(mon, 'minute window', call(cal.minutes_window, x, k), q.minutes_window(t, k),
                       lambda: 'minutes_window(%s, %d)' % (shown, k), case=(mon.case[:80], shown, k))


def index_queries(mon, rng, cal, q, n):
    N = len(q.rows)
    for _ in range(n):
        xs = []
        for _ in range(rng.choice((1, 2, 10, 60))):
            i = rng.randrange(N)
            xs.append((q.opens[i] + MIN * rng.randint(0, (q.closes[i] - q.opens[i]) // MIN), q.labels[i]))
        xs.sort()
        ix = pd.DatetimeIndex([t for t, _ in xs], tz='UTC')
        want = [l for _, l in xs]
        for f in ('UTC', cal.tz, rng.choice(ZONES), rng.choice(ZONES), None):
            iy = ix.tz_convert(f)
            expect(mon, 'index', call(cal.minute_index_to_session_labels, iy), want,
                   lambda: 'minute_index_to_session_labels(%r)' % iy[:3], case=(mon.case[:80], str(f), want[0], len(want)))


def label_queries(mon, rng, cal, q, n):
    N = len(q.rows)
    for i in pick_sessions(rng, q, n):
        j = min(N - 1, i + rng.choice((0, 1, 5)))
        a, b = q.labels[i], q.labels[j]
        k = rng.choice((0, 2, -2))
        bounds = [q.opens[i], q.closes[i], q.bs[i], q.be[i]]
        sess = []
        for s in range(i, j + 1):
            sess += q.session_minutes(s)
        for form, exotic in ((zoned, 0), (zoned, 0), (naive, 0), (lambda r, t, c: str(stamp(t).date()), 1),
                             (lambda r, t, c: np.datetime64(t, 'ns'), 1),
                             (lambda r, t, c: stamp(t).to_pydatetime(), 1),
                             (lambda r, t, c: pd.Timestamp(t).to_pydatetime(), 1)):
            x, y = form(rng, a, cal), form(rng, b, cal)
            if form is zoned:
                # label ranges whose ends are in different zones are refused by pandas
                y = y.tz_convert(x.tz)
            tests = [
                ('is_session', (x,), True), ('next_session_label', (x,), q.labels[i + 1] if i + 1 < N else Nope('ValueError')),
                ('previous_session_label', (x,), q.labels[i - 1] if i else Nope('ValueError')),
                ('sessions_window', (x, k), q.sessions_window(i, k)),
                ('sessions_in_range', (x, y), q.labels[i:j + 1]),
                ('session_open', (x,), bounds[0]), ('session_close', (x,), bounds[1]),
                ('session_break_start', (x,), bounds[2]), ('session_break_end', (x,), bounds[3]),
                ('open_and_close_for_session', (x,), tuple(bounds[:2])),
                ('break_start_and_end_for_session', (x,), tuple(bounds[2:])),
                ('minutes_for_session', (x,), q.session_minutes(i)),
                ('minutes_for_sessions_in_range', (x, y), sess),
                ('minutes_count_for_sessions_in_range', (x, y), ('n', len(sess))),
                ('session_opens_in_range', (x, y), ('s', q.opens[i:j + 1])),
                ('session_closes_in_range', (x, y), ('s', q.closes[i:j + 1])),
            ]
            if form is zoned:
                tests += [('session_distance', (x, y), ('n', j - i + 1)), ('session_distance', (y, x), ('n', -(j - i + 1) if j > i else 1))]
            for nm, args, want in tests:
                got = call(getattr(cal, nm), *args)
                if exotic and isinstance(got, Failed) and not isinstance(want, Nope):
                    mon.note('form not accepted')
                    continue
                ok = agree(got, want, q.labels[i:j + 1])
                mon.check('label as other form' if exotic else 'label as %s' % form.__name__, ok,
                          lambda: '%s(%s): observed %s, expected %s' % (
                              nm, ', '.join('%r' % (v,) for v in args), show(got), short(want)),
                          case=(mon.case[:80], nm, repr(args)))


def short(x):
    return show(x) if isinstance(x, list) else repr(x)[:300]


def agree(got, want, labels):
    if isinstance(got, Failed) or isinstance(want, (Nope, list)):
        return same(got, want)
    if want is None:
        return got is pd.NaT
    if want is True:
        return bool(got) is True
    if isinstance(want, tuple) and want and want[0] == 'n':
        return got == want[1]
    if isinstance(want, tuple) and want and want[0] == 's':
        return ns_list(got.index) == labels and is_utc(got.index) and is_utc(got.dt) and [v.value for v in got] == want[1]
    if isinstance(want, tuple):
        return len(got) == 2 and all(agree(g, w, labels) for g, w in zip(got, want))
    return same(got, want)


def other_instants_as_labels(mon, rng, cal, q, n):
    """Instants that are no labels, but whose local date is one (or the other way
    round): every representation must be answered alike."""
    N = len(q.rows)
    for _ in range(n):
        i = rng.randrange(N)
        tz = rng.choice([cal.tz] + ZONES)
        # a midnight in that zone, the label's own instant, or the open
        t = rng.choice((pd.Timestamp(q.labels[i]).tz_localize(tz, ambiguous=True, nonexistent='shift_forward').value,
                        q.labels[i], q.opens[i]))
        j = rng.randrange(N)
        u = q.labels[j]
        for nm in ('is_session', 'next_session_label', 'session_open', 'sessions_in_range', 'session_distance'):
            args = (stamp(t),) if nm[-1] in 'nl' else (stamp(t), stamp(u))
            args2 = tuple(x.tz_convert(tz) for x in args)
            if nm == 'session_open':
                args, args2 = args[:1], args2[:1]
            elif nm in ('sessions_in_range', 'session_distance'):
                args, args2 = (stamp(t), stamp(u)), (stamp(t).tz_convert(tz), stamp(u).tz_convert(tz))
            x, y = call(getattr(cal, nm), *args), call(getattr(cal, nm), *args2)
            ok = plain(x) == plain(y)
            mon.check('same instant as label', ok, lambda: '%s%r: %s but %s%r: %s' % (nm, args, show(x), nm, args2, show(y)),
                      case=(mon.case[:80], nm, t, str(tz)))


def plain(x):
    if isinstance(x, Failed):
        return ('failed', x.type)
    if isinstance(x, pd.DatetimeIndex):
        return (is_utc(x), ns_list(x))
    if isinstance(x, pd.Timestamp):
        return (is_utc(x), x.value)
    return x


def utc_results(mon, cal, q):
    for nm in ('all_sessions', 'all_minutes', 'late_opens', 'early_closes', 'first_session', 'last_session'):
        got = call(getattr, cal, nm)
        if isinstance(got, Failed):
            mon.violate('utc result', '%s: %r' % (nm, got))
            continue
        if nm in ('late_opens', 'early_closes') and len(got) == 0:
            continue
        mon.check('utc result', is_utc(got), lambda: '%s is in zone %s' % (nm, getattr(got, 'tz', None)))
    mon.check('utc result', is_utc(cal.schedule.index), 'schedule index not in UTC')
    for nm in ('opens', 'closes'):
        mon.check('utc result', is_utc(getattr(cal, nm).index), lambda: nm + ' index not in UTC')


def run(task, mon):
    for rng, c in cases_of(task, mon, P, lengths=(1, 8, 30, 120)):
        instant_queries(mon, rng, c.cal, c.q, 6)
        index_queries(mon, rng, c.cal, c.q, 4)
        label_queries(mon, rng, c.cal, c.q, 4)
        other_instants_as_labels(mon, rng, c.cal, c.q, 12)
        utc_results(mon, c.cal, c.q)
    mon.sample(mon.case)


def main():
    tasks = [['builtin', 'XHKG', 6 if QUICK else 30]]
    tasks += cases.query_tasks(repo.ALL, 2 if QUICK else 12, 64 if QUICK else 600, 8)
    runner.main(
        P, run, tasks,
        rule='a case is (calendar, query, representation of one instant or label): other zones (named, fixed, the '
             'calendar\'s own), naive UTC, integers, datetimes, strings; the answer must be the model\'s answer for the '
             'instant, in UTC; distinct as counted',
        minimum={'instant as zoned': 50000, 'instant as naive': 20000, 'instant as integer': 8000,
                 'open test as integer': 3000, 'label as zoned': 8000, 'label as naive': 4000,
                 'index': 1000, 'same instant as label': 2000, 'utc result': 800, 'minute range': 3000})


if __name__ == '__main__':
    main()

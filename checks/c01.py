"""C01: every constructed schedule is well formed and its views agree."""
import bisect

from mon import cases, repo, runner
from mon.cases import build, generated_window, random_window, end_stamp, pick_sessions
from mon.model import EPOCH_ORD, iso
from mon.observe import Failed, call, label_days, ns_list, is_utc, raw_table, Malformed
from mon.qmodel import DAYNS, MIN
from mon.repo import label, pd
from mon import gen, model

P = 'C01'
QUICK = runner.tier() == 'quick'


def structure(mon, cal, start, end, desc):
    """Structural invariants on the raw table; returns the raw rows."""
    mon.case = desc
    idx = cal.schedule.index
    mon.check('labels are UTC', is_utc(idx), lambda: 'index tz %r' % idx.tz)
    raw = raw_table(cal)
    mon.check('has sessions', len(raw) > 0, 'no sessions')
    prev = None
    for row in raw:
        l, o, s, e, c = row
        ok = l % DAYNS == 0 and start <= l <= end
        ok = ok and o is not None and c is not None and o < c and o % MIN == 0 and c % MIN == 0
        ok = ok and (s is None) == (e is None)
        if ok and s is not None:
            ok = o < s < e < c and s % MIN == 0 and e % MIN == 0
        if ok and prev is not None:
            ok = prev[0] < l and prev[4] < o
        if not ok:
            mon.violate('session row', 'row %r after %r, window %d..%d' % (row, prev, start, end))
        else:
            mon.seen('session row')
        prev = row
    mon.seen('table', case=(desc.split(' style')[0], len(raw), hash(tuple(raw[-3:]))), n=0)
    return raw


def ts_eq(got, ns):
    if ns is None:
        return got is pd.NaT or (not isinstance(got, Failed) and pd.isnull(got))
    return isinstance(got, pd.Timestamp) and is_utc(got) and got.value == ns


def accessors(mon, rng, cal, raw, n):
    N = len(raw)
    pos = sorted(set([0, N - 1] + [i for i in range(N) if N <= n] +
                     [rng.randrange(N) for _ in range(n)]))
    special = [int(v) for v in list(cal.late_opens.asi8) + list(cal.early_closes.asi8)]
    at = {r[0]: i for i, r in enumerate(raw)}
    pos += [at[v] for v in rng.sample(special, min(len(special), 4)) if v in at]
    nobreak = [i for i in range(N) if raw[i][2] is None]
    pos += rng.sample(nobreak, min(3, len(nobreak)))

    for i in sorted(set(pos)):
        l, o, s, e, c = raw[i]
        L = pd.Timestamp(l, tz='UTC')
        for nm, got, want in (
            ('session_open', call(cal.session_open, L), o),
            ('session_close', call(cal.session_close, L), c),
            ('session_break_start', call(cal.session_break_start, L), s),
            ('session_break_end', call(cal.session_break_end, L), e),
        ):
            mon.check('accessor', ts_eq(got, want), lambda: '%s(%s) = %r, table has %s' % (nm, L, got, want),
                      case=(mon.case[:60], nm, l))
        got = call(cal.open_and_close_for_session, L)
        mon.check('accessor', isinstance(got, tuple) and len(got) == 2 and ts_eq(got[0], o) and ts_eq(got[1], c),
                  lambda: 'open_and_close_for_session(%s) = %r, table %r' % (L, got, raw[i]))
        got = call(cal.break_start_and_end_for_session, L)
        mon.check('accessor', isinstance(got, tuple) and len(got) == 2 and ts_eq(got[0], s) and ts_eq(got[1], e),
                  lambda: 'break_start_and_end_for_session(%s) = %r, table %r' % (L, got, raw[i]))
        got = call(cal.is_session, L)
        mon.check('accessor', not isinstance(got, Failed) and bool(got), lambda: 'is_session(%s) = %r' % (L, got))

    labels = [r[0] for r in raw]
    mon.check('views', ns_list(cal.all_sessions) == labels and is_utc(cal.all_sessions), 'all_sessions differs from table')
    for nm, want in (('first_session', labels[0]), ('last_session', labels[-1]),
                     ('first_trading_session', labels[0]), ('last_trading_session', labels[-1])):
        got = call(getattr, cal, nm)
        if isinstance(got, Failed) and nm.endswith('trading_session') and got.type == 'AttributeError':
            continue
        mon.check('views', ts_eq(got, want), lambda: '%s = %r, table %s' % (nm, got, want))
    for nm, k in (('opens', 1), ('closes', 4)):
        got = call(getattr, cal, nm)
        ok = not isinstance(got, Failed) and ns_list(got.index) == labels and \
            [int(x) for x in got.values.astype('datetime64[ns]').astype('int64')] == [r[k] for r in raw]
        mon.check('views', ok, lambda: '%s column differs from the table' % nm)
    for _ in range(6):
        i, j = sorted((rng.randrange(N), rng.randrange(N)))
        if rng.random() < 0.25:
            i, j = 0, N - 1
        a, b = pd.Timestamp(labels[i], tz='UTC'), pd.Timestamp(labels[j], tz='UTC')
        if rng.random() < 0.5:
            # ends that need not be sessions, also outside the window
            a, b = (x + pd.Timedelta(days=rng.randint(-3, 3)) for x in (a, b))
            i, j = bisect.bisect_left(labels, a.value), bisect.bisect_right(labels, b.value) - 1
        for nm, k in (('session_opens_in_range', 1), ('session_closes_in_range', 4)):
            got = call(getattr(cal, nm), a, b)
            ok = not isinstance(got, Failed) and ns_list(got.index) == labels[i:j + 1] and \
                [int(x.value) for x in got] == [r[k] for r in raw[i:j + 1]] and is_utc(got.dt)
            mon.check('views', ok, lambda: '%s(%s, %s) differs from the table' % (nm, a, b),
                      case=(mon.case[:60], nm, i, j))
    for nm in ('late_opens', 'early_closes'):
        ix = getattr(cal, nm)
        vals = ns_list(ix)
        mon.check('views', is_utc(ix) and all(v in at for v in vals) and sorted(vals) == vals,
                  lambda: '%s not an ordered list of sessions: %s' % (nm, vals[:5]))


def run(task, mon):
    rng = runner.rng_for(P, *task)
    kind = task[0]
    if kind == 'default':
        name = task[1]
        cal = call(repo.cls(name))
        mon.case = '%s default window' % name
        if isinstance(cal, Failed):
            mon.violate('construct', 'default construction of %s failed: %r' % (name, cal))
            return
        idx = cal.schedule.index
        raw = structure(mon, cal, int(idx.asi8[0]), int(idx.asi8[-1]), mon.case)
        accessors(mon, rng, cal, raw, 12)
        mon.sample('%s: %d sessions %s..%s' % (mon.case, len(raw), idx[0], idx[-1]))
    elif kind == 'builtin':
        name, n = task[1], task[2]
        lo, hi = repo.span(name)
        done = 0
        for _ in range(3 * n):
            if done == n:
                break
            a, b = random_window(rng, lo, hi, (1, 8, 40, 300, 900))
            end = end_stamp(rng, b)
            cal = build(repo.cls(name), a, b, end)
            if isinstance(cal, Failed):
                mon.note('window not constructed')
                continue
            done += 1
            raw = structure(mon, cal, label(a).value, end.value, '%s %s..%s' % (name, iso(a), end))
            accessors(mon, rng, cal, raw, 14)
        mon.sample('%s with %d rows, first %r' % (mon.case, len(raw), raw[:1]) if done else 'none')
    else:
        for k in range(task[2]):
            a, b = generated_window(rng, (1, 5, 20, 90, 400))
            try:
                d = gen.random_definition(rng, a, b)
            except model.Unsupported:
                mon.note('no definition generated')
                continue
            style = rng.randrange(12)
            end = label(b) + pd.Timedelta(hours=23, minutes=59)
            mon.case = 'generated style %d %s..%s %r' % (style, iso(a), iso(b), d.data())
            cal = build(gen.make_class(d, style), a, b, end)
            if isinstance(cal, Failed):
                mon.violate('construct', 'a well-formed definition failed to construct: %r' % cal)
                continue
            raw = structure(mon, cal, label(a).value, end.value, mon.case)
            accessors(mon, rng, cal, raw, 10)
        mon.sample(mon.case)


def main():
    tasks = [['default', n] for n in repo.ALL if n != '24/7' or not QUICK]
    tasks.sort(key=lambda t: t[1] not in ('us_futures', 'CMES', '24/5', '24/7', 'IEPA'))
    tasks += cases.query_tasks(repo.ALL, 3 if QUICK else 25, 96 if QUICK else 1600, 12)
    runner.main(
        P, run, tasks,
        rule='a case is one constructed calendar (built-in default window, built-in random window, random '
             'definition) with every row of its table checked and every accessor compared with the table; '
             'distinct = distinct (calendar, accessor, session) triples and tables',
        minimum={'session row': 100000, 'accessor': 5000, 'views': 2000})


if __name__ == '__main__':
    main()

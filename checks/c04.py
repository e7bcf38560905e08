"""C04: late opens and early closes apply exactly on their declared dates."""
from mon import cases, gen, model, repo, runner
from mon.cases import build, generated_window, random_window, end_stamp
from mon.declared import Declared
from mon.model import DAY, Unsupported, iso, local_minute
from mon.observe import Failed, Malformed, call, table
from mon.qmodel import MIN
from mon.repo import label, pd

P = 'C04'
QUICK = runner.tier() == 'quick'
KEY = 'special-after-window-end'


def rows_of(mon, cal, kind):
    try:
        return table(cal)
    except Malformed as e:
        mon.violate(kind, str(e))
        return None


def compare(mon, kind, got, want, variant, ident):
    """Decide every session; variant: the rows under the known finding."""
    g = {r.day: r.full() for r in got}
    w = {r.day: r.full() for r in want}
    v = {r.day: r.full() for r in variant}
    for o in sorted(set(g) | set(w)):
        x, y = g.get(o), w.get(o)
        if x == y:
            special = y[5] or y[6]
            mon.seen(kind if special else 'other session', case=(ident, y) if special else None)
        elif x is not None and v.get(o) != y and x == v.get(o):
            mon.known_finding(KEY)
        else:
            mon.violate(kind, 'session %s: observed %s, declared %s' % (iso(o), show(x), show(y)))


def show(x):
    if x is None:
        return 'none'
    return '(open %s, break %s-%s, close %s%s%s)' % tuple(
        [str(pd.Timestamp(m * MIN)) if m is not None else '-' for m in x[1:5]] +
        [' late-open' if x[5] else '', ' early-close' if x[6] else ''])


def generated(mon, rng, n):
    for k in range(n):
        a, b = generated_window(rng, (1, 3, 10, 60, 300))
        try:
            d = gen.random_definition(rng, a, b, want_special=True, want_break=rng.random() < 0.5)
        except Unsupported:
            mon.note('no definition generated')
            continue
        if k % 3 == 0:
            # a window cut to start and/or end on a special date
            sp = sorted(set(o for o, _ in d.special('opens', a, b)) |
                        set(o for o, _ in d.special('closes', a, b)))
            if sp:
                x, y = sorted((rng.choice(sp), rng.choice(sp)))
                r = rng.random()
                a, b = (x, y) if r < 0.4 else (x, b) if r < 0.7 else (a, y)
        style = rng.randrange(12)
        end = end_stamp(rng, b)
        mon.case = 'generated style %d %s..%s %r' % (style, iso(a), end, d.data())
        cal = build(gen.make_class(d, style), a, b, end)
        if isinstance(cal, Failed):
            mon.violate('construct', 'well-formed definition failed to construct: %r' % cal)
            continue
        got = rows_of(mon, cal, 'special session')
        if got is None:
            continue
        want, _ = d.table(a, b)
        variant, _ = d.table(a, b, cut=end.value // MIN)
        compare(mon, 'special session', got, want, variant, repr(d.data()))
        # A special time on a date that is not a session must be refused.
        days = set(d.sessions(a, b))
        off = [o for o in range(a, b + 1) if o not in days]
        if off:
            o = rng.choice(off)
            which = rng.choice(('special_opens_adhoc', 'special_closes_adhoc'))
            t = rng.randint(11 * 60, 13 * 60)
            if local_minute(d.zone, o, t) * MIN <= end.value:
                bad = d.replace(**{which: getattr(d, which) + [(t, [o])]})
                got = build(gen.make_class(bad, style), a, b, end)
                mon.check('special on non-session refused',
                          isinstance(got, Failed) and 'ValueError' in got.types,
                          lambda: 'special time on non-session %s: %r' % (iso(o), got),
                          case=(repr(bad.data())))
            y, m, dd = model.ymd(o)
            if (m, dd) != (2, 29):
                rule = {'kind': 'fixed', 'month': m, 'day': dd, 'obs': None, 'start': o, 'end': o}
                which = rng.choice(('special_opens', 'special_closes'))
                if local_minute(d.zone, o, t) * MIN <= end.value:
                    bad = d.replace(**{which: getattr(d, which) + [(t, [rule])]})
                    got = build(gen.make_class(bad, style), a, b, end)
                    mon.check('special on non-session refused',
                              isinstance(got, Failed) and 'ValueError' in got.types,
                              lambda: 'special rule on non-session %s: %r' % (iso(o), got),
                              case=(repr(bad.data())))
    mon.sample(mon.case)


def declared_rows(d, a, b, cut=None):
    """Rows by declaration; dates with several declared times are left out."""
    so, sc = d.special('opens', a, b), d.special('closes', a, b)
    rows, unclear = [], set()
    for o in d.sessions(a, b):
        op, bs, be, cl = d.regular(o)
        late = early = False
        for which, sp in (('o', so), ('c', sc)):
            ts = sp.get(o)
            if ts is None:
                continue
            if len(ts) > 1:
                unclear.add(o)
                continue
            m = local_minute(d.zone, o, list(ts)[0])
            if cut is not None and m > cut:
                continue
            if which == 'o':
                op, late = m, True
            else:
                cl, bs, be, early = m, None, None, True
        rows.append(model.Row(o, op, bs, be, cl, late, early))
    return [r for r in rows if r.day not in unclear], unclear


def builtin(mon, rng, name, n):
    lo, hi = repo.span(name)
    anchor = []
    for k in range(n):
        if k and anchor and rng.random() < 0.6:
            # put a special date of this calendar on the edge of the window
            o = rng.choice(anchor)
            if rng.random() < 0.5:
                a, b = o, min(model.ordinal(hi, 12, 31), o + rng.randint(0, 40))
            else:
                a, b = max(model.ordinal(lo, 1, 1), o - rng.randint(0, 40)), o
        else:
            a, b = random_window(rng, lo, hi, (5000, 7000) if k == 0 else (2, 60, 800))
        end = end_stamp(rng, b, exact=0.45)
        cal = build(repo.cls(name), a, b, end)
        mon.case = '%s %s..%s' % (name, iso(a), end)
        if isinstance(cal, Failed):
            mon.note('window not constructed')
            continue
        d = Declared(cal)
        got = rows_of(mon, cal, 'built-in special session')
        if got is None:
            continue
        want, unclear = declared_rows(d, a, b)
        variant, _ = declared_rows(d, a, b, cut=end.value // MIN)
        if unclear:
            mon.note('dates with two declared times', len(unclear))
        compare(mon, 'built-in special session', [r for r in got if r.day not in unclear], want, variant, name)
        anchor += [r.day for r in want if r.late or r.early]
    mon.sample(mon.case)


def finding(mon):
    """The listed finding, on its own input."""
    cal = build(repo.cls('XNYS'), model.ordinal(2019, 11, 1), model.ordinal(2019, 12, 24), label(model.ordinal(2019, 12, 24)))
    mon.case = 'XNYS 2019-11-01..2019-12-24 00:00'
    d = Declared(cal)
    got = rows_of(mon, cal, 'built-in special session')
    a, b = model.ordinal(2019, 11, 1), model.ordinal(2019, 12, 24)
    want, _ = declared_rows(d, a, b)
    variant, _ = declared_rows(d, a, b, cut=label(b).value // MIN)
    compare(mon, 'built-in special session', got, want, variant, 'XNYS')


def run(task, mon):
    rng = runner.rng_for(P, *task)
    if task[0] == 'finding':
        finding(mon)
    elif task[0] == 'builtin':
        builtin(mon, rng, task[1], task[2])
    else:
        generated(mon, rng, task[2])


def main():
    tasks = [['finding']] + cases.query_tasks(repo.ALL, 4 if QUICK else 30, 400 if QUICK else 6000, 20)
    runner.main(
        P, run, tasks,
        rule='every session of each constructed calendar is compared with its declared regular and special times, '
             'break removal and the late-open/early-close lists; special dates are placed on window edges, and '
             'definitions with a special time on a non-session are expected to be refused; distinct = distinct '
             'special sessions and refused definitions',
        minimum={'special session': 500, 'built-in special session': 300, 'other session': 20000,
                 'special on non-session refused': 100})


if __name__ == '__main__':
    main()

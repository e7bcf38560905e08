"""C03: sessions open, break and close at the declared local wall-clock time."""
from mon import cases, gen, model, repo, runner
from mon.cases import build, generated_window, random_window
from mon.declared import Declared
from mon.model import DAY, Unsupported, era_value, iso, local_minute
from mon.observe import Failed, Malformed, call, table
from mon.repo import label, pd

P = 'C03'
QUICK = runner.tier() == 'quick'


def decide(mon, kind, row, want, ident, regular_open, regular_close):
    """Compare the regular parts of one session."""
    got = (row.open if regular_open else None,
           row.bs if regular_close else None,
           row.be if regular_close else None,
           row.close if regular_close else None)
    exp = (want[0] if regular_open else None,
           want[1] if regular_close else None,
           want[2] if regular_close else None,
           want[3] if regular_close else None)
    if got == exp:
        mon.seen(kind, case=ident)
    else:
        def show(x):
            return [None if v is None else str(pd.Timestamp(v * 60 * 10 ** 9)) for v in x]
        mon.violate(kind, 'session %s: (open, break start, break end, close) observed %s, declared %s' % (
            iso(row.day), show(got), show(exp)))


def boundary_definition(rng):
    """A definition whose era boundaries sit on sessions, holidays, clock changes."""
    zone = rng.choice(gen.ZONES)
    y = rng.randint(1972, 2090)
    changes = gen.zone_changes(zone, model.ordinal(y, 1, 1), model.ordinal(y + 3, 12, 31))
    if changes and rng.random() < 0.8:
        c = rng.choice(changes)
        a, b = c - rng.randint(3, 20), c + rng.randint(3, 20)
    else:
        a, b = generated_window(rng, (10, 60, 400))
    return a, b


def run(task, mon):
    rng = runner.rng_for(P, *task)
    if task[0] == 'generated':
        for k in range(task[2]):
            a, b = boundary_definition(rng)
            if k == 0:
                b = a + rng.randint(5000, 9000)
            try:
                d = gen.random_definition(rng, a, b)
            except Unsupported:
                mon.note('no definition generated')
                continue
            style = rng.randrange(12)
            mon.case = 'generated style %d %s..%s %r' % (style, iso(a), iso(b), d.data())
            cal = build(gen.make_class(d, style), a, b)
            if isinstance(cal, Failed):
                mon.violate('construct', 'well-formed definition failed to construct: %r' % cal)
                continue
            try:
                rows = {r.day: r for r in table(cal)}
            except Malformed as e:
                mon.violate('generated session', str(e))
                continue
            so = dict(d.special('opens', a, b))
            sc = dict(d.special('closes', a, b))
            plain = d.replace(special_opens=[], special_closes=[], special_opens_adhoc=[],
                              special_closes_adhoc=[])
            for want in plain.table(a, b)[0]:
                r = rows.get(want.day)
                if r is None:
                    mon.violate('generated session', 'session %s is missing' % iso(want.day))
                    continue
                decide(mon, 'generated session', r, (want.open, want.bs, want.be, want.close),
                       (d.zone, want.open % DAY, want.close % DAY, want.day),
                       want.day not in so, want.day not in sc)
        mon.sample(mon.case)
        return
    name, n = task[1], task[2]
    lo, hi = repo.span(name)
    for k in range(n):
        mon.case = '%s (no declaration read)' % name
        if k % 2 == 0:
            # a window across one of the declared era boundaries, when there is one
            probe = repo.cls(name)
            times = []
            for f in ('open_times', 'close_times', 'break_start_times', 'break_end_times'):
                v = getattr(probe, f, None)
                if isinstance(v, (tuple, list)):
                    times += [s for s, _ in v if s is not None]
            times = [t for t in times if lo <= t.year <= hi]
            if times:
                c = rng.choice(times).toordinal()
                a, b = c - rng.randint(0, 30), c + rng.randint(5, 400)
            else:
                a, b = random_window(rng, lo, hi, (30, 400))
        elif k % 4 == 1:
            a, b = random_window(rng, lo, hi, (2, 60, 800, 3000))
        else:
            # as long as the default window, or longer
            a = model.ordinal(rng.randint(lo, max(lo, hi - 45)), 1, 1)
            b = a + rng.randint(8000, 16000)
        a, b = max(a, model.ordinal(lo, 1, 1)), min(b, model.ordinal(hi, 12, 31))
        cal = build(repo.cls(name), a, b)
        mon.case = '%s %s..%s' % (name, iso(a), iso(b))
        if isinstance(cal, Failed):
            mon.note('window not constructed')
            continue
        d = Declared(cal)
        so, sc = d.special('opens', a, b), d.special('closes', a, b)
        try:
            rows = table(cal)
        except Malformed as e:
            mon.violate('built-in session', str(e))
            continue
        for r in rows:
            decide(mon, 'built-in session', r, d.regular(r.day), (name, r.day), r.day not in so, r.day not in sc)
    mon.sample(mon.case)


def main():
    tasks = cases.query_tasks(repo.ALL, 4 if QUICK else 30, 480 if QUICK else 8000, 24)
    runner.main(
        P, run, tasks,
        rule='every session of each constructed calendar is compared with the instant at which the local clock (pytz) '
             'reads the declared time; windows sit on clock changes and era boundaries; distinct = distinct '
             '(calendar or zone and times, session date)',
        minimum={'generated session': 4000, 'built-in session': 20000})


if __name__ == '__main__':
    main()

"""C02: a date is a session exactly when nothing declared closes it."""
from mon import cases, gen, model, repo, runner
from mon.cases import build, random_window, end_stamp
from mon.declared import Declared, day_of, rule_days
from mon.model import iso, weekday
from mon.observe import Failed, call, label_days
from mon.repo import label, pd

P = 'C02'
QUICK = runner.tier() == 'quick'


def compare(mon, kind, got, want, first, last, ident):
    """Decide membership of every date of the window."""
    g, w = set(got), set(want)
    if got == want:
        mon.seen(kind, n=last - first + 1)
        mon.seen('window', case=(ident, first, last))
        return True
    for o in sorted(g ^ w)[:3]:
        mon.violate(kind, '%s (%s) is %s, declarations say %s' % (
            iso(o), 'Mon Tue Wed Thu Fri Sat Sun'.split()[weekday(o)],
            'a session' if o in g else 'not a session',
            'session' if o in w else 'closed'))
    if g == w:
        mon.violate(kind, 'sessions out of order or repeated: %s' % got[:5])
    return False


def is_session_calls(mon, rng, cal, want, first, last, n):
    w = set(want)
    probe = [rng.randint(first - 3, last + 3) for _ in range(n)] + [first, last]
    for o in probe:
        got = call(cal.is_session, label(o))
        mon.check('is_session', not isinstance(got, Failed) and bool(got) == (o in w),
                  lambda: 'is_session(%s) = %r, expected %s' % (iso(o), got, o in w))


def generated(mon, rng, n):
    for _ in range(n):
        a, b = random_window(rng, 1972, 2095, (1, 4, 15, 60, 400, 1500))
        try:
            d = gen.random_definition(rng, a, b, rich=True)
        except model.Unsupported:
            mon.note('no definition generated')
            continue
        style = rng.randrange(12)
        end = end_stamp(rng, b)
        mon.case = 'generated style %d %s..%s %r' % (style, iso(a), end, d.data())
        cal = build(gen.make_class(d, style), a, b, end)
        if isinstance(cal, Failed):
            mon.violate('construct', 'well-formed definition failed to construct: %r' % cal)
            continue
        want = d.sessions(a, b)
        compare(mon, 'date', label_days(cal.all_sessions), want, a, b, repr(d.data()))
        is_session_calls(mon, rng, cal, want, a, b, 6)
        # One closure more, or one less.
        special = set(o for o, _ in d.special('opens', a, b)) | set(o for o, _ in d.special('closes', a, b))
        free = [o for o in want if o not in special]
        if len(want) > 1 and free:
            o = rng.choice([free[0], free[-1], rng.choice(free)])
            d2 = d.replace(adhoc=d.adhoc + [o])
            cal2 = build(gen.make_class(d2, style), a, b, end)
            if isinstance(cal2, Failed):
                mon.violate('one closure more', 'closing %s: construction failed: %r' % (iso(o), cal2))
            else:
                compare(mon, 'one closure more', label_days(cal2.all_sessions),
                        [x for x in want if x != o], a, b, ('plus', o, repr(d.data())))
        used = [o for o in d.adhoc if a <= o <= b]
        if used:
            o = rng.choice(used)
            d2 = d.replace(adhoc=[x for x in d.adhoc if x != o])
            cal2 = build(gen.make_class(d2, style), a, b, end)
            if not isinstance(cal2, Failed):
                compare(mon, 'one closure less', label_days(cal2.all_sessions), d2.sessions(a, b), a, b,
                        ('minus', o, repr(d.data())))
    mon.sample(mon.case)


def far(mon, rng, n):
    """Windows before 1970 and after 2200."""
    lo, hi = model.ordinal(1970, 1, 1), model.ordinal(2200, 12, 31)
    for _ in range(n):
        if rng.random() < 0.7:
            a, b = random_window(rng, 1860, 1969, (4, 60, 400, 1500))
        else:
            a, b = random_window(rng, 2198, 2250, (4, 60, 400))
        try:
            d = gen.random_definition(rng, a, b, want_special=False, rich=True)
        except model.Unsupported:
            mon.note('no definition generated')
            continue
        style = rng.randrange(12)
        mon.case = 'generated style %d %s..%s %r' % (style, iso(a), iso(b), d.data())
        cal = build(gen.make_class(d, style), a, b)
        if isinstance(cal, Failed):
            if d.sessions(a, b):
                mon.violate('construct', 'well-formed definition failed to construct: %r' % cal)
            continue
        got, want = label_days(cal.all_sessions), d.sessions(a, b)
        if got != want:
            # listed finding: recurring holidays are only known from 1970 to 2200
            plain = d.replace(rules=[]).sessions(a, b)
            w = set(want)
            if got == [o for o in plain if o in w or not lo <= o <= hi]:
                mon.known_finding('recurring-outside-1970-2200')
                mon.seen('far date', n=b - a + 1)
                continue
        compare(mon, 'far date', got, want, a, b, ('far', repr(d.data())))


def builtin(mon, rng, name, n):
    lo, hi = repo.span(name)
    base = repo.cls(name)
    for k in range(n):
        a, b = random_window(rng, lo, hi, (2, 30, 400, 2500))
        if k == 1:
            # as long as the default window, or longer
            a = model.ordinal(rng.randint(lo, max(lo, hi - 45)), 1, 1)
            b = min(a + rng.randint(8000, 16000), model.ordinal(hi, 12, 31))
        end = end_stamp(rng, b)
        mon.case = '%s %s..%s' % (name, iso(a), end)
        cal = build(base, a, b, end)
        if isinstance(cal, Failed):
            mon.note('window not constructed')
            continue
        d = Declared(cal)
        want = d.sessions(a, b)
        compare(mon, 'declared date', label_days(cal.all_sessions), want, a, b, name)
        is_session_calls(mon, rng, cal, want, a, b, 6)
        if k:
            continue
        special = set(d.special('opens', a, b)) | set(d.special('closes', a, b))
        free = [o for o in want if o not in special]
        if len(want) > 1 and free:
            o = rng.choice([free[0], free[-1], rng.choice(free)])

            def plus(self, o=o):
                return list(base.adhoc_holidays.__get__(self)) if hasattr(base.adhoc_holidays, '__get__') \
                    else list(base.adhoc_holidays)
            sub = type('Plus', (base,), {'adhoc_holidays': property(
                lambda self: plus(self) + [pd.Timestamp(iso(o), tz='UTC')])})
            cal2 = build(sub, a, b, end)
            if isinstance(cal2, Failed):
                mon.violate('one closure more', 'closing %s: construction failed: %r' % (iso(o), cal2))
            else:
                compare(mon, 'one closure more', label_days(cal2.all_sessions),
                        [x for x in want if x != o], a, b, ('plus', name, o))
    mon.sample('%s: %d sessions' % (mon.case, len(want)))


def run(task, mon):
    rng = runner.rng_for(P, *task)
    if task[0] == 'builtin':
        builtin(mon, rng, task[1], task[2])
    elif task[0] == 'far':
        far(mon, rng, task[2])
    else:
        generated(mon, rng, task[2])


def main():
    tasks = cases.query_tasks(repo.ALL, 2 if QUICK else 12, 400 if QUICK else 6000, 20)
    tasks += [['far', k, 15] for k in range(4 if QUICK else 40)]
    runner.main(
        P, run, tasks,
        rule='a case is a constructed calendar whose membership is decided for every date of its window: random '
             'definitions (weekday mask, rules with observances/validity dates, one-off closures), the same with one '
             'closure added or removed, and built-ins against their own declarations; distinct = distinct '
             '(definition or calendar, window)',
        minimum={'date': 20000, 'declared date': 20000, 'one closure more': 1000, 'is_session': 1000, 'far date': 2000})


if __name__ == '__main__':
    main()

"""C29: an abandoned operation leaves calendars and registry as if it had not been tried."""
from mon import cases, gen, model, repo, runner
from mon.cases import build
from mon.interrupt import Abandon, interrupt
from mon.model import iso
from mon.observe import Failed, Malformed, call, table
from mon.preempt import lines
from mon.qmodel import QModel
from mon.queries import decide, random_query
from mon.repo import label, pd
from mon.runner import rng_for

from trading_calendars.calendar_utils import TradingCalendarDispatcher

P = 'C29'
QUICK = runner.tier() == 'quick'
ERRORS = (Abandon, KeyboardInterrupt, MemoryError, Abandon)


def rows_of(cal):
    rows = call(table, cal)
    return rows if not isinstance(rows, Failed) and rows else None


def full(rows):
    return [r.full() for r in rows]


def maker(rng, kind):
    """(description, function making a new calendar, rows of one made before any interruption)."""
    for _ in range(60):
        if kind == 'builtin':
            name = rng.choice(repo.ALL)
            lo, hi = repo.span(name)
            a, b = cases.random_window(rng, lo, hi, (8, 40, 250))
            desc = '%s %s..%s' % (name, iso(a), iso(b))

            def make(cls=repo.cls(name), a=a, b=b):
                return cls(label(a), label(b) + pd.Timedelta(hours=23, minutes=59))
        else:
            a, b = cases.random_window(rng, 1972, 2095, (8, 40, 120))
            try:
                d = gen.random_definition(rng, a, b)
            except model.Unsupported:
                continue
            style = rng.randrange(12)
            desc = 'generated style %d %s..%s %r' % (style, iso(a), iso(b), d.data())

            def make(cls=gen.make_class(d, style), a=a, b=b):
                return cls(label(a), label(b) + pd.Timedelta(hours=23, minutes=59))
        cal = call(make)
        rows = None if isinstance(cal, Failed) else rows_of(cal)
        if rows:
            return desc, make, rows
    raise Unusable('no calendar can be constructed any more; last %s: %r' % (desc, cal))


class Unusable(Exception):
    pass


def new(make):
    cal = call(make)
    if isinstance(cal, Failed):
        raise Unusable('a calendar that could be constructed no longer can: %r' % (cal,))
    return cal


def abandoned(mon, kind, got, where, want_ok, what):
    """The injected exception comes out, or the call answers as usual."""
    mon.check(kind, isinstance(got, BaseException) or want_ok(got), lambda: '%s interrupted at %s came out as %r' % (
        what, where, got))


def queries(mon, rng, task):
    for _ in range(task[2]):
        desc, make, rows = maker(rng, 'builtin' if rng.random() < 0.4 else 'generated')
        mon.case = desc
        q = QModel(rows)
        cal, other = new(make), new(make)
        for _ in range(8):
            a = random_query(rng, q)
            if rng.random() < 0.5:
                random_query(rng, q, 'mtsl').ask(cal)
            k = 0
            while k < 80:
                k += 1
                exc = rng.choice(ERRORS)
                got, where = interrupt(lambda: a.ask(cal) if exc is not MemoryError else asked(a, cal), k, exc)
                if where is None:
                    break
                abandoned(mon, 'interrupted query', got, where, a.ok, a)
                for c, on in ((a, cal), (random_query(rng, q), cal), (random_query(rng, q), cal), (a, other)):
                    decide(mon, 'query after an interruption', c, c.ask(on), lambda: 'after %s was interrupted at %s' % (a, where),
                           case=(desc[:90], repr(a), k, repr(c)))
        now = rows_of(cal)
        mon.check('table after interruptions', now is not None and full(now) == full(rows), lambda: 'the table changed', case=desc)
        # first use of lazily computed data
        for kind in ('count', 'smin', 'day'):
            a = random_query(rng, q, kind) if kind != 'day' else None

            def ask(c):
                return asked(a, c) if a is not None else c.day
            fresh = new(make)
            n = lines(lambda: ask(fresh))[1]
            for k in sorted(rng.sample(range(1, n + 1), min(n, 5))):
                c1 = new(make)
                got, where = interrupt(lambda: ask(c1), k, rng.choice(ERRORS))
                if where is None:
                    continue
                for c in (a or random_query(rng, q), random_query(rng, q), random_query(rng, q, 'count')):
                    decide(mon, 'query after an interrupted first use', c, c.ask(c1), lambda: 'after the first %s was interrupted at %s' % (
                        a or 'day', where), case=(desc[:90], kind, k, repr(c)))
                if a is None:
                    i = rng.randrange(len(rows))
                    got = call(lambda: label(rows[i].day) + 0 * c1.day if i == 0 else label(rows[i].day) - c1.day)
                    want = rows[i].day if i == 0 else rows[i - 1].day
                    mon.check('query after an interrupted first use', got == label(want),
                              lambda: 'day offset after an interruption at %s: %r' % (where, got))
    mon.sample(mon.case)


def asked(query, cal):
    """Ask without recording failures, so that injected errors come out."""
    if query.args is None:
        return getattr(cal, query.name)
    return getattr(cal, query.name)(*query.args, **query.kwargs)


def constructions(mon, rng, task):
    makers = [maker(rng, 'builtin' if rng.random() < 0.4 else 'generated') for _ in range(task[2])]
    # several abandoned before any is tried again
    for desc, make, rows in makers + makers:
        interrupt(make, rng.randint(1, lines(make)[1]), rng.choice(ERRORS))
    for desc, make, rows in makers:
        cal = call(make)
        now = None if isinstance(cal, Failed) else rows_of(cal)
        mon.check('construction after an interruption', now is not None and full(now) == full(rows),
                  lambda: 'after several abandoned constructions: %s' % (cal if isinstance(cal, Failed) else 'the table differs'), case=(desc, 0))
    for desc, make, rows in makers:
        mon.case = desc
        q = QModel(rows)
        old = new(make)
        n = lines(make)[1]
        points = list(range(1, n + 1))
        for k in sorted(rng.sample(points, min(n, 10 if QUICK else 40))):
            got, where = interrupt(make, k, rng.choice(ERRORS))
            if where is None:
                continue
            if not isinstance(got, (BaseException, Failed)):
                now = rows_of(got)
                mon.check('interrupted construction', now is not None and full(now) == full(rows),
                          lambda: 'a construction interrupted at %s gave another table' % where)
            cal = call(make)
            now = None if isinstance(cal, Failed) else rows_of(cal)
            mon.check('construction after an interruption', now is not None and full(now) == full(rows),
                      lambda: 'after a construction interrupted at %s: %s' % (
                          where, cal if isinstance(cal, Failed) else 'the table differs'), case=(desc, k))
            if now is None:
                continue
            for on in (cal, old):
                c = random_query(rng, q)
                decide(mon, 'query after an interruption', c, c.ask(on), lambda: 'after a construction interrupted at %s' % where,
                       case=(desc[:90], 'construction', k, repr(c)))
    mon.sample(mon.case)


class Flaky(object):
    """A factory that fails at first."""

    def __init__(self, cal, times, exc):
        self.cal, self.times, self.exc, self.calls = cal, times, exc, 0

    def __call__(self):
        self.calls += 1
        if self.calls <= self.times:
            raise self.exc('factory not ready')
        return self.cal


def snapshot(d, names):
    """What every name gives, without instantiating anything."""
    out = {'names': sorted(d.get_calendar_names())}
    for n in names:
        out[n] = (d.has_calendar(n), str(call(d.resolve_alias, n)))
    return out


def registry(mon, rng, task):
    cals = [repo.cls(rng.choice(('24/7', '24/5')))(label(730000 + 40 * i), label(730020 + 40 * i)) for i in range(4)]
    names = ['A', 'B', 'C', 'D', 'E', 'F']
    for r in range(task[2]):
        def fresh():
            d = TradingCalendarDispatcher({}, {'C': lambda: cals[2]}, {'E': 'D'})
            d.register_calendar('A', cals[0])
            d.register_calendar_type('B', lambda: cals[1])
            d.register_calendar_alias('D', 'C')
            return d
        want = {'A': cals[0], 'B': cals[1], 'C': cals[2], 'D': cals[2], 'E': cals[2]}

        def intact(kind, d, but, what):
            for n in names:
                if n == but:
                    continue
                got = call(d.get_calendar, n)
                ok = got is want[n] if n in want else isinstance(got, Failed) and got.type == 'InvalidCalendarName'
                mon.check(kind, ok, lambda: 'after %s, get_calendar(%r) gave %r' % (what, n, got), case=(what, n))
        ops = [('get_calendar', (n,)) for n in names] + [('resolve_alias', ('E',)), ('get_calendar_names', ()), ('has_calendar', ('D',))]
        for op, args in ops:
            k = 0
            while k < 60:
                k += 1
                d = fresh()
                if not hasattr(d, op):
                    break
                got, where = interrupt(lambda: getattr(d, op)(*args), k, rng.choice(ERRORS))
                if where is None:
                    break
                mon.check('names after an interrupted lookup', sorted(d.get_calendar_names()) == sorted(want),
                          lambda: '%s%r interrupted at %s left the names %r' % (op, args, where, d.get_calendar_names()))
                intact('lookup after an interruption', d, None, '%s%r interrupted at %s' % (op, args, where))
        ops = [('register_calendar', ('F', cals[3])), ('register_calendar_type', ('F', lambda: cals[3])),
               ('register_calendar_alias', ('F', 'A')), ('deregister_calendar', ('A',)), ('register_calendar', ('A', cals[3], True)),
               ('register_calendar_type', ('D', lambda: cals[3], True)), ('register_calendar_alias', ('B', 'A', True)),
               ('register_calendar', ('A', cals[3])), ('register_calendar_alias', ('C', 'E'))]
        for op, args in ops:
            k = 0
            while k < 60:
                k += 1
                d = fresh()
                got, where = interrupt(lambda: getattr(d, op)(*args), k, rng.choice(ERRORS))
                if where is None:
                    break
                # names that lead through the touched name may be touched too
                through = {'A': 'A', 'B': 'B', 'F': 'F', 'C': 'CDE', 'D': 'DE'}[args[0]]
                for n in names:
                    if n not in through and n in want:
                        x = call(d.get_calendar, n)
                        mon.check('other names after an interrupted registration', x is want[n],
                                  lambda: '%s(%r) interrupted at %s: get_calendar(%r) gave %r' % (op, args[0], where, n, x),
                                  case=(op, args[0], k, n))
                # the registration can be made after all
                d.deregister_calendar(args[0])
                d.register_calendar(args[0], cals[3])
                mon.check('registration after an interruption', d.get_calendar(args[0]) is cals[3],
                          lambda: 'cannot register %r after %s was interrupted at %s' % (args[0], op, where))
        # factories that fail
        for exc in (ValueError, KeyError, RuntimeError, Abandon):
            d = fresh()
            f = Flaky(cals[3], rng.randint(1, 3), exc)
            d.register_calendar_type('F', f)
            d.register_calendar_alias('G', 'F')
            before = sorted(d.get_calendar_names())
            for _ in range(f.times):
                try:
                    got = d.get_calendar(rng.choice('FG'))
                except BaseException as e:
                    got = e
                mon.check('failing factory', isinstance(got, exc) and 'factory not ready' in str(got),
                          lambda: 'a factory that raises %s: lookup gave %r' % (exc.__name__, got), case=(exc.__name__, f.times))
                mon.check('names after an interrupted lookup', sorted(d.get_calendar_names()) == before,
                          lambda: 'a failing factory changed the names')
                intact('lookup after an interruption', d, 'F', 'a failing factory')
            got = [call(d.get_calendar, n) for n in 'FGF']
            mon.check('failing factory', all(x is cals[3] for x in got), lambda: 'after the factory recovered: %r' % got)
    mon.sample('registry round of %d operations' % len(ops))


def declarations(mon, rng, task):
    """User declarations that raise during construction."""
    for _ in range(task[2]):
        a, b = cases.random_window(rng, 1972, 2095, (8, 40, 120))
        try:
            d = gen.random_definition(rng, a, b)
        except model.Unsupported:
            continue
        style = rng.randrange(12)
        base = gen.make_class(d, style)
        cal = build(base, a, b)
        rows = None if isinstance(cal, Failed) else rows_of(cal)
        if not rows:
            continue
        q = QModel(rows)
        mon.case = 'generated style %d %s..%s %r' % (style, iso(a), iso(b), d.data())
        for field in ('open_times', 'close_times', 'break_start_times', 'break_end_times', 'regular_holidays', 'adhoc_holidays',
                      'special_opens', 'special_closes', 'special_opens_adhoc', 'special_closes_adhoc', 'tz', 'weekmask'):
            left = [1]

            def get(self, field=field):
                if left[0]:
                    left[0] -= 1
                    raise RuntimeError('declaration not ready')
                v = getattr(super(cls, self), field)
                return v
            cls = type('Unready', (base,), {field: property(get)})
            got = build(cls, a, b)
            if left[0]:
                mon.note('declaration not read: ' + field)
                continue
            mon.check('failing declaration', isinstance(got, Failed) and 'not ready' in got.msg,
                      lambda: '%s raised, construction gave %r' % (field, got), case=(mon.case[:90], field))
            again = build(cls, a, b)
            now = None if isinstance(again, Failed) else rows_of(again)
            mon.check('construction after a failing declaration', now is not None and full(now) == full(rows),
                      lambda: 'after %s had raised once: %r' % (field, again), case=(mon.case[:90], field))
            c = random_query(rng, q)
            decide(mon, 'query after an interruption', c, c.ask(cal), lambda: 'after %s had raised' % field)
    mon.sample(mon.case)


def run(task, mon):
    rng = rng_for(P, *task)
    try:
        {'query': queries, 'construct': constructions, 'registry': registry, 'declare': declarations}[task[0]](mon, rng, task)
    except Unusable as e:
        mon.violate('construction after an interruption', str(e))


def main():
    tasks = [['construct', k, 3 if QUICK else 20] for k in range(6 if QUICK else 24)]
    tasks += [['query', k, 3 if QUICK else 20] for k in range(6 if QUICK else 24)]
    tasks += [['declare', k, 2 if QUICK else 12] for k in range(5 if QUICK else 16)]
    tasks += [['registry', 0, 2 if QUICK else 10]]
    runner.main(
        P, run, tasks,
        rule='a case is one later answer (query, construction or lookup) after an operation was abandoned by an exception injected at '
             'one traced source line or raised by a user-supplied declaration or factory; distinct = distinct (calendar, operation, '
             'line, later question)',
        minimum={'query after an interruption': 1500, 'construction after an interruption': 150, 'query after an interrupted first use': 150,
                 'lookup after an interruption': 150, 'failing declaration': 60, 'failing factory': 6,
                 'other names after an interrupted registration': 60},
        assumptions=['exceptions are injected at source lines of the library; points inside pandas and numpy are not reached'])


if __name__ == '__main__':
    main()

"""C12: the calendar registry behaves as one map of names."""
import sys
import threading
import time

from mon import repo, runner
from mon.observe import Failed, call
from mon.preempt import lines, outcome, preempt
from mon.repo import TradingCalendar, tc
from mon.runner import rng_for

P = 'C12'
QUICK = runner.tier() == 'quick'

from trading_calendars.calendar_utils import TradingCalendarDispatcher  # noqa: E402

# No name is part of another, so that a message naming one names only that one.
NAMES = ['alpha', 'bravo', 'carol', 'delta', 'echo1', 'fox', 'golf', 'X/Y 9', 'hôtel', 'India']
MISSING = ['zulu', 'yank', '']
NEAR = [' alpha', 'alpha ', 'Alpha', 'ALPHA', 'bravo\n', 'alph', 'carols', 'X/Y  9', 'hotel', 'india']
KINDS = ('CalendarNameCollision', 'CyclicCalendarAlias', 'InvalidCalendarName')


class Cal(TradingCalendar):
    """A cheap stand-in: the registry only stores and returns it."""
    tz = None
    open_times = close_times = ()

    def __init__(self, tag, truth=True):
        self.tag, self.truth = tag, truth

    @property
    def name(self):
        return self.tag

    def __bool__(self):
        return self.truth

    def __repr__(self):
        return '<cal %s>' % self.tag


class Boom(Exception):
    pass


class Factory(object):
    def __init__(self, tag, fail=0, truth=True, nap=0):
        self.tag, self.fail, self.truth, self.nap = tag, fail, truth, nap
        self.calls = 0
        self.made = []

    def __call__(self):
        self.calls += 1
        if self.nap:
            time.sleep(self.nap)
        if self.fail > 0:
            self.fail -= 1
            raise Boom(self.tag)
        c = Cal('%s#%d' % (self.tag, self.calls), self.truth)
        self.made.append(c)
        return c


class Model(object):
    """name -> ['inst', obj] | ['fac', factory, obj|None] | ['alias', target]"""

    def __init__(self):
        self.map = {}
        self.calls = {}

    def chain(self, name):
        seen = [name]
        while name in self.map and self.map[name][0] == 'alias':
            name = self.map[name][1]
            if name in seen:
                return None
            seen.append(name)
        return name

    def register(self, name, entry, force):
        """Error kind or None."""
        if name in self.map and not force:
            return 'CalendarNameCollision'
        if entry[0] == 'alias':
            old = self.map.get(name)
            self.map[name] = entry
            if self.chain(name) is None:
                if old is None:
                    del self.map[name]
                else:
                    self.map[name] = old
                return 'CyclicCalendarAlias'
        self.map[name] = entry
        return None


def kind_of(r):
    return next((t for t in r.types if t in KINDS), r.type) if isinstance(r, Failed) else None


def observe_registry(mon, d, m, what):
    """Compare everything that can be observed without side effects."""
    names = call(d.get_calendar_names)
    ok = not isinstance(names, Failed) and sorted(names) == sorted(m.map)
    mon.check('listing', ok, lambda: 'after %s: names %r, expected %r' % (
        what(), names if isinstance(names, Failed) else sorted(names), sorted(m.map)))
    for n in NAMES + MISSING:
        got = call(d.has_calendar, n)
        mon.check('existence', got is (n in m.map) or got == (n in m.map),
                  lambda: 'after %s: has_calendar(%r) = %r' % (what(), n, got))
        got = call(d.resolve_alias, n)
        want = m.chain(n)
        if want is None:
            mon.check('resolution', kind_of(got) == 'CyclicCalendarAlias', lambda: 'after %s: resolve_alias(%r) = %r' % (what(), n, got))
        else:
            mon.check('resolution', got == want, lambda: 'after %s: resolve_alias(%r) = %r, expected %r' % (what(), n, got, want))
    for n, e in m.map.items():
        if e[0] == 'fac':
            want = m.calls.get(id(e[1]), 0)
            mon.check('lazy factory', e[1].calls == want, lambda: 'after %s: factory of %r was invoked %d times, expected %d' % (
                what(), n, e[1].calls, want))


def lookup(mon, d, m, name, what):
    got = call(d.get_calendar, name)
    target = m.chain(name)
    e = m.map.get(target) if target is not None else None
    if target is None:
        mon.check('lookup refused', kind_of(got) == 'CyclicCalendarAlias', lambda: '%s: get_calendar(%r) = %r' % (what(), name, got))
        return
    if e is None:
        ok = kind_of(got) == 'InvalidCalendarName' and name in got.msg
        mon.check('lookup refused', ok, lambda: '%s: get_calendar(%r) = %r, expected InvalidCalendarName naming it' % (what(), name, got),
                  case=(name, target, len(m.map)))
        return
    if e[0] == 'inst':
        mon.check('lookup', got is e[1], lambda: '%s: get_calendar(%r) = %r, expected %r' % (what(), name, got, e[1]),
                  case=(name, target, 'inst'))
        return
    f = e[1]
    if e[2] is not None:
        mon.check('lookup', got is e[2], lambda: '%s: get_calendar(%r) = %r, expected the object of the first lookup %r' % (
            what(), name, got, e[2]), case=(name, target, 'again'))
        return
    m.calls[id(f)] = m.calls.get(id(f), 0) + 1
    if isinstance(got, Failed):
        mon.check('failing factory', got.type == 'Boom', lambda: '%s: get_calendar(%r) = %r' % (what(), name, got))
        return
    mon.check('lookup', f.made and got is f.made[-1], lambda: '%s: get_calendar(%r) = %r, expected a calendar made by its factory' % (
        what(), name, got), case=(name, target, 'first'))
    e[2] = f.made[-1] if f.made else got


class Global(object):
    """The module-level functions, with the same interface as a dispatcher."""

    def __init__(self):
        import trading_calendars.calendar_utils as u
        for n in ('get_calendar', 'get_calendar_names', 'clear_calendars', 'deregister_calendar', 'register_calendar',
                  'register_calendar_type', 'register_calendar_alias', 'resolve_alias'):
            setattr(self, n, getattr(tc, n))
        self.has_calendar = u.global_calendar_dispatcher.has_calendar


def history(mon, rng, d, m, steps):
    ops = []
    what = lambda: ' ; '.join(ops[-8:])
    tag = [0]
    for _ in range(steps):
        n = rng.choice(NAMES[:rng.choice((3, 6, 10))])
        r = rng.random()
        force = rng.random() < 0.4
        kw = {'force': force} if force or rng.random() < 0.3 else {}
        tag[0] += 1
        res = want = None
        if r < 0.15:
            c = Cal('i%d' % tag[0], rng.random() < 0.8)
            ops.append('register_calendar(%r, %r, %r)' % (n, c, kw))
            res = call(d.register_calendar, n, c, **kw)
            want = m.register(n, ['inst', c], force)
        elif r < 0.33:
            f = Factory('f%d' % tag[0], fail=rng.choice((0, 0, 0, 1)), truth=rng.random() < 0.8)
            ops.append('register_calendar_type(%r, %s, %r)' % (n, f.tag, kw))
            res = call(d.register_calendar_type, n, f, **kw)
            want = m.register(n, ['fac', f, None], force)
        elif r < 0.58:
            t = rng.choice(NAMES[:6] + [n] + MISSING[:1])
            ops.append('register_calendar_alias(%r, %r, %r)' % (n, t, kw))
            res = call(d.register_calendar_alias, n, t, **kw)
            want = m.register(n, ['alias', t], force)
        elif r < 0.68:
            ops.append('deregister_calendar(%r)' % n)
            res = call(d.deregister_calendar, n)
            m.map.pop(n, None)
        elif r < 0.69:
            ops.append('clear_calendars()')
            res = call(d.clear_calendars)
            m.map.clear()
        else:
            n = rng.choice(NAMES + MISSING) if rng.random() < 0.5 else rng.choice(sorted(m.map) or NAMES)
            ops.append('get_calendar(%r)' % n)
            lookup(mon, d, m, n, what)
        if r < 0.69:
            mon.check('operation' if want is None else 'rejected operation', kind_of(res) == want,
                      lambda: '%s: %r, expected %s' % (what(), res, want or 'success'),
                      case=(tuple(sorted((k, v[0]) for k, v in m.map.items())), ops[-1].split('(')[0], n, force))
            if want is not None and isinstance(res, Failed) and want == 'CalendarNameCollision':
                mon.check('rejected operation', n in res.msg, lambda: '%s: message %r does not name %r' % (what(), res.msg, n))
        if rng.random() < 0.6 or want is not None:
            observe_registry(mon, d, m, what)
    for n in NAMES + MISSING + NEAR:
        lookup(mon, d, m, n, what)
    observe_registry(mon, d, m, what)
    mon.sample(what())


def long_chain(mon, rng, d):
    """A chain of many aliases, registered from either end."""
    n = rng.randint(9, 60)
    names = ['link%03d' % i for i in range(n)]
    end = Factory('end')
    made = []
    links = list(zip(names, names[1:] + ['end']))
    if rng.random() < 0.5:
        links.reverse()
    first = rng.random() < 0.5
    if first:
        made.append(call(d.register_calendar_type, 'end', end))
    for a, b in links:
        made.append(call(d.register_calendar_alias, a, b))
    if not first:
        made.append(call(d.register_calendar_type, 'end', end))
    mon.check('chain of aliases', not any(isinstance(x, Failed) for x in made), lambda: 'registering a chain of %d aliases: %r' % (
        n, [x for x in made if isinstance(x, Failed)][:1]), case=n)
    asked = rng.sample(names, min(n, 12)) + [names[0]]
    got = [call(d.get_calendar, x) for x in asked]
    mon.check('chain of aliases', isinstance(got[0], Cal) and all(g is got[0] for g in got) and end.calls == 1,
              lambda: 'lookups through a chain of %d aliases: %r' % (n, got[:3]), case=(n, 'lookup'))
    got = [call(d.resolve_alias, x) for x in asked]
    mon.check('chain of aliases', all(g == 'end' for g in got), lambda: 'resolved through a chain of %d aliases: %r' % (n, got[:3]))
    x = rng.choice(names)
    got = call(d.register_calendar_alias, 'end', x, force=True)
    mon.check('chain of aliases', kind_of(got) == 'CyclicCalendarAlias', lambda: 'an alias closing a cycle of %d: %r' % (n, got))
    mon.check('chain of aliases', isinstance(call(d.get_calendar, x), Cal), lambda: 'lookup after a refused cycle of %d' % n)


def sequential(task, mon):
    rng = rng_for(P, *task)
    for k in range(task[2]):
        m = Model()
        if task[0] == 'global':
            d = Global()
            d.clear_calendars()
        else:
            cals, facs, als = {}, {}, {}
            if rng.random() < 0.6:
                c, f = Cal('c0'), Factory('f0')
                cals['alpha'] = c
                facs['bravo'] = f
                als['carol'] = rng.choice(('alpha', 'bravo', 'zulu'))
                als['delta'] = 'carol'
                m.map = {'alpha': ['inst', c], 'bravo': ['fac', f, None], 'carol': ['alias', als['carol']],
                         'delta': ['alias', 'carol']}
            d = TradingCalendarDispatcher(calendars=cals, calendar_factories=facs, aliases=als)
        mon.case = '%s history %d' % (task[0], k)
        history(mon, rng, d, m, rng.choice((6, 15, 40)))
        if k % 5 == 0:
            d.clear_calendars()
            long_chain(mon, rng, d)


def fresh(nap=0):
    """A registry with one factory under several aliases, and another name."""
    d = TradingCalendarDispatcher(calendars={}, calendar_factories={}, aliases={})
    f, g = Factory('f', nap=nap), Factory('g')
    d.register_calendar_type('alpha', f)
    d.register_calendar_type('bravo', g)
    d.register_calendar_alias('carol', 'alpha')
    d.register_calendar_alias('delta', 'carol')
    return d, f


def preempted_lookups(task, mon):
    rng = rng_for(P, *task)
    for a, b in (('alpha', 'alpha'), ('alpha', 'carol'), ('carol', 'delta'), ('delta', 'alpha'), ('alpha', 'bravo')):
        k = 0
        while k < 80:
            k += 1
            d, f = fresh()
            mon.case = 'lookup of %s stopped at line %d for a lookup of %s' % (a, k, b)
            r = preempt(lambda: d.get_calendar(a), lambda: d.get_calendar(b), k)
            if r is None:
                break
            ga, gb, where = r
            later = call(d.get_calendar, a)
            if b == 'bravo':
                ok = isinstance(ga, Cal) and isinstance(gb, Cal) and ga is not gb and later is ga and call(d.get_calendar, b) is gb
            else:
                ok = isinstance(ga, Cal) and ga is gb and later is ga and call(d.get_calendar, b) is gb
            mon.check('interleaved first lookup', ok, lambda: 'stopped at %s: %r and %r, later %r' % (where, ga, gb, later),
                      case=(a, b, k))
            names = call(d.get_calendar_names)
            mon.check('listing', not isinstance(names, Failed) and sorted(names) == ['alpha', 'bravo', 'carol', 'delta'],
                      lambda: 'names %r' % names)
    # the global registry with a real calendar
    if task[1] == 0:
        n = lines(lambda: tc.get_calendar('24/5'))[1]
        tc.clear_calendars()
        tc.register_calendar_type('24/5', repo.cls('24/5'))
        tc.register_calendar_alias('w', '24/5')
        for k in sorted(rng.sample(range(1, n + 1), min(n, 5))):
            tc.register_calendar_type('24/5', repo.cls('24/5'), force=True)
            r = preempt(lambda: tc.get_calendar('24/5'), lambda: tc.get_calendar('w'), k)
            if r is not None:
                mon.check('interleaved first lookup', r[0] is r[1] and tc.get_calendar('w') is r[0],
                          lambda: 'global registry stopped at %s: %r, %r' % (r[2], r[0], r[1]), case=('24/5', k))


def threaded_lookups(task, mon):
    rng = rng_for(P, *task)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for k in range(task[2]):
            d, f = fresh(nap=rng.choice((0, 0, 0.002)))
            names = [rng.choice(('alpha', 'carol', 'delta')) for _ in range(8)]
            got = [None] * 8
            gate = threading.Barrier(8)

            def body(i):
                gate.wait()
                got[i] = [outcome(lambda: d.get_calendar(names[i])) for _ in range(3)]
            ths = [threading.Thread(target=body, args=(i,)) for i in range(8)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            objs = [o for g in got for o in g]
            mon.check('lookup among threads', all(o is objs[0] for o in objs) and isinstance(objs[0], Cal),
                      lambda: 'lookups %s gave %d different objects: %r' % (names, len(set(map(id, objs))), objs[:6]),
                      case=(task[1], k))
    finally:
        sys.setswitchinterval(old)


def simultaneous_registrations(task, mon):
    """Two threads registering one free name: one must be refused."""
    ops = {
        'instance': lambda d, x: d.register_calendar('alpha', Cal(x)),
        'factory': lambda d, x: d.register_calendar_type('alpha', Factory(x)),
        'alias': lambda d, x: d.register_calendar_alias('alpha', 'zulu' + x),
    }
    for na, a in ops.items():
        for nb, b in ops.items():
            k = 0
            while k < 60:
                k += 1
                d = TradingCalendarDispatcher(calendars={}, calendar_factories={}, aliases={})
                mon.case = 'registration of %s stopped at line %d for one of %s' % (na, k, nb)
                r = preempt(lambda: a(d, 'x'), lambda: b(d, 'y'), k)
                if r is None:
                    break
                kinds = [kind_of(r[0]), kind_of(r[1])]
                if kinds == [None, None]:
                    # check-then-act: both saw the name free
                    mon.known_finding('simultaneous-registration')
                    mon.seen('simultaneous registrations')
                else:
                    mon.check('simultaneous registrations', sorted(map(str, kinds)) == ['CalendarNameCollision', 'None'] and
                              d.has_calendar('alpha'), lambda: 'stopped at %s: %r' % (r[2], r[:2]), case=(na, nb, k))


def run(task, mon):
    {'fresh': sequential, 'global': sequential, 'preempt': preempted_lookups, 'threads': threaded_lookups,
     'registrations': simultaneous_registrations}[task[0]](task, mon)


def main():
    tasks = [['preempt', k] for k in range(2)] + [['registrations']]
    tasks += [['fresh', k, 40] for k in range(24 if QUICK else 400)]
    tasks += [['global', k, 30] for k in range(6 if QUICK else 60)]
    tasks += [['threads', k, 40] for k in range(4 if QUICK else 40)]
    runner.main(
        P, run, tasks,
        rule='a case is one registry operation in a random history (distinct by the kinds of all registered names, the '
             'operation, its name and force), one lookup (distinct by name, target and state), or one preemption point of '
             'a first lookup; decided by a map model, with the whole registry observed after operations',
        minimum={'operation': 5000, 'rejected operation': 3000, 'lookup': 4000, 'lookup refused': 3000, 'listing': 5000,
                 'interleaved first lookup': 40, 'lookup among threads': 100, 'lazy factory': 5000,
                 'simultaneous registrations': 20, 'chain of aliases': 40})


if __name__ == '__main__':
    main()

"""C20: calendar instances are isolated, copyable and disposable."""
import copy
import gc
import os
import pickle
import random
import subprocess
import sys
import tempfile
import weakref

from mon import cases, gen, model, repo, runner
from mon.cases import build
from mon.held import constructions
from mon.model import iso
from mon.observe import Failed, Malformed, call, table
from mon.qmodel import QModel
from mon.queries import decide, instant, random_query
from mon.repo import TradingCalendar, label, np, pd
from mon.runner import rng_for

P = 'C20'
QUICK = runner.tier() == 'quick'

LAZY = ('all_minutes', 'market_opens_nanos', 'market_closes_nanos', 'market_break_starts_nanos',
        'market_break_ends_nanos')


def full(rows):
    return [r.full() for r in rows]


def same_as(mon, kind, rng, cal, rows, n, where):
    """All answers of cal as given by rows."""
    got = call(table, cal)
    ok = not isinstance(got, Failed) and full(got) == full(rows)
    mon.check(kind, ok, lambda: '%s: table differs: %s' % (where, got if isinstance(got, Failed) else [
        (str(a), str(b)) for a, b in zip(full(got), full(rows)) if a != b][:3]), case=(where, len(mon.distinct)))
    q = QModel(rows)
    for _ in range(n):
        qu = random_query(rng, q)
        decide(mon, kind, qu, qu.ask(cal), where, case=(where, repr(qu)))
    for kind2 in ('smin', 'mwindow', 'count', 'attr', 'attr', 'index'):
        qu = random_query(rng, q, kind2)
        decide(mon, kind, qu, qu.ask(cal), where)


# --- mutations of one instance

def m_cells(rng, cal):
    s = cal.schedule
    for c in ('market_open', 'market_close', 'break_start', 'break_end'):
        s.iloc[rng.randrange(len(s)), s.columns.get_loc(c)] = pd.Timestamp('1999-01-01 03:04')


def m_column(rng, cal):
    s = cal.schedule
    s['market_close'] = s['market_close'] + pd.Timedelta(hours=1)


def m_raw(rng, cal):
    for c in ('market_open', 'market_close'):
        v = cal.schedule[c].values
        v[:] = v + np.timedelta64(7, 'm')


def m_drop(rng, cal):
    cal.schedule.drop(cal.schedule.index[rng.randrange(len(cal.schedule))], inplace=True)


def m_sessions(rng, cal):
    v = cal.all_sessions.values
    v[:] = v + np.timedelta64(1, 'D')


def m_minutes(rng, cal):
    v = cal.all_minutes.values
    v[:] = v + np.timedelta64(1, 'm')


def m_nanos(rng, cal):
    for n in LAZY[1:]:
        v = np.asarray(getattr(cal, n))
        v[:] = 0


def m_lists(rng, cal):
    for n in ('late_opens', 'early_closes'):
        v = getattr(cal, n).values
        v[:] = np.datetime64('1999-01-01')


MUTATIONS = (m_cells, m_column, m_raw, m_drop, m_sessions, m_minutes, m_nanos, m_lists)


def mutate(rng, cal, m):
    try:
        m(rng, cal)
        return True
    except Exception:
        # some arrays are read-only: as isolated as can be
        return False


def make(kind, name, a, b):
    """A maker of equal instances."""
    if kind == 'builtin':
        return lambda a=a, b=b, cls=None: build(cls or repo.cls(name), a, b)
    return lambda a=a, b=b, cls=None: build(cls or name, a, b)


def subjects(task, mon):
    rng = rng_for(P, *task)
    if task[0] == 'builtin':
        lo, hi = repo.span(task[1])
        for _ in range(task[2]):
            a, b = cases.random_window(rng, lo, hi, (8, 30, 120))
            yield rng, 'builtin', task[1], a, b
    else:
        for _ in range(task[2]):
            a, b = cases.random_window(rng, 1972, 2095, (8, 30, 120))
            try:
                d = gen.random_definition(rng, a, b)
            except model.Unsupported:
                continue
            yield rng, 'generated', gen.make_class(d, rng.randrange(12)), a, b


def isolation(mon, rng, mk, a, b, where):
    one = mk()
    if isinstance(one, Failed):
        mon.note('window not constructed')
        return None
    try:
        rows = table(one)
    except Malformed:
        return None
    two = mk()
    if b - a > 3 and rng.random() < 0.5:
        # a sibling over another window, made before or after
        a2 = a + (b - a) // 3
        sib = mk(a2, b)
    else:
        sib = mk(a, b + 40)
    sib_rows = call(table, sib) if not isinstance(sib, Failed) else None
    if isinstance(sib_rows, Failed) or not sib_rows:
        sib = None
    # access in some order, so that lazies are computed before or after
    for c in rng.sample([x for x in (one, two, sib) if x is not None], 2):
        for n in rng.sample(LAZY, rng.randint(0, 3)):
            call(getattr, c, n)
    for m in rng.sample(MUTATIONS, 2 if QUICK else 3):
        if mutate(rng, one, m):
            mon.note('mutations')
        same_as(mon, 'twin of an altered calendar', rng, two, rows, 4, '%s, twin altered by %s' % (where, m.__name__))
        if sib is not None:
            same_as(mon, 'sibling of an altered calendar', rng, sib, sib_rows, 3, '%s, sibling altered by %s' % (where, m.__name__))
    later = mk()
    if isinstance(later, Failed):
        mon.violate('calendar built after an alteration', '%s: %r' % (where, later))
    else:
        same_as(mon, 'calendar built after an alteration', rng, later, rows, 4, where)
    # altering the twin's copy leaves the twin alone
    c = call(copy.deepcopy, two)
    if not isinstance(c, Failed):
        # (pandas deep copies share the data of their indexes)
        for m in rng.sample([m for m in MUTATIONS if m is not m_sessions], 3):
            mutate(rng, c, m)
        same_as(mon, 'original of an altered copy', rng, two, rows, 4, '%s, deep copy altered' % where)
    return rows


def crosstalk(mon, rng, mk, kind, a, b, where):
    """The same instant asked in turn of instances of one class (and a subclass) with different windows."""
    third = (b - a) // 3
    windows = [(a, b), (a + third, b), (a, b - third), (a, b + 40), (a, b)]
    live = []
    for k, (x, y) in enumerate(windows):
        cal = mk(x, y) if k < 4 else mk(x, y, type('Sub', (type(live[0][1]),), {})) if live else None
        rows = None if cal is None or isinstance(cal, Failed) else call(table, cal)
        if rows and not isinstance(rows, Failed):
            live.append(('%s..%s' % (iso(x), iso(y)), cal, QModel(rows)))
    if len(live) < 2:
        return
    for _ in range(14):
        t = instant(rng, rng.choice(live)[2])
        kind = rng.choice(('mtsl', 'mtsl', 'mtsl', 'open', 'next', 'mrange', 'mwindow'))
        seed = rng.getrandbits(32)
        for win, cal, q in rng.sample(live, len(live)):
            qu = random_query(random.Random(seed), q, kind, t)
            decide(mon, 'instances asked in turn', qu, qu.ask(cal), lambda: '%s, instance over %s' % (where, win), case=(where, win, repr(qu)))


def copies(mon, rng, mk, rows, where, picklable):
    q = QModel(rows)
    cal = mk()
    if rng.random() < 0.6:
        for _ in range(6):
            random_query(rng, q).ask(cal)
    forms = [('copy', copy.copy), ('deepcopy', copy.deepcopy)]
    if picklable:
        for p in (2, pickle.HIGHEST_PROTOCOL) if not QUICK else (rng.choice((2, 3, 4, pickle.HIGHEST_PROTOCOL)),):
            forms.append(('pickle %d' % p, lambda c, p=p: pickle.loads(pickle.dumps(c, p))))
    made = []
    for nm, f in forms:
        c = call(f, cal)
        if isinstance(c, Failed):
            mon.violate('copy', '%s: %s failed: %r' % (where, nm, c))
            continue
        mon.check('copy', type(c) is type(cal) and c.name == cal.name and str(c.tz) == str(cal.tz) and c is not cal,
                  lambda: '%s: %s has another type, name or zone' % (where, nm))
        same_as(mon, 'copy', rng, c, rows, 8, '%s, %s' % (where, nm))
        made.append((nm, c))
    same_as(mon, 'original of a copy', rng, cal, rows, 4, where)
    del cal
    gc.collect()
    for nm, c in made:
        same_as(mon, 'copy', rng, c, rows, 3, '%s, %s after the original was discarded' % (where, nm))


def once(mon, rng, mk, where):
    """Derived data are the same object on every access."""
    import trading_calendars.trading_calendar as m
    cal = mk()
    counter = [0]
    inner = getattr(m, 'compute_all_minutes', None)

    def counted(*a, **k):
        counter[0] += 1
        return inner(*a, **k)
    if inner is not None:
        m.compute_all_minutes = counted
    try:
        first = {n: getattr(cal, n) for n in LAZY}
        for n in LAZY:
            x = getattr(cal, n)
            ok = x is first[n] or (n == 'all_minutes' and inner is not None and counter[0] <= 1)
            mon.check('computed once', ok, lambda: '%s: %s is computed again on every access' % (where, n), case=(where, n))
        cal.minutes_for_session(cal.first_session)
        cal.next_minute(cal.all_minutes[0])
        if inner is not None:
            mon.check('computed once', counter[0] <= 1, lambda: '%s: the minute list was computed %d times' % (where, counter[0]))
    finally:
        if inner is not None:
            m.compute_all_minutes = inner


def own_parts(o):
    """ids of the objects reachable from the instance's own attributes."""
    seen, todo = set(), list(vars(o).values())
    while todo and len(seen) < 20000:
        x = todo.pop()
        if id(x) in seen or isinstance(x, (type, type(os), type(own_parts))):
            continue
        seen.add(id(x))
        todo.extend(gc.get_referents(x))
    return seen


def holders(refs):
    """What keeps discarded objects alive.

    On PyPy an exception swallowed inside pandas' compiled code keeps the frames
    of its callers (so `self` of a calendar being constructed or queried) alive
    for ever, without any Python object referring to it.  Such a calendar is
    alive but held by nobody; only a visible holder other than a frame, an
    argument tuple or a part of the calendar itself is a leak of the library.
    """
    alive = [r() for r in refs if r() is not None]
    if not alive:
        return []
    mine = {id(alive)}
    for o in alive:
        mine |= own_parts(o)
        mine.add(id(vars(o)))
    ids = {id(o) for o in alive}
    return [type(h).__name__ for h in gc.get_referrers(*alive)
            if type(h).__name__ not in ('frame', 'traceback', 'cell') and id(h) not in mine and
            not (type(h) is tuple and all(id(x) in ids for x in h))]


def disposal(mon, rng, mk, rows, where, picklable):
    q = QModel(rows)
    refs = []
    origin = call(mk)

    makers = [('constructed', lambda how: mk()), ('copied', lambda how: copy.copy(origin)),
              ('deep-copied', lambda how: copy.deepcopy(origin))]
    if picklable:
        makers.append(('unpickled', lambda how: pickle.loads(pickle.dumps(origin))))
    for made, f in makers:
        for how in range(4):
            cal = call(f, how)
            if isinstance(cal, Failed):
                break
            if how >= 1:
                for n in LAZY:
                    call(getattr, cal, n)
            if how >= 2:
                for _ in range(15):
                    random_query(rng, q).ask(cal)
            if how == 3:
                call(copy.deepcopy, cal)
                call(pickle.dumps, cal)
                call(cal.minute_to_session_label, cal.first_session, direction='bogus')
            refs.append((made, how, weakref.ref(cal)))
            cal = None
    for _ in range(4):
        gc.collect()
    held = holders([r for _, _, r in refs])
    alive = [(made, how) for made, how, r in refs if r() is not None]
    mon.note('alive in an abandoned frame only' if not held else 'held', len(alive))
    if held:
        mon.violate('released', '%s: discarded calendars (%s) are still held by %s' % (where, alive, held))
    else:
        for made, how, _ in refs:
            mon.seen('released', (where, made, how))


def lazies_of_user_classes(task, mon):
    """Lazily computed attributes on user definitions, with every kind of value."""
    from trading_calendars.utils.memoize import lazyval
    rng = rng_for(P, *task)

    class Base(TradingCalendar):
        tz = 'UTC'
        open_times = close_times = ()
        name = 'base'

        def __init__(self, value):
            self.value, self.calls = value, 0

        @lazyval
        def thing(self):
            self.calls += 1
            return self.value

        @lazyval
        def other(self):
            return ('other', self.value)

    class Sub(Base):
        name = 'sub'

        @lazyval
        def thing(self):
            self.calls += 1
            return ('sub', self.value)

    class Sib(Base):
        name = 'sib'

    class Deep(Sub):
        @property
        def thing(self):
            return ('deep', super(Deep, self).thing)

    want = {Base: lambda v: v, Sib: lambda v: v, Sub: lambda v: ('sub', v), Deep: lambda v: ('deep', ('sub', v))}
    live = []
    mon.case = 'lazy attributes of user classes'
    for step in range(task[2]):
        r = rng.random()
        if r < 0.3 or not live:
            v = rng.choice((None, 0, '', [], False, step, 'x%d' % step, float('nan')))
            c = rng.choice((Base, Sub, Sib, Deep))
            live.append((c(v), c, v))
        elif r < 0.4:
            live.pop(rng.randrange(len(live)))
            if rng.random() < 0.1:
                gc.collect()
        else:
            o, c, v = rng.choice(live)
            got = call(lambda: o.thing)
            w = want[c](v)
            mon.check('lazy attribute', repr(got) == repr(w) and o.calls == 1, lambda: '%s instance: thing = %r (expected %r), computed %d times' % (
                c.__name__, got, w, o.calls), case=(c.__name__, repr(v), step))
            got = call(lambda: o.other)
            mon.check('lazy attribute', repr(got) == repr(('other', v)), lambda: 'other = %r, expected %r' % (got, ('other', v)))
    refs = [weakref.ref(o) for o, _, _ in live]
    o = None
    del live[:]
    for _ in range(4):
        gc.collect()
    mon.check('released', all(r() is None for r in refs), lambda: '%d of %d discarded instances are still alive' % (
        sum(r() is not None for r in refs), len(refs)))


CHILD = r'''
import sys
sys.path.insert(0, '/verif' if len(sys.argv) < 3 else sys.argv[2])
import pickle
from mon import repo
from mon.observe import table
with open(sys.argv[1], 'rb') as f:
    cals = pickle.load(f)
out = []
for c in cals:
    out.append(([r.full() for r in table(c)], c.name, str(c.tz), [int(x) for x in c.all_minutes.asi8[:2000]],
                [int(x.value) for x in c.minutes_window(c.all_minutes[5], 10)],
                c.minutes_count_for_sessions_in_range(c.first_session, c.last_session)))
with open(sys.argv[1] + '.out', 'wb') as f:
    pickle.dump(out, f)
'''


def other_process(task, mon):
    rng = rng_for(P, *task)
    names = rng.sample(repo.ALL, task[2])
    cals, rows = [], []
    for n in names:
        lo, hi = repo.span(n)
        a, b = cases.random_window(rng, lo, hi, (30, 120))
        c = build(repo.cls(n), a, b)
        if isinstance(c, Failed):
            continue
        if rng.random() < 0.5:
            c.all_minutes
        cals.append(c)
        rows.append(table(c))
    d = tempfile.mkdtemp(dir=runner.EVIDENCE)
    path = os.path.join(d, 'cals')
    try:
        with open(path, 'wb') as f:
            pickle.dump(cals, f)
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD, path, runner.VERIF], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=300)
        if p.returncode:
            mon.violate('copy in another process', 'loading %s failed: %s' % (names, p.stderr.decode()[-600:]))
            return
        with open(path + '.out', 'rb') as f:
            out = pickle.load(f)
    except pickle.PicklingError as e:
        mon.violate('copy in another process', 'pickling %s failed: %r' % (names, e))
        return
    finally:
        for x in (path, path + '.out'):
            if os.path.exists(x):
                os.remove(x)
        os.rmdir(d)
    for c, r, (tab, nm, tz, mins, win, cnt) in zip(cals, rows, out):
        q = QModel(r)
        ok = tab == full(r) and nm == c.name and tz == str(c.tz) and mins == q.minutes[:2000] and \
            win == q.minutes[5:15] and cnt == sum(q.counts)
        mon.check('copy in another process', ok, lambda: 'pickled %s (%s..%s) answers differently in another process' % (
            c.name, iso(r[0].day), iso(r[-1].day)), case=(c.name, r[0].day, r[-1].day))


def run(task, mon):
    if task[0] == 'lazy':
        return lazies_of_user_classes(task, mon)
    if task[0] == 'drop':
        return constructions(mon, 'nothing held of dropped calendars', rng_for(P, *task), task[2])
    if task[0] == 'process':
        return other_process(task, mon)
    for rng, kind, name, a, b in subjects(task, mon):
        where = '%s %s..%s' % (name if kind == 'builtin' else 'generated', iso(a), iso(b))
        mon.case = where
        mk = make(kind, name, a, b)
        rows = isolation(mon, rng, mk, a, b, where)
        if not rows:
            continue
        if kind == 'generated' or rng.random() < 0.3:
            crosstalk(mon, rng, mk, kind, a, b, where)
        r = rng.random()
        copies(mon, rng, mk, rows, where, kind == 'builtin')
        if r < 0.3 or kind == 'generated':
            disposal(mon, rng, mk, rows, where, kind == 'builtin')
        if r > 0.6 or kind == 'generated':
            once(mon, rng, mk, where)
    mon.sample(mon.case)


def main():
    tasks = [['process', k, 8] for k in range(2 if QUICK else 12)]
    tasks += [['builtin', n, 1 if QUICK else 10] for n in repo.ALL]
    tasks += [['generated', k, 5] for k in range(6 if QUICK else 200)]
    tasks += [['drop', k, 4 if QUICK else 20] for k in range(2 if QUICK else 12)]
    tasks += [['lazy', k, 1500] for k in range(2 if QUICK else 12)]
    runner.main(
        P, run, tasks,
        rule='a case is one query (or the whole table) of a twin, sibling or later calendar after another instance was '
             'altered in one of 8 ways, of instances with different windows asked the same in turn, of a copy (copy, deepcopy, pickle, pickle in another process), one discarded '
             'calendar watched by a weak reference, or one lazily computed attribute; distinct as counted',
        minimum={'twin of an altered calendar': 1500, 'sibling of an altered calendar': 800, 'copy': 2000,
                 'copy in another process': 8, 'released': 150, 'computed once': 150, 'lazy attribute': 1000,
                 'original of an altered copy': 500, 'instances asked in turn': 1500, 'nothing held of dropped calendars': 2})


if __name__ == '__main__':
    main()

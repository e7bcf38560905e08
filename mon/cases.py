"""Choosing calendars, windows and instants to observe."""
import datetime

from . import gen, model, repo
from .model import EPOCH_ORD, iso, ordinal
from .observe import Failed, Malformed, call, table
from .qmodel import DAYNS, MIN, QModel
from .repo import label, pd

SEC = 10 ** 9


def random_window(rng, lo_year, hi_year, lengths=(1, 3, 8, 30, 120, 400)):
    """(first ordinal, last ordinal) inside the given years."""
    lo, hi = ordinal(lo_year, 1, 1), ordinal(hi_year, 12, 31)
    n = rng.choice(lengths)
    n = rng.randint(max(1, n // 2), n)
    y = rng.randint(lo_year, hi_year)
    r = rng.random()
    if r < 0.35:
        # around the turn of the year, where special sessions cluster
        a = ordinal(y, 12, rng.randint(15, 31)) - rng.randint(0, n)
    elif r < 0.55:
        a = model.easter(y) - rng.randint(0, n + 4)
    elif r < 0.65:
        a = model.nth_weekday(y, 11, 3, 4) - rng.randint(0, n + 2)
    else:
        a = ordinal(y, 1, 1) + rng.randint(0, 364)
    a = max(lo, min(a, hi - 1))
    b = min(hi, a + n)
    return a, b


def generated_window(rng, lengths):
    """A window for a random definition, now and then before or across 1970."""
    if rng.random() < 0.1:
        return random_window(rng, 1948, 1971, lengths)
    return random_window(rng, 1972, 2095, lengths)


def end_stamp(rng, last, exact=0.3):
    """The end argument of a construction: the last date at some time of day."""
    r = rng.random()
    if r < exact:
        return label(last)
    if r < 0.75:
        return label(last) + pd.Timedelta(hours=23, minutes=59)
    return label(last) + pd.Timedelta(minutes=rng.randint(1, 1439))


def build(cls, first, last, end=None):
    """A calendar over [first, last], or Failed.  By default the end is the last
    minute of the last date."""
    if end is None:
        end = label(last) + pd.Timedelta(hours=23, minutes=59)
    return call(cls, label(first), end)


class Case(object):
    """A constructed calendar with its observed table and query model."""

    def __init__(self, desc, cal):
        self.desc = desc
        self.cal = cal
        self.rows = table(cal)
        self.q = QModel(self.rows)


def unusable(mon, desc, why):
    """A calendar that cannot be asked at all: nothing the property says of it holds."""
    if mon is not None:
        mon.case = desc
        mon.violate('usable calendar', 'a well-formed definition gives no usable calendar: %r' % (why,))


def builtin_cases(rng, name, n, lengths=(1, 8, 30, 120, 400), mon=None, years=None):
    """n constructed windows of a built-in calendar."""
    lo, hi = years or repo.span(name)
    out, tries = [], 0
    while len(out) < n and tries < 4 * n + 6:
        tries += 1
        a, b = random_window(rng, lo, hi, lengths)
        cal = build(repo.cls(name), a, b)
        if isinstance(cal, Failed):
            if mon is not None:
                mon.note('window not constructed')
            continue
        try:
            out.append(Case('%s %s..%s' % (name, iso(a), iso(b)), cal))
        except Malformed as e:
            unusable(mon, '%s %s..%s' % (name, iso(a), iso(b)), e)
    return out


def generated_case(rng, lengths=(1, 5, 20, 90, 250), mon=None, **kw):
    """A constructed random definition (or None)."""
    a, b = generated_window(rng, lengths)
    try:
        d = gen.random_definition(rng, a, b, **kw)
    except model.Unsupported:
        if mon is not None:
            mon.note('no definition generated')
        return None
    style = rng.randrange(12)
    extra = None
    if rng.random() < 0.5:
        x, y = rng.choice([0, 1, 7, 30, 90]), rng.choice([0, 1, 5, 45])
        extra = {
            'execution_time_from_open': lambda self, o, x=x: o + pd.Timedelta(minutes=x),
            'execution_time_from_close': lambda self, c, y=y: c - pd.Timedelta(minutes=y),
        }
    desc = 'generated %s..%s style %d %r' % (iso(a), iso(b), style, d.data())
    cal = build(gen.make_class(d, style, extra=extra), a, b)
    if isinstance(cal, Failed):
        unusable(mon, desc, cal)
        return None
    try:
        c = Case(desc, cal)
    except Malformed as e:
        unusable(mon, desc, e)
        return None
    c.defn = d
    c.window = (a, b)
    return c


def query_tasks(names, per_name, n_gen, chunk):
    """Standard task list: built-ins one by one, generated in chunks."""
    tasks = [['builtin', n, per_name] for n in names]
    k = 0
    while k < n_gen:
        tasks.append(['generated', k, min(chunk, n_gen - k)])
        k += chunk
    return tasks


def long_case(rng, name, mon):
    """A window of about twenty years (or as long as the calendar goes), or None."""
    lo, hi = repo.span(name)
    a = ordinal(rng.randint(lo, max(lo, hi - 24)), rng.randint(1, 12), rng.randint(1, 28))
    b = min(a + rng.randint(7400, 9000), ordinal(hi, 12, 31))
    cal = build(repo.cls(name), a, b)
    if isinstance(cal, Failed):
        mon.note('window not constructed')
        return None
    try:
        return Case('%s %s..%s' % (name, iso(a), iso(b)), cal)
    except Malformed as e:
        unusable(mon, '%s %s..%s' % (name, iso(a), iso(b)), e)
        return None


def cases_of(task, mon, prop, lengths=None, long=0.15):
    """The cases of a task made by query_tasks; now and then a long window."""
    from .runner import rng_for
    rng = rng_for(prop, *task)
    if task[0] == 'builtin':
        kw = {'lengths': lengths} if lengths else {}
        for c in builtin_cases(rng, task[1], task[2], mon=mon, **kw):
            mon.case = c.desc
            yield rng, c
        if rng.random() < long:
            c = long_case(rng, task[1], mon)
            if c is not None:
                mon.note('long window')
                mon.case = c.desc
                yield rng, c
    else:
        done = tries = 0
        while done < task[2] and tries < 4 * task[2]:
            tries += 1
            c = generated_case(rng, mon=mon)
            if c is None:
                continue
            done += 1
            mon.case = c.desc
            yield rng, c


def pick_sessions(rng, q, n):
    """Positions of sessions: both ends, special ones, ones with breaks, after
    long gaps, random."""
    rows = q.rows
    N = len(rows)
    out = {0, N - 1, min(1, N - 1), max(0, N - 2)}
    special = [i for i, r in enumerate(rows) if r.late or r.early]
    if special:
        out.update(rng.sample(special, min(len(special), n // 3 + 1)))
    for i in rng.sample(special, min(len(special), 2)):
        out.update(j for j in (i - 1, i + 1) if 0 <= j < N)
    lens = {}
    for i, r in enumerate(rows):
        lens.setdefault((r.close - r.open, r.bs is None), i)
    out.update(list(lens.values())[:6])
    gaps = [i for i in range(1, N) if rows[i].day - rows[i - 1].day > 3]
    if gaps:
        i = rng.choice(gaps)
        out.update((i - 1, i))
    while len(out) < min(n, N):
        out.add(rng.randrange(N))
    out = sorted(out)
    if len(out) > n + 6:
        out = sorted(rng.sample(out, n + 6) + [0, N - 1])
    return sorted(set(out))


def instants(rng, q, n_sessions, fine=True):
    """Instants (ns) on and around session boundaries, in gaps, breaks and beyond."""
    out = set()
    deltas = [0, -MIN, MIN]
    if fine:
        deltas += [-1, 1, -SEC, SEC, 30 * SEC, -30 * SEC, -1000, 1000]
    for i in pick_sessions(rng, q, n_sessions):
        o, c = q.opens[i], q.closes[i]
        for b in (o, c, q.bs[i], q.be[i]):
            if b is not None:
                for d in deltas:
                    out.add(b + d)
        out.add(q.labels[i])
        out.add(o + MIN * rng.randint(0, (c - o) // MIN))
        if q.bs[i] is not None:
            out.add((q.bs[i] + q.be[i]) // 2 // MIN * MIN)
        if i + 1 < len(q.opens):
            out.add((c + q.opens[i + 1]) // 2 // MIN * MIN)
        if fine:
            out.add(o + rng.randint(0, c - o))
    first, last = q.opens[0], q.closes[-1]
    for d in (MIN, DAYNS, 40 * DAYNS, 800 * DAYNS):
        out.add(first - d)
        out.add(last + d)
    out.add(first - rng.randint(1, 5 * DAYNS))
    out.add(last + rng.randint(1, 5 * DAYNS))
    return sorted(out)


def whole(ts):
    return [t for t in ts if t % MIN == 0]


def stamp(ns, tz='UTC'):
    return pd.Timestamp(ns, tz=tz)

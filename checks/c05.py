"""C05: what a calendar says about a date does not depend on the window."""
from mon import cases, gen, model, repo, runner
from mon.cases import build, random_window, end_stamp
from mon.declared import Declared
from mon.model import Unsupported, iso, ordinal
from mon.observe import Failed, Malformed, call, table
from mon.qmodel import MIN
from mon.repo import label, pd

P = 'C05'
QUICK = runner.tier() == 'quick'
KEY = 'special-after-window-end'


def show(x):
    if x is None:
        return 'no session'
    return '(open %s, break %s-%s, close %s%s%s)' % tuple(
        [str(pd.Timestamp(m * MIN)) if m is not None else '-' for m in x[1:5]] +
        [' late-open' if x[5] else '', ' early-close' if x[6] else ''])


def compare(mon, inner, outer, regular, end_ns, ident, a, b):
    """inner, outer: {day: full row}; decide every date of the inner window."""
    for o in sorted(set(inner) | set(x for x in outer if a <= x <= b)):
        x, y = inner.get(o), outer.get(o)
        if x == y:
            edge = o in (a, b)
            mon.seen('session on an edge' if edge else 'session',
                     case=(ident, y, a, b) if edge else None)
            continue
        if x is not None and y is not None and (y[5] or y[6]):
            v = list(y)
            reg = regular(o)
            if y[5] and y[1] * MIN > end_ns:
                v[1], v[5] = reg[0], False
            if y[6] and y[4] * MIN > end_ns:
                v[2], v[3], v[4], v[6] = reg[1], reg[2], reg[3], False
            if tuple(v) != y and x == tuple(v):
                mon.known_finding(KEY)
                continue
        mon.violate('session', '%s: window %s..%s says %s, the larger window says %s' % (
            iso(o), iso(a), pd.Timestamp(end_ns), show(x), show(y)))
    mon.seen('window pair', case=(ident, a, b, end_ns))


def inner_windows(rng, rows, a, b, n):
    """Sub-windows of [a, b] that contain a session, biased to special edges."""
    days = [r.day for r in rows]
    special = [r.day for r in rows if r.late or r.early]
    breaks = [r.day for r in rows[1:] if r.bs is None] if any(r.bs is not None for r in rows) else []
    out = []
    for k in range(n):
        r = rng.random()
        pool = special if special and r < 0.55 else breaks if breaks and r < 0.6 else days
        o = rng.choice(pool)
        s = rng.random()
        if s < 0.3:
            x = y = o
        elif s < 0.5:
            x, y = o, o + rng.choice((1, 2, 5, 20, 90, 400))
        elif s < 0.7:
            x, y = o - rng.choice((1, 2, 5, 20, 90, 400)), o
        elif s < 0.8:
            # special date next to, but outside, the window
            x, y = o + 1, o + rng.choice((5, 30))
        elif s < 0.9:
            x, y = o - rng.choice((5, 30)), o - 1
        else:
            x = rng.randint(a, b)
            y = x + rng.choice((3, 30, 300))
        x, y = max(a, x), min(b, y)
        if x <= y and any(x <= d <= y for d in days):
            out.append((x, y))
    return out


def one(mon, rng, cls, a, b, n, ident, regular_of, d=None):
    cal = build(cls, a, b)
    mon.case = '%s outer %s..%s' % (ident[:600], iso(a), iso(b))
    if isinstance(cal, Failed):
        mon.note('outer window not constructed')
        return
    try:
        rows = table(cal)
    except Malformed:
        mon.note('malformed table skipped')
        return
    outer = {r.day: r.full() for r in rows}
    hi = b - 3          # the outer window's own end is not taken as the truth
    rows = [r for r in rows if r.day <= hi]
    if not rows:
        return
    for x, y in inner_windows(rng, rows, a, hi, n):
        end = end_stamp(rng, y, exact=0.4)
        mon.case = '%s outer %s..%s inner %s..%s' % (ident[:600], iso(a), iso(b), iso(x), end)
        cal2 = build(cls, x, y, end)
        if isinstance(cal2, Failed):
            mon.violate('constructible', 'window %s..%s inside a constructible window with sessions: %r' % (
                iso(x), end, cal2))
            continue
        mon.seen('constructible')
        try:
            got = {r.day: r.full() for r in table(cal2)}
        except Malformed as e:
            mon.violate('session', str(e))
            continue
        compare(mon, got, outer, regular_of(cal), end.value, ident, x, y)


def run(task, mon):
    rng = runner.rng_for(P, *task)
    if task[0] == 'generated':
        for _ in range(task[2]):
            a, b = random_window(rng, 1972, 2095, (15, 60, 250, 900))
            b = min(b + 6, ordinal(2096, 1, 1))
            try:
                d = gen.random_definition(rng, a, b)
            except Unsupported:
                mon.note('no definition generated')
                continue
            plain = {}
            p = d.replace(special_opens=[], special_closes=[], special_opens_adhoc=[], special_closes_adhoc=[])

            def regular_of(cal, p=p):
                def f(o):
                    r = p.table(o, o)[0][0]
                    return r.open, r.bs, r.be, r.close
                return f
            style = rng.randrange(12)
            one(mon, rng, gen.make_class(d, style), a, b, 5, 'generated style %d %r' % (style, d.data()), regular_of)
        mon.sample(mon.case)
        return
    if task[0] == 'finding':
        a, b = ordinal(2019, 11, 1), ordinal(2020, 1, 31)
        cal = build(repo.cls('XNYS'), a, b)
        y = ordinal(2019, 12, 24)
        cal2 = build(repo.cls('XNYS'), a, y, label(y))
        mon.case = 'XNYS 2019-11-01..2019-12-24 00:00'
        compare(mon, {r.day: r.full() for r in table(cal2)}, {r.day: r.full() for r in table(cal)},
                Declared(cal).regular, label(y).value, 'XNYS', a, y)
        return
    name, n = task[1], task[2]
    lo, hi = repo.span(name)
    if name == 'XHKG':
        hi = 2049
    for k in range(1 if QUICK else 4):
        if k == 0:
            # a long window around the years users query, or the whole table
            a = ordinal(max(lo, rng.choice((1970, 1985, 1995, 2005))), 1, 1)
            b = min(ordinal(hi, 12, 31), a + rng.randint(9000, 15000))
            if name in ('24/7', '24/5', 'us_futures', 'CMES', 'IEPA'):
                b = min(b, a + 3000)
        else:
            a, b = random_window(rng, lo, hi, (4000, 9000))
        one(mon, rng, repo.cls(name), a, b, n, name, lambda cal: Declared(cal).regular)
    mon.sample(mon.case)


def main():
    tasks = [['finding']] + cases.query_tasks(repo.ALL, 8 if QUICK else 60, 160 if QUICK else 2600, 10)
    runner.main(
        P, run, tasks,
        rule='a case is a pair (large window, window inside it) of one calendar, decided on every date of the inner '
             'window; inner windows start or end on, or right next to, special sessions; non-trivial = the sessions '
             'on the edges of the inner window; distinct = distinct (calendar, inner window) and edge sessions',
        minimum={'session': 5000, 'session on an edge': 300, 'window pair': 500})


if __name__ == '__main__':
    main()

"""C16: hours, breaks and shortened sessions match the published ones."""
from mon import cases, repo, runner
from mon.cases import build
from mon.model import iso, local_minute, ordinal
from mon.observe import Failed, Malformed, call, table
from mon.repo import label, pd
from mon.runner import rng_for
from ref import almanac
from ref.feasts import D

P = 'C16'
QUICK = runner.tier() == 'quick'


def expected(x, d, early):
    """(open, break start, break end, close) in UTC minutes and the local close."""
    date = D.fromordinal(d)
    o, c = x.regular(date)
    o, c = local_minute(x.zone, d + x.open_day, o), local_minute(x.zone, d, c)
    bs = be = None
    if d in early:
        # a shortened session has no break
        c = local_minute(x.zone, d, early[d])
    elif x.breaks:
        bs, be = [local_minute(x.zone, d, t) for t in x.breaks]
    return o, bs, be, c


def clock(m):
    return None if m is None else str(pd.Timestamp(m * 60 * 10 ** 9))


def compare(mon, name, x, cal, early, desc):
    try:
        rows = table(cal)
    except Malformed as e:
        mon.violate('hours', '%s: %s' % (name, e))
        return []
    for r in rows:
        want = expected(x, r.day, early)
        got = (r.open, r.bs, r.be, r.close)
        if got != want:
            mon.violate('hours', '%s %s: observed open, break, close %s, published %s (UTC)' % (
                name, iso(r.day), [clock(m) for m in got], [clock(m) for m in want]))
        else:
            mon.seen('hours')
        if r.early != (r.day in early):
            mon.violate('early close', '%s %s: %s among the early closes' % (name, iso(r.day), 'is' if r.early else 'is not'))
        elif r.early:
            mon.seen('early close', case=(name, r.day))
        if r.late:
            mon.violate('late open', '%s %s: listed as a late open; the exchange has none' % (name, iso(r.day)))
    return rows


def run(task, mon):
    name = task[0]
    x = almanac.E[name]
    early = {d.toordinal(): t for d, t in x.early_closes().items()}
    lo, hi = ordinal(x.years[0], 1, 1), ordinal(x.years[1], 12, 31)
    mon.case = '%s %s..%s' % (name, iso(lo), iso(hi))
    cls = repo.cls(name)
    cal = build(cls, lo, hi)
    if isinstance(cal, Failed):
        mon.violate('hours', 'cannot be constructed over %s..%s: %r' % (iso(lo), iso(hi), cal))
    else:
        rows = compare(mon, name, x, cal, early, mon.case)
        mon.sample('%s: %d sessions, %d of them shortened' % (name, len(rows), sum(r.early for r in rows)))
        # every year of an exchange is a distinct case
        for y in {D.fromordinal(r.day).year for r in rows}:
            mon.seen('year', case=(name, y))
        mon.equal('zone', str(cal.tz), x.zone, name)
        rng = rng_for(P, name)
        special = [r for r in rows if r.early]
        pick = rng.sample(rows, min(10, len(rows))) + rng.sample(special, min(15, len(special)))
        for r in pick:
            o, bs, be, c = expected(x, r.day, early)
            for fn, m in (('session_open', o), ('session_close', c)):
                got = call(getattr(cal, fn), label(r.day))
                mon.check('accessor', not isinstance(got, Failed) and got == pd.Timestamp(m * 60 * 10 ** 9, tz='UTC'),
                          lambda: '%s %s(%s): %r, published %s' % (name, fn, iso(r.day), got, clock(m)), case=(name, fn, r.day))
    rng = rng_for(P, name, 'windows')
    for _ in range(2 if QUICK else 40):
        a, b = cases.random_window(rng, x.years[0], x.years[1], (20, 120, 400, 1500))
        mon.case = '%s %s..%s' % (name, iso(a), iso(b))
        cal = build(cls, a, b)
        if isinstance(cal, Failed):
            mon.note('window not constructed')
            continue
        compare(mon, name, x, cal, early, mon.case)
        mon.seen('window', case=(name, a, b))


if __name__ == '__main__':
    names = sorted(almanac.E, key=lambda n: (n not in ('XTAE', 'XHKG', 'CMES'), n))
    runner.main(
        P, run, [(n,) for n in names],
        rule='a shortened session is distinct by exchange and date, a year by exchange and year, accessor calls by exchange, '
             'call and date, windows by exchange and bounds',
        minimum={'hours': 800000, 'early close': 2500, 'accessor': 1200, 'window': 80, 'zone': 53},
        assumptions=['before 1990 the rules are taken to apply backwards as the library declares them'])

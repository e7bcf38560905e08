"""C13: every advertised name yields the calendar it stands for."""
import itertools

from mon import repo, runner
from mon.model import iso, local_minute
from mon.observe import Failed, Malformed, call, table
from mon.repo import tc
from mon.runner import rng_for
from ref import almanac
from ref.feasts import D

P = 'C13'
QUICK = runner.tier() == 'quick'

ALIASES = {
    'NYSE': 'XNYS', 'NASDAQ': 'XNYS', 'BATS': 'XNYS', 'FWB': 'XFRA', 'LSE': 'XLON', 'TSX': 'XTSE', 'BMF': 'BVMF',
    'CME': 'CMES', 'CBOT': 'CMES', 'COMEX': 'CMES', 'NYMEX': 'CMES', 'ICE': 'IEPA', 'ICEUS': 'IEPA', 'NYFE': 'IEPA',
    'CFE': 'XCBF', 'JKT': 'XIDX', 'SIX': 'XSWX', 'JPX': 'XTKS', 'ASX': 'XASX', 'HKEX': 'XHKG', 'OSE': 'XOSL',
    'BSE': 'XBOM', 'SSE': 'XSHG', 'TASE': 'XTAE',
}
# Time zones of the exchanges; zones with the same clock since 1970 are as good.
SAME_ZONE = {
    'CET': ['CET', 'Europe/Berlin'], 'NZ': ['NZ', 'Pacific/Auckland'], 'Asia/Calcutta': ['Asia/Calcutta', 'Asia/Kolkata'],
    'Europe/Istanbul': ['Europe/Istanbul', 'Asia/Istanbul', 'Turkey'],
    'Asia/Tel_Aviv': ['Asia/Tel_Aviv', 'Asia/Jerusalem', 'Israel'],
    'UTC': ['UTC', 'Etc/UTC', 'GMT'],
}


def zone_ok(got, want):
    return got in SAME_ZONE.get(want, [want])


def identity(mon, name, cal):
    """Is this the calendar of that exchange?  Its whole default schedule against the
    almanac."""
    x = almanac.E[name]
    try:
        rows = table(cal)
    except Malformed as e:
        mon.violate('schedule', '%s: %s' % (name, e))
        return
    early = {d.toordinal(): t for d, t in x.early_closes().items()}
    lo, hi = D(x.years[0], 1, 1).toordinal(), D(x.years[1], 12, 31).toordinal()
    want = {d.toordinal() for d in x.sessions()}
    a, b = max(lo, rows[0].day), min(hi, rows[-1].day)
    got = {r.day for r in rows if a <= r.day <= b}
    # a listed finding of C15 leaves single days apart
    bad = [d for d in range(a, b + 1) if (d in got) != (d in want) and (name, iso(d)) != ('XHKG', '1993-10-01')]
    mon.check('schedule', not bad, lambda: 'get_calendar gives for %s a calendar with other sessions: %s' % (
        name, [iso(d) for d in bad[:5]]), case=name)
    wrong = []
    # the last date of a default window has a listed finding (C21)
    for r in rows[:-1]:
        if a <= r.day <= b and r.day in want:
            o, c = x.regular(D.fromordinal(r.day))
            c = early.get(r.day, c)
            if (r.open, r.close) != (local_minute(x.zone, r.day + x.open_day, o), local_minute(x.zone, r.day, c)):
                wrong.append(r)
    mon.check('hours', not wrong, lambda: 'get_calendar gives for %s a calendar with other hours: %r' % (name, wrong[:3]), case=name)


def names_task(mon):
    listed = call(tc.get_calendar_names)
    if isinstance(listed, Failed):
        mon.violate('listed', 'get_calendar_names: %r' % listed)
        return
    listed = list(listed)
    for n in itertools.chain(repo.ALL, ALIASES):
        mon.check('listed', n in listed, lambda: '%s is not among the advertised names' % n, case=n)
    mon.check('listed once', len(set(listed)) == len(listed), lambda: 'advertised twice: %s' % sorted(
        {n for n in listed if listed.count(n) > 1}))
    for n in listed:
        r = call(tc.resolve_alias, n)
        mon.check('resolves to an exchange', not isinstance(r, Failed) and r in listed and call(tc.resolve_alias, r) == r,
                  lambda: 'advertised name %s resolves to %r' % (n, r), case=n)
    for n in repo.ALL:
        mon.equal('exchange resolves to itself', call(tc.resolve_alias, n), n, n, case=n)
    for a, n in ALIASES.items():
        mon.equal('alias resolves', call(tc.resolve_alias, a), n, a, case=a)


def run(task, mon):
    if task[0] == 'names':
        names_task(mon)
        return
    name, order = task[1], task[2]
    x = almanac.E[name]
    rng = rng_for(P, name, order)
    asked = [name] + [a for a, n in ALIASES.items() if n == name]
    rng.shuffle(asked)
    if order == 0:
        asked.sort(key=lambda n: n != name)
    mon.case = 'names asked in the order %s' % asked
    cals = {}
    for n in asked:
        c = call(tc.get_calendar, n)
        if not mon.check('lookup', not isinstance(c, Failed), lambda: 'get_calendar(%r): %r' % (n, c), case=(n, order)):
            return
        cals[n] = c
    first = cals[asked[0]]
    for n in asked[1:]:
        mon.check('same object', cals[n] is first, lambda: '%s and %s give different objects' % (asked[0], n), case=(asked[0], n))
    again = [call(tc.get_calendar, n) for n in asked]
    mon.check('same object', all(c is first for c in again), 'a repeated lookup gives another object', case=('again', name))
    own = call(lambda: first.name)
    back = call(tc.get_calendar, own)
    mon.check('own name', back is first, lambda: '%s reports the name %r, which looks up %r' % (name, own, back), case=name)
    mon.check('own name stands for the exchange', own == name or ALIASES.get(own) == name,
              lambda: '%s reports the name %r' % (name, own), case=name)
    mon.check('zone', zone_ok(str(first.tz), x.zone), lambda: '%s reports the zone %s, not %s' % (name, first.tz, x.zone), case=name)
    if order == 0 or not QUICK:
        identity(mon, name, first)
    mon.sample('%s as %s, zone %s' % (name, asked, first.tz))


if __name__ == '__main__':
    tasks = [('names',)] + [('lookup', n, 0) for n in repo.ALL]
    aliased = sorted(set(ALIASES.values()))
    tasks += [('lookup', n, k) for k in ((1,) if QUICK else range(1, 9)) for n in aliased]
    runner.main(
        P, run, tasks,
        rule='lookups are distinct by name and order of asking; identities by exchange or pair of names',
        minimum={'listed': 77, 'alias resolves': 24, 'lookup': 90, 'own name': 53, 'zone': 53, 'schedule': 53, 'hours': 53}, fresh=True)

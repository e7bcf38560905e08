"""C15: closures match the exchanges' published holiday rules (reference almanac)."""
import bisect

from mon import cases, repo, runner
from mon.cases import build
from mon.model import iso, ordinal
from mon.observe import Failed, Malformed, call, label_days
from mon.repo import label
from mon.runner import rng_for
from ref import almanac

P = 'C15'
QUICK = runner.tier() == 'quick'
WEEK = 'Mon Tue Wed Thu Fri Sat Sun'.split()

# Listed finding: the day after mid-autumn on 1 October is moved to the 2nd even
# before there was a National Day.
MID_AUTUMN = {('XHKG', '1974-10-01'), ('XHKG', '1974-10-02'), ('XHKG', '1993-10-01')}


def name_of(d):
    return '%s %s' % (WEEK[(d - 1) % 7], iso(d))


def compare(mon, name, cal, want, closed, a, b):
    """Every date of [a, b]: session or not?"""
    try:
        got = label_days(cal.all_sessions)
    except Malformed as e:
        mon.violate('date', '%s: %s' % (name, e))
        return
    mon.check('labels in order', all(x < y for x, y in zip(got, got[1:])), '%s: labels not increasing' % name)
    w = want[bisect.bisect_left(want, a):bisect.bisect_right(want, b)]
    gs, ws = set(got), set(w)
    wrong = sorted(gs ^ ws)
    for d in wrong:
        if (name, iso(d)) in MID_AUTUMN:
            mon.known_finding('hk-mid-autumn')
    wrong = [d for d in wrong if (name, iso(d)) not in MID_AUTUMN]
    for d in wrong[:5]:
        mon.violate('date', '%s %s: %s' % (name, name_of(d), 'session, but the exchange is closed'
                                           if d in gs else 'no session, but the exchange trades'))
    mon.seen('date', n=b - a + 1 - len(wrong))
    k = 0
    for d in closed:
        if a <= d <= b and d not in gs:
            mon.seen('closure', case=(name, d))
            k += 1
    return k


def run(task, mon):
    name = task[0]
    x = almanac.E[name]
    want = [d.toordinal() for d in x.sessions()]
    closed = [d.toordinal() for d in sorted(x.holidays()) if x.mask[d.weekday()] == '1']
    lo, hi = ordinal(x.years[0], 1, 1), ordinal(x.years[1], 12, 31)
    mon.case = '%s %s..%s' % (name, iso(lo), iso(hi))
    cls = repo.cls(name)
    cal = build(cls, lo, hi)
    if isinstance(cal, Failed):
        mon.violate('date', 'cannot be constructed over %s..%s: %r' % (iso(lo), iso(hi), cal))
    else:
        n = compare(mon, name, cal, want, closed, lo, hi)
        mon.sample('%s: %d dates from %s to %s, %d holidays on trading weekdays' % (name, hi - lo + 1, iso(lo), iso(hi), n or 0))
        # the public predicate, on both sides of closures
        rng = rng_for(P, name)
        ws = set(want)
        for d in rng.sample(closed, min(25, len(closed))):
            for e in (d, d - 1, d + 1):
                if lo <= e <= hi and (name, iso(e)) not in MID_AUTUMN:
                    mon.equal('is_session', call(cal.is_session, label(e)), e in ws, lambda e=e: '%s is_session(%s)' % (name, name_of(e)), case=(name, e))
    rng = rng_for(P, name, 'windows')
    for _ in range(2 if QUICK else 40):
        a, b = cases.random_window(rng, x.years[0], x.years[1], (20, 120, 400, 1500))
        mon.case = '%s %s..%s' % (name, iso(a), iso(b))
        cal = build(cls, a, b)
        if isinstance(cal, Failed):
            i = bisect.bisect_left(want, a)
            if i < len(want) and want[i] <= b:
                mon.violate('date', '%s: cannot be constructed over a window with sessions: %r' % (name, cal))
            continue
        compare(mon, name, cal, want, closed, a, b)
        mon.seen('window', case=(name, a, b))


if __name__ == '__main__':
    names = sorted(almanac.E, key=lambda n: (n not in ('XTAE', 'XHKG', 'CMES'), n))
    runner.main(
        P, run, [(n,) for n in names],
        rule='a closure is a holiday of the almanac on a trading weekday of one exchange; distinct by exchange and date; '
             'predicate calls distinct by exchange and date; windows distinct by exchange and bounds',
        minimum={'date': 1100000, 'closure': 20000, 'is_session': 2500, 'window': 80},
        assumptions=['before 1990 the rules are taken to apply backwards as the library declares them',
                     'one-off schedules kept as tables in ref/tables.json are frozen copies, cross-checked with the answer '
                     'keys and (C18) with computed feasts'])

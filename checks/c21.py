"""C21: default calendars at injected current dates and times of day."""
import calendar
import datetime
import os
import pickle
import subprocess
import sys

from mon import repo, runner
from mon.cases import build
from mon.declared import Declared
from mon.model import iso, ordinal
from mon.observe import Failed, table
from mon.qmodel import MIN
from mon.repo import pd
from mon.runner import rng_for
from checks.c05 import show

P = 'C21'
QUICK = runner.tier() == 'quick'
KEY = 'special-after-window-end'

# Documented first date of the default window; the tabulated calendars also end
# with their data, whatever the clock says.
START = {'XTKS': (2000, 1, 1), 'us_futures': (2000, 1, 1), 'XSHG': (1999, 1, 1), 'XSES': (1986, 1, 1),
         'XKRX': (1986, 1, 1), 'XBOM': (1997, 1, 1)}
HORIZON = {'XSHG': 2025, 'XSES': 2020, 'XKRX': 2021, 'XBOM': 2020}
LAST_YEAR = 2042


def pick_clock(rng, k):
    """(y, m, d, h, mi, s) of a current instant in 2021-2040."""
    y = rng.randint(2021, 2040)
    m, d = rng.randint(1, 12), rng.randint(1, 28)
    if k % 6 == 0:
        y, m, d = rng.choice((2024, 2028, 2032, 2036, 2040)), 2, 29
    elif k % 6 == 1:
        # one year later an eve or a holiday is the last covered date
        m, d = rng.choice(((12, 24), (12, 25), (12, 31), (12, 30), (1, 1), (7, 3), (7, 4), (11, 24), (11, 29), (4, 30)))
    elif k % 6 == 2:
        # just before or after a leap day, ends of months and years
        y = rng.choice((2023, 2024, 2027, 2028, 2031, 2032))
        m, d = rng.choice(((2, 28), (3, 1), (12, 31), (1, 1), (2, 27)))
    elif k % 6 == 3:
        m = rng.choice((1, 3, 5, 7, 8, 10, 12))
        d = 31
    h, mi, s = rng.choice(((0, 0, 0.0), (0, 0, 1.5), (23, 59, 50.25), (12, 0, 0.0), (4, 59, 59.0), (5, 0, 1.0),
                           (rng.randint(0, 23), rng.randint(0, 59), round(rng.uniform(0, 59), 3)),
                           (rng.randint(0, 23), rng.randint(0, 59), round(rng.uniform(0, 59), 3)),
                           (rng.randint(13, 20), rng.randint(0, 59), 0.0)))
    return y, m, d, h, mi, s


def run(task, mon):
    rng = rng_for(P, *task)
    names, n = task[1], task[2]
    known = {}
    for name in names:
        a = ordinal(*START.get(name, (1990, 1, 1)))
        b = ordinal(HORIZON.get(name, LAST_YEAR), 12, 31)
        if name in ('24/7', 'XHKG'):
            b = ordinal(2041, 12, 31)
        mon.case = '%s explicit %s..%s' % (name, iso(a), iso(b))
        cal = build(repo.cls(name), a, b)
        if isinstance(cal, Failed):
            mon.violate('constructs', 'explicit window %s..%s of %s: %r' % (iso(a), iso(b), name, cal))
            continue
        known[name] = ({r.day: r.full() for r in table(cal)}, Declared(cal), a, b)
    for k in range(n):
        y, m, d, h, mi, s = clock = pick_clock(rng, task[3] + k)
        secs = calendar.timegm((y, m, d, h, mi, 0)) + s
        args = []
        for name in names if k == 0 else rng.sample(names, (len(names) + 1) // 2):
            if name not in known:
                continue
            w = []
            if rng.random() < 0.25:
                _, _, a, b = known[name]
                x = rng.randint(a, b - 800)
                w.append('%d-%d' % (x, x + rng.randint(40, 700)))
            args.append('%s@%s' % (name, ','.join(w)))
        mon.case = 'clock %s, calendars %s' % (clock, args)
        env = dict(os.environ, TZ='UTC', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mon.clockchild', repr(secs)] + args,
                           cwd=runner.VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        at = p.stdout.find(b'RESULT')
        if p.returncode or at < 0:
            mon.violate('constructs', 'with the current date %04d-%02d-%02d %02d:%02d:%s the package fails: %s' % (
                y, m, d, h, mi, s, p.stderr.decode()[-600:]))
            continue
        out = pickle.loads(p.stdout[at + 6:])
        if abs(out['clock'] - secs * 1e9) > 600e9:
            raise RuntimeError('the clock could not be set: asked for %s, got %s' % (clock, pd.Timestamp(out['clock'])))
        mon.seen('clock', case=clock)
        today = datetime.date(y, m, d).toordinal()
        for name, entry in out['names'].items():
            decide(mon, name, entry, known[name], today, secs)
    mon.sample(mon.case)


def decide(mon, name, entry, known, today, secs):
    want, decl, first, last = known
    at = '%s at %s' % (name, pd.Timestamp(int(secs) * 10 ** 9))
    for a, b, rows in entry['explicit']:
        ok = not isinstance(rows, str) and {r[0]: r for r in rows} == {
            o: v for o, v in want.items() if a <= o <= b}
        mon.check('explicit window', ok, lambda: '%s: explicit window %s..%s differs: %s' % (
            at, iso(a), iso(b), rows if isinstance(rows, str) else ''), case=(name, a, b, today))
    rows = entry['default']
    if isinstance(rows, str):
        mon.violate('constructs', '%s: default window %s' % (at, rows))
        return
    mon.seen('constructs', case=(name, today))
    got = {r[0]: r for r in rows}
    # one year after today, read as 365 days or as one calendar year
    t = datetime.date.fromordinal(today)
    later = t.replace(year=t.year + 1, day=28 if (t.month, t.day) == (2, 29) else t.day).toordinal()
    ends = {min(last, today + 365), min(last, later)} if name not in HORIZON else {last}
    hi = max(got)
    allowed = {max(o for o in want if o <= e) for e in ends}
    mon.check('covers to one year ahead', hi in allowed, lambda: '%s: last session is %s, expected %s' % (
        at, iso(hi), ' or '.join(iso(x) for x in sorted(allowed))), case=(name, today))
    lo = min(got)
    mon.check('covers from its start', lo == min(o for o in want if o >= first), lambda: '%s: first session is %s' % (
        at, iso(lo)), case=(name, today))
    end_ns = int(secs * 1e9) + 365 * 86400 * 10 ** 9
    bad = 0
    for o in sorted(set(got) | set(x for x in want if lo <= x <= hi)):
        x, v = got.get(o), want.get(o)
        if x == v:
            continue
        if x is not None and v is not None and o == hi and (v[5] or v[6]):
            u, reg = list(v), decl.regular(o)
            if v[5] and v[1] * MIN > end_ns:
                u[1], u[5] = reg[0], False
            if v[6] and v[4] * MIN > end_ns:
                u[2], u[3], u[4], u[6] = reg[1], reg[2], reg[3], False
            if tuple(u) != v and x == tuple(u):
                mon.known_finding(KEY)
                continue
        bad += 1
        if bad <= 3:
            mon.violate('same report', '%s: %s: the default calendar says %s, an explicit window says %s' % (
                at, iso(o), show(x), show(v)))
    if not bad:
        mon.seen('same report', case=(name, today), n=len(got))


def finding(mon):
    """The listed finding: the default window ends before an early close."""
    name = 'XNYS'
    secs = calendar.timegm((2023, 12, 25, 10, 0, 0))
    mon.case = 'clock 2023-12-25 10:00, XNYS'
    env = dict(os.environ, TZ='UTC', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mon.clockchild', repr(float(secs)), name],
                       cwd=runner.VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    at = p.stdout.find(b'RESULT')
    if p.returncode or at < 0:
        mon.violate('constructs', 'at 2023-12-25 10:00 the package fails: %s' % p.stderr.decode()[-600:])
        return
    out = pickle.loads(p.stdout[at + 6:])
    a, b = ordinal(1990, 1, 1), ordinal(2026, 12, 31)
    cal = build(repo.cls(name), a, b)
    known = {r.day: r.full() for r in table(cal)}, Declared(cal), a, b
    decide(mon, name, out['names'][name], known, datetime.date(2023, 12, 25).toordinal(), secs)


def task(t, mon):
    if t[0] == 'finding':
        finding(mon)
    else:
        run(t, mon)


def main():
    groups = [repo.ALL[i::16] for i in range(16)]
    n = 2 if QUICK else 40
    tasks = [['finding']] + [['clock', g, n if QUICK else 10, i + j] for j in range(0, n, n if QUICK else 10)
                             for i, g in enumerate(groups)]
    runner.main(
        P, task, tasks,
        rule='a case is one current instant (injected before the package is imported, in its own process) and one '
             'built-in calendar with its default window, compared on every date with an explicit window constructed '
             'under another clock; distinct = distinct (calendar, current date)',
        minimum={'clock': 20, 'constructs': 60, 'same report': 100000, 'covers to one year ahead': 60})


if __name__ == '__main__':
    main()

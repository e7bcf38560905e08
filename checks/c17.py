"""C17: tabulated calendars refuse dates beyond their data."""
import datetime

from mon import model, repo, runner
from mon.model import iso, ordinal
from mon.observe import Failed, call, label_days
from mon.repo import label, np, pd
from mon.runner import rng_for

P = 'C17'
QUICK = runner.tier() == 'quick'

from trading_calendars.precomputed_trading_calendar import PrecomputedTradingCalendar  # noqa: E402
import pytz  # noqa: E402

# First and last covered year of each table.
LIMITS = {'XSHG': (1999, 2025), 'XSES': (1986, 2020), 'XKRX': (1986, 2021), 'XBOM': (1997, 2020), 'XHKG': (1960, 2049)}


def year(d):
    return datetime.date.fromordinal(d).year


def weekday_open(d):
    return (d - 1) % 7 < 5


def xhkg_open(d):
    """Sessions of XHKG outside its table: weekdays without the rule-based
    holidays (only the ones near the limits matter)."""
    if not weekday_open(d):
        return False
    dt = datetime.date.fromordinal(d)
    if dt.year < 1970:
        return True
    if (dt.month, dt.day) == (1, 1) or (dt.month, dt.day) == (1, 2) and dt.weekday() == 0:
        return False
    return None if dt > datetime.date(dt.year, 1, 20) else True


def expectation(lo, hi, is_open, a, b):
    """'ok' / ('refused', limits) / 'empty' / None (not decided) for [a, b]."""
    below = above = unknown = False
    for d in range(a, min(b, ordinal(lo, 1, 1) - 1) + 1):
        s = is_open(d)
        if s is None:
            return None
        if s:
            below = True
            break
    for d in range(max(a, ordinal(hi, 12, 31) + 1), b + 1):
        s = is_open(d)
        unknown = unknown or s is None
        if s:
            above = True
            break
    out = []
    if below:
        out.append(lo)
    if above:
        out.append(hi)
    return ('refused', out) if out else None if unknown else 'ok'


def decide(mon, name, lo, hi, cal, a, b, exp, shown):
    if exp is None:
        return
    if exp == 'ok':
        if isinstance(cal, Failed):
            mon.violate('inside', '%s over %s (covered %d-%d) failed: %r' % (name, shown, lo, hi, cal))
            return
        ds = label_days(cal.all_sessions)
        mon.check('inside', all(lo <= year(d) <= hi and a <= d <= b for d in ds), lambda: '%s over %s has sessions %s..%s' % (
            name, shown, iso(ds[0]), iso(ds[-1])), case=(name, a, b))
        return
    if not isinstance(cal, Failed):
        ds = label_days(cal.all_sessions)
        mon.violate('refused', '%s over %s was constructed with sessions %s..%s although only %d-%d are covered' % (
            name, shown, iso(ds[0]), iso(ds[-1]), lo, hi))
        return
    named = any(str(x) in cal.msg for x in exp[1])
    mon.check('refused', 'ValueError' in cal.types and named, lambda: '%s over %s: %r, expected ValueError naming %s' % (
        name, shown, cal, exp[1]), case=(name, a, b))


def windows(rng, lo, hi, n):
    """Windows around the limits."""
    L, H = ordinal(lo, 1, 1), ordinal(hi, 12, 31)
    out = []
    for k in (-30, -7, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5):
        out.append((L + k, L + rng.choice((20, 200))))
        out.append((H - rng.choice((20, 200)), H - k))
    out += [(L - 40, L - 10), (H + 10, H + 40), (L - 400, L - 300), (H + 400, H + 460), (L, H), (L - 1, H + 1), (L - 5, H + 5),
            (L - 20, L - 1), (H + 1, H + 20), (L, L + 30), (H - 30, H), (L + 400, L + 460)]
    rng.shuffle(out)
    return out[:n]


def call_forms(rng, cls, a, b):
    """Both window ends in the several ways callers give them."""
    end = label(b)
    r = rng.random()
    if r < 0.4:
        end = end + pd.Timedelta(hours=rng.randint(0, 23), minutes=rng.randint(0, 59))
    if rng.random() < 0.5:
        return call(cls, start=label(a), end=end), '%s..%s' % (iso(a), end)
    return call(cls, label(a), end), '%s..%s' % (iso(a), end)


def builtin(task, mon):
    rng = rng_for(P, *task)
    name = task[1]
    lo, hi = LIMITS[name]
    cls = repo.cls(name)
    is_open = xhkg_open if name == 'XHKG' else weekday_open
    mon.case = name
    if name == 'XHKG':
        cands = [w for w in windows(rng, lo, hi, 40) if w[0] < ordinal(1960, 6, 1) or w[1] > ordinal(2049, 6, 1)]
    else:
        cands = windows(rng, lo, hi, 40)
    for a, b in cands[:task[2]]:
        cal, shown = call_forms(rng, cls, a, b)
        decide(mon, name, lo, hi, cal, a, b, expectation(lo, hi, is_open, a, b), shown)
    # default window, and one end given
    cal = call(cls)
    if isinstance(cal, Failed):
        mon.violate('default window', '%s() failed: %r' % (name, cal))
    else:
        ds = label_days(cal.all_sessions)
        ok = lo <= year(ds[0]) and year(ds[-1]) <= hi
        if name != 'XHKG':
            ok = ok and year(ds[0]) == lo and year(ds[-1]) == hi and ds[0] < ordinal(lo, 1, 8) and ds[-1] > ordinal(hi, 12, 24)
        mon.check('default window', ok, lambda: '%s() covers %s..%s' % (name, iso(ds[0]), iso(ds[-1])), case=name)
    L, H = ordinal(lo, 1, 1), ordinal(hi, 12, 31)
    if name != 'XHKG':
        for d in (H, H + 1, H + 4, H + 40):
            cal = call(cls, end=label(d))
            decide(mon, name, lo, hi, cal, L, d, expectation(lo, hi, is_open, L, d), 'default..%s' % iso(d))
        for d in (L, L - 1, L - 4, L - 40):
            cal = call(cls, start=label(d))
            decide(mon, name, lo, hi, cal, d, H, expectation(lo, hi, is_open, d, H), '%s..default' % iso(d))
    else:
        for d in (H + 4, H + 40):
            cal = call(cls, end=label(d))
            decide(mon, name, lo, hi, cal, L, d, ('refused', [hi]), 'default..%s' % iso(d))
    mon.sample('%s: windows such as %s' % (name, [(iso(a), iso(b)) for a, b in cands[:4]]))


def user_class(rng, table, mask, form, name):
    vals = [datetime.date.fromordinal(d) for d in table]
    if form == 0:
        h = pd.to_datetime(vals)
    elif form == 1:
        h = pd.to_datetime(vals).tz_localize('UTC')
    elif form == 2:
        h = [pd.Timestamp(v, tz='UTC') for v in vals]
    else:
        h = [pd.Timestamp(v) for v in vals]
    tz = pytz.timezone(rng.choice(('Asia/Tokyo', 'America/New_York', 'Europe/London')))
    return type('UserTabulated', (PrecomputedTradingCalendar,), {
        'name': name, 'tz': tz, 'weekmask': ''.join(map(str, mask)),
        'open_times': ((None, datetime.time(9, 31)),), 'close_times': ((None, datetime.time(16, 0)),),
        'precomputed_holidays': property(lambda self: h)})


def user(task, mon):
    rng = rng_for(P, *task)
    for k in range(task[2]):
        lo = rng.randint(1975, 2060)
        hi = lo + rng.choice((0, 0, 1, 2, 5, 20))
        table = [ordinal(lo, 1, 1) + rng.randint(0, 364), ordinal(hi, 12, 31) - rng.randint(0, 364)]
        if rng.random() < 0.3:
            table[0] = ordinal(lo, rng.choice((1, 12)), rng.choice((1, 31)))
        table += [rng.randint(min(table), max(table)) for _ in range(rng.randint(0, 30))]
        lo, hi = year(min(table)), year(max(table))
        rng.shuffle(table)
        mask = [1, 1, 1, 1, 1, 0, 0] if rng.random() < 0.5 else [rng.randint(0, 1) for _ in range(7)]
        if sum(mask) == 0:
            mask[rng.randrange(7)] = 1
        closed = set(table)
        cls = user_class(rng, table, mask, rng.randrange(4), 'user%d' % k)
        is_open = lambda d: bool(mask[(d - 1) % 7]) and d not in closed
        mon.case = 'user table %s..%s mask %s' % (iso(min(table)), iso(max(table)), mask)
        for a, b in windows(rng, lo, hi, 5):
            # a window without any session cannot be constructed at all
            if not any(is_open(d) for d in range(a, b + 1)):
                continue
            cal, shown = call_forms(rng, cls, a, b)
            decide(mon, 'user table', lo, hi, cal, a, b, expectation(lo, hi, is_open, a, b), shown)
        if rng.random() < 0.4 and any(is_open(d) for d in range(ordinal(lo, 1, 1), ordinal(hi, 12, 31) + 1)):
            cal = call(cls)
            if isinstance(cal, Failed):
                mon.violate('default window', 'default window failed: %r' % cal)
            else:
                ds = label_days(cal.all_sessions)
                want = [d for d in range(ordinal(lo, 1, 1), ordinal(hi, 12, 31) + 1) if is_open(d)]
                mon.check('default window', ds == want, lambda: 'default window has sessions %s..%s, expected %s..%s' % (
                    iso(ds[0]), iso(ds[-1]), iso(want[0]), iso(want[-1])), case=(lo, hi, k, task[1]))


def run(task, mon):
    builtin(task, mon) if task[0] == 'builtin' else user(task, mon)


def main():
    tasks = [['builtin', n, 24 if QUICK else 38] for n in sorted(LIMITS)]
    tasks += [['user', k, 6] for k in range(24 if QUICK else 240)]
    runner.main(
        P, run, tasks,
        rule='a case is one window of a tabulated calendar (built-in or user-defined table), chosen around both limits from '
             'weeks outside to inside by single days; expected to be refused iff some session would fall outside the '
             'covered years; distinct = distinct (calendar, window)',
        minimum={'inside': 150, 'refused': 150, 'default window': 20})


if __name__ == '__main__':
    main()

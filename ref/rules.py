"""A small language for holiday rules.  A rule is a function from a year to the
dates it gives for that year; `since` and `until` are the first and last years (of
the nominal date, inclusive)."""
import datetime

from . import feasts
from .feasts import D, DAY

MON, TUE, WED, THU, FRI, SAT, SUN = range(7)
WEEKDAYS = (MON, TUE, WED, THU, FRI)


# -- where a holiday on a given date is observed ------------------------------
def same(d):
    return d


def sun_mon(d):
    """Sunday -> Monday; Saturday stays."""
    return d + DAY if d.weekday() == SUN else d


def wknd_mon(d):
    """Saturday, Sunday -> Monday."""
    return d + (7 - d.weekday()) * DAY if d.weekday() >= SAT else d


def nearest(d):
    """Saturday -> Friday, Sunday -> Monday."""
    return d - DAY if d.weekday() == SAT else sun_mon(d)


def prev_fri(d):
    """Saturday, Sunday -> Friday."""
    return d - (d.weekday() - FRI) * DAY if d.weekday() >= SAT else d


def second_day(d):
    """The second of two holidays in a row: Saturday -> Monday, Sunday and Monday
    -> Tuesday."""
    return {SAT: d + 2 * DAY, SUN: d + 2 * DAY, MON: d + DAY}.get(d.weekday(), d)


def day_before_working(d):
    """The last weekday strictly before the date."""
    d -= DAY
    while d.weekday() >= SAT:
        d -= DAY
    return d


def next_mon(d):
    """The first Monday on or after the date."""
    return d + (-d.weekday() % 7) * DAY


def nearest_mon_ar(d):
    """Argentina: Tuesday and Wednesday -> the Monday before, else the next one."""
    return d - d.weekday() * DAY if d.weekday() in (MON, TUE, WED) else next_mon(d)


def nearest_mon_cl(d):
    """Chile: Tuesday to Thursday -> the Monday before, Friday -> the next one."""
    w = d.weekday()
    return d - w * DAY if w in (TUE, WED, THU) else d + 3 * DAY if w == FRI else d


def reformation_cl(d):
    """Chile: Tuesday -> the Friday before, Wednesday -> the Friday after."""
    w = d.weekday()
    return d - 4 * DAY if w == TUE else d + 2 * DAY if w == WED else d


# -- rules --------------------------------------------------------------------
def within(y, since, until, skip):
    return (since is None or y >= since) and (until is None or y <= until) and y not in skip


def fixed(m, d, obs=same, since=None, until=None, dow=None, skip=()):
    """A fixed date; dow restricts the weekday of the observed date."""
    def rule(y):
        if not within(y, since, until, skip):
            return []
        x = obs(D(y, m, d))
        return [x] if dow is None or x.weekday() in dow else []
    return rule


def bridged(m, d, since=None, until=None, from_year=None, saturday=False, skip=()):
    """A fixed date, plus the Monday before a Tuesday and the Friday after a
    Thursday (and, if saturday, Friday for Saturday and Monday for Sunday)."""
    def rule(y):
        if not within(y, since, until, skip):
            return []
        x = D(y, m, d)
        out = [x]
        w = x.weekday()
        e = None
        if w == TUE:
            e = x - DAY
        elif w == THU:
            e = x + DAY
        elif saturday and w == SAT:
            e = x - DAY
        elif saturday and w == SUN:
            e = x + DAY
        if e is not None and (from_year is None or e.year >= from_year):
            out.append(e)
        return out
    return rule


def nth(m, w, n, since=None, until=None, plus=0, skip=()):
    """The n-th weekday w of a month (n = -1: the last), plus some days."""
    def rule(y):
        if not within(y, since, until, skip):
            return []
        if n > 0:
            first = D(y, m, 1)
            x = first + ((w - first.weekday()) % 7 + 7 * (n - 1)) * DAY
        else:
            last = (D(y, m, 28) + 4 * DAY).replace(day=1) - DAY
            x = last - ((last.weekday() - w) % 7) * DAY
        return [x + plus * DAY]
    return rule


def on_or_after(m, d, w, since=None, until=None, skip=()):
    def rule(y):
        if not within(y, since, until, skip):
            return []
        x = D(y, m, d)
        return [x + (w - x.weekday()) % 7 * DAY]
    return rule


def on_or_before(m, d, w, since=None, until=None, skip=()):
    def rule(y):
        if not within(y, since, until, skip):
            return []
        x = D(y, m, d)
        return [x - (x.weekday() - w) % 7 * DAY]
    return rule


def easter(k, since=None, until=None, skip=()):
    """k days after Western Easter Sunday."""
    return lambda y: [feasts.easter(y) + k * DAY] if within(y, since, until, skip) else []


def orthodox(k, since=None, until=None, skip=()):
    return lambda y: [feasts.orthodox_easter(y) + k * DAY] if within(y, since, until, skip) else []


def once(text):
    """One-off dates."""
    by_year = {}
    for t in text.split():
        x = D(*map(int, t.split('-')))
        by_year.setdefault(x.year, []).append(x)
    return lambda y: by_year.get(y, [])


def dates(xs):
    by_year = {}
    for x in xs:
        by_year.setdefault(x.year, []).append(x)
    return lambda y: by_year.get(y, [])


def span(a, b):
    """Every date from a to b."""
    x, b = D(*map(int, a.split('-'))), D(*map(int, b.split('-')))
    out = []
    while x <= b:
        out.append(x)
        x += DAY
    return dates(out)


def feast(fn, k=0, obs=same, since=None, until=None, skip=()):
    """k days after a yearly feast fn(year)."""
    return lambda y: [obs(fn(y) + k * DAY)] if within(y, since, until, skip) else []


# -- common names ---------------------------------------------------------------
def new_year(obs=same, **k):
    return fixed(1, 1, obs, **k)


def epiphany(obs=same, **k):
    return fixed(1, 6, obs, **k)


def may_day(obs=same, **k):
    return fixed(5, 1, obs, **k)


def assumption(obs=same, **k):
    return fixed(8, 15, obs, **k)


def all_saints(obs=same, **k):
    return fixed(11, 1, obs, **k)


def immaculate(obs=same, **k):
    return fixed(12, 8, obs, **k)


def xmas_eve(obs=same, **k):
    return fixed(12, 24, obs, **k)


def xmas(obs=same, **k):
    return fixed(12, 25, obs, **k)


def boxing(obs=same, **k):
    return fixed(12, 26, obs, **k)


def nye(obs=same, **k):
    return fixed(12, 31, obs, **k)


good_friday = easter(-2)
easter_monday = easter(1)


def maundy(**k):
    return easter(-3, **k)


def ascension(**k):
    return easter(39, **k)


def whit_monday(**k):
    return easter(50, **k)


def corpus_christi(**k):
    return easter(60, **k)


# British-style Christmas: both days in lieu when they meet a weekend
xmas_in_lieu = [xmas(), boxing(), fixed(12, 27, dow=(MON, TUE)), fixed(12, 28, dow=(MON, TUE))]

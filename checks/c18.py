"""C18: closures tied to a movable feast follow the computed date of the feast."""
from mon import cases, repo, runner
from mon.cases import build
from mon.model import iso, ordinal
from mon.observe import Failed, Malformed, label_days
from mon.runner import rng_for
from ref import almanac, feasts, rules
from ref.feasts import DAY

P = 'C18'
QUICK = runner.tier() == 'quick'
NEAR = 8                # days around a feast in which no other closure may appear

# Listed findings: feasts on which a tabulated exchange trades according to its table.
TABLE_FINDING = {
    ('XKRX', '1996-02-19'), ('XKRX', '1996-02-20'), ('XKRX', '1997-05-14'), ('XSES', '1991-02-15'),
    ('XSES', '1994-02-10'), ('XSES', '1987-04-17'), ('XSHG', '2025-10-06'),
}
# Listed finding: the day after mid-autumn on 1 October is moved to the 2nd even
# before there was a National Day.
MID_AUTUMN = {('XHKG', '1974-10-01'), ('XHKG', '1974-10-02'), ('XHKG', '1993-10-01')}

F = {}


def add(names, label, fn, first=1970, last=2050, lo=0, hi=0):
    """The feast fn(year) -> dates is observed by the exchanges; a closure is
    expected between lo and hi days after the date (0, 0: on the date itself)."""
    for n in names.split():
        a, b = almanac.E[n].years
        F.setdefault(n, []).append((label, fn, max(a, first), min(b, last), lo, hi))


def easter(k):
    return lambda y: [feasts.easter(y) + k * DAY]


def orthodox(k):
    return lambda y: [feasts.orthodox_easter(y) + k * DAY]


EUROPE = ('ASEX XAMS XBRU XPAR XLIS XCSE XDUB XETR XFRA XHEL XICE XLON XMAD XMIL XOSL XSTO XSWX XWAR XWBO')
add(EUROPE + ' BVMF CMES IEPA us_futures XNYS XTSE XMEX XBOG XBUE XLIM XSGO XJSE XASX XNZE XHKG XIDX XPHS',
    'Good Friday', easter(-2))
add('XBUD', 'Good Friday', easter(-2), 2012)
add('XPRA', 'Good Friday', easter(-2), 2013)
add('XSES', 'Good Friday', easter(-2))
add('XBOM', 'Good Friday', easter(-2), 1999)
add(EUROPE + ' XBUD XPRA XJSE XASX XNZE XHKG', 'Easter Monday', easter(1))
add('XCSE XICE XOSL XMEX XBOG XBUE XLIM', 'Maundy Thursday', easter(-3))
add('XPHS', 'Maundy Thursday', easter(-3), 2011)
add('XCSE XHEL XICE XOSL XSTO XSWX', 'Ascension', easter(39))
add('XAMS XBRU', 'Ascension', easter(39), last=2000)
add('XWBO', 'Ascension', easter(39), last=2018)
add('XIDX', 'Ascension', lambda y: [] if y == 2003 else [feasts.easter(y) + 39 * DAY])
add('XCSE', 'day after Ascension', easter(40), 2009)
add('XCSE', 'General Prayer Day', easter(26))
add('XBUD XCSE XICE XOSL XSWX XWBO', 'Whit Monday', easter(50))
add('XAMS XBRU XPAR', 'Whit Monday', easter(50), last=2001)
add('XSTO', 'Whit Monday', easter(50), last=2004)
add('XETR XFRA', 'Whit Monday', easter(50), 2015)
add('BVMF XWAR', 'Corpus Christi', easter(60))
add('XWBO', 'Corpus Christi', easter(60), last=2018)
add('XLIS', 'Corpus Christi', easter(60), last=2002)
add('XLIS', 'Carnival Tuesday', easter(-47), last=2002)
add('BVMF', 'Carnival Monday', easter(-48))
add('BVMF', 'Carnival Tuesday', easter(-47))
add('XBUE', 'Carnival Monday', easter(-48), 2011)
add('XBUE', 'Carnival Tuesday', easter(-47), 2011)
add('XBOG', 'Ascension (Monday)', easter(43))
add('XBOG', 'Corpus Christi (Monday)', easter(64))
add('XBOG', 'Sacred Heart (Monday)', easter(71))
add('XSGO', 'Corpus Christi (Monday)', easter(57), last=2007)
add('ASEX', 'Orthodox Ash Monday', orthodox(-48))
add('ASEX', 'Orthodox Good Friday', orthodox(-2))
add('ASEX', 'Orthodox Easter Monday', orthodox(1))
add('ASEX', 'Orthodox Whit Monday', orthodox(50))


def hebrew(month, day, k=0, autumn=False):
    return lambda y: [feasts.hebrew(y + (3761 if autumn else 3760), month, day) + k * DAY]


def israel_memorial(y):
    d = feasts.hebrew(y + 3760, 'iyar', 4)
    w = d.weekday()
    return d - DAY if w == rules.THU else d - 2 * DAY if w == rules.FRI else d + DAY if w == rules.SUN and y >= 2004 else d


def ninth_of_av(y):
    d = feasts.hebrew(y + 3760, 'av', 9)
    return [d + DAY if d.weekday() == rules.SAT else d]


add('XTAE', 'Purim', hebrew('adar', 14))
add('XTAE', 'Passover eve', hebrew('nisan', 14))
add('XTAE', 'Passover', hebrew('nisan', 15))
add('XTAE', 'Passover II eve', hebrew('nisan', 20))
add('XTAE', 'Passover II', hebrew('nisan', 21))
add('XTAE', 'Memorial Day', lambda y: [israel_memorial(y)])
add('XTAE', 'Independence Day', lambda y: [israel_memorial(y) + DAY])
add('XTAE', 'Pentecost eve', hebrew('sivan', 5))
add('XTAE', 'Pentecost', hebrew('sivan', 6))
add('XTAE', 'Fast of Av', ninth_of_av)
add('XTAE', 'New Year eve', hebrew('tishrei', 1, -1, True))
add('XTAE', 'New Year', hebrew('tishrei', 1, 0, True))
add('XTAE', 'New Year II', hebrew('tishrei', 2, 0, True))
add('XTAE', 'Yom Kippur eve', hebrew('tishrei', 9, 0, True))
add('XTAE', 'Yom Kippur', hebrew('tishrei', 10, 0, True))
add('XTAE', 'Sukkoth eve', hebrew('tishrei', 14, 0, True))
add('XTAE', 'Sukkoth', hebrew('tishrei', 15, 0, True))
add('XTAE', 'Simchat Tora eve', hebrew('tishrei', 21, 0, True))
add('XTAE', 'Simchat Tora', hebrew('tishrei', 22, 0, True))


def lunar(m, d, obs=rules.same, k=0, hours=8):
    return lambda y: [obs(feasts.chinese(y, m, d, hours) + k * DAY)]


SM = rules.sun_mon
for _k in (0, 1, 2):
    add('XHKG', 'Lunar New Year day %d' % (_k + 1), lunar(1, 1, k=_k))
add('XHKG', "Buddha's birthday", lunar(4, 8, SM))
add('XHKG', 'Dragon Boat', lunar(5, 5, SM))
add('XHKG', 'day after Mid-autumn', lunar(8, 15, k=1))
add('XHKG', 'Double Ninth', lunar(9, 9, SM))
add('XHKG', 'Ching Ming', lambda y: [SM(feasts.qingming(y))])
add('XTAI', 'Lunar New Year', lunar(1, 1, rules.wknd_mon))
add('XTAI', 'Dragon Boat', lunar(5, 5))
add('XTAI', 'Mid-autumn', lunar(8, 15))
add('XTAI', 'Tomb Sweeping', lambda y: [feasts.qingming(y)])
add('XKLS', 'Lunar New Year', lunar(1, 1, SM))
add('XKLS', 'Lunar New Year day 2', lambda y: [SM(SM(feasts.chinese(y, 1, 1)) + DAY)])
add('XIDX', 'Lunar New Year', lunar(1, 1), 2002, 2049)
add('XPHS', 'Lunar New Year', lunar(1, 1), 2012, 2049)
for _k in range(6):
    add('XSHG', 'Spring Festival day %d' % (_k + 1), lunar(1, 1, k=_k))
add('XSHG', 'Qingming', lambda y: [feasts.qingming(y)], 2008)
add('XSHG', 'Dragon Boat', lunar(5, 5), 2008)
add('XSHG', 'Mid-autumn', lunar(8, 15), 2008)
add('XSES', 'Lunar New Year', lunar(1, 1))
add('XSES', 'Lunar New Year day 2', lunar(1, 1, k=1))
add('XKRX', 'Seollal', lunar(1, 1, hours=9))
add('XKRX', 'Seollal day 2', lunar(1, 1, k=1, hours=9), 1990)
add('XKRX', 'Seollal eve', lunar(1, 1, k=-1, hours=9), 1989)
for _k in (-1, 0, 1):
    add('XKRX', 'Chuseok%+d' % _k, lunar(8, 15, k=_k, hours=9), 1990)
add('XKRX', "Buddha's birthday", lunar(4, 8, hours=9))

add('XTKS', 'Vernal Equinox', lambda y: [SM(feasts.vernal_equinox(y))])
add('XTKS', 'Autumnal Equinox', lambda y: [SM(feasts.autumnal_equinox(y))])


def islamic(m, d):
    return lambda y: feasts.islamic_in(y, m, d)


add('XIST XKLS', 'end of Ramadan', islamic(10, 1), 1981, 2049, -1, 1)
add('XIST XKLS', 'Feast of the Sacrifice', islamic(12, 10), 1981, 2049, -1, 1)
add('XKLS', 'Islamic New Year', islamic(1, 1), 1981, 2048, -1, 1)
add('XKLS', "Prophet's birthday", islamic(3, 12), 2003, 2048, -1, 1)
add('XIDX XKAR', 'end of Ramadan', islamic(10, 1), 2002, 2019, -1, 1)
add('XIDX XKAR', 'Feast of the Sacrifice', islamic(12, 10), 2002, 2019, -1, 1)
add('XIDX', 'Islamic New Year', islamic(1, 1), 2002, 2019, -1, 1)
add('XKAR', 'Ashura', islamic(1, 10), 2002, 2019, -1, 1)
add('XSES', 'end of Ramadan', islamic(10, 1), 1986, 2020, -1, 1)
add('XSES', 'Feast of the Sacrifice', islamic(12, 10), 1986, 2020, -1, 1)
add('XBOM', 'end of Ramadan', islamic(10, 1), 1997, 2020, -2, 2)
add('XBOM', 'Feast of the Sacrifice', islamic(12, 10), 1997, 2020, -2, 2)


def show(d):
    return d.strftime('%Y-%m-%d %a')


def run(task, mon):
    name = task[0]
    x = almanac.E[name]
    lo, hi = ordinal(x.years[0], 1, 1), ordinal(x.years[1], 12, 31)
    mon.case = '%s %s..%s' % (name, iso(lo), iso(hi))
    cal = build(repo.cls(name), lo, hi)
    if isinstance(cal, Failed):
        mon.violate('feast', 'cannot be constructed over %s..%s: %r' % (iso(lo), iso(hi), cal))
        return
    try:
        trading = set(label_days(cal.all_sessions))
    except Malformed as e:
        mon.violate('feast', '%s: %s' % (name, e))
        return
    published = {d.toordinal() for d in x.sessions()}
    around = set()
    n = 0
    for label, fn, first, last, a, b in F[name]:
        for y in range(first, last + 1):
            for d in fn(y):
                o = d.toordinal()
                if not lo <= o <= hi:
                    continue
                around.update(range(max(lo, o - NEAR), min(hi, o + NEAR) + 1))
                days = range(o + a, o + b + 1)
                if a == b == 0 and o in trading and (name, iso(o)) in TABLE_FINDING:
                    mon.known_finding('tabulated-feast')
                    continue
                if o in trading and (name, iso(o)) in MID_AUTUMN:
                    mon.known_finding('hk-mid-autumn')
                    continue
                if all(e in trading for e in days):
                    mon.violate('feast', '%s %s: a session on %s%s' % (
                        name, label, show(d), '' if a == b else ' and %d days around it' % b))
                    continue
                weekly = all(x.mask[(e - 1) % 7] == '0' for e in days)
                mon.seen('feast on a closing day' if weekly else 'feast', case=None if weekly else (name, label, y))
                n += not weekly
    # no closure (or trading) other than the published ones near a feast: a feast on
    # a wrong date shows on the wrong date as well
    for o in sorted(around):
        if (name, iso(o)) in MID_AUTUMN:
            continue
        if (o in trading) != (o in published):
            mon.violate('near a feast', '%s %s: %s' % (name, iso(o), 'session, but the exchange is closed' if o in trading
                                                       else 'no session, but no feast or holiday falls on it'))
        else:
            mon.seen('near a feast')
    mon.sample('%s: %d dates of %d feasts (%s)' % (name, n, len(F[name]), ', '.join(f[0] for f in F[name])))
    rng = rng_for(P, name)
    for _ in range(1 if QUICK else 30):
        a, b = cases.random_window(rng, x.years[0], x.years[1], (60, 400, 1500))
        mon.case = '%s %s..%s' % (name, iso(a), iso(b))
        cal = build(repo.cls(name), a, b)
        if isinstance(cal, Failed):
            mon.note('window not constructed')
            continue
        got = set(label_days(cal.all_sessions))
        bad = [o for o in around if a <= o <= b and (o in got) != (o in published) and (name, iso(o)) not in MID_AUTUMN]
        mon.check('window', not bad, lambda: '%s: wrong near a feast in a short window: %s' % (
            name, [iso(o) for o in sorted(bad)[:5]]), case=(name, a, b))


if __name__ == '__main__':
    names = sorted(F, key=lambda n: (n not in ('XTAE', 'XHKG', 'CMES'), n))
    runner.main(
        P, run, [(n,) for n in names],
        rule='a feast closure is distinct by exchange, feast and year (those on weekly closing days are not counted); '
             'windows by exchange and bounds',
        minimum={'feast': 9000, 'near a feast': 110000, 'window': 40},
        assumptions=['feast dates are computed from the rules of the respective calendars and from the positions of sun and '
                     'moon; Islamic feasts are allowed one day (in India two) from the tabular date',
                     'near a feast the other closures come from the reference almanac'])

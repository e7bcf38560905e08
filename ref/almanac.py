"""The reference almanac: what each exchange publishes about its closures and
hours, written by hand as rules (see rules.py), with the one-off schedules of some
exchanges kept as tables (tables.json).

For an exchange E: E.closed(year) are the dates given by its rules and one-off
schedule, E.hours(date) the regular local times, E.early / E.late the shortened
sessions.  The tabulated span of an exchange limits what is compared.
"""
import json
import os

from . import feasts
from .feasts import D, DAY
from .rules import (  # noqa: F401
    FRI, MON, SAT, SUN, THU, TUE, WED, WEEKDAYS, all_saints, ascension, assumption, boxing, bridged, corpus_christi,
    dates, day_before_working, easter, easter_monday, epiphany, feast, fixed, good_friday, immaculate, maundy,
    may_day, nearest, nearest_mon_ar, nearest_mon_cl, new_year, next_mon, nth, nye, on_or_after, on_or_before, once,
    orthodox, prev_fri, reformation_cl, same, second_day, span, sun_mon, whit_monday, wknd_mon, xmas, xmas_eve,
    xmas_in_lieu)

FIRST, LAST = 1970, 2050

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')) as f:
    TABLES = json.load(f)


def table(name):
    """Dates of a stored table: {year: 'mmdd mmdd ...'}"""
    return [D(int(y), int(x[:2]), int(x[2:])) for y, text in TABLES[name].items() for x in text.split()]


class Exchange(object):
    def __init__(self, zone, hours, closed, early=(), mask='1111100', years=(FIRST, LAST), open_day=0, breaks=None):
        self.zone = zone
        # [(first date or None, 'HH:MM' open, 'HH:MM' close)], latest last
        self.eras = [(s and D(*map(int, s.split('-'))), hm(o), hm(c)) for s, o, c in hours]
        self.rules = list(closed)
        self.special = [(hm(t), list(rules)) for t, rules in early]
        self.mask = mask
        self.years = years
        self.open_day = open_day        # day offset of the opening time
        self.breaks = breaks and (hm(breaks[0]), hm(breaks[1]))
        self._sessions = None

    def holidays(self, first=None, last=None):
        a, b = first or self.years[0], last or self.years[1]
        out = set()
        for y in range(a - 1, b + 2):
            for r in self.rules:
                out.update(r(y))
        return out

    def sessions(self):
        if self._sessions is None:
            a, b = self.years
            closed = self.holidays()
            d, end, out = D(a, 1, 1), D(b, 12, 31), []
            while d <= end:
                if self.mask[d.weekday()] == '1' and d not in closed:
                    out.append(d)
                d += DAY
            self._sessions = out
        return self._sessions

    def regular(self, d):
        """(open, close) in minutes after local midnight."""
        o = c = None
        for s, oo, cc in self.eras:
            if s is None or s <= d:
                o, c = oo, cc
        return o, c

    def early_closes(self):
        """{session: local minutes of the early close}"""
        a, b = self.years
        ss = set(self.sessions())
        out = {}
        for t, rules in self.special:
            for y in range(a - 1, b + 2):
                for r in rules:
                    for d in r(y):
                        if d in ss:
                            out[d] = t
        return out


def hm(t):
    h, m = t.split(':')
    return int(h) * 60 + int(m)


def day(o, c):
    return [(None, o, c)]


E = {}

# -- Europe ---------------------------------------------------------------------
E['ASEX'] = Exchange(
    'Europe/Athens', [(None, '10:01', '17:00'), ('2008-9-29', '10:01', '17:20')],
    [new_year(), epiphany(), orthodox(-48), fixed(3, 25), good_friday, easter_monday, orthodox(-2), orthodox(1),
     may_day(), orthodox(50), assumption(), fixed(10, 28), xmas_eve(since=2009), xmas(), boxing(),
     span('2015-6-29', '2015-7-31'),
     once('2002-5-7 2004-8-13 2008-3-4 2008-3-5 2013-5-7 2014-12-31 2016-5-3')])


def euronext(zone, own, open_='09:01', close='17:30', short='14:05', eve=None, ny=2002, xmas_eve_since=None):
    return Exchange(
        zone, day(open_, close),
        [new_year(), good_friday, easter_monday, may_day(), xmas(), boxing()] + own,
        early=[(short, [xmas_eve(since=xmas_eve_since), nye(since=ny)])])


E['XAMS'] = euronext('Europe/Amsterdam', [ascension(until=2000), whit_monday(until=2001), fixed(4, 30, until=2001),
                                          nye(until=2001)])
E['XBRU'] = euronext('Europe/Brussels', [ascension(until=2000), whit_monday(until=2001), fixed(7, 21, until=2001),
                                         nye(until=2001)])
E['XPAR'] = euronext('Europe/Paris', [whit_monday(until=2001), fixed(7, 14, until=2001), nye(until=2001)])
E['XLIS'] = euronext(
    'Europe/Lisbon', [easter(-47, until=2002), corpus_christi(until=2002), fixed(4, 25, until=2002),
                      fixed(6, 10, until=2002), fixed(6, 13, until=2001), assumption(until=2002),
                      fixed(10, 5, until=2002), all_saints(until=2002), fixed(12, 1, until=2002),
                      immaculate(until=2002), xmas_eve(until=2002)],
    open_='08:01', close='16:30', short='13:05', ny=None, xmas_eve_since=2003)
E['XBUD'] = Exchange(
    'Europe/Budapest', day('09:01', '17:00'),
    [bridged(1, 1), bridged(3, 15), easter(-2, since=2012), easter_monday, bridged(5, 1), whit_monday(),
     bridged(8, 20), bridged(10, 23), bridged(11, 1), xmas_eve(), xmas(), boxing(until=2012),
     bridged(12, 26, since=2013), nye(since=2011)])
E['XCSE'] = Exchange(
    'Europe/Copenhagen', day('09:01', '17:00'),
    [new_year(), maundy(), good_friday, easter_monday, easter(26), ascension(), easter(40, since=2009), whit_monday(),
     fixed(6, 5), xmas_eve(), xmas(), boxing(), nye()])
E['XDUB'] = Exchange(
    'Europe/Dublin', day('08:01', '16:28'),
    [new_year(wknd_mon), fixed(3, 17, wknd_mon, until=2000), good_friday, easter_monday,
     may_day(wknd_mon, since=2008, until=2009), may_day(wknd_mon, since=2019), nth(5, MON, 1, until=2018),
     nth(6, MON, 1, until=2018), xmas_eve(until=2004), once('2018-3-2')] + xmas_in_lieu,
    early=[('12:28', [xmas_eve(prev_fri, since=2010), nye(prev_fri, since=2010), once('2018-3-1')])])


def germany(short):
    return Exchange(
        'CET', day('09:01', '17:30'),
        [new_year(), good_friday, easter_monday, may_day(), whit_monday(since=2015), fixed(10, 3, since=2014),
         xmas_eve(), xmas(), boxing(), nye(), once('2007-5-28 2017-10-31')],
        early=[(short, [fixed(12, 31, day_before_working, since=2010)])])


E['XETR'] = germany('14:00')
E['XFRA'] = germany('12:30')
E['XHEL'] = Exchange(
    'Europe/Helsinki', day('10:01', '18:30'),
    [new_year(), epiphany(), good_friday, easter_monday, may_day(), ascension(), on_or_after(6, 19, FRI),
     fixed(12, 6), xmas_eve(), xmas(), boxing(), nye()])
E['XICE'] = Exchange(
    'Atlantic/Reykjavik', day('09:31', '15:30'),
    [new_year(), maundy(), good_friday, easter_monday, on_or_after(4, 19, THU), may_day(), ascension(), whit_monday(),
     fixed(6, 17), nth(8, MON, 1), xmas_eve(), xmas(), boxing(), nye()])
E['XIST'] = Exchange(
    'Europe/Istanbul', day('10:01', '18:00'),
    [new_year(), fixed(4, 23), may_day(since=2009), fixed(5, 19), fixed(7, 15, since=2017), fixed(8, 30),
     fixed(10, 29), once('2002-1-4 2003-2-14 2003-11-21 2003-11-24 2003-11-28 2004-1-23 2004-12-30 2004-12-31 2006-1-13')]
    + [dates([x + k * DAY for x in table('eid_al_fitr')]) for k in (0, 1, 2)]
    + [dates([x + k * DAY for x in table('eid_al_adha')]) for k in (0, 1, 2, 3)],
    early=[('12:30', [fixed(10, 28)] + [dates([x - DAY for x in table(t)]) for t in ('eid_al_fitr', 'eid_al_adha')])])
E['XLON'] = Exchange(
    'Europe/London', day('08:01', '16:30'),
    [new_year(wknd_mon), good_friday, easter_monday, nth(5, MON, 1, skip=(1995, 2020)),
     nth(5, MON, -1, skip=(2002, 2012)), nth(8, MON, -1),
     once('1995-5-8 2020-5-8 1977-6-7 2002-6-3 2002-6-4 2012-6-4 2012-6-5 1973-11-14 1981-7-29 2011-4-29 1999-12-31')
     ] + xmas_in_lieu,
    early=[('12:30', [xmas_eve(prev_fri), nye(prev_fri, skip=(1999,))])])
E['XMAD'] = Exchange(
    'Europe/Madrid', day('09:01', '17:30'),
    [new_year(), epiphany(until=2006), good_friday, easter_monday, may_day(), assumption(wknd_mon, until=2004),
     fixed(10, 12, until=2004), all_saints(until=2004), fixed(12, 6, until=2004), immaculate(until=2004),
     xmas_eve(until=2010), xmas(), boxing(), nye(until=2010)],
    early=[('14:00', [xmas_eve(since=2012), nye(since=2012)])])
E['XMIL'] = Exchange(
    'Europe/Rome', day('09:01', '17:30'),
    [new_year(), good_friday, easter_monday, may_day(), assumption(), xmas_eve(), xmas(), boxing(), nye()])
E['XMOS'] = Exchange(
    'Europe/Moscow', day('10:01', '18:45'),
    [new_year(wknd_mon), fixed(1, 2, wknd_mon, skip=(2016,)), fixed(1, 3, since=2005, until=2011),
     fixed(1, 4, since=2005, until=2011), fixed(1, 5, since=2005, until=2011), fixed(1, 6, since=2005, until=2011),
     fixed(1, 7, wknd_mon, skip=(2012, 2017)), fixed(2, 23, wknd_mon, skip=(2013, 2014, 2019)),
     fixed(3, 8, wknd_mon), may_day(wknd_mon), fixed(5, 9, wknd_mon), fixed(6, 12, wknd_mon),
     fixed(11, 4, wknd_mon, since=2005), nye(wknd_mon, skip=(2008, 2009)),
     once('2003-1-3 2013-1-3 2013-1-4 2014-1-3 2003-1-6 2005-1-10 2008-1-8 2009-1-8 2009-1-9 2010-1-8 2011-1-10 '
          '2016-1-8 2006-2-24 2010-2-22 2005-3-7 2011-3-7 2012-3-9 2002-5-2 2002-5-3 2003-5-2 2004-5-4 2007-4-30 '
          '2008-5-2 2012-4-30 2015-5-4 2016-5-3 2002-5-10 2005-5-10 2006-5-8 2017-5-8 2003-6-13 2007-6-11 2008-6-13 '
          '2012-6-11 2014-6-13 2008-11-3 2010-11-5 2002-11-7 2002-11-8 2002-12-12 2002-12-13 2003-11-7 2003-12-12 '
          '2004-11-8 2004-12-13 2008-9-18 2008-10-10 2008-10-27')])
E['XOSL'] = Exchange(
    'Europe/Oslo', day('09:01', '16:20'),
    [new_year(), maundy(), good_friday, easter_monday, may_day(), ascension(), fixed(5, 17), whit_monday(),
     xmas_eve(), xmas(), boxing(), nye()],
    early=[('13:00', [easter(-4, since=2011)])])
E['XPRA'] = Exchange(
    'Europe/Prague', day('09:01', '16:20'),
    [new_year(), easter(-2, since=2013), easter_monday, may_day(), fixed(5, 8), fixed(7, 5), fixed(7, 6), fixed(9, 28),
     fixed(10, 28), fixed(11, 17), xmas_eve(), xmas(), boxing(), nye(), once('2002-8-14 2004-1-2 2005-1-3')])
E['XSTO'] = Exchange(
    'Europe/Stockholm', day('09:01', '17:30'),
    [new_year(), epiphany(), good_friday, easter_monday, may_day(), ascension(), whit_monday(until=2004),
     fixed(6, 6, since=2004), on_or_after(6, 19, FRI), xmas_eve(), xmas(), boxing(), nye()],
    early=[('13:00', [fixed(1, 5), maundy(), fixed(4, 30), easter(38), on_or_after(10, 30, FRI)])])
E['XSWX'] = Exchange(
    'Europe/Zurich', day('09:01', '17:30'),
    [new_year(), fixed(1, 2), good_friday, easter_monday, may_day(), ascension(), whit_monday(), fixed(8, 1),
     xmas_eve(), xmas(), boxing(), nye()])
E['XWAR'] = Exchange(
    'Europe/Warsaw', day('09:01', '17:00'),
    [new_year(), epiphany(since=2011), good_friday, easter_monday, may_day(), fixed(5, 3), corpus_christi(),
     assumption(), all_saints(), fixed(11, 11), xmas_eve(skip=(2004,)), xmas(), boxing(), nye(since=2011),
     once('2005-4-8 2007-12-31 2008-5-2 2009-1-2 2013-4-16 2018-1-2 2018-11-12')])
E['XWBO'] = Exchange(
    'Europe/Vienna', day('09:01', '17:30'),
    [new_year(), epiphany(until=2018), good_friday, easter_monday, ascension(until=2018), whit_monday(),
     corpus_christi(until=2018), may_day(), assumption(until=2018), fixed(10, 26), all_saints(until=2018),
     immaculate(until=2018), xmas_eve(), xmas(), boxing(), nye(prev_fri, until=2015), nye(since=2016)])

# -- the Americas ---------------------------------------------------------------
E['BVMF'] = Exchange(
    'America/Sao_Paulo', [(None, '10:01', '17:00'), ('2019-11-4', '10:01', '18:00')],
    [new_year(), fixed(1, 25), easter(-48), easter(-47), good_friday, corpus_christi(), fixed(4, 21), may_day(),
     fixed(7, 9, since=1998, skip=(2020,)), fixed(9, 7), fixed(10, 12), fixed(11, 2), fixed(11, 15),
     fixed(11, 20, since=2004), xmas_eve(), xmas(), nye(prev_fri), once('2014-6-12')])

mlk = nth(1, MON, 3, since=1998)
presidents = nth(2, MON, 3, since=1971)
memorial = nth(5, MON, -1, since=1971)
independence = fixed(7, 4, nearest)
labor = nth(9, MON, 1)
thanksgiving = nth(11, THU, 4)
us_christmas = xmas(nearest)
us_new_year = new_year(sun_mon)
mourning = once('1972-12-28 1973-1-25 1994-4-27 2004-6-11 2007-1-2 2018-12-5')
sandy = once('2012-10-29 2012-10-30')

E['CMES'] = Exchange(
    'America/Chicago', day('17:01', '17:00'), [us_new_year, good_friday, us_christmas, mourning], open_day=-1,
    early=[('12:00', [mlk, presidents, memorial, labor, independence, thanksgiving, nth(11, THU, 4, plus=1, since=1993),
                      xmas_eve(dow=(MON, TUE, WED, THU))])])
E['IEPA'] = Exchange(
    'America/New_York', day('20:01', '18:00'), [us_new_year, good_friday, us_christmas, mourning, once('2012-10-29')],
    open_day=-1, early=[('13:00', [mlk, presidents, memorial, independence, labor, thanksgiving])])
E['us_futures'] = Exchange(
    'America/New_York', day('18:01', '18:00'), [us_new_year, good_friday, us_christmas], open_day=-1)


def cfe_good_friday(y):
    """Closed on Good Friday, except in years in which Christmas or New Year's Day
    is observed on a Friday."""
    if nearest(D(y, 12, 25)).weekday() == FRI or sun_mon(D(y, 1, 1)).weekday() == FRI:
        return []
    return good_friday(y)


E['XCBF'] = Exchange(
    'America/Chicago', day('08:31', '15:15'),
    [us_new_year, mlk, presidents, cfe_good_friday, independence, memorial, labor, thanksgiving, us_christmas, sandy,
     mourning], early=[('12:15', [nth(11, THU, 4, plus=1, since=1993)])])
E['XNYS'] = Exchange(
    'America/New_York', day('09:31', '16:00'),
    [us_new_year, mlk, fixed(2, 22, nearest, until=1970), presidents, good_friday, memorial, independence, labor,
     thanksgiving, lambda y: on_or_after(11, 2, TUE)(y) if y % 4 == 0 and y <= 1980 else [], us_christmas, mourning,
     sandy, once('1977-7-14 1985-9-27 2001-9-11 2001-9-12 2001-9-13 2001-9-14')],
    early=[('13:00', [fixed(7, 3, since=1995, dow=(MON, TUE, THU)), fixed(7, 5, since=1995, until=2012, dow=(FRI,)),
                      fixed(7, 3, since=2013, dow=(WED,)), nth(11, THU, 4, plus=1, since=1993),
                      xmas_eve(since=1993, dow=(MON, TUE, WED, THU)), once('1997-12-26 1999-12-31 2003-12-26')]),
           ('14:00', [xmas_eve(until=1992, dow=(MON, TUE, WED, THU)),
                      nth(11, THU, 4, plus=1, since=1992, until=1992)])])
E['XTSE'] = Exchange(
    'America/Toronto', day('09:31', '16:00'),
    [new_year(wknd_mon), nth(2, MON, 3, since=2008), good_friday, on_or_before(5, 24, MON), fixed(7, 1, wknd_mon),
     nth(8, MON, 1), labor, nth(10, MON, 2), once('2001-9-11 2001-9-12')] + xmas_in_lieu,
    early=[('13:00', [xmas_eve(since=2010)])])
E['XMEX'] = Exchange(
    'America/Mexico_City', day('08:31', '15:00'),
    [new_year(), fixed(2, 5, until=2006), nth(2, MON, 1, since=2007), fixed(3, 21, until=2006),
     nth(3, MON, 3, since=2007), maundy(), good_friday, may_day(), fixed(9, 16), fixed(11, 2, since=2006),
     fixed(11, 20, until=2006), nth(11, MON, 3, since=2007), fixed(12, 12), xmas(), once('2010-9-17')])
E['XBOG'] = Exchange(
    'America/New_York', day('09:31', '16:00'),
    [new_year(), epiphany(next_mon), fixed(3, 19, next_mon), maundy(), good_friday, may_day(), easter(43), easter(64),
     easter(71), fixed(6, 29, next_mon), fixed(7, 20), fixed(8, 7), fixed(8, 15, next_mon), fixed(10, 12, next_mon),
     fixed(11, 1, next_mon), fixed(11, 11, next_mon), immaculate(), xmas(), nye(prev_fri)])
E['XBUE'] = Exchange(
    'America/Argentina/Buenos_Aires', day('11:01', '17:00'),
    [new_year(), easter(-48, since=2011), easter(-47, since=2011), fixed(3, 24, since=2005),
     fixed(3, 31, next_mon, until=2004), fixed(4, 2, since=2005), maundy(), good_friday, may_day(), fixed(5, 25),
     fixed(6, 17, since=2016), nth(6, MON, 3, until=2010), fixed(6, 20, since=2011), fixed(7, 9),
     nth(8, MON, 3, skip=(2011,)), fixed(10, 12, nearest_mon_ar, skip=(2012,)), fixed(11, 6, until=2017),
     nth(11, MON, 4, since=2010, until=2014), fixed(11, 17, next_mon, since=2017), immaculate(), xmas(),
     once('2009-7-10 2010-5-24 2010-10-27 2012-1-2 2012-2-27 2012-9-24 2013-1-31 2013-2-20 2018-11-30 2011-3-25 '
          '2011-12-9 2012-4-30 2013-4-1 2013-6-21 2014-5-2 2014-12-26 2015-3-23 2015-12-7 2016-7-8 2016-12-9 2018-4-30 '
          '2018-12-24 2018-12-31 2019-7-8 2019-8-19 2019-10-14 2012-10-8 2011-8-22 2015-11-27 2016-11-28'),
     span('2002-1-7', '2002-1-16'), span('2002-4-22', '2002-4-26')],
    early=[('13:00', [xmas_eve(skip=(2018,)), nye(skip=(2018,))])])
E['XLIM'] = Exchange(
    'America/Lima', day('09:01', '16:00'),
    [new_year(), maundy(), good_friday, may_day(), fixed(6, 29), fixed(7, 28), fixed(7, 29), fixed(8, 30),
     fixed(10, 8), all_saints(), immaculate(), xmas(), nye(until=2007),
     once('2009-1-2 2009-7-27 2015-7-27 2015-10-9 2015-1-2 2012-10-1 2012-10-2 2016-11-17 2016-11-18 2018-4-13')])


def santiago_hours():
    out = [(None, '09:31', '17:00')]
    for y in range(1980, 2050):
        out += [('%d-3-1' % y, '09:31', '16:00'), ('%d-11-1' % y, '09:31', '17:00')]
    return out


E['XSGO'] = Exchange(
    'America/Santiago', santiago_hours(),
    [new_year(), good_friday, easter(57, until=2007), may_day(), fixed(5, 21), fixed(6, 29, nearest_mon_cl),
     fixed(7, 16, since=2008), assumption(), fixed(9, 17, since=2003, dow=(MON,)), fixed(9, 18), fixed(9, 19),
     fixed(9, 20, since=2003, dow=(FRI,)), fixed(10, 12, nearest_mon_cl), fixed(10, 31, reformation_cl, since=2008),
     all_saints(), immaculate(), xmas(), nye(), once('2010-9-17 2010-9-20 2017-1-2 2017-4-19 2018-1-16')],
    early=[('12:30', [xmas_eve(), fixed(12, 30)]),
           ('13:30', [maundy(), fixed(9, 17, dow=(TUE, WED, THU, FRI), skip=(2010,))])])

# -- Africa, Asia, Oceania --------------------------------------------------------
E['XJSE'] = Exchange(
    'Africa/Johannesburg', day('09:01', '17:00'),
    [new_year(sun_mon), fixed(3, 21, sun_mon), good_friday, easter_monday, fixed(4, 27, sun_mon), may_day(sun_mon),
     fixed(6, 16, sun_mon), fixed(8, 9, sun_mon), fixed(9, 24, sun_mon), fixed(12, 16, sun_mon), xmas(sun_mon),
     boxing(sun_mon),
     once('2004-4-14 2006-3-1 2009-4-22 2011-5-18 2014-5-7 2016-8-3 2019-5-8 2008-5-2 2011-12-27 2016-12-27')])
E['XASX'] = Exchange(
    'Australia/Sydney', day('10:01', '16:00'),
    [new_year(wknd_mon), fixed(1, 26, next_mon, until=1987), fixed(1, 26, since=1988, until=1988),
     fixed(1, 26, next_mon, since=1989, until=1992), fixed(1, 26, wknd_mon, since=1994), good_friday, easter_monday,
     fixed(4, 25, skip=(2010,)), fixed(4, 25, sun_mon, since=2010, until=2010), nth(6, MON, 2),
     once('2011-4-26 1984-12-31 1990-12-31 1988-1-25 1999-12-31')] + xmas_in_lieu,
    early=[('14:10', [xmas_eve(prev_fri, since=2010), nye(prev_fri, since=2010)])])
E['XNZE'] = Exchange(
    'NZ', day('10:01', '16:45'),
    [new_year(wknd_mon), fixed(1, 2, second_day), fixed(2, 6, until=2014), fixed(2, 6, wknd_mon, since=2015),
     good_friday, easter_monday, fixed(4, 25, until=2014), fixed(4, 25, wknd_mon, since=2015), nth(6, MON, 1),
     nth(10, MON, 4), xmas(wknd_mon), boxing(second_day),
     once('1986-12-22 1986-12-23 1986-12-24 1986-12-29 1986-12-30 1986-12-31 1990-12-24 1990-12-31 1991-12-27 1992-1-3 '
          '1999-12-31')],
    early=[('12:45', [fixed(12, 25, day_before_working, since=2011), fixed(1, 1, day_before_working, since=2012)])])


def xtks():
    """Japan, 2000 to 2021 (the equinoxes are announced a year ahead)."""
    r = [fixed(1, 1), fixed(1, 2), fixed(1, 3), fixed(12, 31), nth(1, MON, 2), fixed(2, 11, sun_mon),
         fixed(4, 29, sun_mon), fixed(5, 5, sun_mon), fixed(5, 4, until=2006),
         feast(lambda y: D(y, 5, 4), obs=lambda d: d + 2 * DAY if d.weekday() == SUN else d, since=2007),
         feast(lambda y: D(y, 5, 3), obs=lambda d: d + 2 * DAY if d.weekday() == SUN else d, until=2006),
         feast(lambda y: D(y, 5, 3), obs=lambda d: d + 3 * DAY if d.weekday() == SUN else d, since=2007),
         fixed(7, 20, sun_mon, until=2002), nth(7, MON, 3, since=2003, skip=(2020, 2021)),
         fixed(8, 11, sun_mon, since=2016, skip=(2020, 2021)), fixed(9, 15, sun_mon, until=2002),
         nth(9, MON, 3, since=2003), nth(10, MON, 2, skip=(2020, 2021)), fixed(11, 3, sun_mon),
         fixed(11, 23, sun_mon), fixed(12, 23, sun_mon, until=2018), fixed(2, 23, sun_mon, since=2020),
         # the Olympic years
         once('2020-7-23 2020-7-24 2020-8-10 2021-7-22 2021-7-23 2021-8-9'),
         # the change of emperor
         once('2019-4-30 2019-5-1 2019-5-2 2019-10-22'),
         feast(feasts.vernal_equinox, obs=sun_mon), feast(feasts.autumnal_equinox, obs=sun_mon),
         # a day between two holidays is one as well
         once('2009-9-22 2015-9-22')]
    return Exchange('Asia/Tokyo', day('09:01', '15:00'), r, years=(2000, 2021))


E['XTKS'] = xtks()


def xtae():
    def h(month, d, k=0, move=same, autumn=False):
        # spring feasts fall in Hebrew year y+3760, the new year ones in y+3761
        return lambda y: [move(feasts.hebrew(y + (3761 if autumn else 3760), month, d)) + k * DAY]

    def memorial_day(y):
        d = feasts.hebrew(y + 3760, 'iyar', 4)
        w = d.weekday()
        if w == THU:
            return d - DAY
        if w == FRI:
            return d - 2 * DAY
        if w == SUN and y >= 2004:
            return d + DAY
        return d
    r = [h('adar', 14), h('nisan', 15, -1), h('nisan', 15), h('nisan', 20), h('nisan', 21),
         lambda y: [memorial_day(y)], lambda y: [memorial_day(y) + DAY], h('sivan', 5), h('sivan', 6),
         h('av', 9, move=lambda d: d + DAY if d.weekday() == SAT else d),
         h('tishrei', 1, -1, autumn=True), h('tishrei', 1, autumn=True), h('tishrei', 2, autumn=True),
         h('tishrei', 9, autumn=True), h('tishrei', 10, autumn=True), h('tishrei', 14, autumn=True),
         h('tishrei', 15, autumn=True), h('tishrei', 21, autumn=True), h('tishrei', 22, autumn=True),
         once('2019-4-9 2019-9-17 2020-3-2 2021-3-23')]
    return Exchange('Asia/Tel_Aviv', day('10:00', '17:15'), r, mask='1111001')


E['XTAE'] = xtae()


def lunar(m, d):
    return lambda y: feasts.chinese(y, m, d)


def xhkg():
    def queen(y):
        """Until 1982 on 21 April, then a Monday in June chosen each year."""
        if y < 1983:
            d = D(y, 4, 21)
            return [next_sunday(d)] if y in (1974, 1981) else [sun_mon(d)]
        if y > 1996:
            return []
        # counted from 10 June: the n-th Monday of the month, in the next month if past
        n = {1983: 2, 1988: 2, 1993: 2, 1994: 2, 1985: 4}.get(y, 3)
        d = nth(6, MON, n)(y)[0]
        return [d if d > D(y, 6, 10) else nth(7, MON, n)(y)[0]]

    def next_sunday(d):
        return d + (SUN - d.weekday()) % 7 * DAY

    def new_year_days(y):
        d = feasts.chinese(y, 1, 1)
        out = [d, d + DAY, d + 2 * DAY]
        if d.weekday() == SAT and y < 2013:
            out.append(d - DAY)
        if y >= 2013 and SUN in [x.weekday() for x in out[:3]]:
            out.append(d + 3 * DAY)
        return out

    def ching_ming(y):
        d = sun_mon(feasts.qingming(y))
        return [d + DAY if d == feasts.easter(y) + DAY else d]

    def mid_autumn(y):
        d = feasts.chinese(y, 8, 15) + DAY
        if (d.month, d.day) == (10, 1) and y >= 1997:
            # National Day
            d += DAY
        return [sun_mon(d) if y >= 2013 else d]
    r = [new_year(sun_mon), good_friday, easter_monday, may_day(sun_mon, since=1999), fixed(7, 1, sun_mon, since=1997),
         nth(8, MON, -1, until=1996), nth(8, MON, 1, until=1982), fixed(10, 1, sun_mon, since=1997), queen, xmas(),
         boxing(), fixed(12, 27, dow=(MON, TUE)), new_year_days, ching_ming, feast(lunar(4, 8), obs=sun_mon),
         feast(lunar(5, 5), obs=sun_mon), mid_autumn, feast(lunar(9, 9), obs=sun_mon), dates(table('hk_one_off'))]

    def eve(y):
        d = feasts.chinese(y, 1, 1)
        return [d - DAY] if y >= 2013 and d.weekday() in (TUE, WED, THU, FRI, SAT) else []
    return Exchange(
        'Asia/Hong_Kong', [(None, '10:01', '16:00'), ('2011-3-7', '09:31', '16:00')], r, years=(1970, 2049),
        early=[('12:30', [nye(until=2010, skip=(1999,)), xmas_eve(until=2010)]),
               ('12:00', [nye(since=2011), xmas_eve(since=2011), eve])],
        breaks=('12:01', '13:00'))


E['XHKG'] = xhkg()


def xtai():
    def workday(d):
        return nearest(d) if d.year > 2013 else d

    def extras(d):
        """From 2007 a festival next to a weekend makes a long one."""
        if d.year > 2006 and d.weekday() == THU:
            return [d + DAY]
        if d.year > 2006 and d.weekday() == TUE:
            return [d - DAY]
        return []

    def festival(fn):
        def rule(y):
            d = workday(fn(y))
            return [d] + extras(d)
        return rule

    def new_year_days(y):
        d = wknd_mon(feasts.chinese(y, 1, 1))
        eve = prev_fri(d - DAY)
        eve2 = prev_fri(eve - DAY)
        two = wknd_mon(d + DAY)
        return [d, eve, eve2, two, wknd_mon(two + DAY)]
    r = [bridged(1, 1, from_year=2014, saturday=True), bridged(2, 28, from_year=2014, saturday=True),
         bridged(4, 4, since=2011, from_year=2014, saturday=True), may_day(sun_mon),
         bridged(10, 10, from_year=2014, saturday=True), new_year_days, festival(feasts.qingming),
         festival(lunar(5, 5)), festival(lunar(8, 15)),
         once('2002-02-07 2002-02-15 2003-01-29 2004-01-19 2005-02-04 2006-02-02 2007-02-22 2007-02-23 2008-02-04 '
              '2009-01-29 2009-01-30 2010-02-18 2010-02-19 2011-01-31 2012-01-26 2012-01-27 2013-02-14 2013-02-15 '
              '2014-01-28 2015-02-16 2016-02-11 2016-02-12 2017-01-25 2018-02-13 2019-01-31 2019-02-08 2020-01-21 '
              '2020-01-22 2020-04-02 2016-04-05 2012-12-31 2012-02-27 2009-01-02 2006-10-09 2005-09-01 2019-09-30 '
              '2019-08-09 2016-09-28 2016-09-27 2016-07-08 2015-09-29 2015-07-10 2014-07-23 2013-08-21 2012-08-02 '
              '2009-08-07 2008-09-29 2008-07-28 2007-09-18 2005-08-05 2005-07-18 2004-10-25 2004-08-25 2004-08-24 '
              '2002-09-06')]
    return Exchange('Asia/Taipei', day('09:01', '13:30'), r, years=(1970, 2049))


E['XTAI'] = xtai()


def xkls():
    cny = [sun_mon(feasts.chinese(y, 1, 1)) for y in range(1960, 2050)]
    fitr = [sun_mon(x) for x in table('my_eid_al_fitr')]
    r = [new_year(sun_mon), fixed(2, 1, sun_mon), may_day(sun_mon), fixed(8, 31, sun_mon),
         fixed(9, 16, sun_mon, since=2010), xmas(sun_mon), dates(cny), dates([sun_mon(x + DAY) for x in cny]),
         dates(fitr), dates([sun_mon(x + DAY) for x in fitr])]
    r += [dates([sun_mon(x) for x in table(t)]) for t in
          ('my_nuzul', 'my_eid_al_adha', 'my_muharram', 'my_mawlid')]
    r += [dates(table(t)) for t in ('my_deepavali', 'my_thaipusam', 'my_wesak', 'my_one_off')]
    return Exchange('Asia/Kuala_Lumpur', day('09:01', '17:00'), r, years=(1970, 2049),
                    early=[('12:30', [dates([x - DAY for x in cny + fitr])])])


E['XKLS'] = xkls()


def xbkk():
    r = [new_year(second_day, skip=(2006,)), fixed(4, 6, wknd_mon), fixed(4, 13), fixed(4, 14, sun_mon),
         fixed(4, 15, lambda d: {SUN: d + DAY, MON: d + DAY}.get(d.weekday(), d)), may_day(wknd_mon),
         fixed(5, 5, wknd_mon, until=2016), fixed(5, 4, wknd_mon, since=2019), fixed(6, 3, wknd_mon, since=2019),
         fixed(7, 28, wknd_mon, since=2017), fixed(8, 12, wknd_mon), fixed(7, 1, since=2002, until=2016),
         fixed(10, 13, wknd_mon, since=2017), fixed(10, 23, wknd_mon), fixed(12, 5, wknd_mon), fixed(12, 10, wknd_mon),
         nye(wknd_mon, skip=(2003,)), dates(table('bkk_one_off')), dates(table('bkk_lunar'))]
    return Exchange('Asia/Bangkok', day('10:01', '16:30'), r)


E['XBKK'] = xbkk()
E['XIDX'] = Exchange(
    'Asia/Jakarta', day('09:01', '15:50'),
    [new_year(), good_friday, may_day(since=2014), ascension(skip=(2003,)), fixed(6, 1, since=2017), fixed(8, 17),
     xmas(), nye(), feast(lunar(1, 1), since=2002, until=2049), dates(table('idx_one_off'))])
E['XKAR'] = Exchange(
    'Asia/Karachi', day('09:33', '15:30'),
    [fixed(2, 5), fixed(3, 23), may_day(), fixed(8, 14), fixed(11, 9, until=2012), xmas(), dates(table('kar_one_off'))])
E['XPHS'] = Exchange(
    'Asia/Manila', day('09:31', '15:30'),
    [good_friday, new_year(since=2011), fixed(2, 25, since=2016), fixed(4, 9, since=2011), maundy(since=2011),
     may_day(since=2011), fixed(6, 12, since=2011), fixed(8, 21, since=2011), nth(8, MON, -1, since=2011),
     all_saints(since=2011), fixed(11, 2, since=2011, dow=(FRI,)), fixed(11, 30, since=2011), xmas_eve(since=2011),
     xmas(since=2011), fixed(12, 30, since=2011), nye(since=2011), feast(lunar(1, 1), since=2012, until=2049),
     dates(table('phs_one_off'))])
for _name, _zone, _open, _close, _years in (
        ('XBOM', 'Asia/Calcutta', '09:16', '15:30', (1997, 2020)), ('XKRX', 'Asia/Seoul', '09:01', '15:30', (1986, 2021)),
        ('XSES', 'Asia/Singapore', '09:01', '17:00', (1986, 2020)),
        ('XSHG', 'Asia/Shanghai', '09:31', '15:00', (1999, 2025))):
    E[_name] = Exchange(_zone, day(_open, _close), [dates(table(_name))], years=_years)

# the Monday rule for Washington's birthday is a rule of 1971
for _name in ('CMES', 'IEPA', 'XCBF'):
    E[_name].years = (1971, LAST)

E['24/7'] = Exchange('UTC', day('00:00', '23:59'), [], mask='1111111')
E['24/5'] = Exchange('UTC', day('00:00', '23:59'), [])

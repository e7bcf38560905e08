"""Movable feasts from first principles (no library used).

Western and Orthodox Easter, the Hebrew calendar, the Chinese lunisolar calendar
and solar terms (from the positions of sun and moon), the Japanese equinoxes and
the tabular Islamic calendar.  Dates are datetime.date.
"""
import datetime
import functools
import math

D = datetime.date
DAY = datetime.timedelta(1)


# -- Easter -----------------------------------------------------------------
@functools.lru_cache(None)
def easter(y):
    """Western Easter Sunday (Gregorian computus)."""
    century = y // 100
    golden = y % 19
    sun = century - century // 4
    moon = (8 * century + 13) // 25
    epact = (sun - moon + 19 * golden + 15) % 30
    # the two exceptions that keep the full moon at most on 18 April
    if epact == 29 or (epact == 28 and golden > 10):
        epact -= 1
    full = D(y, 3, 21) + epact * DAY
    return full + (7 - (full.weekday() + 1) % 7) * DAY


@functools.lru_cache(None)
def orthodox_easter(y):
    """Orthodox Easter Sunday (Julian computus, as a Gregorian date)."""
    golden = y % 19
    moon = (19 * golden + 15) % 30              # days after 21 March (Julian)
    julian = julian_day_number(y, 3, 21) + moon
    # next Sunday after the full moon; JDN mod 7 == 6 is a Sunday
    julian += 7 - (julian - 6) % 7
    return D.fromordinal(julian - 1721425)


def julian_day_number(y, m, d):
    """JDN of a Julian calendar date."""
    a = (14 - m) // 12
    yy, mm = y + 4800 - a, m + 12 * a - 3
    return d + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - 32083


# -- the Hebrew calendar ----------------------------------------------------
HEBREW_EPOCH = -1373427      # ordinal of the epoch


@functools.lru_cache(None)
def hebrew_elapsed(y):
    """Days from the epoch to the molad-and-postponements new year of y."""
    months = (235 * y - 234) // 19
    parts = 12084 + 13753 * months
    day = 29 * months + parts // 25920
    return day + 1 if (3 * (day + 1)) % 7 < 3 else day


@functools.lru_cache(None)
def hebrew_new_year(y):
    """1 Tishrei of Hebrew year y as an ordinal."""
    a, b, c = hebrew_elapsed(y - 1), hebrew_elapsed(y), hebrew_elapsed(y + 1)
    fix = 2 if c - b == 356 else 1 if b - a == 382 else 0
    return HEBREW_EPOCH + b + fix


def hebrew_leap(y):
    return (7 * y + 1) % 19 < 7


def hebrew_months(y):
    """Lengths of Tishrei, Cheshvan, ... of year y in order."""
    days = hebrew_new_year(y + 1) - hebrew_new_year(y)
    out = [30, 30 if days % 10 == 5 else 29, 29 if days % 10 == 3 else 30, 29, 30]
    out += [30, 29] if hebrew_leap(y) else [29]
    out += [30, 29, 30, 29, 30, 29]
    return out


def hebrew(y, month, day):
    """Date of a day in a month counted from Tishrei = 'tishrei' etc."""
    names = ['tishrei', 'cheshvan', 'kislev', 'tevet', 'shevat']
    names += ['adar1', 'adar'] if hebrew_leap(y) else ['adar']
    names += ['nisan', 'iyar', 'sivan', 'tammuz', 'av', 'elul']
    return D.fromordinal(hebrew_new_year(y) + sum(hebrew_months(y)[:names.index(month)]) + day - 1)


# -- sun and moon -----------------------------------------------------------
def delta_t(y):
    """TT - UT in seconds (good to a few seconds in 1950-2100)."""
    if y < 1986:
        t = y - 1975
        return 45.45 + 1.067 * t - t * t / 260.0 - t ** 3 / 718.0
    if y < 2005:
        t = y - 2000
        return 63.86 + 0.3345 * t - 0.060374 * t ** 2 + 0.0017275 * t ** 3 + 0.000651814 * t ** 4 + 0.00002373599 * t ** 5
    t = y - 2000
    return 62.92 + 0.32217 * t + 0.005589 * t * t


def sin(x):
    return math.sin(math.radians(x))


def cos(x):
    return math.cos(math.radians(x))


# main terms of the earth's heliocentric longitude (1e-8 rad)
L0 = [(175347046, 0, 0), (3341656, 4.6692568, 6283.07585), (34894, 4.6261, 12566.1517), (3497, 2.7441, 5753.3849),
      (3418, 2.8289, 3.5231), (3136, 3.6277, 77713.7715), (2676, 4.4181, 7860.4194), (2343, 6.1352, 3930.2097),
      (1324, 0.7425, 11506.7698), (1273, 2.0371, 529.691), (1199, 1.1096, 1577.3435), (990, 5.233, 5884.927),
      (902, 2.045, 26.298), (857, 3.508, 398.149), (780, 1.179, 5223.694), (753, 2.533, 5507.553),
      (505, 4.583, 18849.228), (492, 4.205, 775.523), (357, 2.92, 0.067), (317, 5.849, 11790.629),
      (284, 1.899, 796.298), (271, 0.315, 10977.079), (243, 0.345, 5486.778), (206, 4.806, 2544.314),
      (205, 1.869, 5573.143), (202, 2.458, 6069.777), (156, 0.833, 213.299), (132, 3.411, 2942.463),
      (126, 1.083, 20.775), (115, 0.645, 0.98), (103, 0.636, 4694.003), (102, 0.976, 15720.839),
      (102, 4.267, 7.114), (99, 6.21, 2146.17), (98, 0.68, 155.42), (86, 5.98, 161000.69), (85, 1.3, 6275.96),
      (85, 3.67, 71430.7), (80, 1.81, 17260.15), (79, 3.04, 12036.46)]
L1 = [(628331966747, 0, 0), (206059, 2.678235, 6283.07585), (4303, 2.6351, 12566.1517), (425, 1.59, 3.523),
      (119, 5.796, 26.298), (109, 2.966, 1577.344), (93, 2.59, 18849.23), (72, 1.14, 529.69), (68, 1.87, 398.15),
      (67, 4.41, 5507.55), (59, 2.89, 5223.69), (56, 2.17, 155.42)]
L2 = [(52919, 0, 0), (8720, 1.0721, 6283.0758), (309, 0.867, 12566.152), (27, 0.05, 3.52), (16, 5.19, 26.3)]


def sun_longitude(jde):
    """Apparent geocentric longitude of the sun in degrees."""
    tau = (jde - 2451545.0) / 365250.0

    def s(terms):
        return sum(a * math.cos(b + c * tau) for a, b, c in terms)
    lon = (s(L0) + s(L1) * tau + s(L2) * tau * tau) / 1e8
    t = tau * 10
    om = 125.04452 - 1934.136261 * t
    nut = (-17.20 * sin(om) - 1.32 * sin(2 * (280.4665 + 36000.7698 * t)) - 0.23 * sin(2 * (218.3165 + 481267.8813 * t))
           + 0.21 * sin(2 * om)) / 3600
    return (math.degrees(lon) + 180 + nut - 20.4898 / 3600 - 0.09033 / 3600) % 360


def solar_term(y, degrees):
    """Instant (JD in UT) in year y at which the sun's longitude is `degrees`."""
    jd = 2451545.0 + (y - 2000) * 365.2422 + ((degrees - 280.0) % 360) / 360 * 365.2422
    for _ in range(8):
        d = (degrees - sun_longitude(jd) + 180) % 360 - 180
        jd += d * 365.2422 / 360
    return jd - delta_t(y) / 86400


def new_moon(k):
    """Instant (JD in UT) of new moon number k since January 2000."""
    t = k / 1236.85
    jde = (2451550.09766 + 29.530588861 * k + 0.00015437 * t * t - 0.000000150 * t ** 3 + 0.00000000073 * t ** 4)
    e = 1 - 0.002516 * t - 0.0000074 * t * t
    m = 2.5534 + 29.10535670 * k - 0.0000014 * t * t
    mm = 201.5643 + 385.81693528 * k + 0.0107582 * t * t
    f = 160.7108 + 390.67050284 * k - 0.0016118 * t * t
    om = 124.7746 - 1.56375588 * k + 0.0020672 * t * t
    jde += (-0.40720 * sin(mm) + 0.17241 * e * sin(m) + 0.01608 * sin(2 * mm) + 0.01039 * sin(2 * f)
            + 0.00739 * e * sin(mm - m) - 0.00514 * e * sin(mm + m) + 0.00208 * e * e * sin(2 * m)
            - 0.00111 * sin(mm - 2 * f) - 0.00057 * sin(mm + 2 * f) + 0.00056 * e * sin(2 * mm + m)
            - 0.00042 * sin(3 * mm) + 0.00042 * e * sin(m + 2 * f) + 0.00038 * e * sin(m - 2 * f)
            - 0.00024 * e * sin(2 * mm - m) - 0.00017 * sin(om) - 0.00007 * sin(mm + 2 * m)
            + 0.00004 * sin(2 * mm - 2 * f) + 0.00004 * sin(3 * m) + 0.00003 * sin(mm + m - 2 * f)
            + 0.00003 * sin(2 * mm + 2 * f) - 0.00003 * sin(mm + m + 2 * f) + 0.00003 * sin(mm - m + 2 * f)
            - 0.00002 * sin(mm - m - 2 * f) - 0.00002 * sin(3 * mm + m) + 0.00002 * sin(4 * mm))
    for c, a, b in ((325, 299.77, 0.107408), (165, 251.88, 0.016321), (164, 251.83, 26.651886), (126, 349.42, 36.412478),
                    (110, 84.66, 18.206239), (62, 141.74, 53.303771), (60, 207.14, 2.453732), (56, 154.84, 7.306860),
                    (47, 34.52, 27.261239), (42, 207.19, 0.121824), (40, 291.34, 1.844379), (37, 161.72, 24.198154),
                    (35, 239.56, 25.513099), (23, 331.55, 3.592518)):
        jde += c * 1e-6 * sin(a + b * k)
    return jde - delta_t(2000 + k / 12.3685) / 86400


def local_day(jd, hours):
    """Civil date of an instant at a fixed offset from UT."""
    return D.fromordinal(int(math.floor(jd + 0.5 + hours / 24.0)) - 1721425)


def margin(jd, hours):
    """Minutes between the instant and the nearest local midnight."""
    x = (jd + 0.5 + hours / 24.0) % 1.0
    return min(x, 1 - x) * 1440


# -- the Chinese calendar ---------------------------------------------------
@functools.lru_cache(None)
def chinese_months(y, hours=8):
    """{(month, leap): first day} of the Chinese year beginning in y, by the rule
    that the month of the winter solstice is the eleventh and that the first month
    without a major term is the leap month of a thirteen-month year."""
    out = {}
    for year in (y, y + 1):
        # months from the 11th month of year-1 to the one before that of year
        w0 = local_day(solar_term(year - 1, 270), hours)
        w1 = local_day(solar_term(year, 270), hours)
        k = int(round((year - 1 - 2000 + 0.95) * 12.3685)) - 2
        starts = [local_day(new_moon(i), hours) for i in range(k, k + 19)]
        a = max(i for i, s in enumerate(starts) if s <= w0)
        b = max(i for i, s in enumerate(starts) if s <= w1)
        n = b - a
        terms = [local_day(solar_term(year - 1 if g in (270,) else year, g), hours)
                 for g in [270, 300, 330, 0, 30, 60, 90, 120, 150, 180, 210, 240]] + [w1]
        number, leap_used = 11, n == 12
        prev = None
        for i in range(a, b):
            has = any(starts[i] <= t < starts[i + 1] for t in terms)
            if not leap_used and not has and i > a:
                leap_used = True
                key = (prev, True)
            else:
                if prev is not None:
                    number = number % 12 + 1
                key = (number, False)
                prev = number
            first = starts[i]
            label = key[0]
            # months 11, 12 at the beginning belong to the Chinese year `year-1`
            belongs = year - 1 if (label >= 11 and i - a < 4) else year
            if belongs == y:
                out[key] = first
    return out


def chinese(y, month, day, hours=8):
    """Date of a day of an ordinary month in the Chinese year beginning in y."""
    return chinese_months(y, hours)[(month, False)] + (day - 1) * DAY


def qingming(y):
    return local_day(solar_term(y, 15), 8)


# -- equinoxes in Japan -----------------------------------------------------
def vernal_equinox(y):
    return local_day(solar_term(y, 0), 9)


def autumnal_equinox(y):
    return local_day(solar_term(y, 180), 9)


# -- the tabular Islamic calendar -------------------------------------------
def islamic(y, m, d):
    """Tabular (civil) date; observed dates differ by up to two days."""
    return D.fromordinal(227014 + 354 * (y - 1) + (3 + 11 * y) // 30 + 29 * (m - 1) + m // 2 + d - 1)


def islamic_in(year, m, d):
    """Dates of an Islamic day falling in a Gregorian year."""
    y = int((year - 622) * 33 / 32)
    return [x for x in (islamic(i, m, d) for i in range(y - 1, y + 4)) if x.year == year]

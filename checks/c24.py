"""C24: the shared holiday builders give their named date and honour their arguments."""
from mon import repo, runner
from mon.model import OBSERVANCES, easter, iso, on_or_after, ordinal, weekday
from mon.observe import Failed, call
from mon.repo import HolidayCalendar, np, pd
from mon.runner import rng_for

import pandas.tseries.holiday as ph
from trading_calendars import common_holidays

P = 'C24'
QUICK = runner.tier() == 'quick'


def fixed(month, day):
    return lambda y: ordinal(y, month, day)


def easter_plus(n):
    return lambda y: easter(y) + n


# name: (date in a year, arguments besides start_date/end_date, fixed weekdays)
BUILDERS = {
    'new_years_day': (fixed(1, 1), 'od', None),
    'new_years_eve': (fixed(12, 31), 'od', None),
    'epiphany': (fixed(1, 6), 'od', None),
    'anzac_day': (fixed(4, 25), 'od', None),
    'european_labour_day': (fixed(5, 1), 'od', None),
    'holy_wednesday': (easter_plus(-4), 'd', None),
    'maundy_thursday': (easter_plus(-3), 'd', None),
    'ascension_day': (easter_plus(39), '', None),
    'whit_monday': (easter_plus(50), '', None),
    'corpus_christi': (easter_plus(60), '', None),
    'midsummer_eve': (lambda y: on_or_after(ordinal(y, 6, 19), 4), '', None),
    'saint_peter_and_saint_paul_day': (fixed(6, 29), 'od', None),
    'assumption_day': (fixed(8, 15), 'od', None),
    'all_saints_day': (fixed(11, 1), 'od', None),
    'immaculate_conception': (fixed(12, 8), 'od', None),
    'christmas_eve': (fixed(12, 24), 'od', None),
    'christmas': (fixed(12, 25), 'od', None),
    'weekend_christmas': (fixed(12, 27), 'o', (0, 1)),
    'boxing_day': (fixed(12, 26), 'od', None),
    'weekend_boxing_day': (fixed(12, 28), 'o', (0, 1)),
}
OBS = ['next_monday', 'next_monday_or_tuesday', 'previous_friday', 'sunday_to_monday', 'weekend_to_monday',
       'nearest_workday', 'next_workday', 'previous_workday', 'before_nearest_workday', 'after_nearest_workday']


def random_args(rng, name, lo, hi):
    date, takes, days = BUILDERS[name]
    args = {}
    if 'o' in takes and rng.random() < 0.5:
        args['obs'] = rng.choice(OBS)
    if 'd' in takes and rng.random() < 0.4:
        args['dow'] = tuple(sorted(rng.sample(range(7), rng.randint(1, 6))))
    free = dates_of(name, args, lo, hi, lo, hi)
    for k in ('start', 'end'):
        r = rng.random()
        if r < 0.25 and free:
            args[k] = rng.choice(free) + rng.choice((-1, 0, 0, 0, 1))
        elif r < 0.45:
            args[k] = rng.randint(lo, hi)
    return args


def dates_of(name, args, lo, hi, first, last):
    """The dates in [first, last] a builder called with args stands for."""
    date, takes, days = BUILDERS[name]
    days = args.get('dow', days)
    out = []
    for y in range(1969, 2202):
        o = OBSERVANCES[args.get('obs')](date(y))
        if days is not None and weekday(o) not in days:
            continue
        if args.get('start') is not None and o < args['start']:
            continue
        if args.get('end') is not None and o > args['end']:
            continue
        if first <= o <= last:
            out.append(o)
    return out


def empty(name, args, a, b):
    """Can the rule be left without any date before its weekdays are filtered?  (pandas fails then.)"""
    return bool(args.get('obs')) and (args.get('dow') or BUILDERS[name][2]) is not None and \
        min(b, args.get('end', b)) - max(a, args.get('start', a)) < 800


def make(rng, name, args):
    """Calls the real builder, with dates in one of their accepted forms."""
    kw = {}
    forms = (iso, lambda o: pd.Timestamp(iso(o)), lambda o: pd.Timestamp(iso(o), tz='UTC'))
    form = rng.choice(forms)
    if args.get('start') is not None:
        kw['start_date'] = form(args['start'])
    if args.get('end') is not None:
        kw['end_date'] = form(args['end'])
    if args.get('obs'):
        kw['observance'] = getattr(ph, args['obs'])
    if args.get('dow') is not None:
        kw['days_of_week'] = args['dow']
    fn = getattr(common_holidays, name)
    order = [p for p in ('start_date', 'end_date', 'observance', 'days_of_week') if p in kw]
    positional = []
    if rng.random() < 0.3 and order == ['start_date', 'end_date']:
        positional = [kw.pop('start_date'), kw.pop('end_date')]
    return call(fn, *positional, **kw), ('%s(%s)' % (name, ', '.join(
        [str(p) for p in positional] + ['%s=%s' % (k, getattr(v, '__name__', v)) for k, v in sorted(kw.items())])))


def ordinals(index):
    return [pd.Timestamp(x).date().toordinal() for x in index]


def one(mon, rng, name, n):
    lo, hi = ordinal(1970, 1, 1), ordinal(2200, 12, 31)
    for k in range(n):
        args = {} if k == 0 else random_args(rng, name, ordinal(1972, 1, 1), ordinal(2100, 12, 31))
        rule, shown = make(rng, name, args)
        mon.case = shown
        if isinstance(rule, Failed):
            mon.violate('builder', '%s failed: %r' % (shown, rule))
            continue
        whole = dates_of(name, args, lo, hi, lo, hi)
        for j in range(3):
            if j == 0:
                a, b = ordinal(1971, 1, 1), ordinal(2120, 12, 31)
            else:
                a = rng.randint(ordinal(1971, 1, 1), ordinal(2110, 1, 1))
                b = a + rng.choice((0, 1, 30, 400, 5000))
                if whole and rng.random() < 0.7:     # ends exactly on a date
                    d = rng.choice(whole)
                    if rng.random() < 0.5:
                        a, b = d, max(b, d)
                    else:
                        a, b = min(a, d), d
            got = call(lambda: ordinals(rule.dates(pd.Timestamp(iso(a)), pd.Timestamp(iso(b)))))
            want = dates_of(name, args, lo, hi, a, b)
            if isinstance(got, Failed) and empty(name, args, a, b):
                mon.note('empty rule not evaluated by pandas')
                continue
            mon.check('builder', got == want, lambda: '%s over %s..%s: %s' % (
                shown, iso(a), iso(b), difference(got, want)), case=(shown, a, b) if want else None)
    mon.sample(mon.case)


def difference(got, want):
    if isinstance(got, Failed):
        return repr(got)
    return 'also %s, lacks %s' % (
        [iso(o) for o in sorted(set(got) - set(want))[:4]], [iso(o) for o in sorted(set(want) - set(got))[:4]])


def together(mon, rng, n):
    """Several rules in one holiday calendar, asked for ranges in any order."""
    lo, hi = ordinal(1970, 1, 1), ordinal(2200, 12, 31)
    present = [b for b in sorted(BUILDERS) if hasattr(common_holidays, b)]
    for _ in range(n):
        cals = []
        for _ in range(2):
            picks, shown = [], []
            names = rng.sample(present, rng.randint(1, 6))
            if rng.random() < 0.4:      # one holiday with several spans of years
                names += names[:1] * rng.randint(1, 2)
            for name in names:
                args = random_args(rng, name, ordinal(1985, 1, 1), ordinal(2030, 12, 31)) if rng.random() < 0.6 else {}
                rule, text = make(rng, name, args)
                if isinstance(rule, Failed):
                    mon.violate('builder', '%s failed: %r' % (text, rule))
                    continue
                picks.append((name, args, rule))
                shown.append(text)
            cals.append((HolidayCalendar([r for _, _, r in picks]), picks, shown))
        for _ in range(6):
            cal, picks, shown = rng.choice(cals)
            a = rng.randint(ordinal(1980, 1, 1), ordinal(2035, 1, 1))
            b = a + rng.choice((0, 20, 400, 3000))
            mon.case = '; '.join(shown)
            got = call(lambda: ordinals(cal.holidays(pd.Timestamp(iso(a)), pd.Timestamp(iso(b)))))
            want = sorted(set(o for name, args, _ in picks for o in dates_of(name, args, lo, hi, a, b)))
            if isinstance(got, Failed) and any(empty(name, args, a, b) for name, args, _ in picks):
                mon.note('empty rule not evaluated by pandas')
                continue
            ok = not isinstance(got, Failed) and got == sorted(got) and sorted(set(got)) == want
            mon.check('holiday calendar', ok, lambda: '%s..%s: %s' % (iso(a), iso(b), difference(got, want)),
                      case=(mon.case, a, b) if want else None)
        # used by a calendar: each of its dates in the window is closed
        if rng.random() < 0.25:
            cal, picks, shown = cals[0]
            a = rng.randint(ordinal(1985, 1, 1), ordinal(2028, 1, 1))
            b = a + rng.choice((40, 500))
            mon.case = '; '.join(shown)
            # a calendar evaluates its rules from 1970 to 2200
            if any(empty(name, args, lo, hi) for name, args, _ in picks):
                mon.note('empty rule not evaluated by pandas')
                continue
            base = repo.cls('24/7')
            c = call(type('Shared', (base,), {'regular_holidays': cal}), repo.label(a), repo.label(b))
            if isinstance(c, Failed):
                mon.violate('closed', 'construction over %s..%s: %r' % (iso(a), iso(b), c))
                continue
            closed = set(o for name, args, _ in picks for o in dates_of(name, args, lo, hi, a, b))
            got = ordinals(c.all_sessions)
            want = [o for o in range(a, b + 1) if o not in closed]
            mon.check('closed', got == want, lambda: '%s..%s: %s' % (iso(a), iso(b), difference(got, want)),
                      case=(mon.case, a, b))


def run(task, mon):
    rng = rng_for(P, *task)
    if task[0] == 'together':
        together(mon, rng, task[2])
    elif not hasattr(common_holidays, task[1]):
        mon.note('builder not present')
    else:
        one(mon, rng, task[1], task[2])


def main():
    n = 40 if QUICK else 500
    tasks = [['builder', name, n] for name in sorted(BUILDERS)]
    tasks += [['together', k, 25 if QUICK else 150] for k in range(8 if QUICK else 32)]
    runner.main(
        P, run, tasks,
        rule='a case is one builder called with one set of arguments and asked for one range of dates, or one holiday '
             'calendar of several rules asked for one range; distinct non-trivial = distinct (arguments, range) in '
             'which at least one date is expected',
        minimum={'builder': 1500, 'holiday calendar': 600, 'closed': 8},
        assumptions=['dates 1971-2120; the order of application (observance, weekdays, validity dates) is that of pandas'])


if __name__ == '__main__':
    main()

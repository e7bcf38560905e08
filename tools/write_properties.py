"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json
import os

TC = 'trading_calendars/trading_calendar.py'
CU = 'trading_calendars/calendar_utils.py'
CH = 'trading_calendars/calendar_helpers.py'
PU = 'trading_calendars/utils/pandas_utils.py'
MZ = 'trading_calendars/utils/memoize.py'
PC = 'trading_calendars/precomputed_trading_calendar.py'
EX = 'trading_calendars/exchange_calendar_*.py'
CO = 'trading_calendars/common_holidays.py'
US = 'trading_calendars/us_holidays.py'

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id,
        'title': title,
        'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(observe),
            'hook_needed': None,
        },
    })


prop(
    'C01', 'Every constructed schedule is well formed and its views agree',
    'For every calendar and construction window, session labels are strictly increasing UTC midnights '
    'inside the window, every session opens strictly before it closes on whole minutes, sessions do not '
    'overlap (each closes before the next one opens), and a break is either wholly absent or has both ends, '
    'in order, strictly inside its session. '
    'First/last session, the open/close/break accessors for one session, the open and close columns and the '
    'opens/closes over a range all report exactly what the schedule table holds.',
    ['inputs', 'configurations'],
    'all built-in calendars and user-defined calendar definitions, all construction windows (1970 onwards), all sessions in them',
    'Tests compare one default window per exchange with one CSV of opens/closes; the structural invariants are not '
    'asserted for other windows, other years or user definitions, and the accessors are sampled on a handful of sessions.',
    [TC, PU, CH],
    [('date_range over the custom business day', TC + ':__init__'),
     ('era grouping of opens/breaks/closes', TC + ':_group_times'),
     ('break consistency check', TC + ':_check_breaks_match')],
    [('schedule', 'one row per session: open, break start, break end, close', TC + ':__init__')],
    ['schedule', 'opens', 'closes', 'session_open/close/break_*', 'session_opens_in_range', 'first_session/last_session'])

prop(
    'C02', 'A date is a session exactly when nothing declared closes it',
    'For every calendar definition and window, a date in the window is a session if and only if its weekday is a '
    'declared trading weekday and the date is neither one of the declared recurring holidays nor a declared one-off '
    'closure. '
    'Declaring or removing one closure changes the sessions by exactly that date and nothing else.',
    ['inputs', 'configurations'],
    'all definitions: any weekday mask, any recurring-holiday rules (observance shifts, offsets, validity dates), any one-off closures, any window; and every built-in calendar with respect to its own public declarations',
    'Tests exercise fixed exchange definitions in their default window, so arbitrary combinations of weekday mask, recurring rules and one-off '
    'dates (and closures at window edges) are never built.',
    [TC, EX, CO, US],
    [('custom business day built from weekday mask, rules and one-off dates', TC + ':day'),
     ('date_range with that offset', TC + ':__init__')],
    [('regular_holidays/adhoc_holidays/weekmask', 'the public declarations', TC)],
    ['all_sessions', 'is_session'])

prop(
    'C03', 'Sessions open, break and close at the declared local wall-clock time',
    'On every session without a declared special time, open, break start, break end and close are the instants at which the '
    'exchange-local clock reads the declared time (on the session date shifted by the declared day offset for opens and closes), '
    'for every daylight-saving or zone change. '
    'When the declared time changes over the years, the entry with the latest start date on or before the session date applies, '
    'including on the very first session of an era.',
    ['inputs', 'configurations'],
    'all definitions: time zones, era lists, day offsets, breaks; all session dates, in particular days around clock changes and era boundaries; all built-ins',
    'Tests check the CSV years of each exchange and two fixed DST dates; they do not quantify over zones, era boundaries, offsets and windows.',
    [TC, PU],
    [('era selection', TC + ':selection/_group_times'),
     ('local time to UTC conversion', PU + ':days_at_time')],
    [('open_times/close_times/break_start_times/break_end_times', 'declared era lists', TC)],
    ['schedule', 'session_open', 'session_close', 'break_start_and_end_for_session'])

prop(
    'C04', 'Late opens and early closes apply exactly on their declared dates',
    'A declared special open or close replaces the regular open or close of exactly the sessions it is declared for (recurring or '
    'one-off), at the declared local time on the session date, and touches nothing else except that a session with a special close '
    'has no break. '
    'The lists of late opens and of early closes contain exactly those sessions. '
    'A special time declared for a date in the window that is not a session makes construction fail with ValueError.',
    ['inputs', 'configurations'],
    'all definitions with special opens/closes (recurring rules and one-off lists, several times of day, with and without breaks) and all windows, including special dates on the first and last date of the window',
    'Tests check hand-listed dates of real exchanges inside a wide window; no test puts a special date on the window edge or combines special opens, closes and breaks.',
    [TC, EX],
    [('special dates collected and clipped to the window', TC + ':_special_dates'),
     ('overwriting opens/closes', TC + ':_overwrite_special_dates'),
     ('dropping breaks', TC + ':_remove_breaks_for_special_dates')],
    [('late_opens/early_closes', 'sessions with special times', TC)],
    ['schedule', 'late_opens', 'early_closes'])

prop(
    'C05', 'What a calendar says about a date does not depend on the window',
    'For two windows of the same calendar, every date inside both has the same session status, open, close, break and '
    'late-open/early-close membership in both, including when it is the first or last date of a window. '
    'A window inside a window that can be constructed can itself be constructed as long as it contains a session.',
    ['inputs', 'configurations'],
    'all built-in calendars and user definitions, all pairs of overlapping windows (down to one session), with the end of the window given at any time of day',
    'Every exchange test uses a single window; nothing compares two windows.',
    [TC, PC, EX],
    [('window clipping of sessions and of special dates', TC + ':__init__/_special_dates')],
    [],
    ['schedule', 'late_opens', 'early_closes'])

prop(
    'C06', 'Trading minutes are exactly the minutes inside sessions',
    'The list of trading minutes is strictly increasing and consists of exactly every whole minute from open to close, both inclusive, of every session, '
    'except the minutes strictly between a session\'s break start and break end. '
    'A minute is reported open exactly when it is in that list (or, when breaks are to be ignored, when it lies in a session from open to close), and the minute '
    'count of any range of sessions, the minutes of one session and the minutes of a range of sessions all agree with the list.',
    ['inputs', 'configurations'],
    'all calendars and definitions (including breaks, special closes, 24-hour sessions), all minutes in and around the window',
    'Tests probe a few minutes of a few sessions; the session-count formula, the minute list and the open test are separate code paths that no test compares over all minutes.',
    [TC, CH],
    [('building the minute list', CH + ':compute_all_minutes'),
     ('binary search for open test', TC + ':is_open_on_minute'),
     ('minutes per session formula', TC + ':_minutes_per_session')],
    [('all_minutes', 'every trading minute', TC)],
    ['all_minutes', 'is_open_on_minute', 'minutes_for_session', 'minutes_for_sessions_in_range', 'minutes_count_for_sessions_in_range'])

prop(
    'C07', 'Next/previous open, close and minute are the nearest ones',
    'For every instant, the next (previous) open, close or trading minute is the nearest one strictly later (strictly earlier) than it, '
    'with no special treatment of instants that are themselves an open, a close or a trading minute. '
    'When there is none in the calendar the query fails with an exception instead of returning some other instant.',
    ['inputs'],
    'all calendars, all instants at any resolution inside, between and beyond the sessions, including every open, close, break boundary and one unit around them',
    'Tests look at a handful of boundary minutes of one session; off-by-one errors at break edges, window ends or sub-minute instants are not sampled.',
    [TC, CH],
    [('divider search', CH + ':next_divider_idx/previous_divider_idx')],
    [],
    ['next_open', 'next_close', 'previous_open', 'previous_close', 'next_minute', 'previous_minute'])

prop(
    'C08', 'Every minute maps to the right session in every direction mode',
    'A minute inside a session (from open to close, break included) belongs to that session; outside any session the forward mode gives the first '
    'session that opens later, the backward mode the last one that closed earlier, and both fail with an exception when there is none. '
    'The strict mode gives the session of a trading minute and fails with ValueError for any other minute, an unknown mode fails with ValueError, and repeating or interleaving '
    'queries never changes an answer. '
    'Mapping a whole ordered index of in-session minutes equals mapping each minute, and an index that is unordered or holds an out-of-session minute (before the '
    'first open and after the last close included) is rejected with ValueError.',
    ['inputs', 'histories'],
    'all calendars, all instants including before the first open and after the last close, all direction modes, all query orders',
    'Tests query a few minutes around two sessions in the middle of a window, so both ends of the calendar, breaks, sub-minute instants and query-order effects of the cached last answer are never reached.',
    [TC],
    [('search over closes plus open test', TC + ':minute_to_session_label'),
     ('last-answer cache', TC + ':minute_to_session_label'),
     ('vectorised mapping', TC + ':minute_index_to_session_labels')],
    [('last answer cache', 'minute and label of the previous forward query', TC)],
    ['minute_to_session_label', 'minute_index_to_session_labels'])

prop(
    'C09', 'Session arithmetic agrees with the ordered list of sessions',
    'Next and previous session are the neighbours in the session list and fail with ValueError at its ends; a session window of n contains the given session and the n sessions '
    'after (or before, for negative n) it, truncated at the ends of the calendar. '
    'Sessions, opens and closes over a date range are exactly those with first date <= label <= last date for any dates, and the distance between two dates is the number of '
    'sessions between them, both inclusive, negated when they are given in reverse order.',
    ['inputs'],
    'all calendars, all sessions and arbitrary dates (non-session days, outside the window, reversed), all window sizes including zero and sizes beyond either end',
    'Tests use fixed small ranges in the middle of a calendar.',
    [TC],
    [('index arithmetic on the session index', TC + ':next_session_label/previous_session_label/sessions_window/sessions_in_range/session_distance')],
    [],
    ['next_session_label', 'previous_session_label', 'sessions_in_range', 'sessions_window', 'session_distance', 'session_opens_in_range', 'session_closes_in_range'])

prop(
    'C10', 'Minute ranges, windows and execution minutes are exact slices',
    'The minutes in a range are exactly the trading minutes between its two ends, both inclusive, for any instants, inside or outside the calendar. '
    'A minute window of n starts at (or, for negative n, ends at) the last trading minute not after the given instant and holds |n| minutes, truncated at the ends of the calendar; '
    'it fails with KeyError when there is no such minute. '
    'Execution minutes of a session, and of a range of sessions, are exactly its trading minutes from its execution open to its execution close, where the execution '
    'times are the open and close shifted by the amounts the calendar declares.',
    ['inputs'],
    'all calendars (those with declared execution offsets included), all instants, all counts of either sign and zero, sessions at both ends',
    'Tests use in-range inputs in the middle of the calendar; the ends, gaps, breaks and negative windows near the beginning are untested.',
    [TC, 'trading_calendars/us_futures_calendar.py'],
    [('slicing the minute index by binary search', TC + ':minutes_in_range/minutes_window'),
     ('execution offsets', TC + ':execution_time_from_open/execution_time_from_close')],
    [],
    ['minutes_in_range', 'minutes_window', 'execution_minutes_for_session', 'execution_minutes_for_sessions_in_range'])

prop(
    'C11', 'Answers do not depend on what ran before or at the same time',
    'Any sequence or concurrent interleaving of constructions and queries, on one or several calendars, gives each query the answer it has on a freshly built calendar queried alone. '
    'No query changes what any calendar (or a calendar constructed later, in any window) reports.',
    ['schedules', 'histories'],
    'all histories of queries and constructions over several calendars in one process, and all thread interleavings of queries on shared calendars',
    'Tests run sequentially with one fixture calendar; the caches, shared rule objects and in-place array writes are never exercised under interleaving or reuse.',
    [TC, MZ, EX, 'trading_calendars/lunisolar_holidays.py'],
    [('last-answer cache as one immutable pair', TC + ':minute_to_session_label'),
     ('lazily computed attributes', MZ),
     ('module-level holiday tables shared by all instances', EX)],
    [('minute->session cache', 'last forward query', TC)],
    ['all public queries and constructors'])

prop(
    'C12', 'The calendar registry behaves as one map of names',
    'Each name is at any time unregistered, an instance, a factory or an alias of another name, and lookups, listings and existence tests reflect exactly the registrations made so far: '
    'registering a taken name without force is rejected, with force replaces whatever was there, and a rejected operation leaves the registry unchanged. '
    'Aliases resolve through chains to the final name, an alias that would close a cycle is rejected, and an unresolvable or unknown name is rejected naming the name asked for. '
    'A factory is invoked lazily and every lookup through any alias, sequential or concurrent, yields one and the same object until the name is deregistered or replaced.',
    ['histories', 'schedules'],
    'all histories of register (instance, factory, alias; with and without force), deregister, clear, lookup, resolve and list operations, sequential and concurrent',
    'Tests run about ten fixed short histories, sequentially.',
    [CU, 'trading_calendars/errors.py'],
    [('three dictionaries searched in order', CU + ':TradingCalendarDispatcher')],
    [('calendars/factories/aliases', 'the registry', CU)],
    ['register_calendar', 'register_calendar_type', 'register_calendar_alias', 'resolve_alias', 'deregister_calendar', 'clear_calendars', 'get_calendar', 'get_calendar_names', 'has_calendar'])

prop(
    'C13', 'Every advertised name yields the calendar it stands for',
    'Every built-in name and alias can be looked up and yields the calendar of that exchange; an alias yields the very same object as the exchange it stands for and a calendar\'s own reported name looks up that same calendar. '
    'Every advertised name is listed and resolves to a built-in exchange, no alias shadows an exchange, and each calendar reports its exchange\'s own time zone.',
    ['configurations'],
    'all built-in names and aliases',
    'Exchange tests construct classes directly; the name table itself is only sampled, so a swapped or missing entry is unnoticed.',
    [CU, 'trading_calendars/__init__.py', EX],
    [('factory and alias tables', CU)],
    [],
    ['get_calendar', 'get_calendar_names', 'resolve_alias', 'name', 'tz'])

prop(
    'C14', 'The command-line month and year views show exactly the sessions',
    'For every calendar, year and month, the printed month (alone or within the year view) lists every day of the month once in order under its weekday, with brackets around exactly the days that are not sessions, and the title names the month (and year). '
    'The year view shows all twelve months in order, and no year/month argument means the current month. '
    'Malformed arguments or an unknown calendar print a message on the error stream only and exit with a nonzero status. The copy of the command kept in etc/ behaves the same.',
    ['inputs'],
    'all calendars, all years (leap years, months starting on any weekday, inside and outside the calendar\'s window), all argument shapes',
    'The command has two golden-text tests for one calendar and year.',
    ['trading_calendars/tcal.py', 'setup.py'],
    [('month rendering', 'trading_calendars/tcal.py:_render_month'),
     ('joining months', 'trading_calendars/tcal.py:_concat_lines'),
     ('argument parsing', 'trading_calendars/tcal.py:parse_args')],
    [],
    ['stdout', 'stderr', 'exit status of tcal'])

prop(
    'C15', 'Exchange closures match the exchanges\' published holiday rules',
    'For every built-in exchange and every year from 1970 (or from the start of its tabulated data) to its data horizon, the dates on which it has no session are exactly its weekly closing days plus the holidays its published rules give for that year '
    '(fixed-date, nth-weekday and feast-relative holidays with their weekend substitution rules and their first and last years, and its one-off closures).',
    ['inputs', 'configurations'],
    'all built-in exchanges, all dates 1970-2050 (within the tabulated horizon for calendars based on tables)',
    'Answer-key files cover roughly 1990-2016/2020 for most exchanges, so earlier years, all later years and the current default window are unchecked.',
    [EX, CO, US, 'trading_calendars/xbkk_holidays.py', 'trading_calendars/xkls_holidays.py', 'trading_calendars/tase_holidays.py', 'trading_calendars/lunisolar_holidays.py'],
    [('holiday rules per exchange', EX), ('shared rules', CO), ('US rules', US)],
    [],
    ['all_sessions'])

prop(
    'C16', 'Exchange hours and shortened sessions match the published hours',
    'For every built-in exchange and every session from 1970 (or from the start of its tabulated data) to its data horizon, the open, close and break are the exchange\'s published local trading hours for that date. '
    'Its late opens and early closes fall on exactly the dates its published rules give (for example the eves of Christmas and New Year or the day after Thanksgiving, in the years these applied) at the published times, and on no other session.',
    ['inputs', 'configurations'],
    'all built-in exchanges, all sessions 1970-2050 (within the tabulated horizon for calendars based on tables)',
    'Answer-key files cover roughly 1990-2016/2020; other years, including the years users query today, are unchecked.',
    [EX, US],
    [('open_times/close_times/special_* of each exchange', EX)],
    [],
    ['schedule', 'late_opens', 'early_closes'])

prop(
    'C17', 'Tabulated calendars refuse dates beyond their data',
    'A calendar whose holidays come from a finite table never presents dates outside the table\'s covered years as sessions: constructing it over a window that would contain a session outside the covered years fails with ValueError naming the exceeded limit, whichever end is exceeded and by however little. '
    'A window inside the covered years constructs, and the default window of such a calendar lies within the covered years.',
    ['inputs', 'configurations'],
    'the tabulated calendars (XSHG, XSES, XKRX, XBOM and XHKG) and user-defined tabulated calendars; all windows, in particular those one day inside and outside each bound',
    'Tests check one far-out window per calendar.',
    [PC, 'trading_calendars/exchange_calendar_xshg.py', 'trading_calendars/exchange_calendar_xses.py', 'trading_calendars/exchange_calendar_xkrx.py', 'trading_calendars/exchange_calendar_xbom.py', 'trading_calendars/exchange_calendar_xhkg.py'],
    [('range check before construction', PC + ':__init__'), ('range check', 'trading_calendars/exchange_calendar_xhkg.py:__init__')],
    [],
    ['constructor outcome', 'first_session', 'last_session'])

prop(
    'C18', 'Movable feasts fall on the dates the underlying calendars give',
    'Closures tied to a movable feast follow the true date of that feast in every covered year: Western and Orthodox Easter, the Hebrew festivals, the Chinese lunisolar festivals and solar terms, the Japanese equinoxes and the Islamic feasts (within the usual sighting tolerance). '
    'No covered year lacks such a closure or has it on a different date, except where the exchange\'s one-off schedule moved it or the weekly closing days absorb it.',
    ['inputs', 'configurations'],
    'all exchanges observing such feasts, all years of their tables and rules',
    'Tables are long hand-typed date lists; the tests compare them to CSV files over part of the years only.',
    ['trading_calendars/lunisolar_holidays.py', 'trading_calendars/tase_holidays.py', 'trading_calendars/exchange_calendar_asex.py', 'trading_calendars/exchange_calendar_xhkg.py', CO,
     'trading_calendars/exchange_calendar_xtks.py', 'trading_calendars/exchange_calendar_xist.py'],
    [('tables of feast dates', 'trading_calendars/lunisolar_holidays.py and exchange files'), ('Easter offsets', CO)],
    [],
    ['all_sessions'])

prop(
    'C19', 'The US futures calendar contains every US futures exchange\'s trading',
    'From its first year on, every session of the CME, CFE and ICE calendars is a session of the combined US futures calendar and every one of their trading minutes is a trading minute of it, in every window. '
    'Its sessions run from 18:01 New York time on the previous day to 18:00 on the session date and stop only on its own few declared closures.',
    ['inputs', 'configurations'],
    'all dates from 2000 to 2050, all windows',
    'The documented superset relation is stated only in a comment; tests check a few sessions.',
    ['trading_calendars/us_futures_calendar.py', 'trading_calendars/exchange_calendar_cmes.py', 'trading_calendars/exchange_calendar_xcbf.py', 'trading_calendars/exchange_calendar_iepa.py', US],
    [('holiday subset and wide hours', 'trading_calendars/us_futures_calendar.py')],
    [],
    ['all_sessions', 'is_open_on_minute', 'minutes_in_range'])

prop(
    'C20', 'Calendar instances are isolated, copyable and disposable',
    'Two calendar instances share no mutable derived data: altering the schedule table, session list or minute list of one never changes the answers of another, and subclasses, sibling instances and instances with other windows never see each other\'s derived data. '
    'A pickled or copied calendar answers every query like the original, in the same or another process. '
    'Derived data are computed at most once per instance, and a discarded calendar is released.',
    ['histories', 'configurations'],
    'all built-in calendars and user definitions, all orders of creation, access, copying and disposal',
    'Tests hold one instance per class and neither copy nor mutate nor dispose of it.',
    [TC, MZ, EX],
    [('per-instance lazy attributes', MZ + ':lazyval')],
    [('per-instance cache of derived data', 'values computed on first access', MZ)],
    ['all public queries', 'pickle/copy', 'weak references'])

prop(
    'C21', 'Default calendars stay valid whatever the current date is',
    'At any current date and time of day, every built-in calendar constructs with its default window, covers from its documented start to one year after the current date (or its data horizon if earlier), and reports for each date exactly what a construction with an explicit window reports. '
    'The reports for past dates do not depend on the current date or time of day.',
    ['inputs', 'configurations'],
    'all current dates (2021-2040) and times of day, all built-in calendars',
    'Tests run with today\'s date only.',
    [TC, PC, EX],
    [('default window computed from the clock at import', TC), ('data-horizon defaults', PC)],
    [('default end', 'today plus one year', TC)],
    ['constructor outcome', 'schedule', 'first_session', 'last_session'])

prop(
    'C22', 'Answers depend on the instant, not on how it is represented',
    'A query about an instant gives the same answer whether the instant is given in UTC, in any other time zone, or (where accepted) as naive UTC or as an integer of nanoseconds, and every timestamp or index of timestamps returned by a query (other than the columns of the raw schedule table) is in UTC. '
    'Session dates given as equal UTC labels in any accepted form give the same answers.',
    ['inputs'],
    'all calendars, all instants, all time zones, all accepted forms, all queries taking an instant',
    'Tests pass UTC timestamps almost exclusively.',
    [TC],
    [('conversion to integer nanoseconds', TC)],
    [],
    ['all public queries taking an instant'])

prop(
    'C23', 'The calendar\'s business-day offset steps through its sessions',
    'Adding n of the calendar\'s business-day offset to any date gives the n-th session strictly after it (for negative n, the n-th session strictly before it), the offset accepts exactly the sessions as its own dates, and a date range with that offset as frequency lists exactly the sessions between its ends. '
    'This holds for any subset of dates in the window and for user definitions with any weekday mask.',
    ['inputs', 'configurations'],
    'all calendars and definitions, all dates in the window, all n',
    'Tests use the offset to build the session list but never compare arithmetic on it with the list.',
    [TC],
    [('custom business day offset', TC + ':day')],
    [],
    ['day'])

prop(
    'C24', 'Shared holiday builders give the date they name',
    'Each shared holiday builder yields in every year of 1970-2100 exactly the date it names: new year 1 January, its eve 31 December, Epiphany 6 January, Anzac day 25 April, European labour day 1 May, holy Wednesday, Maundy Thursday, Ascension, Whit Monday and Corpus Christi 4 and 3 days before and 39, 50 and 60 days after western Easter, midsummer eve the Friday in 19-25 June, Peter and Paul 29 June, Assumption 15 August, All Saints 1 November, Immaculate Conception 8 December, Christmas eve, Christmas and Boxing day 24, 25 and 26 December, and for weekend Christmas (Boxing day) 27 (28) December when that is a Monday or Tuesday. '
    'A builder given start and end dates, an observance or weekdays yields exactly those dates (moved by the observance) that fall within them. '
    'A holiday calendar of several rules gives the union of its rules over any range, in whatever order ranges are asked, and building one holiday never changes another.',
    ['inputs', 'configurations', 'histories'],
    'all builders, all years 1970-2100, all combinations of the optional arguments, all sets of rules and query ranges',
    'Builders are only exercised with the arguments of the built-in exchanges.',
    [CO, TC],
    [('builders of recurring holidays', CO), ('union of rules', TC + ':HolidayCalendar')],
    [],
    ['common_holidays builders', 'HolidayCalendar.holidays'])

prop(
    'C25', 'Date and time helpers convert exactly and leave their input alone',
    'The helper that places dates at a local time of day gives, for every date (naive or UTC midnight, in any sequence), time (to the second), time zone and day offset, exactly the UTC instant of that wall-clock time on the date moved by the offset, in input order, including dates with clock changes, and an empty answer for no dates. '
    'The helper that moves Sundays to Mondays moves exactly the Sundays, by one day. '
    'Neither alters the sequence it is given.',
    ['inputs'],
    'all dates 1970-2100, all times of day that exist and are unambiguous, all zones, all offsets, all accepted sequences',
    'Used only with the exchanges\' own zones and times.',
    [PU, TC],
    [('localisation of dates', PU + ':days_at_time'), ('Sunday to Monday', PU + ':vectorized_sunday_to_monday')],
    [],
    ['days_at_time', 'vectorized_sunday_to_monday'])

prop(
    'C26', 'A label that is not a session is refused by every session query',
    'Every query that takes a session label (its open, close, break start and end, pairs of these, minutes, execution minutes, next and previous session, window of sessions, minutes of a session range) raises KeyError when given a date in the calendar\'s window that is not a session, a date outside the window, or an instant that is not midnight UTC. '
    'It never answers for a neighbouring session, and it answers every session.',
    ['inputs', 'configurations'],
    'all calendars and definitions, all dates that are not sessions (weekends, holidays, one-off closures, outside the window, non-midnight), all queries that take a session label',
    'Tests ask about sessions only, apart from two queries.',
    [TC],
    [('label lookups in the schedule', TC)],
    [],
    ['all public queries taking a session label'])

prop(
    'C27', 'The always-open calendars trade every minute',
    'The 24/7 calendar has a session on every date and the 24/5 calendar one on every Monday to Friday of any construction window, with no holiday, no special open or close and no break. '
    'Each session runs from 00:00 to 23:59 UTC of its date, so that every minute of it is a trading minute and, on the 24/7 calendar, every minute of the window is.',
    ['inputs', 'configurations'],
    'both calendars, all construction windows from 1700 to 2255, all dates and minutes',
    'Tests compare one CSV of sessions.',
    ['trading_calendars/always_open.py', 'trading_calendars/weekday_calendar.py', TC],
    [('regular hours without holidays', 'trading_calendars/always_open.py')],
    [],
    ['schedule', 'all_minutes', 'is_open_on_minute', 'special closes and opens'])

prop(
    'C28', 'Using the library changes nothing outside the calendars it returns',
    'Importing the library, constructing calendars, querying them and using the registry leave the process as it was: warning filters, numpy and pandas options, random state, environment, working directory, locale, signal handlers, threads and logging set-up are unchanged, nothing is printed, no file is written, no process or connection is started. '
    'Objects passed as arguments and the declarations (rules, one-off dates, eras, times) of the calendar classes are never altered. '
    'This also holds for operations that fail and for concurrent ones.',
    ['histories', 'schedules', 'configurations'],
    'all calendars, definitions, queries (valid or refused), registry operations and import orders, sequential or concurrent',
    'Tests look at results, never at the surrounding process.',
    [TC, CU, CH, PU, MZ, EX],
    [('suppressed warnings during construction', TC + ':__init__')],
    [('process-wide settings', 'warning filters, options, random state', 'the process')],
    ['process-wide settings', 'audit events', 'standard output', 'arguments', 'declarations'])

prop(
    'C29', 'An abandoned operation leaves calendars and registry as if never tried',
    'If a construction, query or lookup is abandoned at any point by an exception (an interrupt, or an error raised by a user-supplied declaration or factory), every existing calendar answers all later queries exactly as before, and asking or constructing again gives what it would have given at first. '
    'The exception reaches the caller; the names known to the registry are those before the lookup, and a factory that failed is tried again at the next lookup. '
    'An abandoned registration affects no name other than its own and those leading to it, and can be made again.',
    ['crash_points', 'fault_sequences', 'histories'],
    'all operations, all source lines of the library at which an exception can be raised, all built-in calendars and user definitions',
    'Tests never abandon an operation half way.',
    [TC, CU, MZ, PC],
    [('lazy attributes filled on first use', MZ), ('last-answer cache', TC + ':minute_to_session_label'), ('lookup of factories', CU + ':get_calendar')],
    [('per-instance caches', 'filled by the first query', MZ), ('registry', 'names, factories, aliases', CU)],
    ['all public queries', 'constructor', 'registry'])

prop(
    'C30', 'Answers do not depend on the environment of the process',
    'The sessions, times, minutes, special days and answers of every calendar, the known names, the printed month and year views and the default window at a given moment are the same whatever the system time zone, locale, hash seed, working directory, environment variables, interpreter optimisation flags (-O, -OO) and order in which the modules of the library are imported.',
    ['configurations'],
    'all calendars and definitions, all environments of the process, all import orders',
    'Tests run in one environment.',
    [TC, CU, EX, 'trading_calendars/tcal.py', PU],
    [('default window from the clock', TC), ('module-level tables', EX)],
    [('environment', 'TZ, LC_*, PYTHONHASHSEED, flags', 'the process')],
    ['all public queries', 'default window', 'tcal output'])

prop(
    'C31', 'What the library holds does not grow with the number of questions',
    'However many queries a calendar answers or refuses, the data reachable from it and from the modules of the library stay bounded: a fixed number of derived tables per calendar and at most a bounded number of remembered answers. '
    'Lookups (including failed ones), registrations that are undone and calendars that are dropped leave nothing behind.',
    ['histories', 'inputs'],
    'all calendars and definitions, all sequences of distinct queries, lookups, registrations undone and calendars dropped',
    'Tests ask each question once.',
    [TC, CU, MZ],
    [('last-answer cache of one entry', TC + ':minute_to_session_label'), ('per-instance derived data', MZ)],
    [('remembered answers', 'bounded per calendar', TC)],
    ['data reachable from calendars and modules'])

prop(
    'C32', 'The answer-key script writes what the calendar reports',
    'For every exchange code, in upper, lower or mixed case, the script that makes answer keys writes one CSV file named after the code into the resources directory next to it, replacing an older one and touching no other file. '
    'The file has one line per session of the default calendar, in order, with the date of the session and its open and close as UTC times exactly as the calendar reports them.',
    ['inputs', 'configurations'],
    'all exchange codes in any case, all sessions of the default calendars, any current directory, key present or not',
    'The script has no tests.',
    ['etc/make_trading_calendar_test_csv.py', TC],
    [('writing the table', 'etc/make_trading_calendar_test_csv.py')],
    [],
    ['files written', 'lines of the file'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))

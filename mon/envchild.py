"""Run by C30 in a child process: answers of calendars, as JSON on the last line of standard output.

The specification comes on standard input: {"imports": [...], "keys": [...], "n": ..., "default": ..., "tcal": [...]}."""
import hashlib
import importlib
import io
import json
import sys


def sha(x):
    return hashlib.sha1(x if isinstance(x, bytes) else repr(x).encode()).hexdigest()[:16]


def plain(x):
    """An outcome as text."""
    from mon.observe import Failed
    from mon.repo import np, pd
    if isinstance(x, Failed):
        return 'failed ' + x.type
    if x is pd.NaT:
        return 'NaT'
    if isinstance(x, pd.Timestamp):
        return '%d %s' % (x.value, x.tz)
    if isinstance(x, pd.DatetimeIndex):
        return '%s %s' % (x.tz, sha(x.asi8.tobytes()))
    if isinstance(x, pd.Series):
        return '%s %s' % (plain(x.index), [plain(v) for v in x])
    if isinstance(x, np.ndarray):
        return sha(x.tobytes())
    if isinstance(x, (tuple, list)):
        return [plain(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return repr(bool(x))
    if isinstance(x, (int, np.integer)):
        return repr(int(x))
    return repr(x)


def registry(tc):
    """A fixed history of a registry."""
    from mon.observe import call
    from mon.repo import cls, label
    from trading_calendars.calendar_utils import TradingCalendarDispatcher
    one, two = (cls('24/5')(label(730000 + i), label(730030 + i)) for i in (0, 60))
    d = TradingCalendarDispatcher({}, {'T': lambda: one}, {'X': 'T'})
    show = {id(one): 'one', id(two): 'two'}
    out = []

    def op(name, *args):
        r = call(getattr(d, name), *args)
        out.append(sorted(r) if isinstance(r, list) else show.get(id(r), plain(r)))
    for step in (('get_calendar', 'X'), ('register_calendar', 'A', one), ('register_calendar', 'A', two), ('register_calendar', 'A', two, True),
                 ('get_calendar', 'A'), ('register_calendar_alias', 'B', 'A'), ('register_calendar_alias', 'A', 'B', True),
                 ('get_calendar', 'B'), ('register_calendar_type', 'B', lambda: one), ('register_calendar_type', 'B', lambda: one, True),
                 ('get_calendar', 'B'), ('deregister_calendar', 'A'), ('get_calendar', 'A'), ('resolve_alias', 'X'),
                 ('register_calendar_alias', 'X', 'B', True), ('resolve_alias', 'X'), ('get_calendar', 'X'), ('get_calendar_names',),
                 ('register_calendar_alias', 'Y', 'Y'), ('clear_calendars',), ('get_calendar_names',), ('get_calendar', 'T')):
        op(*step)
    return out


def refused(tc):
    """Questions and definitions that must be refused."""
    import datetime
    from mon.observe import call
    from mon.repo import cls, label, pd
    base, out = cls('24/5'), []
    cal = base(label(730000), label(730030))        # 1999-09-05 is a Sunday
    s = cal.all_sessions
    for f in (lambda: cal.minute_index_to_session_labels(cal.all_minutes[:5][::-1]),
              lambda: cal.minute_index_to_session_labels(pd.DatetimeIndex([s[0] - pd.Timedelta(days=9)])),
              lambda: cal.minute_to_session_label(s[0], direction='sideways'),
              lambda: cal.minute_to_session_label(s[0] - pd.Timedelta(days=9), direction='none'),
              lambda: cal.minute_to_session_label(s[0] - pd.Timedelta(days=9), direction='previous'),
              lambda: cal.next_session_label(s[-1]), lambda: cal.previous_session_label(s[0]),
              lambda: cal.next_open(s[-1] + pd.Timedelta(days=5)), lambda: cal.previous_open(s[0] - pd.Timedelta(days=5)),
              lambda: cal.session_open(s[-1] + pd.Timedelta(days=5)), lambda: setattr(cal, 'day', 1),
              lambda: cal.minutes_window(s[0] - pd.Timedelta(days=5), 3)):
        out.append(plain(call(f)))
    sunday, sat = pd.Timestamp('1999-09-19', tz='UTC'), pd.Timestamp('1999-09-18', tz='UTC')
    for body in ({'special_closes_adhoc': [(datetime.time(12), [sunday])]}, {'special_opens_adhoc': [(datetime.time(12), [sat])]},
                 {'break_start_times': ((None, datetime.time(11)),)}):
        out.append(plain(call(type('Bad', (base,), body), label(730000), label(730030))))
    for name, a, b in (('XSHG', 725000, 725300), ('XBOM', 750000, 750400)):
        out.append(plain(call(cls(name), label(a), label(b))))
    return out


def main():
    spec = json.load(sys.stdin)
    sys.path[:0] = [spec['verif'], spec['repo']]
    sys.dont_write_bytecode = True
    for m in spec['imports']:
        importlib.import_module(m)
    from mon import cases, gen, model, repo
    from mon.cases import build
    from mon.observe import Failed, call, table
    from mon.qmodel import QModel
    from mon.queries import random_query
    from mon.runner import rng_for
    from mon.repo import label, tc
    out = {'names': sorted(tc.get_calendar_names())}
    for key in spec['keys']:
        ident = json.dumps(key)
        rng = rng_for('C30', ident)
        if key[0] == 'builtin':
            cls, a, b = repo.cls(key[1]), key[2], key[3]
        else:
            while True:
                a, b = cases.random_window(rng, 1972, 2095, (8, 60, 400))
                try:
                    d = gen.random_definition(rng, a, b)
                    break
                except model.Unsupported:
                    pass
            style = rng.randrange(12)
            cls = gen.make_class(d, style)
            out[ident + ' definition'] = sha(repr((d.data(), style)))
        cal = build(cls, a, b)
        if isinstance(cal, Failed):
            out[ident] = ['failed ' + cal.type]
            continue
        rows = call(table, cal)
        if isinstance(rows, Failed) or not rows:
            out[ident] = ['malformed']
            continue
        answers = [sha(sorted(str(r.full()) for r in rows)), plain(cal.all_minutes), plain(cal.late_opens), plain(cal.early_closes)]
        q = QModel(rows)
        asked = []
        for _ in range(spec['n']):
            query = random_query(rng, q)
            asked.append(repr(query))
            answers.append(plain(query.ask(cal)))
        for o in rng.sample([r.day for r in rows], min(3, len(rows))):
            answers.append(plain(call(lambda: label(o) + cal.day)))
        out[ident] = answers
        out[ident + ' asked'] = sha(asked)
    out['registry'] = registry(tc)
    out['refused'] = refused(tc)
    if spec.get('default'):
        for name in ('24/7', '24/5', 'XLON'):
            cal = call(tc.get_calendar, name)
            out['default ' + name] = 'failed' if isinstance(cal, Failed) else [plain(cal.first_session), plain(cal.last_session)]
    for argv in spec['tcal']:
        from trading_calendars import tcal
        hold, sys.stdout = sys.stdout, io.StringIO()
        try:
            got = call(tcal.main, ['tcal'] + argv)
            text = sys.stdout.getvalue()
        finally:
            sys.stdout = hold
        out['tcal ' + ' '.join(argv)] = sha((text, plain(got)))
    print(json.dumps(out))


if __name__ == '__main__':
    main()

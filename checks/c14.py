"""C14: the command-line month and year views show exactly the sessions."""
import contextlib
import datetime
import io
import os
import subprocess
import sys

from mon import cases, gen, model, repo, runner
from mon.model import ordinal
from mon.observe import Failed, Malformed, call, label_days
from mon.repo import tc
from mon.runner import rng_for

P = 'C14'
QUICK = runner.tier() == 'quick'
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November',
          'December']


# --- own renderer

def month_lines(days, year, month, with_year):
    first = ordinal(year, month, 1)
    last = (ordinal(year, month + 1, 1) if month < 12 else ordinal(year + 1, 1, 1)) - 1
    title = MONTHS[month - 1] + (' %d' % year if with_year else '')
    pad = 28 - len(title)
    out = [' ' * (pad // 2) + title, ' Su  Mo  Tu  We  Th  Fr  Sa']
    row = '    ' * (first % 7)          # ordinal 1 is a Monday, so Sunday is 0 mod 7
    for d in range(first, last + 1):
        if d % 7 == 0 and (d > first or row):
            out.append(row)
            row = ''
        row += ('%s%2d%s' % ((' ', d - first + 1, ' ') if d in days else ('[', d - first + 1, ']')))
    out.append(row)
    return out


def year_lines(days, year):
    out = [' ' * ((88 - len(str(year))) // 2) + str(year), '']
    for r in range(4):
        ms = [month_lines(days, year, r * 3 + c + 1, False) for c in range(3)]
        h = max(len(m) for m in ms)
        for i in range(h):
            out.append('   '.join((m[i] if i < len(m) else '').ljust(28) for m in ms))
        out.append('')
    return out


def tidy(lines):
    """Trailing blanks and surrounding empty lines do not matter."""
    lines = [l.rstrip() for l in lines]
    while lines and not lines[-1]:
        lines.pop()
    return lines


def squeeze(lines):
    return [l for l in tidy(lines) if l]


def check_month(mon, text, days, year, month, args):
    got, want = tidy(text.splitlines()), tidy(month_lines(days, year, month, True))
    # A month that starts on a Sunday may have an empty line before its first week.
    mon.check('month view', squeeze(got) == squeeze(want), lambda: '%s printed\n%s\nexpected\n%s' % (
        args, '\n'.join(got), '\n'.join(want)), case=(mon.case, year, month))


def check_year(mon, text, days, year, args):
    got, want = squeeze(text.splitlines()), squeeze(year_blocks(days, year))
    mon.check('year view', got == want, lambda: '%s printed\n%s\nexpected\n%s' % (args, first_difference(got, want), ''),
              case=(mon.case, year))


def first_difference(got, want):
    for i in range(max(len(got), len(want))):
        a = got[i] if i < len(got) else '(end)'
        b = want[i] if i < len(want) else '(end)'
        if a != b:
            return 'line %d: %r, expected %r' % (i + 1, a, b)
    return ''


def year_blocks(days, year):
    """As year_lines, with the repository's placement of a month that starts on a
    Sunday (its first week comes one line later) when blocks are side by side."""
    out = [' ' * ((88 - len(str(year))) // 2) + str(year)]
    for r in range(4):
        ms = []
        for c in range(3):
            m = month_lines(days, year, r * 3 + c + 1, False)
            if ordinal(year, r * 3 + c + 1, 1) % 7 == 0:
                m.insert(2, '')
            ms.append(m)
        h = max(len(m) for m in ms)
        for i in range(h):
            out.append('   '.join((m[i] if i < len(m) else '').ljust(28) for m in ms))
    return out


# --- running the command

def tcal(args):
    """(stdout, stderr, status) of main() in this process; status None if it
    returned, the code if it exited, 'raised' if it raised (a traceback on the
    error stream and status 1 when run as a command)."""
    from trading_calendars import tcal as t
    out, err = io.StringIO(), io.StringIO()
    status = None
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            t.main(['tcal'] + args)
        except SystemExit as e:
            status = e.code
            if isinstance(e.code, str):
                # as the interpreter does
                err.write(e.code + '\n')
                status = 1
        except Exception as e:
            status = 'raised'
            err.write('%s: %s\n' % (type(e).__name__, e))
    return out.getvalue(), err.getvalue(), status


def good(status):
    return status is None or status == 0


def views(mon, rng, name, days, years, n_months):
    for _ in range(n_months):
        y = rng.choice(years)
        m = rng.randint(1, 12)
        args = [name, rng.choice(('%d', '%02d')) % m, str(y)]
        out, err, status = tcal(args)
        if not good(status) or err:
            mon.violate('month view', 'tcal %s: status %r, stderr %r' % (args, status, err[:300]))
            continue
        check_month(mon, out, days, y, m, args)
    for _ in range(max(1, n_months // 8)):
        y = rng.choice(years)
        args = [name, str(y)]
        out, err, status = tcal(args)
        if not good(status) or err:
            mon.violate('year view', 'tcal %s: status %r, stderr %r' % (args, status, err[:300]))
            continue
        check_year(mon, out, days, y, args)


def sessions_of(cal):
    return set(label_days(cal.all_sessions))


def builtin(task, mon):
    rng = rng_for(P, *task)
    name = task[1]
    cal = call(tc.get_calendar, name)
    if isinstance(cal, Failed):
        mon.note('calendar not available')
        return
    days = sessions_of(cal)
    lo, hi = min(days), max(days)
    y0, y1 = datetime.date.fromordinal(lo).year, datetime.date.fromordinal(hi).year
    mon.case = name
    years = [rng.randint(y0, y1) for _ in range(6)] + [y0, y1, y0 - 1, y1 + 1, 1900, 2100, 2000, 1700, 2260,
                                                        rng.choice((1996, 2016, 2020))]
    views(mon, rng, name, days, years, task[2])
    mon.sample('tcal %s over years %s' % (name, sorted(set(years))))


def generated(task, mon):
    rng = rng_for(P, *task)
    for k in range(task[2]):
        c = cases.generated_case(rng, lengths=(20, 250, 400), mon=mon)
        if c is None:
            continue
        name = 'user-%d-%d' % (task[1], k)
        tc.register_calendar(name, c.cal)
        tc.register_calendar_alias('alias of ' + name, name)
        days = sessions_of(c.cal)
        y = datetime.date.fromordinal(min(days)).year
        mon.case = 'registered %s' % c.desc[:120]
        views(mon, rng, rng.choice((name, 'alias of ' + name)), days, [y, y, y + 1, y - 1], 8)
        # a month exactly inside the window, and every month of a leap year
        for m in range(1, 13):
            out, err, status = tcal([name, str(m), str(y)])
            if good(status):
                check_month(mon, out, days, y, m, [name, m, y])
            else:
                mon.violate('month view', '%s %s: %r %r' % (m, y, status, err[:200]))


def malformed(task, mon):
    rng = rng_for(P, *task)
    vectors = [
        [], ['XNYS', 'abc'], ['XNYS', '1', 'abc'], ['XNYS', 'x', '2018'], ['XNYS', '2018.5'], ['XNYS', '1', '2.0'],
        ['XNYS', ''], ['XNYS', '1', ''], ['XNYS', '1', '1', '2018'], ['XNYS', '1', '2', '3', '4'],
        ['nosuchcalendar'], ['nosuchcalendar', '2018'], ['nosuchcalendar', '1', '2018'], ['', '2018'],
        ['XNYS', '13', '2018'], ['XNYS', '0', '2018'], ['XNYS', '-1', '2018'], ['XNYS', 'January', '2018'],
        ['XNYS', '2018', '1'], ['XNYS', '12.', '2018'], ['xnys', '2018'], ['XNYS', 'None'], ['XNYS', '0x10'],
        ['XNYS', '1', '2018', 'x'], ['2018', '1', 'XNYS'],
    ]
    rng.shuffle(vectors)
    for v in vectors:
        mon.case = 'tcal %s' % v
        out, err, status = tcal(v)
        ok = not good(status) and not out.strip() and err.strip()
        mon.check('malformed arguments', ok, lambda: 'tcal %s: status %r, stdout %r, stderr %r' % (
            v, status, out[:200], err[:200]), case=tuple(v))
        if v[:1] == ['nosuchcalendar']:
            mon.check('malformed arguments', 'nosuchcalendar' in err, lambda: 'tcal %s: message %r' % (v, err[:200]))


CHILD = r'''
import sys, time
offset = float(sys.argv[1])
if offset:
    real = time.time
    time.time = lambda: real() + offset
sys.path.insert(0, '/repo')
sys.argv = ['tcal'] + sys.argv[2:]
import datetime
if offset:
    sys.stderr.write('')
from trading_calendars.tcal import main
sys.exit(main())
'''


def child(args, offset=0.0):
    env = dict(os.environ, TZ='UTC', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD, repr(offset)] + args, cwd='/repo', env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    return p.stdout.decode(), p.stderr.decode(), p.returncode


def script(args):
    """The copy of the command kept in etc/."""
    env = dict(os.environ, TZ='UTC', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=repo.REPO)
    p = subprocess.run([sys.executable, '-W', 'ignore', SCRIPT] + args, cwd='/', env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    return p.stdout.decode(), p.stderr.decode(), p.returncode


SCRIPT = repo.REPO + '/etc/tcal'


def clock_works():
    p = subprocess.run([sys.executable, '-c', 'import time\nreal=time.time\ntime.time=lambda: real()+1e9\n'
                        'import datetime\nprint(datetime.datetime.now().year - datetime.datetime.utcfromtimestamp(real()).year)'],
                       stdout=subprocess.PIPE)
    return p.stdout.decode().strip() in ('31', '32')


def command(task, mon):
    """As a real command, with the current month at several (injected) dates."""
    rng = rng_for(P, *task)
    name = task[2]
    cal = tc.get_calendar(name)
    days = sessions_of(cal)
    mon.case = 'command %s' % name
    if task[1] == 'plain':
        y, m = rng.randint(1991, 2026), rng.randint(1, 12)
        out, err, status = child([name, str(m), str(y)])
        mon.check('command', status == 0 and not err, lambda: 'status %r stderr %r' % (status, err[:300]))
        check_month(mon, out, days, y, m, [name, m, y])
        out, err, status = child([name, str(y)])
        mon.check('command', status == 0 and not err, lambda: 'status %r stderr %r' % (status, err[:300]))
        check_year(mon, out, days, y, [name, y])
        before = datetime.datetime.now()
        out, err, status = child([name])
        after = datetime.datetime.now()
        ok = False
        for t in (before, after):
            # the default window of the child is that of today
            if squeeze(out.splitlines()) == squeeze(month_lines(days, t.year, t.month, True)):
                ok = True
        mon.check('current month', ok and status == 0 and not err, lambda: 'tcal %s printed %r, status %r, stderr %r' % (
            name, out, status, err[:200]), case=(name, before.year, before.month))
        for v in (['nosuchcalendar'], [name, 'x'], []):
            out, err, status = child(v)
            mon.check('command refused', status != 0 and not out.strip() and err.strip(),
                      lambda: 'tcal %s: status %r, stdout %r, stderr %r' % (v, status, out[:200], err[:200]), case=tuple(v))
        if os.path.exists(SCRIPT):
            y, m = rng.randint(1991, 2026), rng.randint(1, 12)
            out, err, status = script([name, str(m), str(y)])
            mon.check('script', status == 0 and not err, lambda: 'etc/tcal: status %r stderr %r' % (status, err[-300:]), case=(name, y, m))
            check_month(mon, out, days, y, m, ['etc/tcal', name, m, y])
            out, err, status = script([name, str(y)])
            mon.check('script', status == 0 and not err, lambda: 'etc/tcal: status %r stderr %r' % (status, err[-300:]), case=(name, y))
            check_year(mon, out, days, y, ['etc/tcal', name, y])
            v = rng.choice((['nosuchcalendar'], [name, 'x'], []))
            out, err, status = script(v)
            mon.check('command refused', status != 0 and not out.strip() and err.strip(),
                      lambda: 'etc/tcal %s: status %r, stdout %r, stderr %r' % (v, status, out[:200], err[:200]), case=('etc',) + tuple(v))
    else:
        if not clock_works():
            mon.note('clock could not be injected')
            return
        now = datetime.datetime.utcnow()
        t = datetime.datetime(rng.randint(2021, 2035), rng.randint(1, 12), rng.choice((1, 2, 15, 28)), rng.randint(0, 23), 20)
        if rng.random() < 0.4:
            # the last hour of a month and the first of a year
            t = rng.choice((datetime.datetime(2027, 12, 31, 23, 20), datetime.datetime(2028, 1, 1, 0, 10),
                            datetime.datetime(2028, 2, 29, 12, 0), datetime.datetime(2026, 3, 31, 22, 0)))
        out, err, status = child([name], (t - now).total_seconds())
        got = squeeze(out.splitlines())
        title = '%s %d' % (MONTHS[t.month - 1], t.year)
        # sessions of that month from a calendar over an explicit window
        first = ordinal(t.year, t.month, 1)
        c2 = cases.build(repo.cls(name), first - 20, first + 60)
        want = squeeze(month_lines(sessions_of(c2), t.year, t.month, True)) if not isinstance(c2, Failed) else None
        mon.check('current month', status == 0 and got and got[0].strip() == title and (want is None or got == want),
                  lambda: 'tcal %s at %s printed %r, status %r, stderr %r' % (name, t, out, status, err[:300]),
                  case=(name, str(t)))


def run(task, mon):
    {'builtin': builtin, 'generated': generated, 'malformed': malformed, 'command': command}[task[0]](task, mon)


def main():
    tasks = [['command', 'plain', n] for n in (('XNYS', 'XTAE') if QUICK else ('XNYS', 'XTAE', 'XHKG', '24/7', 'XLON'))]
    clocked = ['XNYS', 'XLON', 'XTAE', 'XTSE'] if QUICK else ['XNYS', 'XLON', 'XTAE', 'XTSE', 'XMOS', 'XJSE', 'XMEX'] * 3
    tasks += [['command', 'clock%d' % i, n] for i, n in enumerate(clocked)]
    tasks += [['malformed', 0]]
    tasks += [['builtin', n, 10 if QUICK else 80] for n in repo.ALL]
    tasks += [['generated', k, 3 if QUICK else 8] for k in range(12 if QUICK else 100)]
    runner.main(
        P, run, tasks,
        rule='a case is one printed month or year (calendar, year, month) compared line by line with an own rendering of '
             'the calendar\'s session list, or one malformed argument vector, or one run at an injected date; distinct as '
             'counted',
        minimum={'month view': 800, 'year view': 80, 'malformed arguments': 25, 'current month': 2, 'command refused': 6})


if __name__ == '__main__':
    main()

"""C28: using the library changes nothing outside the calendars it returns."""
import decimal
import gc
import io
import json
import locale
import logging
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import warnings

from mon import cases, gen, model, repo, runner
from mon.cases import build, stamp
from mon.model import iso
from mon.observe import Failed, Malformed, call, ns_list, table
from mon.qmodel import QModel
from mon.queries import random_query
from mon.repo import HolidayCalendar, np, pd, tc
from mon.runner import rng_for

from trading_calendars.calendar_utils import TradingCalendarDispatcher

P = 'C28'
QUICK = runner.tier() == 'quick'
WRITES = []         # audited events that reach outside the process
WATCH = [False]


def audit(event, args):
    if not WATCH[0]:
        return
    if event == 'open':
        mode = args[1] if len(args) > 1 else None
        if isinstance(mode, str) and any(c in mode for c in 'wax+'):
            WRITES.append('open(%r, %r)' % (args[0], mode))
    elif event in ('subprocess.Popen', 'os.system', 'os.exec', 'os.fork', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir',
                   'os.chdir', 'os.putenv', 'os.unsetenv', 'socket.connect', 'socket.bind', 'socket.getaddrinfo',
                   'shutil.rmtree', 'os.truncate'):
        WRITES.append('%s%r' % (event, tuple(args)[:2]))


def pandas_options():
    try:
        from pandas._config import config
        return repr(config._global_config)
    except ImportError:
        return ''


def state(scratch):
    """Process-wide settings that other code in the process can see."""
    return {
        'warnings filters': [tuple(str(x) for x in f) for f in warnings.filters],
        'warnings hook': warnings.showwarning,
        'numpy errors': np.geterr(),
        'numpy printing': sorted((k, str(v)) for k, v in np.get_printoptions().items()),
        'pandas options': pandas_options(),
        'random': random.getstate(),
        'numpy random': [x.tolist() if hasattr(x, 'tolist') else x for x in np.random.get_state()],
        'environment': dict(os.environ),
        'directory': os.getcwd(),
        'locale': locale.setlocale(locale.LC_ALL),
        'decimal': str(decimal.getcontext()),
        'signals': [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)],
        'threads': sorted(t.name for t in threading.enumerate()),
        'search path': list(sys.path),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'collector': gc.isenabled(),
        'streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        'hooks': (id(sys.excepthook), id(sys.displayhook)),
        'logging': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        'default zone': os.environ.get('TZ'),
        'files': sorted(os.listdir(scratch)),
    }


def changed(a, b):
    return [k for k in a if a[k] != b[k]]


def fresh_settings(rng):
    """Settings unlike the defaults, so that resetting them is noticed as well as changing them."""
    warnings.resetwarnings()
    for act, cat in (('default', UserWarning), ('ignore', DeprecationWarning), ('once', FutureWarning)):
        if rng.random() < 0.6:
            warnings.simplefilter(act, cat)
    warnings.filterwarnings('always', message='marker %d' % rng.randrange(1000))
    np.seterr(**{k: rng.choice(('ignore', 'warn')) for k in ('divide', 'over', 'under', 'invalid')})
    np.set_printoptions(precision=rng.randint(3, 9))
    pd.set_option('display.max_rows', rng.randint(10, 99))
    random.seed(rng.randrange(10 ** 6))
    np.random.seed(rng.randrange(10 ** 6))
    sys.setrecursionlimit(rng.randint(2000, 4000))


class Outside(object):
    """Observes one operation: settings, files, outside events, standard output."""

    def __init__(self, mon, scratch):
        self.mon, self.scratch = mon, scratch
        self.out = os.path.join(scratch, '..', os.path.basename(scratch) + '.out')
        self.before = state(scratch)

    def run(self, kind, fn, shown, case=None, quiet=True):
        del WRITES[:]
        hold, sys.stdout = sys.stdout, io.StringIO()
        before = self.before = dict(state(self.scratch))
        mine = sys.stdout
        WATCH[0] = True
        try:
            got = call(fn)
        finally:
            WATCH[0] = False
            printed = mine.getvalue()
            after = state(self.scratch)
            sys.stdout = hold
        bad = changed(before, after)
        self.mon.check(kind, not bad, lambda: '%s changed %s: %s' % (
            shown() if callable(shown) else shown, bad,
            [(runner.short(before[k], 150), runner.short(after[k], 150)) for k in bad[:2]]), case=case)
        self.mon.check('no outside effect', not WRITES, lambda: '%s did %s' % (
            shown() if callable(shown) else shown, WRITES[:3]))
        if quiet:
            self.mon.check('prints nothing', not printed, lambda: '%s printed %r' % (
                shown() if callable(shown) else shown, printed[:200]))
        return got


def declared_text(cls, own):
    """The declarations a class is made of, as text."""
    def text(x):
        if isinstance(x, property):
            x = x.fget(None)
        if isinstance(x, HolidayCalendar):
            return ['rules'] + [repr(r) for r in x.rules]
        if isinstance(x, (pd.Index, pd.Series, np.ndarray)):
            return [type(x).__name__] + [str(v) for v in x]
        if isinstance(x, (list, tuple)):
            return [type(x).__name__] + [text(v) for v in x]
        return repr(x)
    return {k: text(cls.__dict__[k]) for k in own if k in cls.__dict__}


FIELDS = ('name', 'tz', 'open_times', 'close_times', 'open_offset', 'close_offset', 'weekmask', 'regular_holidays',
          'adhoc_holidays', 'special_opens', 'special_closes', 'special_opens_adhoc', 'special_closes_adhoc',
          'break_start_times', 'break_end_times')


def arg_text(x):
    return [str(v) for v in x] + [str(x.dtype), str(x.name)] if isinstance(x, (pd.Index, pd.Series)) else repr(x)


def observe(mon, rng, out, cal, n):
    """Queries with arguments watched."""
    rows = call(table, cal)
    if isinstance(rows, Failed) or not rows:
        mon.note('malformed table skipped')
        return
    q = QModel(rows)
    for k in range(n):
        query = random_query(rng, q)
        args = list(query.args or ())
        if query.name == 'minute_index_to_session_labels' and rng.random() < 0.5:
            # shuffled or with bad minutes: refused, and left alone
            xs = [query.args[0][0], query.args[0][-1], query.args[0][0] + pd.Timedelta(minutes=rng.choice((1, 5000)))]
            rng.shuffle(xs)
            query.args = (pd.DatetimeIndex(xs),)
            args = list(query.args)
        before = [arg_text(a) for a in args]
        out.run('query', lambda: query.ask(cal), lambda: repr(query), case=(mon.case[:100], query.name, k))
        if args:
            mon.check('arguments unchanged', [arg_text(a) for a in args] == before,
                      lambda: '%s changed its argument' % query.name, case=(mon.case[:100], query.name, k))
    if rng.random() < 0.5:
        days = sorted(rng.sample([r.day for r in rows], min(len(rows), 3)))
        for o in days:
            out.run('query', lambda: repo.label(o) + cal.day, 'offset')


def calendars(mon, rng, out, task):
    if task[0] == 'builtin':
        for _ in range(task[2]):
            lo, hi = repo.span(task[1])
            a, b = cases.random_window(rng, lo, hi, (8, 60, 400))
            mon.case = '%s %s..%s' % (task[1], iso(a), iso(b))
            cal = out.run('construct', lambda: repo.cls(task[1])(repo.label(a), repo.label(b)), 'construction', case=mon.case)
            if isinstance(cal, Failed):
                mon.note('window not constructed')
                continue
            observe(mon, rng, out, cal, 12)
        return
    for _ in range(task[2]):
        a, b = cases.random_window(rng, 1972, 2095, (3, 20, 90, 250))
        try:
            d = gen.random_definition(rng, a, b, rich=True)
        except model.Unsupported:
            continue
        style = rng.randrange(12)
        cls = gen.make_class(d, style)
        mon.case = 'generated style %d %s..%s %r' % (style, iso(a), iso(b), d.data())
        before = declared_text(cls, FIELDS)
        start, end = repo.label(a), repo.label(b) + pd.Timedelta(minutes=rng.randint(0, 1439))
        cal = out.run('construct', lambda: cls(start, end), 'construction', case=mon.case)
        if isinstance(cal, Failed):
            mon.note('definition not constructed')
            continue
        observe(mon, rng, out, cal, 12)
        after = declared_text(cls, FIELDS)
        bad = changed(before, after)
        mon.check('declarations unchanged', not bad, lambda: 'construction and queries changed the declared %s: %s' % (
            bad, [(before[k], after[k]) for k in bad[:1]]), case=mon.case)


def registry(mon, rng, out, n):
    cal = repo.cls('24/7')(repo.label(737000), repo.label(737010))
    for k in range(n):
        d = TradingCalendarDispatcher({}, {}, {})
        names = ['A', 'B', 'C', 'D']
        for _ in range(12):
            a, b = rng.choice(names), rng.choice(names)
            op = rng.choice(('register_calendar', 'register_calendar_type', 'register_calendar_alias', 'get_calendar',
                             'deregister_calendar', 'resolve_alias', 'clear_calendars', 'has_calendar', 'get_calendar_names'))
            force = rng.random() < 0.5
            args = {'register_calendar': (a, cal, force), 'register_calendar_type': (a, repo.cls('24/7'), force),
                    'register_calendar_alias': (a, b, force), 'get_calendar': (a,), 'deregister_calendar': (a,),
                    'resolve_alias': (a,), 'clear_calendars': (), 'has_calendar': (a,), 'get_calendar_names': ()}[op]
            mon.case = 'registry %d' % k
            if hasattr(d, op):
                out.run('registry', lambda: getattr(d, op)(*args), op, case=(k, op))
    # the library's own table of names
    for name in ('NYSE', 'XLON', '24/5', 'nonesuch'):
        out.run('registry', lambda: tc.get_calendar(name), 'get_calendar(%r)' % name, case=name)


def passed(mon, rng, out, n):
    """Lists and mappings given to the library's constructors."""
    cal = repo.cls('24/7')(repo.label(737000), repo.label(737010))
    for k in range(n):
        rules = [gen.pandas_rule(gen.random_rule(rng, 730000, 740000), i) for i in rng.sample(range(9), rng.randint(2, 6))]
        before = [(id(r), repr(r)) for r in rules]
        mon.case = 'rules %s' % [r.name for r in rules]
        h = out.run('holidays', lambda: HolidayCalendar(rules), 'HolidayCalendar', case=('rules', k))
        if not isinstance(h, Failed):
            out.run('holidays', lambda: h.holidays(pd.Timestamp('1995-01-01'), pd.Timestamp('2005-01-01')), 'holidays', case=('dates', k))
        mon.check('arguments unchanged', [(id(r), repr(r)) for r in rules] == before,
                  lambda: 'a HolidayCalendar changed its list of rules from %s to %s' % (before, rules), case=('rules', k))
        maps = {'A': cal}, {'B': lambda: cal, 'C': lambda: cal}, {'D': 'B', 'E': 'D'}
        before = [dict(m) for m in maps]
        d = TradingCalendarDispatcher(*maps) if rng.random() < 0.5 else TradingCalendarDispatcher(
            calendars=maps[0], calendar_factories=maps[1], aliases=maps[2])
        other = TradingCalendarDispatcher(*maps)
        names = sorted(other.get_calendar_names())
        for _ in range(8):
            a, b = rng.choice('ABCDEFG'), rng.choice('ABCDEFG')
            op = rng.choice(('register_calendar', 'register_calendar_type', 'register_calendar_alias', 'get_calendar', 'deregister_calendar',
                             'clear_calendars'))
            args = {'register_calendar': (a, cal, True), 'register_calendar_type': (a, lambda: cal, True),
                    'register_calendar_alias': (a, b, True), 'get_calendar': (a,), 'deregister_calendar': (a,), 'clear_calendars': ()}[op]
            out.run('registry', lambda: getattr(d, op)(*args), op, case=('own', k, op))
            mon.check('arguments unchanged', [dict(m) for m in maps] == before,
                      lambda: '%s%r changed the mappings the registry was made of' % (op, args), case=('mappings', k, op))
        mon.check('registry', sorted(other.get_calendar_names()) == names, lambda: 'another registry made of the same mappings changed')


IMPORT = r'''
import sys
sys.path[:0] = ['/repo']
sys.dont_write_bytecode = True
import numpy, pandas, pytz, dateutil, toolz, pandas.tseries.holiday, pandas.tseries.offsets
import os, json, warnings, logging, decimal, locale, signal, threading, random, gc
def state():
    import numpy as np
    from pandas._config import config
    return dict(filters=[str(f) for f in warnings.filters], hook=str(warnings.showwarning), err=np.geterr(),
                options=repr(config._global_config), random=str(random.getstate()), nprandom=str(np.random.get_state()),
                env=dict(os.environ), cwd=os.getcwd(), locale=locale.setlocale(locale.LC_ALL),
                threads=len(threading.enumerate()), limit=sys.getrecursionlimit(), path=list(sys.path),
                log=(logging.root.level, len(logging.root.handlers)), files=sorted(os.listdir('.')),
                decimal=str(decimal.getcontext()), gc=gc.isenabled())
writes = []
sys.addaudithook(lambda e, a: writes.append(str(a[:2])) if e == 'open' and isinstance(a[1], str) and any(
    c in a[1] for c in 'wax+') else None)
before = state()
n = len(writes)
'''


def importing(mon, rng, scratch):
    for module in ('trading_calendars', 'trading_calendars.calendar_utils', 'trading_calendars.common_holidays'):
        code = IMPORT + '''
import %s
after = state()
print(json.dumps([[k for k in before if before[k] != after[k]], writes[n:]]))
''' % module
        p = subprocess.run([sys.executable, '-c', code], cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=120, text=True)
        mon.case = 'import ' + module
        if p.returncode:
            raise RuntimeError('import child failed: ' + p.stderr[-800:])
        lines = p.stdout.splitlines()
        bad, writes = json.loads(lines[-1])
        mon.check('import', not bad and not writes and len(lines) == 1 and not p.stderr.strip(),
                  lambda: 'importing %s changed %s, wrote %s, printed %r %r' % (module, bad, writes, lines[:-1], p.stderr[:300]),
                  case=module)


def threads(mon, rng, scratch, n):
    """Concurrent constructions and queries."""
    interval = sys.getswitchinterval()
    for k in range(n):
        names = [rng.choice(repo.EXCHANGES) for _ in range(3)]
        mon.case = 'threads %s' % names
        fresh_settings(rng)
        before = state(scratch)
        sys.setswitchinterval(1e-6)
        barrier = threading.Barrier(4)

        def work(name):
            barrier.wait()
            for _ in range(2 if name in repo.EXCHANGES else 25):
                lo, hi = repo.span(name)
                y = model.ordinal(lo + 3, 1, 2)
                build(repo.cls(name), y, y + 20)
        del WRITES[:]
        WATCH[0] = True
        ts = [threading.Thread(target=work, args=(x,)) for x in ('24/7', '24/5', '24/7', names[0])]
        [t.start() for t in ts]
        [t.join() for t in ts]
        WATCH[0] = False
        sys.setswitchinterval(interval)
        after = state(scratch)
        bad = changed(before, after)
        if bad == ['warnings filters']:
            # Suppressing warnings swaps the filters of the whole process, which two threads cannot undo in order.
            # Observed as such only if the filters differ by the suppressing entry alone.
            extra = [f for f in after['warnings filters'] if f not in before['warnings filters']]
            lost = [f for f in before['warnings filters'] if f not in after['warnings filters']]
            if not lost and all(f[0] == 'ignore' for f in extra):
                mon.known_finding('warnings-threads')
                mon.seen('concurrent', case=(k, tuple(names)))
                continue
        mon.check('concurrent', not bad, lambda: 'concurrent constructions changed %s' % bad, case=(k, tuple(names)))
        mon.check('no outside effect', not WRITES, lambda: 'concurrent constructions did %s' % WRITES[:3])


def run(task, mon):
    rng = rng_for(P, *task)
    base = tempfile.mkdtemp(prefix='c28-')
    scratch = os.path.join(base, 'cwd')
    os.mkdir(scratch)
    here = os.getcwd()
    os.chdir(scratch)
    try:
        sys.addaudithook(audit)
        for d in ('HOME', 'TMPDIR', 'XDG_CACHE_HOME'):
            os.environ[d] = scratch
        if task[0] == 'import':
            importing(mon, rng, scratch)
        elif task[0] == 'threads':
            threads(mon, rng, scratch, task[2])
        else:
            # what the interpreter and pandas load on first use is not the library's doing
            build(repo.cls('XNYS'), 737000, 737100)
            fresh_settings(rng)
            out = Outside(mon, scratch)
            if task[0] == 'registry':
                registry(mon, rng, out, task[2])
                passed(mon, rng, out, 3 * task[2])
            else:
                calendars(mon, rng, out, task)
    finally:
        WATCH[0] = False
        os.chdir(here)
        shutil.rmtree(base)
    mon.sample(mon.case)


def main():
    tasks = [['threads', k, 3 if QUICK else 20] for k in range(3 if QUICK else 8)]
    tasks += [['import', 0, 1]]
    tasks += [['registry', k, 4 if QUICK else 40] for k in range(2 if QUICK else 8)]
    tasks += [['builtin', n, 1 if QUICK else 6] for n in repo.ALL]
    tasks += [['generated', k, 8 if QUICK else 60] for k in range(12 if QUICK else 40)]
    runner.main(
        P, run, tasks, fresh=True,
        rule='a case is one construction, query, registry operation, import or batch of concurrent constructions '
             'between two snapshots of the process-wide settings, the scratch directory, the audited outside events, the '
             'standard output and the arguments; distinct = distinct (calendar or operation, position)',
        minimum={'construct': 60, 'query': 1000, 'arguments unchanged': 500, 'declarations unchanged': 40, 'registry': 80,
                 'concurrent': 6, 'import': 3, 'prints nothing': 1000},
        assumptions=['outside effects are seen through the interpreter\'s audit events and a scratch directory'])


if __name__ == '__main__':
    main()

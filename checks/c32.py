"""C32: the script that writes answer keys writes what the calendar reports."""
import csv
import os
import shutil
import subprocess
import sys
import tempfile

from mon import repo, runner
from mon.cases import build
from mon.model import iso, ordinal
from mon.observe import Failed, call, raw_table
from mon.repo import pd
from mon.runner import rng_for

P = 'C32'
QUICK = runner.tier() == 'quick'
TODAY = pd.Timestamp.utcnow().date()        # the library is imported here, too
NAME = 'make_trading_calendar_test_csv.py'


def files(base):
    return sorted(os.path.relpath(os.path.join(d, f), base) for d, _, fs in os.walk(base) for f in fs)


def parse(path):
    """[(date, open ns, close ns)] of an answer key."""
    with open(path, newline='') as f:
        rows = list(csv.reader(f))
    head, rows = rows[0], rows[1:]
    if head[1:] != ['market_open', 'market_close']:
        raise ValueError('header %r' % head)
    out = []
    for d, o, c in rows:
        o, c = pd.Timestamp(o), pd.Timestamp(c)
        out.append((d[:10], o.value, c.value))
    return out


def run(task, mon):
    rng = rng_for(P, *task)
    source = os.path.join(repo.REPO, 'etc', NAME)
    if not os.path.exists(source):
        mon.note('script not present')
        return
    base = tempfile.mkdtemp(prefix='c32-')
    try:
        # a copy: it writes next to itself
        for d in ('etc', 'tests/resources', 'cwd'):
            os.makedirs(os.path.join(base, d))
        shutil.copy(source, os.path.join(base, 'etc', NAME))
        code = task[1]
        arg = rng.choice((code, code.lower(), code.capitalize()))
        mon.case = 'answer key of %s' % arg
        key = os.path.join(base, 'tests', 'resources', code.lower() + '.csv')
        if rng.random() < 0.5:
            with open(key, 'w') as f:
                f.write('old contents\n' * 5)
        other = os.path.join(base, 'tests', 'resources', 'other.csv')
        with open(other, 'w') as f:
            f.write('kept\n')
        before = files(base)
        env = dict(os.environ, PYTHONPATH=repo.REPO, PYTHONDONTWRITEBYTECODE='1', TZ='UTC', PYTHONWARNINGS='ignore')
        p = subprocess.run([sys.executable, os.path.join(base, 'etc', NAME), arg], cwd=os.path.join(base, 'cwd'), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, universal_newlines=True)
        mon.check('script', p.returncode == 0, lambda: 'status %r: %s' % (p.returncode, p.stderr[-300:]), case=arg)
        if p.returncode:
            return
        after = files(base)
        mon.check('files', sorted(set(before) | {os.path.relpath(key, base)}) == after and open(other).read() == 'kept\n',
                  lambda: 'files %r, before %r' % (after, before), case=arg)
        try:
            rows = parse(key)
        except Exception as e:
            mon.violate('contents', 'the answer key cannot be read: %r' % e)
            return
        mon.check('contents', len(rows) > 500 and rows == sorted(rows), lambda: '%d lines, in order %r' % (len(rows), rows == sorted(rows)))
        if not rows:
            return
        a, b = (ordinal(*[int(x) for x in r[0].split('-')]) for r in (rows[0], rows[-1]))
        cal = build(repo.cls(code), a, b)
        if isinstance(cal, Failed):
            mon.note('window not constructed')
            return
        want = [(str(pd.Timestamp(l).date()), o, c) for l, o, _, _, c in raw_table(cal)]
        # the last line may be cut by the default window (listed finding of C21)
        bad = [(g, w) for g, w in zip(rows[:-1], want[:-1]) if g != w]
        mon.check('contents', len(rows) == len(want) and not bad and rows[-1][0] == want[-1][0], lambda: '%d lines, expected %d; %s' % (
            len(rows), len(want), bad[:2]))
        # the lines are those of the default calendar, unless midnight passed meanwhile
        whole = call(repo.cls(code))
        if not isinstance(whole, Failed) and pd.Timestamp.utcnow().date() == TODAY:
            days = [str(pd.Timestamp(r[0]).date()) for r in raw_table(whole)]
            mon.check('whole default window', [r[0] for r in rows] == days, lambda: '%d lines %s..%s, the default calendar has %d sessions %s..%s' % (
                len(rows), rows[0][0], rows[-1][0], len(days), days[0], days[-1]), case=code)
        mon.seen('line', n=len(rows))
        mon.sample('%s: %d lines, %s to %s' % (mon.case, len(rows), iso(a), iso(b)))
    finally:
        shutil.rmtree(base)


def main():
    rng = rng_for(P, 'names')
    names = rng.sample(repo.EXCHANGES, 10) if QUICK else list(repo.EXCHANGES)
    runner.main(
        P, run, [['key', n] for n in names],
        rule='a case is one run of a copy of the script in a scratch directory; every line of the written file is compared with the '
             'calendar; distinct = distinct calendars',
        minimum={'script': 8, 'contents': 12, 'line': 30000},
        assumptions=['the script keeps its place in etc/ and its file format'])


if __name__ == '__main__':
    main()

"""C30: answers do not depend on the environment of the process."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

from mon import cases, repo, runner
from mon.runner import rng_for

P = 'C30'
QUICK = runner.tier() == 'quick'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ZONES = ['Pacific/Kiritimati', 'Etc/GMT+12', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Europe/London', 'Asia/Tokyo',
         'America/Sao_Paulo', 'Africa/Casablanca', 'Asia/Tehran', 'EST5EDT', 'America/St_Johns', 'Pacific/Apia', 'Asia/Jerusalem']
MODULES = ['trading_calendars', 'trading_calendars.calendar_utils', 'trading_calendars.trading_calendar', 'trading_calendars.always_open',
           'trading_calendars.common_holidays', 'trading_calendars.us_holidays', 'trading_calendars.us_futures_calendar',
           'trading_calendars.exchange_calendar_xhkg', 'trading_calendars.exchange_calendar_xnys', 'trading_calendars.lunisolar_holidays',
           'trading_calendars.calendar_helpers', 'trading_calendars.utils.pandas_utils', 'trading_calendars.tcal', 'trading_calendars.errors',
           'trading_calendars.precomputed_trading_calendar', 'trading_calendars.weekday_calendar', 'datetime', 'numpy', 'pandas', 'pytz']


def child(spec, env=(), flags=(), cwd=None):
    """The answers of a child process, or an error text."""
    e = {k: os.environ[k] for k in ('PATH', 'HOME', 'VERIF_SEED', 'VERIF_TIER', 'LD_LIBRARY_PATH') if k in os.environ}
    e.update(TZ='UTC', LC_ALL='C.UTF-8', LANG='C.UTF-8', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    e.update(env)
    e = {k: v for k, v in e.items() if v is not None}
    p = subprocess.run([sys.executable] + list(flags) + [os.path.join(HERE, 'mon', 'envchild.py')], input=json.dumps(spec), env=e,
                       cwd=cwd or HERE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, universal_newlines=True)
    if p.returncode:
        return 'exit %d: %s' % (p.returncode, p.stderr[-600:])
    return json.loads(p.stdout.splitlines()[-1])


def variant(rng, i):
    """A description of an environment unlike the reference."""
    v = {'TZ': ZONES[i % len(ZONES)], 'PYTHONHASHSEED': str(rng.randint(1, 10 ** 6))}
    if rng.random() < 0.15:
        v['TZ'] = None
    v['LC_ALL'] = rng.choice(('C', 'POSIX', 'C.UTF-8', None))
    v['LANG'] = rng.choice(('C', 'en_US.UTF-8', 'de_DE.UTF-8', None))
    for k, xs in (('COLUMNS', ('20', None)), ('USER', ('nobody', None)), ('HOME', ('/nonexistent', None)), ('TERM', ('dumb', None)),
                  ('PYTHONWARNINGS', ('default', 'ignore', None)), ('CI', ('1', None)), ('LANGUAGE', ('tr', 'fr', None)),
                  ('PYTHONUTF8', ('1', '0', None))):
        v[k] = rng.choice(xs)
    flags = rng.choice(([], ['-O'], ['-OO'], ['-O', '-B'], ['-s'])) if i % 2 else ['-O']
    imports = rng.sample(MODULES, rng.randint(1, len(MODULES)))
    return v, flags, imports


def keys_of(rng, names):
    keys = []
    for n in names:
        lo, hi = repo.span(n)
        a, b = cases.random_window(rng, lo, hi, (30, 400, 1500))
        keys.append(['builtin', n, a, b])
    return keys


def run(task, mon):
    rng = rng_for(P, *task)
    scratch = tempfile.mkdtemp(prefix='c30-')
    try:
        names = task[2]
        keys = keys_of(rng, names) + [['generated', '%s-%d' % (task[1], k)] for k in range(5 if QUICK else 20)]
        spec = {'verif': HERE, 'repo': repo.REPO, 'imports': [], 'keys': keys, 'n': 25, 'default': task[1] < 2,
                'tcal': [[rng.choice(names), str(rng.randint(1, 12)), str(rng.randint(1995, 2025))], [rng.choice(names), '2015']]}
        ref = child(spec)
        if not isinstance(ref, dict):
            raise RuntimeError('reference child failed: ' + ref)
        for j in range(2 if QUICK else 6):
            env, flags, imports = variant(rng, task[1] * 2 + j)
            mon.case = 'environment %r flags %r imports %r' % ({k: v for k, v in env.items()}, flags, imports)
            # modules that a refactoring may have moved
            imports = [m for m in imports if not m.startswith('trading_calendars.') or os.path.exists(
                os.path.join(repo.REPO, m.replace('.', '/') + '.py'))]
            got = child(dict(spec, imports=imports), env, flags, scratch)
            if not isinstance(got, dict):
                mon.violate('process', 'the same questions failed: %s' % got)
                continue
            if task[1] < 2 and any(got.get(k) != v for k, v in ref.items() if k.startswith('default')):
                # midnight may have passed
                again = child(spec)
                if not isinstance(again, dict) or any(again[k] != v for k, v in ref.items() if k.startswith('default')):
                    mon.note('the date changed')
                    ref.update(again if isinstance(again, dict) else {})
                    continue
            for k, want in ref.items():
                if k.endswith((' definition', ' asked')):
                    continue
                if got.get(k + ' definition') != ref.get(k + ' definition'):
                    mon.note('generator differs')
                    continue
                kind = 'default window' if k.startswith('default') else 'printed' if k.startswith('tcal') else \
                    'names' if k == 'names' else k if k in ('registry', 'refused') else 'calendar'
                x = got.get(k)
                same_questions = got.get(k + ' asked') == ref.get(k + ' asked')
                if isinstance(want, list) and isinstance(x, list) and not same_questions:
                    want, x = want[:4], x[:4]
                mon.check(kind, x == want, lambda: '%s: %s' % (k, [
                    (n, a, b) for n, (a, b) in enumerate(zip(want, x)) if a != b][:3] if isinstance(want, list) and isinstance(
                        x, list) else (want, x)), case=(k, task[1], j))
                if kind == 'calendar':
                    mon.seen('answer', n=len(want))
        mon.sample(mon.case)
    finally:
        shutil.rmtree(scratch)


def main():
    rng = rng_for(P, 'names')
    names = list(repo.ALL)
    rng.shuffle(names)
    tasks = []
    for k in range(8 if QUICK else 16):
        tasks.append(['environment', k, names[k::8]])
    runner.main(
        P, run, tasks,
        rule='a case is one calendar (or printed month, list of names, default window) whose table, minutes and answers are computed in a '
             'process with another time zone, locale, hash seed, optimisation flag, directory and order of imports and compared with '
             'those of a reference process; distinct = distinct (calendar, environment)',
        minimum={'calendar': 150, 'answer': 3000, 'default window': 6, 'printed': 16, 'names': 12, 'registry': 12, 'refused': 12},
        assumptions=['the environments are sampled; the reference process runs in UTC without flags'])


if __name__ == '__main__':
    main()

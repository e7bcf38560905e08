"""Run in a fresh process whose clock is set before the package is imported:
    python -m mon.clockchild EPOCH_SECONDS NAME...
Writes {name: {'default': rows|error, 'explicit': [(first, last, rows|error)]}} to the
standard output (pickled)."""
import pickle
import sys
import time

clock = float(sys.argv[1])
_real, _t0 = time.time, time.time()
time.time = lambda: clock + (_real() - _t0)

from mon import repo  # noqa: E402
from mon.cases import build  # noqa: E402
from mon.observe import Failed, Malformed, call, table  # noqa: E402


def rows(cal):
    if isinstance(cal, Failed):
        return 'failed: %r' % (cal,)
    try:
        return [r.full() for r in table(cal)]
    except Malformed as e:
        return 'malformed: %s' % e


out = {'clock': repo.pd.Timestamp('today', tz='UTC').value, 'names': {}}
for arg in sys.argv[2:]:
    name, _, windows = arg.partition('@')
    entry = {'default': rows(call(repo.tc.get_calendar, name)), 'explicit': []}
    for w in filter(None, windows.split(',')):
        a, b = (int(x) for x in w.split('-'))
        entry['explicit'].append((a, b, rows(build(repo.cls(name), a, b))))
    out['names'][name] = entry
sys.stdout.buffer.write(b'RESULT' + pickle.dumps(out))

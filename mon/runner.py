"""Running one check: seeds, tiers, worker processes, verdict, evidence.

A check is a list of independent tasks.  Each task runs in a worker process with
a `Monitor`, which records the observed events and decides every one of them; the
runner merges the monitors in task order and gives the three-valued verdict:

  exit 0   every event agreed with its oracle and enough events were observed
  exit 1   some event was refuted (VIOLATION line, witness in evidence/replay/)
  exit 2   inconclusive: the harness failed or the deciding monitor was not reached
"""
import gc
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')

MAX_VIOLATIONS_PER_TASK = 5
MAX_SAMPLES = 6


def seed():
    return int(os.environ.get('VERIF_SEED', '1'))


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


def rng_for(*key):
    """A private random stream for a task, derived from VERIF_SEED."""
    text = '/'.join(str(k) for k in (seed(),) + key)
    return random.Random(int(hashlib.sha256(text.encode()).hexdigest()[:16], 16))


def load_known(prop):
    """{key: text} of the listed (not fixed) findings of a property."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: '):
                    head, text = line[len('known: '):].split(' :: ', 1)
                    fields = dict(x.split('=', 1) for x in head.split())
                    if fields['property'] == prop:
                        out[fields['key']] = text
    return out


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


class Monitor(object):
    """Records events of one task and the verdict on each."""

    def __init__(self, task):
        self.task = task
        self.counts = {}        # kind of event -> number decided
        self.distinct = set()   # hashes of distinct non-trivial cases
        self.samples = []
        self.violations = []
        self.refuted = 0
        self.known = {}         # key -> number of times seen
        self.notes = {}
        self.case = None        # description of the case being run

    def note(self, kind, n=1):
        self.notes[kind] = self.notes.get(kind, 0) + n

    def seen(self, kind, case=None, n=1):
        """n events of this kind were decided and agreed; case identifies a
        distinct non-trivial one (None for trivial)."""
        self.counts[kind] = self.counts.get(kind, 0) + n
        if case is not None:
            self.distinct.add(hash64((kind, case)))

    def sample(self, what):
        if len(self.samples) < 2:
            self.samples.append(short(what, 600))

    def violate(self, kind, detail, key=None):
        """An event was refuted."""
        self.counts[kind] = self.counts.get(kind, 0) + 1
        self.refuted += 1
        if len(self.violations) < MAX_VIOLATIONS_PER_TASK:
            self.violations.append({
                'kind': kind, 'task': self.task, 'case': short(self.case or '', 1500),
                'detail': short(detail, 3000), 'key': key,
            })

    def known_finding(self, key):
        self.known[key] = self.known.get(key, 0) + 1

    def check(self, kind, ok, detail, case=None, sample=None, n=1):
        """Decide one event.  detail may be a callable (evaluated on failure)."""
        if ok:
            self.seen(kind, case, n)
        else:
            self.violate(kind, detail() if callable(detail) else detail)
        return bool(ok)

    def equal(self, kind, got, want, what, case=None):
        if got == want:
            self.seen(kind, case)
            return True
        self.violate(kind, '%s: observed %s, expected %s' % (
            what() if callable(what) else what, short(got, 900), short(want, 900)))
        return False

    def result(self):
        return {
            'task': self.task, 'counts': self.counts, 'distinct': self.distinct,
            'samples': self.samples, 'violations': self.violations,
            'refuted': self.refuted, 'known': self.known, 'notes': self.notes,
        }


def hash64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), 'big')


_FN = None


def _run_task(task):
    mon = Monitor(task)
    t0 = time.time()
    try:
        _FN(task, mon)
    except Exception:
        r = mon.result()
        r['error'] = '%s\ncase: %s' % (traceback.format_exc(), short(mon.case or '', 1500))
        r['secs'] = time.time() - t0
        return r
    r = mon.result()
    r['secs'] = time.time() - t0
    return r


def memory_gb():
    """Memory available to this run, in GB."""
    try:
        with open('/proc/meminfo') as f:
            for line in f:
                if line.startswith('MemAvailable:'):
                    return int(line.split()[1]) / 1e6
    except (OSError, ValueError):
        pass
    return 16.0


def _serve(conn, fresh):
    """A worker process: runs the tasks sent to it."""
    while True:
        task = conn.recv()
        if task is None:
            break
        conn.send(_run_task(task))
        if fresh:
            break
        gc.collect()
    conn.close()
    os._exit(0)


AFTER_VIOLATION = 60


def nothing(task, error):
    return {'task': task, 'error': error, 'counts': {}, 'distinct': set(), 'samples': [], 'violations': [],
            'refuted': 0, 'known': {}, 'notes': {}}


def run_tasks(fn, tasks, timeout, procs=None, fresh=False):
    """[result of each task].  A task whose worker dies is tried once more; tasks
    without a result at the timeout are reported as errors (inconclusive).
    fresh: every task in a process of its own."""
    global _FN
    _FN = fn
    procs = min(procs or int(os.environ.get('VERIF_PROCS') or 0) or os.cpu_count() or 4, 16, max(1, len(tasks)), max(2, int(memory_gb() / 1.8)))
    ctx = multiprocessing.get_context('fork')
    results, workers = {}, {}       # connection -> (process, index of its task)
    queue, died = list(range(len(tasks)))[::-1], {}
    deadline = time.time() + timeout
    sys.stdout.flush()
    try:
        while len(results) < len(tasks):
            while len(workers) < procs and queue:
                ours, theirs = ctx.Pipe()
                p = ctx.Process(target=_serve, args=(theirs, fresh))
                p.start()
                theirs.close()
                i = queue.pop()
                ours.send(tasks[i])
                workers[ours] = (p, i)
            left = deadline - time.time()
            if left <= 0:
                break
            for conn in multiprocessing.connection.wait(list(workers), min(left, 5)):
                p, i = workers[conn]
                try:
                    results[i] = conn.recv()
                except (EOFError, OSError):
                    died[i] = died.get(i, 0) + 1
                    if died[i] < 2:
                        queue.insert(0, i)
                    else:
                        results[i] = nothing(tasks[i], 'its worker process died twice')
                    done = True
                else:
                    done = fresh or not queue
                    if results[i]['violations']:
                        # decided; the other tasks may add to it for a while
                        deadline = min(deadline, time.time() + AFTER_VIOLATION)
                if done:
                    del workers[conn]
                    conn.close()
                    if p.is_alive():
                        p.join(0.2)
                    if p.is_alive():
                        p.terminate()
                else:
                    i = queue.pop()
                    conn.send(tasks[i])
                    workers[conn] = (p, i)
    finally:
        for conn, (p, i) in workers.items():
            p.terminate()
        for conn, (p, i) in workers.items():
            p.join(5)
    return [results.get(i) or nothing(tasks[i], 'no answer within the watchdog limit') for i in range(len(tasks))]


def main(prop, fn, tasks, rule, minimum, timeout=840, procs=None, assumptions=(),
         level='exploration', exhaustive=None, fresh=False):
    """Run a check and exit.

    minimum: {kind of event: smallest number that must be decided}.
    """
    t0 = time.time()
    os.makedirs(os.path.join(EVIDENCE, 'replay'), exist_ok=True)
    only = os.environ.get('VERIF_ONLY_TASK')
    if only is not None:
        tasks = [t for t in tasks if only in json.dumps(t)]
    results = run_tasks(fn, tasks, timeout, procs, fresh)
    counts, notes, known, distinct = {}, {}, {}, set()
    samples, violations, errors, refuted = [], [], [], 0
    for r in results:
        for k, n in r['counts'].items():
            counts[k] = counts.get(k, 0) + n
        for k, n in r['notes'].items():
            notes[k] = notes.get(k, 0) + n
        for k, n in r['known'].items():
            known[k] = known.get(k, 0) + n
        distinct |= r['distinct']
        samples.extend(r['samples'])
        violations.extend(r['violations'])
        refuted += r['refuted']
        if r.get('error'):
            errors.append('task %s: %s' % (short(json.dumps(r['task']), 200), r['error']))
    if os.environ.get('VERIF_TIMES'):
        for r in sorted(results, key=lambda r: -r.get('secs', 0))[:12]:
            print('  %.1f s  %s' % (r.get('secs', -1), short(json.dumps(r['task']), 150)))
    listed = load_known(prop)
    unlisted = [k for k in known if k not in listed]
    step = max(1, len(samples) // MAX_SAMPLES)
    wall = round(time.time() - t0, 2)
    cov = {
        'evaluations': sum(counts.values()),
        'distinct_nontrivial': len(distinct),
        'rule': rule,
        'samples': samples[::step][:MAX_SAMPLES],
        'events_by_kind': counts,
        'tasks': len(tasks),
    }
    if exhaustive is not None:
        cov['exhaustive'] = exhaustive
    if notes:
        cov['observed'] = notes
    if known:
        cov['known_findings_observed'] = known
    evidence = {
        'property': prop, 'tier': tier(), 'seed': seed(), 'level': level,
        'coverage': cov, 'wall_s': wall, 'violations': refuted,
        'assumptions': list(assumptions),
    }
    path = os.path.join(EVIDENCE, prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    os.replace(path + '.tmp', path)

    print('%s tier=%s seed=%d tasks=%d events=%d distinct=%d wall=%.1fs' % (
        prop, tier(), seed(), len(tasks), cov['evaluations'], len(distinct), wall))
    for k in sorted(counts):
        print('  %-34s %d' % (k, counts[k]))
    for k in sorted(notes):
        print('  (%s) %d' % (k, notes[k]))
    for key in sorted(known):
        if key in listed:
            print('KNOWN-FINDING: property=%s %s' % (prop, listed[key]))
    for key in unlisted:
        violations.append({'kind': 'known-mechanism-not-listed', 'task': None, 'case': '',
                           'detail': key, 'key': key})
    if violations:
        replay = os.path.join(EVIDENCE, 'replay', '%s-%s-%d.json' % (prop, tier(), seed()))
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'tier': tier(), 'seed': seed(),
                       'violations': violations[:50]}, f, indent=1)
        for v in violations[:5]:
            print('  refuted: [%s] %s' % (v['kind'], short(v['detail'], 600)))
            if v['case']:
                print('    in case %s' % short(v['case'], 400))
        for e in errors[:2]:
            print('  (also) harness error: ' + short(e, 600))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        sys.stdout.flush()
        sys.exit(1)
    if errors:
        for e in errors[:5]:
            print('INCONCLUSIVE: ' + short(e, 3000))
        sys.exit(2)
    lacking = {k: (counts.get(k, 0), n) for k, n in minimum.items() if counts.get(k, 0) < n}
    if lacking and only is None:
        print('INCONCLUSIVE: monitors not reached often enough: %s' % lacking)
        sys.exit(2)
    missing = [k for k in listed if k not in known]
    for k in missing:
        print('  note: listed finding %s was not observed in this run' % k)
    sys.stdout.flush()
    sys.exit(0)

"""C11: answers do not depend on what ran before or at the same time."""
import sys
import threading

import pytz

from mon import cases, gen, model, repo, runner
from mon.cases import build, stamp
from mon.observe import Failed, Malformed, call, table
from mon.preempt import lines, outcome, preempt
from mon.qmodel import MIN, QModel
from mon.queries import KINDS, Query, decide, random_query
from mon.repo import label, pd
from mon.runner import rng_for

P = 'C11'
QUICK = runner.tier() == 'quick'

DECLARED = ('adhoc_holidays', 'regular_holidays', 'special_opens', 'special_opens_adhoc', 'special_closes',
            'special_closes_adhoc', 'open_times', 'close_times', 'break_start_times', 'break_end_times',
            'weekmask', 'open_offset', 'close_offset', 'tz', 'name', 'day', 'schedule')

# --- calendars with the table each one has when built alone in a fresh process

REF = {}      # key -> [Row] or None


def pool_keys():
    rng = rng_for(P, 'pool')
    keys = []
    for n in repo.ALL:
        lo, hi = repo.span(n)
        for _ in range(2 if QUICK else 6):
            a, b = cases.random_window(rng, lo, hi, (8, 30, 200, 400))
            keys.append(('builtin', n, a, b))
        # a long window, where shared tables are used most
        y = rng.randint(lo, max(lo, hi - 12))
        keys.append(('builtin', n, model.ordinal(y, 1, 1), model.ordinal(min(hi, y + 12), 12, 31)))
    for k in range(16 if QUICK else 160):
        keys.append(('generated', k, 0, 0))
    # definitions that differ in one declaration only, over one window
    for n in rng.sample(repo.ALL, 6 if QUICK else len(repo.ALL)):
        lo, hi = repo.span(n)
        a, b = cases.random_window(rng, lo, hi, (200, 400))
        keys += [('kin ' + n, v, a, b) for v in range(6)]
    for k in range(6 if QUICK else 60):
        keys += [('kin %d' % k, v, 0, 0) for v in range(9)]
    return keys


def builtin_variant(cls, v, a, b):
    """A subclass that differs from a built-in calendar in one declaration."""
    rng = rng_for(P, 'variant', cls.__name__, a, b)
    mid = pd.DatetimeIndex([label(rng.randint(a, b))])
    return [cls, type('V1', (cls,), {'special_closes': [], 'special_closes_adhoc': []}),
            type('V2', (cls,), {'adhoc_holidays': []}),
            type('V3', (cls,), {'special_opens': [], 'special_opens_adhoc': []}),
            type('V4', (cls,), {'tz': pytz.timezone('Asia/Kathmandu')}),
            type('V5', (cls,), {'adhoc_holidays': list(mid)})][v]


def variant(k, v):
    """Definition k with one declaration changed."""
    rng = rng_for(P, 'kin', k)
    while True:
        a, b = cases.random_window(rng, 1972, 2095, (40, 120))
        try:
            d = gen.random_definition(rng, a, b, want_special=True)
        except model.Unsupported:
            continue
        if d.special_opens_adhoc or d.special_closes_adhoc:
            break
    days = d.sessions(a, b)
    if v == 1:
        d = d.replace(special_closes=[], special_closes_adhoc=[])
    elif v == 2:
        d = d.replace(special_opens=[], special_opens_adhoc=[])
    elif v == 3:
        d = d.replace(special_opens=[], special_opens_adhoc=[], special_closes=[], special_closes_adhoc=[])
    elif v == 4:
        d = d.replace(special_closes_adhoc=[(t, [rng.choice(days)]) for t, _ in d.special_closes_adhoc])
    elif v == 5:
        d = d.replace(adhoc=list(d.adhoc) + [rng.choice(days)], special_opens=[], special_opens_adhoc=[], special_closes=[],
                      special_closes_adhoc=[])
    elif v == 6:
        d = d.replace(break_starts=None, break_ends=None)
    elif v == 7:
        d = d.replace(open_times=[(s, t + 1) for s, t in d.open_times])
    elif v == 8:
        d = d.replace(close_times=[(s, t - 1) for s, t in d.close_times])
    return d, a, b, rng.randrange(12)


def definition(k):
    rng = rng_for(P, 'definition', k)
    while True:
        a, b = cases.random_window(rng, 1972, 2095, (8, 40, 120))
        try:
            return gen.random_definition(rng, a, b), a, b, rng.randrange(12)
        except model.Unsupported:
            pass


def construct(key):
    """A new calendar for a key."""
    if key[0] == 'builtin':
        return build(repo.cls(key[1]), key[2], key[3])
    if key[0].startswith('kin '):
        n = key[0][4:]
        if n in repo.ALL:
            return build(builtin_variant(repo.cls(n), key[1], key[2], key[3]), key[2], key[3])
        d, a, b, style = variant(int(n), key[1])
    else:
        d, a, b, style = definition(key[1])
    return build(gen.make_class(d, style), a, b)


def alone(key, mon):
    cal = construct(key)
    if not isinstance(cal, Failed):
        try:
            mon.samples.append(table(cal))
        except Malformed:
            pass


def make_reference():
    """The table of every key, each built in a process of its own."""
    keys = pool_keys()
    for key, r in zip(keys, runner.run_tasks(alone, keys, 300, fresh=True)):
        if r['samples'] and r['samples'][0]:
            REF[key] = r['samples'][0]


def keys_of(rng, n, short=False):
    ks = sorted(REF, key=str)
    if short:
        ks = [k for k in ks if len(REF[k]) < 330]
    return [rng.choice(ks) for _ in range(n)]


def same_rows(rows, ref):
    return [r.full() for r in rows] == [r.full() for r in ref]


def check_table(mon, kind, cal, key):
    if isinstance(cal, Failed):
        mon.violate(kind, '%s: construction failed after a history: %r' % (key, cal))
        return False
    rows = call(table, cal)
    ok = not isinstance(rows, Failed) and same_rows(rows, REF[key])
    mon.check(kind, ok, lambda: '%s: table differs from the table of a calendar built alone: %s' % (
        key, rows if isinstance(rows, Failed) else diff(rows, REF[key])), case=(key, len(mon.distinct)))
    return ok


def diff(rows, ref):
    a, b = set(r.full() for r in rows), set(r.full() for r in ref)
    return 'only now %s; only alone %s' % (sorted(map(str, a - b))[:3], sorted(map(str, b - a))[:3])


def kin(key):
    """Keys of the same class in other windows, or of kindred definitions in the same window."""
    n = 1 if key[0].startswith('kin ') else 2
    return [k for k in sorted(REF, key=str) if k[:n] == key[:n]]


# --- (a) histories

def histories(task, mon):
    rng = rng_for(P, *task)
    keys = keys_of(rng, 3)
    # a second calendar of the same class in another window or of a kindred definition, and twins
    k0 = keys[0]
    rel = kin(k0)
    keys += rng.sample(rel, min(len(rel), 3)) + [k0]
    mon.case = 'history over %s' % (keys,)
    live = []
    for key in keys:
        cal = construct(key)
        if check_table(mon, 'table after a history', cal, key):
            live.append((key, cal, QModel(REF[key])))
    done = []
    for step in range(task[2]):
        r = rng.random()
        if r < 0.03 and len(live) < 9:
            key = rng.choice(keys)
            cal = construct(key)
            if check_table(mon, 'table after a history', cal, key):
                live.append((key, cal, QModel(REF[key])))
            continue
        if not live:
            break
        key, cal, q = rng.choice(live)
        if r < 0.06 and len(live) > 3:
            live.remove((key, cal, q))
            continue
        if r < 0.15:
            call(getattr, cal, rng.choice(DECLARED))
            continue
        qu = random_query(rng, q)
        done.append('%s.%s' % (key[1], qu))
        decide(mon, 'query in a history', qu, qu.ask(cal), lambda: 'after %s, on %s' % (done[-6:-1], key),
               case=(key, repr(qu)))
        if done and rng.random() < 0.1:
            # the same again, on every live calendar of that class
            for key2, cal2, q2 in live:
                if key2 == key:
                    decide(mon, 'query in a history', qu, qu.ask(cal2), lambda: 'repeated on %s' % (key2,))
    for key, cal, q in live:
        check_table(mon, 'table after a history', cal, key)
    mon.sample('history of %d steps over %s, ending %s' % (task[2], [k[1] for k in keys], done[-3:]))


def long_history(task, mon):
    """Thousands of queries on one calendar."""
    rng = rng_for(P, *task)
    key = keys_of(rng, 1, short=True)[0]
    mon.case = 'long history on %s' % (key,)
    cal, q = construct(key), QModel(REF[key])
    if not check_table(mon, 'table after a history', cal, key):
        return
    # first one kind after the other, then mixed
    kinds = sorted(set(KINDS) - {'attr'})
    rng.shuffle(kinds)
    plan = [k for k in kinds for _ in range(task[2] // 4 if k == 'next' else task[2] // 25)]
    plan += [rng.choice(kinds) for _ in range(task[2] - len(plan))]
    for step, kind in enumerate(plan):
        qu = random_query(rng, q, kind)
        decide(mon, 'query in a long history', qu, qu.ask(cal), lambda: 'as query number %d on %s' % (step + 1, key),
               case=(key, repr(qu)))
    check_table(mon, 'table after a history', cal, key)


def everything(task, mon):
    """Construct and read everything several times, then construct again."""
    rng = rng_for(P, *task)
    ks = [k for k in sorted(REF, key=str)]
    rng.shuffle(ks)
    ks = ks[:task[2]]
    names = sorted({k[1] for k in ks if k[0] == 'builtin'})
    mon.case = 'all of %s read twice' % names
    for key in ks:
        cal = construct(key)
        check_table(mon, 'table after reading everything', cal, key)
        if isinstance(cal, Failed):
            continue
        for nm in DECLARED + DECLARED:
            call(getattr, cal, nm)
        if rng.random() < 0.3:
            q = QModel(REF[key])
            for _ in range(10):
                qu = random_query(rng, q)
                decide(mon, 'query in a history', qu, qu.ask(cal), lambda: 'on %s' % (key,), case=(key, repr(qu)))
    rng.shuffle(ks)
    for key in ks[:len(ks) // 2]:
        check_table(mon, 'table after reading everything', construct(key), key)


def kindred(task, mon):
    """Kindred definitions constructed one after the other, in any order."""
    rng = rng_for(P, *task)
    groups = sorted({k[0] for k in REF if k[0].startswith('kin ')})
    for g in rng.sample(groups, min(len(groups), task[2])):
        ks = [k for k in sorted(REF, key=str) if k[0] == g]
        mon.case = 'kindred definitions %s' % (ks,)
        live = []
        for key in rng.sample(ks, len(ks)) + rng.sample(ks, min(2, len(ks))):
            cal = construct(key)
            if check_table(mon, 'table of a kindred definition', cal, key):
                live.append((key, cal))
        for key, cal in live:
            check_table(mon, 'table of a kindred definition', cal, key)
            q = QModel(REF[key])
            for _ in range(4):
                qu = random_query(rng, q)
                decide(mon, 'query in a history', qu, qu.ask(cal), lambda: 'on %s among its kin' % (key,), case=(key, repr(qu)))


# --- (b) preemption at every line

def pairs(rng, q):
    """Pairs of queries to interleave on one calendar."""
    out = []
    N = len(q.rows)
    for _ in range(3):
        i, j = rng.randrange(N), rng.randrange(N)
        a, b = q.opens[i], q.opens[j]
        out.append((Query('minute_to_session_label', (stamp(a),), {}, q.session_label(a, 'next')),
                    Query('minute_to_session_label', (stamp(b),), {}, q.session_label(b, 'next'))))
    for _ in range(2):
        out.append((random_query(rng, q), random_query(rng, q)))
    for k in sorted(set(KINDS) - {'attr'}):
        a, b = random_query(rng, q, k), random_query(rng, q, k)
        out += [(a, b), (b, a)]
    out.append((random_query(rng, q, 'smin'), random_query(rng, q, 'mwindow')))
    out.append((random_query(rng, q, 'open'), random_query(rng, q, 'next')))
    return out


def preemptions(task, mon):
    rng = rng_for(P, *task)
    for key in keys_of(rng, task[2], short=True):
        q = QModel(REF[key])
        mon.case = 'preemption on %s' % (key,)
        cal = construct(key)
        if isinstance(cal, Failed):
            mon.violate('preempted query', '%s: %r' % (key, cal))
            continue
        for a, b in pairs(rng, q):
            # prime the last-answer cache with a's instant, b's or none
            prime = rng.choice((None, a, b))
            k, skipped = 0, 0
            while k < 60:
                k += 1
                if prime is not None:
                    prime.ask(cal)
                r = preempt(lambda: a.ask(cal), lambda: b.ask(cal), k)
                if r is None:
                    break
                ga, gb, where = r
                decide(mon, 'preempted query', a, ga, lambda: 'preempted at %s by %s' % (where, b),
                       case=(key, repr(a), repr(b), k))
                decide(mon, 'preempting query', b, gb, lambda: 'run while %s was stopped at %s' % (a, where))
                for c in (a, b):
                    decide(mon, 'query after an interleaving', c, c.ask(cal), lambda: 'after %s was stopped at %s for %s' % (
                        a, where, b))
        # first use of lazily computed data: a new calendar for every point
        for _ in range(3):
            a = random_query(rng, q, rng.choice(('smin', 'mwindow', 'next', 'count', 'open')))
            b = random_query(rng, q, rng.choice(('smin', 'mwindow', 'next', 'count', 'open', 'attr')))
            c0 = construct(key)
            _, n = lines(lambda: a.ask(c0))
            for k in sorted(rng.sample(range(1, n + 1), min(n, 6))):
                c1 = construct(key)
                r = preempt(lambda: a.ask(c1), lambda: b.ask(c1), k)
                if r is None:
                    continue
                ga, gb, where = r
                decide(mon, 'preempted first query', a, ga, lambda: 'first query preempted at %s by %s' % (where, b),
                       case=(key, repr(a), repr(b), k))
                decide(mon, 'preempting query', b, gb, lambda: 'run while first %s was stopped at %s' % (a, where))
                for c in (a, b, random_query(rng, q)):
                    decide(mon, 'query after an interleaving', c, c.ask(c1), lambda: 'after first %s was stopped at %s for %s' % (
                        a, where, b))
    mon.sample('%s, e.g. %s preempted by %s' % (mon.case, a, b))


def construction_preemptions(task, mon):
    """One construction stopped while another of the same class (or any) runs."""
    rng = rng_for(P, *task)
    for _ in range(task[2]):
        ka = keys_of(rng, 1, short=True)[0]
        kb = rng.choice(kin(ka)) if rng.random() < 0.8 else keys_of(rng, 1, short=True)[0]
        mon.case = 'construction of %s interleaved with %s' % (ka, kb)
        _, n = lines(lambda: construct(ka))
        for k in sorted(rng.sample(range(1, n + 1), min(n, 4))):
            r = preempt(lambda: construct(ka), lambda: construct(kb), k)
            if r is None:
                continue
            check_table(mon, 'interleaved construction', r[0], ka)
            check_table(mon, 'interleaved construction', r[1], kb)


# --- (c) real threads

def threads(task, mon):
    rng = rng_for(P, *task)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for key in keys_of(rng, task[2], short=True):
            q = QModel(REF[key])
            mon.case = 'threads on %s' % (key,)
            cal = construct(key)
            if isinstance(cal, Failed):
                continue
            plans = []
            for _ in range(6):
                i = rng.randrange(len(q.rows))
                ts = [q.opens[i], q.closes[i], q.opens[rng.randrange(len(q.rows))]]
                plans.append([random_query(rng, q, 'mtsl', rng.choice(ts)) if rng.random() < 0.6 else random_query(rng, q)
                              for _ in range(60)])
            got = [[] for _ in plans]
            gate = threading.Barrier(len(plans))

            def body(k):
                gate.wait()
                for qu in plans[k]:
                    got[k].append(outcome(lambda: qu.ask(cal)))
            ths = [threading.Thread(target=body, args=(k,)) for k in range(len(plans))]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
            for k, plan in enumerate(plans):
                for qu, g in zip(plan, got[k]):
                    decide(mon, 'query among threads', qu, g, lambda: 'with %d threads on %s' % (len(plans), key),
                           case=(key, repr(qu)))
    finally:
        sys.setswitchinterval(old)


def run(task, mon):
    {'history': histories, 'long': long_history, 'everything': everything, 'kindred': kindred, 'preempt': preemptions,
     'construct': construction_preemptions, 'threads': threads}[task[0]](task, mon)


def main():
    make_reference()
    tasks = [['everything', k, 22 if QUICK else 220] for k in range(4 if QUICK else 12)]
    tasks += [['kindred', k, 3] for k in range(4 if QUICK else 40)]
    tasks += [['preempt', k, 1] for k in range(6 if QUICK else 160)]
    tasks += [['construct', k, 3] for k in range(5 if QUICK else 80)]
    tasks += [['history', k, 260] for k in range(6 if QUICK else 240)]
    tasks += [['long', k, 3000 if QUICK else 20000] for k in range(3 if QUICK else 16)]
    tasks += [['threads', k, 6] for k in range(6 if QUICK else 60)]
    runner.main(
        P, run, tasks,
        rule='a case is a query (with arguments) asked inside a random history over several live calendars, at one '
             'preemption point of another query or first query, or among threads, or a construction after or during '
             'others; the expected answer comes from the table the same calendar has when built alone in a fresh '
             'process; distinct = distinct (calendar, query or pair, preemption point)',
        minimum={'table after a history': 60, 'table after reading everything': 100, 'query in a history': 1500, 'query in a long history': 8000, 'table of a kindred definition': 60,
                 'preempted query': 600, 'preempted first query': 100, 'interleaved construction': 40,
                 'query among threads': 6000})


if __name__ == '__main__':
    main()

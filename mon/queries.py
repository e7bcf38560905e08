"""Random queries with their model answers, for histories and interleavings."""
from .cases import stamp
from .observe import Failed, call, is_utc, ns_list, same, show
from .qmodel import DAYNS, MIN, Nope
from .repo import np, pd


class Query(object):
    """One query: `ask(cal)` gives the outcome, `decide(outcome)` the verdict."""

    def __init__(self, name, args, kwargs, want, how='same'):
        self.name, self.args, self.kwargs, self.want, self.how = name, args, kwargs, want, how

    def ask(self, cal):
        if self.args is None:
            return call(getattr, cal, self.name)
        return call(getattr(cal, self.name), *self.args, **self.kwargs)

    def ok(self, got):
        w = self.want
        if isinstance(got, Failed) or isinstance(w, Nope):
            return same(got, w) if isinstance(w, Nope) else False
        if self.how == 'value':
            return got == w
        if self.how == 'series':
            return [int(x.value) for x in got] == w[1] and ns_list(got.index) == w[0] and is_utc(got.dt)
        if self.how == 'column':
            return [int(x.value) for x in got] == w[1] and ns_list(got.index) == w[0]
        if self.how == 'pair':
            return len(got) == 2 and all(
                (g is pd.NaT if x is None else same(g, x)) for g, x in zip(got, w))
        if self.how == 'ints':
            a = np.asarray(got)
            return a.tolist() == w
        return same(got, w)

    def __repr__(self):
        if self.args is None:
            return self.name
        return '%s(%s)' % (self.name, ', '.join(
            [repr(a) for a in self.args] + ['%s=%r' % kv for kv in self.kwargs.items()]))


KINDS = ('mtsl', 'mtsl', 'mtsl', 'open', 'next', 'session', 'window', 'range', 'mwindow', 'mrange', 'smin', 'count',
         'distance', 'bounds', 'attr', 'index', 'opens', 'issess', 'exec')


def instant(rng, q):
    i = rng.choice((0, len(q.rows) - 1, rng.randrange(len(q.rows)), rng.randrange(len(q.rows))))
    base = rng.choice((q.opens[i], q.closes[i], q.labels[i], q.bs[i] or q.opens[i], q.be[i] or q.closes[i],
                       q.opens[i] + MIN * rng.randint(0, (q.closes[i] - q.opens[i]) // MIN)))
    return base + rng.choice((0, 0, MIN, -MIN, 60 * MIN, -60 * MIN, DAYNS))


def random_query(rng, q, kind=None, t=None):
    """A Query with its expected answer on the calendar modelled by q."""
    kind = kind or rng.choice(KINDS)
    N = len(q.rows)
    i = rng.choice((0, N - 1, rng.randrange(N), rng.randrange(N)))
    j = min(N - 1, i + rng.choice((0, 1, 4)))
    t = instant(rng, q) if t is None else t
    L, M = stamp(q.labels[i]), stamp(q.labels[j])
    if kind == 'mtsl':
        d = rng.choice(('next', 'next', 'next', 'previous', 'none'))
        return Query('minute_to_session_label', (stamp(t),), {} if d == 'next' else {'direction': d}, q.session_label(t, d))
    if kind == 'open':
        ib = rng.random() < 0.3
        return Query('is_open_on_minute', (stamp(t),), {'ignore_breaks': ib}, q.is_open(t, ib), 'value')
    if kind == 'next':
        nm = rng.choice(('next_open', 'next_close', 'previous_open', 'previous_close', 'next_minute', 'previous_minute'))
        return Query(nm, (stamp(t),), {}, getattr(q, nm)(t))
    if kind == 'session':
        if rng.random() < 0.5:
            return Query('next_session_label', (L,), {}, q.labels[i + 1] if i + 1 < N else Nope('ValueError'))
        return Query('previous_session_label', (L,), {}, q.labels[i - 1] if i else Nope('ValueError'))
    if kind == 'window':
        k = rng.randint(-4, 4)
        return Query('sessions_window', (L, k), {}, q.sessions_window(i, k))
    if kind == 'range':
        return Query('sessions_in_range', (L, M), {}, q.labels[i:j + 1])
    if kind == 'mwindow':
        k = rng.choice((-40, -3, 0, 3, 40))
        return Query('minutes_window', (stamp(t), k), {}, q.minutes_window(t, k))
    if kind == 'mrange':
        u = t + rng.choice((0, 30 * MIN, DAYNS))
        return Query('minutes_in_range', (stamp(t), stamp(u)), {}, q.minutes_in_range(t, u))
    if kind == 'smin':
        return Query('minutes_for_session', (L,), {}, q.session_minutes(i))
    if kind == 'count':
        return Query('minutes_count_for_sessions_in_range', (L, M), {}, sum(q.counts[i:j + 1]), 'value')
    if kind == 'distance':
        return Query('session_distance', (L, M), {}, j - i + 1, 'value')
    if kind == 'bounds':
        if rng.random() < 0.5:
            return Query('open_and_close_for_session', (L,), {}, (q.opens[i], q.closes[i]), 'pair')
        return Query('break_start_and_end_for_session', (L,), {}, (q.bs[i], q.be[i]), 'pair')
    if kind == 'index':
        u = q.opens[i], q.closes[j]
        return Query('minute_index_to_session_labels', (pd.DatetimeIndex(sorted(u), tz='UTC'),), {},
                     [q.labels[i], q.labels[j]])
    if kind == 'opens':
        nm, xs = rng.choice((('session_opens_in_range', q.opens), ('session_closes_in_range', q.closes)))
        return Query(nm, (L, M), {}, (q.labels[i:j + 1], xs[i:j + 1]), 'series')
    if kind == 'issess':
        d = q.labels[i] + rng.choice((0, DAYNS, -DAYNS))
        return Query('is_session', (stamp(d),), {}, d in set(q.labels), 'value')
    if kind == 'exec':
        return Query('sessions_in_range', (L - pd.Timedelta(days=2), M + pd.Timedelta(days=2)), {},
                     q.sessions_in_range(q.labels[i] - 2 * DAYNS, q.labels[j] + 2 * DAYNS))
    nm = rng.choice(('all_sessions', 'first_session', 'last_session', 'late_opens', 'early_closes', 'opens', 'closes',
                     'all_minutes', 'market_opens_nanos', 'market_closes_nanos'))
    if nm == 'all_sessions':
        return Query(nm, None, None, q.labels)
    if nm == 'first_session':
        return Query(nm, None, None, q.labels[0])
    if nm == 'last_session':
        return Query(nm, None, None, q.labels[-1])
    if nm in ('late_opens', 'early_closes'):
        f = 'late' if nm == 'late_opens' else 'early'
        w = [l for l, r in zip(q.labels, q.rows) if getattr(r, f)]
        return SetQuery(nm, w)
    if nm in ('opens', 'closes'):
        return Query(nm, None, None, (q.labels, getattr(q, nm)), 'column')
    if nm == 'all_minutes':
        return Query(nm, None, None, q.minutes)
    return Query(nm, None, None, q.opens if 'opens' in nm else q.closes, 'ints')


class SetQuery(Query):
    """A list of labels, duplicates allowed."""

    def __init__(self, name, want):
        Query.__init__(self, name, None, None, want)

    def ok(self, got):
        return not isinstance(got, Failed) and sorted(set(ns_list(got))) == self.want


def decide(mon, kind, query, got, where, case=None):
    return mon.check(kind, query.ok(got), lambda: '%s: %s gave %s, expected %s' % (
        where() if callable(where) else where, query, show(got), show(query.want)), case=case)

"""Reference answers to the queries of a calendar, from its table of sessions.

Instants are integers of nanoseconds here; the answers are integers too.
"""
from bisect import bisect_left, bisect_right

from .model import EPOCH_ORD

MIN = 60 * 10 ** 9
DAYNS = 86400 * 10 ** 9


class Nope(object):
    """The query must fail; with one of the named exception types if given."""

    def __init__(self, *types):
        self.types = types

    def __repr__(self):
        return 'failure' + (' with %s' % ' or '.join(self.types) if self.types else '')


class QModel(object):
    def __init__(self, rows):
        """rows: objects with day (ordinal), open, bs, be, close in minutes."""
        self.rows = rows
        self.days = [r.day for r in rows]
        self.labels = [(r.day - EPOCH_ORD) * DAYNS for r in rows]
        self.pos = {d: i for i, d in enumerate(self.days)}
        self.opens = [r.open * MIN for r in rows]
        self.closes = [r.close * MIN for r in rows]
        self.bs = [None if r.bs is None else r.bs * MIN for r in rows]
        self.be = [None if r.be is None else r.be * MIN for r in rows]
        self.counts = []
        self._min = None
        for r in rows:
            n = r.close - r.open + 1
            if r.bs is not None:
                n -= r.be - r.bs - 1
            self.counts.append(n)

    # -- minutes

    @property
    def minutes(self):
        if self._min is None:
            out = []
            for i in range(len(self.rows)):
                out.extend(self.session_minutes(i))
            self._min = out
        return self._min

    def session_minutes(self, i):
        o, c, bs, be = self.opens[i], self.closes[i], self.bs[i], self.be[i]
        if bs is None:
            return list(range(o, c + 1, MIN))
        return list(range(o, bs + 1, MIN)) + list(range(be, c + 1, MIN))

    def session_at(self, t):
        """Index of the session containing instant t (open..close), else None."""
        i = bisect_right(self.opens, t) - 1
        if i >= 0 and t <= self.closes[i]:
            return i
        return None

    def is_open(self, t, ignore_breaks=False):
        """For whole minutes."""
        i = self.session_at(t)
        if i is None:
            return False
        if ignore_breaks or self.bs[i] is None:
            return True
        return not (self.bs[i] < t < self.be[i])

    def is_trading_minute(self, t):
        m = self.minutes
        i = bisect_left(m, t)
        return i < len(m) and m[i] == t

    # -- neighbours

    @staticmethod
    def _after(xs, t):
        i = bisect_right(xs, t)
        return xs[i] if i < len(xs) else Nope()

    @staticmethod
    def _before(xs, t):
        i = bisect_left(xs, t)
        return xs[i - 1] if i > 0 else Nope()

    def next_open(self, t):
        return self._after(self.opens, t)

    def next_close(self, t):
        return self._after(self.closes, t)

    def previous_open(self, t):
        return self._before(self.opens, t)

    def previous_close(self, t):
        return self._before(self.closes, t)

    def next_minute(self, t):
        return self._after(self.minutes, t)

    def previous_minute(self, t):
        return self._before(self.minutes, t)

    # -- minute -> session

    def session_label(self, t, direction):
        if direction not in ('next', 'previous', 'none'):
            return Nope('ValueError')
        i = self.session_at(t)
        if direction == 'none':
            if i is not None and self.is_open(t):
                return self.labels[i]
            return Nope('ValueError')
        if i is not None:
            return self.labels[i]
        if direction == 'next':
            j = bisect_right(self.opens, t)
            return self.labels[j] if j < len(self.labels) else Nope()
        j = bisect_left(self.closes, t)
        return self.labels[j - 1] if j > 0 else Nope()

    # -- ranges

    def minutes_in_range(self, a, b):
        m = self.minutes
        return m[bisect_left(m, a):bisect_right(m, b)]

    def minutes_window(self, t, n):
        m = self.minutes
        i = bisect_right(m, t) - 1
        if i < 0:
            return Nope('KeyError')
        if n >= 0:
            return m[i:i + n]
        return m[max(0, i + n + 1):i + 1]

    def sessions_between(self, a, b):
        """Positions (lo, hi) of the labels in [a, b] (label nanoseconds)."""
        return bisect_left(self.labels, a), bisect_right(self.labels, b)

    def sessions_in_range(self, a, b):
        lo, hi = self.sessions_between(a, b)
        return self.labels[lo:hi]

    def sessions_window(self, i, n):
        if n >= 0:
            return self.labels[i:i + n + 1]
        return self.labels[max(0, i + n):i + 1]

    def session_distance(self, a, b):
        if b < a:
            lo, hi = self.sessions_between(b, a)
            return -(hi - lo)
        lo, hi = self.sessions_between(a, b)
        return hi - lo

    def nth_session_from(self, lab, n):
        """n-th label strictly after (before, for negative n) a label."""
        if n > 0:
            i = bisect_right(self.labels, lab) + n - 1
        else:
            i = bisect_left(self.labels, lab) + n
        if 0 <= i < len(self.labels):
            return self.labels[i]
        return None

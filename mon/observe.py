"""Turning what the real code returns into plain data."""
from .model import EPOCH_ORD, Row, iso
from .qmodel import DAYNS, MIN, Nope
from .repo import np, pd

NAT = -2 ** 63


class Malformed(Exception):
    """The table cannot be read as sessions with whole-minute times."""


class Failed(object):
    """Outcome of a call that raised."""

    def __init__(self, e):
        self.type = type(e).__name__
        self.types = [c.__name__ for c in type(e).__mro__]
        self.msg = str(e)[:300]

    def __repr__(self):
        return '<%s: %s>' % (self.type, self.msg[:160])


def call(fn, *a, **k):
    """The value of a call, or Failed."""
    try:
        return fn(*a, **k)
    except Exception as e:
        return Failed(e)


def column_ns(cal, name):
    return [int(x) for x in cal.schedule[name].values.astype('datetime64[ns]').astype(np.int64)]


def raw_table(cal):
    """[(label ns, open ns, break start ns|None, break end ns|None, close ns)]"""
    idx = [int(x) for x in cal.schedule.index.asi8]
    cols = [column_ns(cal, c) for c in ('market_open', 'break_start', 'break_end', 'market_close')]

    def n(x):
        return None if x == NAT else x
    return [(l, n(o), n(s), n(e), n(c)) for l, o, s, e, c in zip(idx, *cols)]


def label_days(index):
    """Ordinals of an index of labels."""
    out = []
    for v in index.asi8:
        d, r = divmod(int(v), DAYNS)
        if r:
            raise Malformed('label %r is not midnight' % pd.Timestamp(int(v)))
        out.append(d + EPOCH_ORD)
    return out


def table(cal):
    """[Row] as observed, with late/early membership."""
    late = set(label_days(cal.late_opens))
    early = set(label_days(cal.early_closes))
    rows = []
    for l, o, s, e, c in raw_table(cal):
        d, r = divmod(l, DAYNS)
        if r or o is None or c is None or any(x is not None and x % MIN for x in (o, s, e, c)):
            raise Malformed('row %r' % ((l, o, s, e, c),))
        d += EPOCH_ORD
        rows.append(Row(d, o // MIN, None if s is None else s // MIN,
                        None if e is None else e // MIN, c // MIN, d in late, d in early))
    return rows


def ns_list(index):
    return [int(x) for x in index.asi8]


def is_utc(x):
    tz = getattr(x, 'tz', None)
    return tz is not None and str(tz) == 'UTC'


def same(got, want):
    """Does an outcome agree with the model's answer?  want: int (instant in ns),
    list of ints, or Nope."""
    if isinstance(want, Nope):
        if not isinstance(got, Failed):
            return False
        return not want.types or any(t in got.types for t in want.types)
    if isinstance(got, Failed):
        return False
    if isinstance(want, list):
        try:
            return is_utc(got) and ns_list(got) == want
        except Exception:
            return False
    return isinstance(got, pd.Timestamp) and is_utc(got) and got.value == want


def show(x):
    if isinstance(x, pd.DatetimeIndex):
        n = len(x)
        return '%d [%s%s]' % (n, ', '.join(str(v) for v in x[:3]), ' ... %s' % x[-1] if n > 3 else '')
    if isinstance(x, list):
        n = len(x)
        f = [str(pd.Timestamp(v)) for v in x[:3]]
        return '%d [%s%s]' % (n, ', '.join(f), ' ... %s' % pd.Timestamp(x[-1]) if n > 3 else '')
    if isinstance(x, int) and not isinstance(x, bool):
        return str(pd.Timestamp(x))
    return repr(x)


def expect(mon, kind, got, want, what, case=None):
    """Decide one query event."""
    if same(got, want):
        mon.seen(kind, case)
        return True
    mon.violate(kind, '%s: observed %s, expected %s' % (
        what() if callable(what) else what, show(got), show(want)))
    return False

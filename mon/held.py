"""How much the library holds: elements reachable from its modules."""
import gc
import sys
import types
import weakref

from . import cases, repo
from .observe import call
from .repo import label, np, pd

LEAVES = (str, bytes, int, float, complex, bool, type(None), pd.Timestamp, pd.Timedelta, np.generic)


def library_roots():
    """The modules of the library and everything defined in them."""
    return [m for n, m in sorted(sys.modules.items()) if n == 'trading_calendars' or n.startswith('trading_calendars.')]


def held(roots):
    """Number of elements reachable from the roots through containers, attributes, closures and class
    attributes of the library; arrays count their length.  Foreign modules and classes are not entered.
    An entry of a weak-key mapping counts only if its key is reachable otherwise (on PyPy, calendars in
    frames abandoned inside pandas stay alive although nothing holds them)."""
    seen, todo, n, weak = set(), list(roots), 0, []
    while True:
        if not todo:
            ready = [(k, v) for k, v in weak if id(k) in seen]
            weak = [(k, v) for k, v in weak if id(k) not in seen]
            if not ready:
                return n
            todo.extend(v for _, v in ready)
            continue
        x = todo.pop()
        if isinstance(x, LEAVES):
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, types.ModuleType):
            if x.__name__.startswith('trading_calendars'):
                todo.extend(vars(x).values())
            continue
        if isinstance(x, type):
            if x.__module__.startswith('trading_calendars') or x.__module__.startswith('mon.'):
                todo.extend(vars(x).values())
            continue
        if isinstance(x, np.ndarray):
            n += x.size
            continue
        if isinstance(x, (pd.Index, pd.Series, pd.DataFrame)):
            n += x.size
            continue
        if isinstance(x, weakref.WeakKeyDictionary):
            weak.extend(x.items())
            continue
        if isinstance(x, dict):
            n += len(x)
            items = list(x.items())
            todo.extend(k for k, _ in items)
            todo.extend(v for _, v in items)
            continue
        if isinstance(x, (list, tuple, set, frozenset)):
            n += len(x)
            todo.extend(list(x))
            continue
        if isinstance(x, types.FunctionType):
            if not (x.__module__ or '').startswith(('trading_calendars', 'functools')):
                continue
            for c in x.__closure__ or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
            todo.extend(x.__defaults__ or ())
            todo.append(x.__dict__)
            continue
        if isinstance(x, types.MethodType):
            todo.extend((x.__func__, x.__self__))
            continue
        if hasattr(x, '__len__') and not hasattr(x, '__dict__'):
            try:
                n += len(x)         # deque and the like
                todo.extend(list(x)[:200000])
            except TypeError:
                pass
        d = getattr(x, '__dict__', None)
        if isinstance(d, dict):
            todo.append(d)
        if isinstance(x, property):
            todo.extend((x.fget, x.fset))
        slots = getattr(type(x), '__slots__', ())
        for s in ((slots,) if isinstance(slots, str) else slots):
            if isinstance(s, str) and hasattr(x, s):
                todo.append(getattr(x, s))


def constructions(mon, kind, rng, n):
    """Calendars built over distinct windows, asked and dropped, in three equal batches."""
    roots = library_roots()
    name = rng.choice(repo.EXCHANGES)
    lo, hi = repo.span(name)
    base = cases.ordinal(lo + 2, 1, 5)

    def batch(k):
        for i in range(k * n, (k + 1) * n):
            c = call(repo.cls(name), label(base + 3 * i), label(base + 3 * i + 12))
            call(lambda: c.minutes_for_session(c.first_session))
            c = None
        for _ in range(3):
            gc.collect()
        return held(roots)
    a, b, c = batch(0), batch(1), batch(2)
    mon.check(kind, c - b < 3 * n or b - a < 3 * n, lambda: '%s: what the library holds grew by %d and %d elements over %d '
              'dropped calendars each' % (name, b - a, c - b, n), case=(name, lo))

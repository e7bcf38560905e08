"""Deterministic preemption: stop one call at a chosen traced line and let another
call run in a second thread there.

If the second call cannot finish while the first is stopped (because the code
holds a lock), the first goes on after a short wait and both finish later; the
waiting time only chooses the schedule, never a verdict.
"""
import sys
import threading

from .observe import Failed
from .repo import REPO

PREFIX = REPO + '/trading_calendars'
WAIT = 0.3
LIMIT = 60


class Stuck(Exception):
    """The second call never finished: no verdict."""


def outcome(fn):
    try:
        return fn()
    except Exception as e:
        return Failed(e)


def lines(fn):
    """(outcome, number of traced lines) of a call run alone."""
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PREFIX) else None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        r = outcome(fn)
    finally:
        sys.settrace(old)
    return r, n[0]


def preempt(a, b, k):
    """Run a(); at its k-th traced line run b() in another thread.  Returns
    (outcome of a, outcome of b, place) or None if a ended before line k."""
    state = {'n': 0, 'where': None}
    done = threading.Event()
    box = []

    def other():
        box.append(outcome(b))
        done.set()
    thread = threading.Thread(target=other)
    thread.daemon = True

    def local(frame, event, arg):
        if event == 'line' and state['where'] is None:
            state['n'] += 1
            if state['n'] == k:
                state['where'] = '%s:%d' % (frame.f_code.co_filename.split('/')[-1], frame.f_lineno)
                thread.start()
                done.wait(WAIT)
        return local

    def tracer(frame, event, arg):
        if state['where'] is not None:
            return None
        return local if frame.f_code.co_filename.startswith(PREFIX) else None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        ra = outcome(a)
    finally:
        sys.settrace(old)
    if state['where'] is None:
        return None
    if not done.wait(LIMIT):
        raise Stuck(state['where'])
    return ra, box[0], state['where']

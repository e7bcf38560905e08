"""Abandoning a call: raise an exception at a chosen traced line of the code under observation."""
import sys

from .observe import Failed
from .repo import REPO

PREFIX = REPO + '/trading_calendars'


class Abandon(BaseException):
    """Not an Exception, like KeyboardInterrupt: nothing in the library may handle it."""


def interrupt(fn, k, exc=Abandon):
    """Run fn(); raise exc at its k-th traced line.  Returns (outcome, place): the
    outcome is the exception if it came out, else the value of the call; place is
    None if the call ended before line k."""
    state = {'n': 0, 'where': None}

    def local(frame, event, arg):
        if event == 'line' and state['where'] is None:
            state['n'] += 1
            if state['n'] == k:
                state['where'] = '%s:%d' % (frame.f_code.co_filename.split('/')[-1], frame.f_lineno)
                raise exc('injected')
        return local

    def tracer(frame, event, arg):
        if state['where'] is not None:
            return None
        return local if frame.f_code.co_filename.startswith(PREFIX) else None
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        got = fn()
    except exc as e:
        got = e
    except Exception as e:
        sys.settrace(old)
        got = Failed(e)
    finally:
        sys.settrace(old)
    return got, state['where']

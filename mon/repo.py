"""Access to the code under observation: the working tree of /repo."""
import importlib
import os
import sys
import warnings

REPO = '/repo'
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from pytz import UTC  # noqa: E402

import trading_calendars as tc  # noqa: E402

if not os.path.realpath(tc.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise RuntimeError('trading_calendars was not imported from /repo: %s' % tc.__file__)

from trading_calendars.trading_calendar import TradingCalendar, HolidayCalendar  # noqa: E402

EXCHANGES = [
    'ASEX', 'BVMF', 'CMES', 'IEPA', 'XAMS', 'XASX', 'XBKK', 'XBOG', 'XBOM', 'XBRU', 'XBUD',
    'XBUE', 'XCBF', 'XCSE', 'XDUB', 'XETR', 'XFRA', 'XHEL', 'XHKG', 'XICE', 'XIDX', 'XIST',
    'XJSE', 'XKAR', 'XKLS', 'XKRX', 'XLIM', 'XLIS', 'XLON', 'XMAD', 'XMEX', 'XMIL', 'XMOS',
    'XNYS', 'XNZE', 'XOSL', 'XPAR', 'XPHS', 'XPRA', 'XSES', 'XSGO', 'XSHG', 'XSTO', 'XSWX',
    'XTAE', 'XTAI', 'XTKS', 'XTSE', 'XWAR', 'XWBO',
]
OTHERS = ['us_futures', '24/7', '24/5']
ALL = EXCHANGES + OTHERS

# Years in which each calendar can be constructed (inclusive); default 1970-2100.
SPAN = {
    'XSHG': (1999, 2025), 'XSES': (1986, 2020), 'XKRX': (1986, 2021), 'XBOM': (1997, 2020),
    'XHKG': (1970, 2049),
}
DEFAULT_SPAN = (1970, 2100)


def span(name):
    return SPAN.get(name, DEFAULT_SPAN)


_classes = {}


def cls(name):
    """The calendar class of a built-in name (by its module, else by lookup)."""
    if name not in _classes:
        try:
            if name == 'us_futures':
                m = importlib.import_module('trading_calendars.us_futures_calendar')
                c = m.QuantopianUSFuturesCalendar
            elif name == '24/7':
                c = importlib.import_module('trading_calendars.always_open').AlwaysOpenCalendar
            elif name == '24/5':
                c = importlib.import_module('trading_calendars.weekday_calendar').WeekdayCalendar
            else:
                m = importlib.import_module('trading_calendars.exchange_calendar_' + name.lower())
                c = getattr(m, name + 'ExchangeCalendar')
        except (ImportError, AttributeError):
            c = type(tc.get_calendar(name))
        _classes[name] = c
    return _classes[name]


def T(x):
    """UTC Timestamp from anything."""
    return pd.Timestamp(x, tz='UTC')


def label(ordinal):
    """UTC midnight Timestamp of a proleptic ordinal."""
    return pd.Timestamp((ordinal - 719163) * 86400 * 10 ** 9, tz='UTC')

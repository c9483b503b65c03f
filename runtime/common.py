"""Shared pieces of the CPython drivers: they run the real code of /repo and compare it with an
independent oracle written from the text of each property.

Prices are multiples of 1/64 so that sums and differences are exact in binary floating point;
a result that has to be rounded to two decimals is accepted when it is a two-decimal number
within half a cent of the exact value (either neighbour at a tie)."""
import datetime as pdt
import logging
import os
import random
import sys
import warnings
from fractions import Fraction

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)

import gc  # noqa: E402

gc.collect = lambda *a: 0      # a full collection per removed frame makes scenarios slow; it has no visible effect

import arrow  # noqa: E402
import pytz  # noqa: E402

from estrade import BaseStrategy, BaseTickProvider, BaseTradeProvider, Epic, Tick, Trade, TradeClose  # noqa: E402
from estrade.enums import CandleColor, CandleType, PivotType, TradeDirection, TransactionStatus, Unit  # noqa: E402
from estrade.exceptions import (BaseIndicatorException, EpicException, TickException, TimeException,  # noqa: E402
                                TimeFrameException, TradeException)
from estrade.graph import CandleSet, Frame, FrameSet, Pivot, RSI, SimpleMovingAverage  # noqa: E402
from estrade.trade_provider import TradeProviderBacktests  # noqa: E402

BUY, SELL = TradeDirection.BUY, TradeDirection.SELL
UTC = pdt.timezone.utc
ZONES = ["UTC", "Europe/Paris", "America/New_York", "Asia/Tokyo", "Australia/Sydney", "America/Sao_Paulo", "Asia/Kolkata"]


class Bad(Exception):
    """the property fails on this concrete input"""


def need(cond, *msg):
    if not cond:
        raise Bad(" ".join(str(m) for m in msg))


def eq(actual, expected, *msg):
    if not (actual == expected):
        raise Bad(" ".join(str(m) for m in msg) + f": got {actual!r}, expected {expected!r}")


def same(actual, expected, *msg):
    if actual is not expected:
        raise Bad(" ".join(str(m) for m in msg) + f": got {actual!r}, expected {expected!r} itself")


def raises(exc, fn, *msg):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:  # noqa
        raise Bad(" ".join(str(m) for m in msg) + f": raised {type(e).__name__} instead of {exc.__name__}: {e}")
    raise Bad(" ".join(str(m) for m in msg) + f": {exc.__name__} not raised (got {r!r})")


EPS = Fraction(1, 10 ** 7)


def F(x):
    return Fraction(x)


def near(actual, exact, *msg):
    need(isinstance(actual, (int, float)) and not isinstance(actual, bool), *msg, f": {actual!r} is no number")
    exact = Fraction(exact)
    if abs(Fraction(actual) - exact) > EPS * max(1, abs(exact)):
        raise Bad(" ".join(str(m) for m in msg) + f": got {actual!r}, expected {float(exact)!r}")


def near2(actual, exact, *msg):
    """actual is `exact` rounded to two decimals (either neighbour at a tie)"""
    need(isinstance(actual, (int, float)) and not isinstance(actual, bool), *msg, f": {actual!r} is no number")
    exact = Fraction(exact)
    if abs(Fraction(actual) - exact) > Fraction(1, 200) + EPS * max(1, abs(exact)) or round(actual, 2) != actual:
        raise Bad(" ".join(str(m) for m in msg) + f": got {actual!r}, expected {float(exact)!r} rounded to two decimals")


def r2(x):
    """exact two-decimal rounding, half to even"""
    return round(Fraction(x), 2)


def price(rng, lo=-2000, hi=400000):
    k = rng.random()
    if k < .1:
        return rng.choice([0, 0.0, 1, -1, 0.5, 100])
    if k < .25:
        return rng.randint(lo, hi) // 64
    return rng.randint(lo, hi) / 64


def bidask(rng, base=None, spread=None):
    b = price(rng) if base is None else base
    s = rng.choice([0, 0, 1, 2, 8, 33, 64, 100, 129]) / 64 if spread is None else spread
    return b, b + s


def walk(rng, p, step=200):
    return p + rng.randint(-step, step) / 64


def instant(d):
    """microseconds since the epoch of an aware datetime or Arrow"""
    if isinstance(d, arrow.Arrow):
        d = d.datetime
    u = d.astimezone(UTC)
    return (u - pdt.datetime(1970, 1, 1, tzinfo=UTC)) // pdt.timedelta(microseconds=1)


def from_instant(us, tz="UTC"):
    u = arrow.get(pdt.datetime(1970, 1, 1, tzinfo=UTC) + pdt.timedelta(microseconds=us))
    return u.to(tz) if tz != "UTC" else u


SEC = 1000000
DAY = 86400 * SEC
T0 = 1577836800 * SEC          # 2020-01-01 UTC


def mk_tick(us, bid=10, ask=None, tz="UTC"):
    return Tick(datetime=from_instant(us, tz), bid=bid, ask=bid if ask is None else ask)


def opposite(d):
    return SELL if d == BUY else BUY


def side(direction, tick):
    return tick.bid if direction == BUY else tick.ask


def side_in(direction, tick):
    return tick.ask if direction == BUY else tick.bid


class QuietProvider(BaseTradeProvider):
    """records the requests it gets (in their own threads) and confirms them"""

    def __init__(self, *a, **k):
        self.log = []
        BaseTradeProvider.__init__(self, *a, **k)

    def open_trade_request(self, trade):
        self.log.append(("open", trade))
        return trade

    def close_trade_request(self, trade_close):
        self.log.append(("close", trade_close))
        return trade_close


def settle(provider, seconds=20):
    import time
    t = time.time()
    while provider.is_alive:
        if time.time() - t > seconds:
            raise Bad("a request thread does not end")
        time.sleep(0.0005)

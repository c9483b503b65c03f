from common import *
import csv
import os
import shutil
import tempfile
import threading
import time

from drivers1 import rand_epic, rand_trade, RecStrategy, expected_open, boundary_us


# ------------------------------------------------------------------ C07
MOD = {Unit.SECOND: 60, Unit.MINUTE: 60, Unit.HOUR: 12, Unit.DAY: 7, Unit.WEEK: 1, Unit.MONTH: 12}


def grid_floor(unit, q, n):
    """start of the period of the naive local datetime n"""
    if unit == Unit.SECOND:
        return n.replace(microsecond=0, second=n.second - n.second % q)
    if unit == Unit.MINUTE:
        return n.replace(microsecond=0, second=0, minute=n.minute - n.minute % q)
    m = n.replace(microsecond=0, second=0, minute=0)
    if unit == Unit.HOUR:
        return m.replace(hour=n.hour - n.hour % q)
    m = m.replace(hour=0)
    if unit == Unit.DAY:
        return m - pdt.timedelta(days=n.weekday() % q)
    if unit == Unit.WEEK:
        return m - pdt.timedelta(days=n.weekday())
    if unit == Unit.MONTH:
        return m.replace(day=1, month=n.month - (n.month - 1) % q)
    return m.replace(day=1, month=1, year=n.year - n.year % q)


def grid_next(unit, q, s):
    d = {Unit.SECOND: pdt.timedelta(seconds=q), Unit.MINUTE: pdt.timedelta(minutes=q), Unit.HOUR: pdt.timedelta(hours=q),
         Unit.DAY: pdt.timedelta(days=q), Unit.WEEK: pdt.timedelta(days=7)}.get(unit)
    if d is not None:
        return s + d
    if unit == Unit.MONTH:
        k = s.month - 1 + q
        return s.replace(year=s.year + k // 12, month=k % 12 + 1)
    return s.replace(year=s.year + q)


def good_unit(rng, year=True):
    unit = rng.choice([Unit.SECOND, Unit.MINUTE, Unit.HOUR, Unit.DAY, Unit.WEEK, Unit.MONTH] + ([Unit.YEAR] if year else []))
    if unit == Unit.YEAR:
        return unit, rng.choice([1, 2, 3, 5, 10])
    return unit, rng.choice([d for d in range(1, MOD[unit] + 1) if MOD[unit] % d == 0])


def rand_naive(rng):
    n = pdt.datetime(rng.randint(1970, 2040), rng.randint(1, 12), rng.randint(1, 28)) + pdt.timedelta(days=rng.randint(0, 3), microseconds=rng.randint(0, DAY - 1))
    if rng.random() < .4:
        u, q = good_unit(rng)
        n = grid_floor(u, q, n)
        n += rng.choice([pdt.timedelta(0), pdt.timedelta(microseconds=1), -pdt.timedelta(microseconds=1)])
    return n


def c07(rng):
    if rng.random() < .25:
        unit = rng.choice(list(MOD))
        q = rng.randint(1, 130)
        mk = lambda: FrameSet(unit=unit, unit_quantity=q)
        if MOD[unit] % q:
            raises(TimeFrameException, mk, f"{unit} x {q}")
        else:
            mk()
        return
    unit, q = good_unit(rng)
    fs = FrameSet(unit=unit, unit_quantity=q)
    tz = rng.choice(["UTC", "UTC", "+02:00", "Asia/Tokyo", "Asia/Kolkata"])
    seen = []
    for _ in range(rng.randint(1, 6)):
        n = rand_naive(rng)
        if seen and rng.random() < .5:
            n = seen[-1][0] + pdt.timedelta(microseconds=rng.choice([1, SEC, 60 * SEC, 3600 * SEC, DAY, -1, -SEC]))
        dt = arrow.get(n, tz)
        n = dt.datetime.replace(tzinfo=None)
        s = fs.get_frame_start(dt)
        e = fs.get_frame_end(s)
        sn, en = s.datetime.replace(tzinfo=None), e.datetime.replace(tzinfo=None)
        ws = grid_floor(unit, q, n)
        eq(sn, ws, f"start of the {q} {unit} period of {n}")
        eq(en, grid_next(unit, q, ws), f"end of the {q} {unit} period of {n}")
        eq(s.utcoffset(), dt.utcoffset(), "offset of the start")
        need(sn <= n < en, f"{n} outside its period {sn} - {en}")
        eq(fs.get_frame_start(s).datetime, s.datetime, "period of a period start")
        for n2, s2 in seen:
            need((n2 <= n) <= (s2 <= sn) and (n <= n2) <= (sn <= s2), f"later datetime with an earlier period: {n2}, {n}")
        seen.append((n, sn))


# ------------------------------------------------------------------ C08 - C11
class MFrame:
    def __init__(self, start, end, tick):
        self.start, self.end, self.ticks = start, end, [tick]


def check_chain(fs, model, maxf, timed=True):
    fr = fs.frames
    kept = model[-maxf:]
    eq(len(fr), len(kept), "number of frames kept")
    if model:
        same(fs.current, fr[-1], "current frame")
    else:
        same(fs.current, None, "current frame before any tick")
    for i, (f, m) in enumerate(zip(fr, kept)):
        eq(f.period_start.datetime.replace(tzinfo=None), m.start, f"start of frame {i}")
        if timed:
            eq(f.period_end.datetime.replace(tzinfo=None), m.end, f"end of frame {i}")
        same(f.previous_frame, fr[i - 1] if i else None, f"predecessor of frame {i}")
        same(f.next_frame, fr[i + 1] if i + 1 < len(fr) else None, f"successor of frame {i}")
        eq(f.closed, i + 1 < len(fr), f"closed state of frame {i}")
        same(f.last_tick, m.ticks[-1], f"last tick of frame {i}")
        same(f.first_tick, m.ticks[0], f"first tick of frame {i}")
        eq(f.nb_ticks, len(m.ticks), f"tick count of frame {i}")
        if timed and i:
            eq(f.period_start, fr[i - 1].period_end, f"frame {i} starts where the one before ends")
        vals = [t.value for t in m.ticks]
        hi, lo = m.ticks[0], m.ticks[0]
        for t in m.ticks[1:]:
            if t.value > hi.value:
                hi = t
            if t.value < lo.value:
                lo = t
        eq(f.high_tick.value, max(vals), f"high value of frame {i}")
        eq(f.low_tick.value, min(vals), f"low value of frame {i}")
        same(f.high_tick, hi, f"high tick of frame {i}")
        same(f.low_tick, lo, f"low tick of frame {i}")


def naive(d):
    return d.datetime.replace(tzinfo=None)


def timed_step(model, unit, q, tick):
    n = naive(tick.datetime)
    if model and n < model[-1].end:
        model[-1].ticks.append(tick)
        return
    s = grid_floor(unit, q, n)
    while model and model[-1].end < s:
        a = model[-1].end
        model.append(MFrame(a, grid_next(unit, q, a), model[-1].ticks[-1]))
    model.append(MFrame(s, grid_next(unit, q, s), tick))


def period_us(unit, q):
    return {Unit.SECOND: SEC, Unit.MINUTE: 60 * SEC, Unit.HOUR: 3600 * SEC, Unit.DAY: DAY, Unit.WEEK: 7 * DAY,
            Unit.MONTH: 30 * DAY, Unit.YEAR: 365 * DAY}[unit] * q


def feed_gap(rng, unit, q):
    p = period_us(unit, q)
    return rng.choice([0, 0, 1, p // 10, p // 3, p // 2, p - 1, p, p + 1, 2 * p, 3 * p + 5, rng.randint(0, 4 * p)])


def c08(rng):
    unit, q = good_unit(rng)
    maxf = rng.choice([1, 2, 3, 5, 100])
    fs = FrameSet(unit=unit, unit_quantity=q, max_frames_in_memory=maxf)
    epic = None
    if rng.random() < .4:
        epic = Epic(ref="e")
        epic.add_frame_set(fs)
    us = T0 + rng.randint(0, 400) * DAY + rng.randint(0, DAY - 1)
    model, p = [], price(rng)
    check_chain(fs, model, maxf)
    for _ in range(rng.randint(1, 12)):
        us += feed_gap(rng, unit, q)
        if rng.random() < .3:                          # exactly on a boundary
            n = pdt.datetime(1970, 1, 1) + pdt.timedelta(microseconds=us)
            b = grid_next(unit, q, grid_floor(unit, q, n))
            us = instant(b.replace(tzinfo=UTC)) - rng.choice([0, 0, 1])
        p = walk(rng, p)
        t = mk_tick(us, p, p + rng.choice([0, 1 / 64, 1]))
        (epic or fs).on_new_tick(t)
        timed_step(model, unit, q, t)
        check_chain(fs, model, maxf)


def c09(rng):
    q = rng.randint(1, 5)
    maxf = rng.choice([1, 2, 3, 100])
    fs = FrameSet(unit=Unit.TICK, unit_quantity=q, max_frames_in_memory=maxf)
    mode = rng.choice(["alone", "epic", "direct"])
    epic = None
    if mode != "alone":
        epic = Epic(ref="e", timezone=rng.choice(["UTC", "UTC", "Asia/Tokyo"]))
        epic.add_frame_set(fs)
    us = T0 + rng.randint(0, DAY)
    model, p = [], price(rng)
    for _ in range(rng.randint(1, 18)):
        us += rng.choice([0, 1, SEC, 3600 * SEC, 5 * 3600 * SEC, DAY])
        p = walk(rng, p)
        t = mk_tick(us, p)
        if mode == "direct" and rng.random() < .5:
            epic.last_tick = mk_tick(us - rng.choice([0, DAY, 3600 * SEC]), p)
        if mode == "epic":
            epic.on_new_tick(t)
        else:
            fs.on_new_tick(t)
        joins = bool(model) and len(model[-1].ticks) < q and epic is not None and \
            t.datetime.date() <= epic.last_tick.datetime.date()
        if joins:
            model[-1].ticks.append(t)
        else:
            model.append(MFrame(naive(t.datetime), None, t))
        check_chain(fs, model, maxf, timed=False)
        need(all(f.nb_ticks <= q for f in fs.frames), "a frame holds more ticks than configured")


def c10(rng):
    fs = FrameSet(unit=Unit.HOUR, unit_quantity=1)
    ts = []
    p = price(rng)
    f = None
    for i in range(rng.randint(1, 14)):
        p = rng.choice([p, walk(rng, p, 64), walk(rng, p, 4), rng.choice([0, p, 5])])
        sp = rng.choice([0, 0, 1 / 64, 2])
        t = mk_tick(T0 + i * SEC, p, p + sp)
        ts.append(t)
        if rng.random() < .5 or f is None:
            fs.on_new_tick(t)
            f = f or fs.current
            same(fs.current, f, "one frame for one period")
        else:
            f.on_new_tick(t)
        check_chain(fs, [MFrame(naive(ts[0].datetime).replace(minute=0, second=0, microsecond=0),
                                naive(ts[0].datetime).replace(minute=0, second=0, microsecond=0) + pdt.timedelta(hours=1), ts[0])]
                    if len(ts) == 1 else [mframe(ts)], 100)


def mframe(ts):
    s = naive(ts[0].datetime).replace(minute=0, second=0, microsecond=0)
    m = MFrame(s, s + pdt.timedelta(hours=1), ts[0])
    m.ticks = list(ts)
    return m


def graph(rng, indicators, unit=None, maxf=None, n=None, market=True, tickset=False):
    """an instrument feeding a frame set with indicators; yields after every tick (fs, [(frame, ticks seen per indicator)])"""
    if tickset:
        unit, q = Unit.TICK, rng.randint(1, 3)
    else:
        unit, q = unit or rng.choice([(Unit.MINUTE, 1), (Unit.HOUR, 1), (Unit.MINUTE, 15), (Unit.DAY, 1)])
    maxf = maxf or rng.choice([2, 3, 5, 100])
    fs = FrameSet(unit=unit, unit_quantity=q, max_frames_in_memory=maxf)
    ot, ct = (pdt.time(9, 0), pdt.time(rng.choice([10, 15, 17]), 0)) if market else (pdt.time(0, 0), pdt.time(23, 59, 59, 999999))
    epic = Epic(ref="e", open_time=ot, close_time=ct, trade_days=list(range(7)))
    epic.add_frame_set(fs)
    for ind in indicators:
        fs.add_indicator(ind)
    us = T0 + rng.randint(0, 300) * DAY + rng.choice([8 * 3600, 9 * 3600 - 60, 9 * 3600, 17 * 3600 - 60, rng.randint(0, 86399)]) * SEC
    p = price(rng, 0, 6400)
    frames, model = [], []
    for _ in range(n or rng.randint(2, 14)):
        us += rng.choice([0, SEC, 5 * SEC, 40 * SEC, 600 * SEC, 3600 * SEC]) if unit == Unit.TICK else feed_gap(rng, unit, q)
        p = rng.choice([p, walk(rng, p, 300), walk(rng, p, 10), 0 if rng.random() < .1 else walk(rng, p, 64)])
        t = mk_tick(us, p, p + rng.choice([0, 1 / 64, 1, 2]))
        epic.on_new_tick(t)
        yield epic, fs, t, unit, q, maxf


def c11(rng):
    inds = [CandleSet(ref="all"), CandleSet(ref="mkt", market_open_only=True), CandleSet(ref="ha", candle_type=CandleType.HEIKIN_ASHI, market_open_only=rng.random() < .5)]
    inds = inds[:rng.randint(1, 3)]
    model = []           # frames: [ticks since creation of the value per indicator or None]
    mframes = []
    vals = {}            # (frame number, ref) -> value object
    base = 0
    for epic, fs, t, unit, q, maxf in graph(rng, inds):
        n0 = len(mframes)
        timed_step(mframes, unit, q, t)
        mo = epic.market_open
        if len(mframes) == n0:
            new = []
            upd = n0 - 1
        else:
            upd = None
            new = list(range(n0, len(mframes)))
        for k in new:
            model.append({i.ref: None for i in inds})
            for i in inds:
                if mo or not i.market_open_only:
                    model[k][i.ref] = [mframes[k].ticks[0]]
        if upd is not None:
            for i in inds:
                if mo or not i.market_open_only:
                    if model[upd][i.ref] is None:
                        model[upd][i.ref] = []
                    model[upd][i.ref].append(t)
        first = max(0, len(mframes) - maxf)
        eq(len(fs.frames), len(mframes) - first, "number of frames")
        for k in range(first, len(mframes)):
            f = fs.frames[k - first]
            for i in inds:
                v, m = f[i.ref], model[k][i.ref]
                same(epic.get_indicator_value(fs.ref, i.ref, offset=len(mframes) - 1 - k), v, "value found from the instrument")
                if m is None:
                    same(v, None, f"value of {i.ref} on a frame where it may not run")
                    continue
                need(v is not None, f"no value of {i.ref} (market hours only: {i.market_open_only})")
                same(vals.setdefault((k, i.ref), v), v, f"value of {i.ref} replaced")
                same(v.indicator, i, "indicator of a value")
                same(v.frame, f, "frame of a value")
                hi = lo = m[0]
                for x in m[1:]:
                    if x.value > hi.value:
                        hi = x
                    if x.value < lo.value:
                        lo = x
                same(v.first_tick, m[0], f"first tick of {i.ref}")
                same(v.last_tick, m[-1], f"last tick of {i.ref}")
                eq(v.high_tick.value, hi.value, f"high of {i.ref}")
                eq(v.low_tick.value, lo.value, f"low of {i.ref}")
                need(any(v.high_tick is x for x in m) and any(v.low_tick is x for x in m), f"high or low tick of {i.ref} it may not see")
                prev = next((vals[(j, i.ref)] for j in range(k - 1, first - 1, -1) if model[j][i.ref] is not None), None)
                same(v.previous, prev, f"previous value of {i.ref}")
                nx = vals_or_none(fs, k + 1 - first, i.ref) if k + 1 < len(mframes) else None
                same(v.next, nx, f"next value of {i.ref}")
                eq(v.nb_ticks, f.nb_ticks, "tick count of a value")
                eq(v.closed, k + 1 < len(mframes), "closed state of a value")


def vals_or_none(fs, pos, ref):
    return fs.frames[pos][ref]


# ------------------------------------------------------------------ C12
def c12(rng):
    inds = [CandleSet(ref="c", market_open_only=rng.random() < .3), CandleSet(ref="h", candle_type=CandleType.HEIKIN_ASHI)]
    for epic, fs, t, unit, q, maxf in graph(rng, inds, maxf=rng.choice([3, 100])):
        for k, f in enumerate(fs.frames):
            for ref in ("c", "h"):
                v = f[ref]
                if v is None:
                    continue
                a, h, l, z = (x.value for x in (v.first_tick, v.high_tick, v.low_tick, v.last_tick))
                if ref == "c":
                    for nm, x in (("open", a), ("high", h), ("low", l), ("last", z)):
                        near2(getattr(v, nm), F(x), f"{nm} of a classic candle")
                else:
                    near2(v.last, (F(a) + F(h) + F(l) + F(z)) / 4, "last of a Heikin-Ashi candle")
                    pv = v.previous
                    near2(v.open, F(a) if pv is None else (F(pv.open) + F(pv.last)) / 2, "open of a Heikin-Ashi candle")
                    near2(v.high, max(F(v.open), F(v.last), F(h)), "high of a Heikin-Ashi candle")
                    near2(v.low, min(F(v.open), F(v.last), F(l)), "low of a Heikin-Ashi candle")
                if v.frame.next_frame is not None:
                    eq(v.close, v.last, "close of a closed candle")
                else:
                    same(v.close, None, "close of a candle that is not closed")
                eq(v.color, CandleColor.GREEN if v.last > v.open else CandleColor.RED if v.last < v.open else CandleColor.BLACK, f"colour of open={v.open} last={v.last}")
                near(v.height, F(v.high) - F(v.low), "height")
                near2(v.body, abs(F(v.open) - F(v.last)), "body")
                near2(v.head, F(v.high) - max(F(v.open), F(v.last)), "head")
                near2(v.tail, min(F(v.open), F(v.last)) - F(v.low), "tail")


# ------------------------------------------------------------------ C13
def c13(rng):
    many = rng.random() < .02
    mp = rng.randint(90, 160) if many else rng.randint(1, 6)
    ind = SimpleMovingAverage(max_periods=mp, ref="sma")
    lasts = []
    mframes = []
    for epic, fs, t, unit, q, maxf in graph(rng, [ind], n=mp + 60 if many else rng.randint(2, 16)):
        timed_step(mframes, unit, q, t)
        lasts = [m.ticks[-1].value for m in mframes]
        v = fs.current["sma"]
        eq(list(v.last_closes), lasts[:-1][-(mp - 1):] if mp > 1 else [], f"last prices remembered (maximum {mp})")
        for p in [rng.randint(1, mp), mp, len(lasts)] if many else range(1, mp + 1):
            if p > mp:
                continue
            got = v.get_value(p)
            if len(lasts) < p:
                same(got, None, f"average over {p} of {len(lasts)} frames")
            else:
                near2(got, sum(F(x) for x in lasts[-p:]) / p, f"average over {p} periods of {lasts}")


# ------------------------------------------------------------------ C14
def c14(rng):
    periods = rng.randint(1, 4)
    unit = rng.choice([(Unit.MINUTE, 1), (Unit.HOUR, 1), (Unit.MINUTE, 2), (Unit.DAY, 1)])
    n = periods * unit[1]
    maxf = rng.choice([n - 1, n, n, n + 1, 100])
    maxf = max(1, maxf)
    ind = RSI(periods=periods, ref="rsi")
    if maxf < max(n, 2):
        fs = FrameSet(unit=unit[0], unit_quantity=unit[1], max_frames_in_memory=maxf)
        raises(BaseIndicatorException, lambda: fs.add_indicator(ind), f"RSI over {n} changes with {maxf} frames in memory")
        return
    mframes = []
    for epic, fs, t, unit_, q, maxf in graph(rng, [ind], unit=unit, maxf=maxf, n=rng.randint(3, 16)):
        timed_step(mframes, unit_, q, t)
        lasts = [m.ticks[-1].value for m in mframes]
        ch = [F(b) - F(a) for a, b in zip(lasts, lasts[1:])][-n:]
        v = fs.current["rsi"].value
        if len(lasts) - 1 < n:
            same(v, None, f"RSI with {len(lasts) - 1} of {n} changes known")
            continue
        need(v is not None, f"RSI undefined with {n} changes known")
        g, l = sum(x for x in ch if x > 0), -sum(x for x in ch if x < 0)
        if l == 0:
            eq(v, 100, f"RSI of {[float(x) for x in ch]}")
        elif g == 0:
            eq(v, 0, f"RSI of {[float(x) for x in ch]}")
        else:
            near2(v, 100 - 100 / (1 + g / l), f"RSI of {[float(x) for x in ch]}")
        need(0 <= v <= 100, f"RSI {v} outside 0..100")


# ------------------------------------------------------------------ C15
def c15(rng):
    inds = [Pivot(ref="c", market_open_only=rng.random() < .3), Pivot(ref="o", pivot_type=PivotType.OLHC)]
    names = ["pivot", "support1", "support2", "support3", "resistance1", "resistance2", "resistance3"]
    for epic, fs, t, unit, q, maxf in graph(rng, inds):
        for f in fs.frames:
            for ref in ("c", "o"):
                v = f[ref]
                if v is None:
                    continue
                pv = v.previous
                if pv is None:
                    for nm in names:
                        same(getattr(v, nm), None, f"{nm} without previous value")
                    continue
                h, l, c, o = (F(x.value) for x in (pv.high_tick, pv.low_tick, pv.last_tick, v.first_tick))
                for nm in names:
                    need(getattr(v, nm) is not None, f"{nm} undefined with a previous value (high {float(h)}, low {float(l)}, last {float(c)})")
                near2(v.pivot, (h + l + c) / 3 if ref == "c" else (h + l + c + o) / 4, f"pivot {ref}")
                p = F(v.pivot)
                near2(v.support1, 2 * p - h, "support 1")
                near2(v.support2, p - (h - l), "support 2")
                near2(v.support3, l - 2 * (h - p), "support 3")
                near2(v.resistance1, 2 * p - l, "resistance 1")
                near2(v.resistance2, p + (h - l), "resistance 2")
                near2(v.resistance3, h + 2 * (p - l), "resistance 3")
                if ref == "c":
                    need(v.support1 <= v.pivot <= v.resistance1, "support 1 <= pivot <= resistance 1")
                    need(v.support2 <= v.pivot <= v.resistance2, "support 2 <= pivot <= resistance 2")


# ------------------------------------------------------------------ C20
class GateProvider(BaseTradeProvider):
    """requests block until their gate opens"""

    def __init__(self):
        self.gates, self.log, self.lock = {}, [], threading.Lock()
        BaseTradeProvider.__init__(self)

    def _req(self, kind, obj):
        g = threading.Event()
        with self.lock:
            self.log.append((kind, obj, threading.current_thread(), g))
        g.wait(30)
        return obj

    def open_trade_request(self, trade):
        return self._req("open", trade)

    def close_trade_request(self, trade_close):
        return self._req("close", trade_close)


def wait_for(fn, what, seconds=10):
    t = time.time()
    while not fn():
        if time.time() - t > seconds:
            raise Bad(what)
        time.sleep(0.0005)


def c20(rng):
    prov = GateProvider()
    try:
        epics = [Epic(ref=f"e{i}", trade_provider=prov) for i in range(2)]
        for e in epics:
            e.on_new_tick(mk_tick(T0, *bidask(rng)))
        strats = [BaseStrategy(ref=f"s{i}") for i in range(2)]
        trades, regs, reqs = [], {id(s): [] for s in strats}, []
        eq(prov.is_alive, False, "provider without requests")
        for n in range(rng.randint(1, 7)):
            k = rng.random()
            nlog = len(reqs)
            if rng.random() < .3:             # the clocks of the instruments differ
                e = rng.choice(epics)
                e.on_new_tick(mk_tick(instant(e.last_tick.datetime) + rng.choice([0, SEC, 3600 * SEC]), *bidask(rng)))
            if k < .45 or not trades:
                e, s = rng.choice(epics), rng.choice(strats + [None])
                d = rng.choice([BUY, SELL])
                if s is not None and rng.random() < .5:
                    t = s.open_trade(epic=e, direction=d, quantity=rng.randint(1, 4))
                elif rng.random() < .5:
                    t = e.open_trade(direction=d, quantity=rng.randint(1, 4), strategy=s)
                else:
                    t = Trade.open_from_epic(epic=e, direction=d, quantity=rng.randint(1, 4), strategy=s)
                    prov.open_trade(t)
                trades.append(t)
                if s is not None:
                    regs[id(s)].append(t)
                reqs.append(("open", t))
            elif k < .8:
                t = rng.choice(trades)
                if t.opened_quantities == 0:
                    continue
                q = rng.choice([{}, {"quantity": 1}])
                c = t.epic.close_trade(t, **q) if rng.random() < .7 or t.strategy is None else t.strategy.close_trade(t, **q)
                reqs.append(("close", c))
            else:
                live = [x for x in prov.log if not x[3].is_set()]
                if live:
                    x = rng.choice(live)
                    x[3].set()
                    x[2].join(10)
            wait_for(lambda: len(prov.log) >= len(reqs), f"{len(reqs)} requests expected, {len(prov.log)} started")
            eq([id(x) for x in prov.trades], [id(x) for x in trades], "registered trades")
            for s in strats:
                eq([id(x) for x in s.trades], [id(x) for x in regs[id(s)]], "trades of a strategy")
            eq([id(x) for x in prov.opened_trades], [id(x) for x in reversed(trades) if x.open_quantity != sum(c.quantity for c in x.closes)], "open trades, newest first")
            eq(sorted((x[0], id(x[1])) for x in prov.log), sorted((a, id(b)) for a, b in reqs), "requests sent")
            need(len({id(x[2]) for x in prov.log}) == len(prov.log), "each request has a thread of its own")
            need(all(x[2] is not threading.current_thread() for x in prov.log), "requests do not run in the caller's thread")
            eq(prov.is_alive, any(x[2].is_alive() for x in prov.log), "provider alive")
        for x in prov.log:
            x[3].set()
        for x in prov.log:
            x[2].join(10)
        eq(prov.is_alive, False, "provider after all requests ended")
        eq(len(prov.log), len(reqs), "requests sent in the end")
    finally:
        for x in prov.log:
            x[3].set()


# ------------------------------------------------------------------ C21
def c21(rng):
    prov = TradeProviderBacktests()
    epics = [Epic(ref=f"e{i}", trade_provider=prov) for i in range(rng.choice([1, 1, 2]))]
    us = T0
    for e in epics:
        us += SEC
        e.on_new_tick(mk_tick(us, *bidask(rng)))
    strats = [BaseStrategy(ref=f"s{i}") for i in range(2)] + ([None] if rng.random() < .3 else [])
    model = []      # [trade, open left]
    regs = {s: [] for s in strats}
    for n in range(rng.randint(2, 9)):
        for e in epics:
            if rng.random() < .4:
                us += SEC
                e.on_new_tick(mk_tick(us, *bidask(rng)))
        if model and rng.random() < .2:
            m = rng.choice(model)
            if m[1] > 0:
                c = m[0].epic.close_trade(m[0], quantity=1)
                m[1] -= 1
        e, s, d, q = rng.choice(epics), rng.choice(strats), rng.choice([BUY, SELL]), rng.randint(1, 9)
        ncl = {id(m[0]): list(m[0].closes) for m in model}
        kw = dict(direction=d, quantity=q)
        if s is not None:
            kw["strategy"] = s
        t = s.open_trade(epic=e, direction=d, quantity=q) if s is not None and rng.random() < .5 else e.open_trade(**kw)
        left = q
        for m in reversed(model):
            tr = m[0]
            old = ncl[id(tr)]
            if left > 0 and m[1] > 0 and tr.direction == opposite(d) and tr.strategy is s:
                k = min(left, m[1])
                left -= k
                m[1] -= k
                eq(len(tr.closes), len(old) + 1, f"closes of an opposite open trade (opening {q}, {k} to absorb there)")
                c = tr.closes[-1]
                eq(c.quantity, k, "quantity of a netting close")
                eq(c.close_value, side(tr.direction, tr.epic.last_tick), "price of a netting close")
                eq(instant(c.datetime), instant(tr.epic.last_tick.datetime), "datetime of a netting close")
                same(c.trade, tr, "trade of a netting close")
            else:
                eq(len(tr.closes), len(old), f"closes of a trade that must not be netted (direction {tr.direction}, same strategy: {tr.strategy is s}, left {left})")
            for a, b in zip(tr.closes, old):
                same(a, b, "earlier closes")
            eq(tr.opened_quantities, m[1], "quantity left open")
        if left > 0:
            model.append([t, left])
            regs[s].append(t)
            eq(t.open_quantity, left, "quantity registered")
            eq(t.opened_quantities, left, "open quantity registered")
        eq([id(x) for x in prov.trades], [id(m[0]) for m in model], f"registered trades (opening {q}, remaining {left})")
        for st in strats:
            if st is not None:
                eq([id(x) for x in st.trades], [id(x) for x in regs[st]], "trades of a strategy")
    settle(prov)
    for m in model:
        eq(m[0].status, TransactionStatus.CONFIRMED, "status of an accepted trade")
        for c in m[0].closes:
            eq(c.status, TransactionStatus.CONFIRMED, "status of an accepted close")


# ------------------------------------------------------------------ C22 - C24
def strat_with_trades(rng, prov=None, backtest=False, single=False):
    provs = [prov or QuietProvider() for _ in range(2)]
    epics = [Epic(ref=f"e{i}", trade_provider=provs[i if not single else 0], timezone=rng.choice(["UTC", "UTC", "Europe/Paris", "America/New_York"])) for i in range(2)]
    us = T0
    strats = [BaseStrategy(ref="s0"), BaseStrategy(ref="s1")]
    for e in epics:
        us += SEC
        e.on_new_tick(mk_tick(us, *bidask(rng)))
    for n in range(rng.randint(0, 9)):
        us += rng.choice([0, SEC, 60 * SEC])
        for e in epics:
            if rng.random() < .5:
                e.on_new_tick(mk_tick(us, *bidask(rng)))
        s = rng.choice(strats)
        e = rng.choice(epics)
        t = s.open_trade(epic=e, direction=rng.choice([BUY, SELL]), quantity=rng.randint(1, 5))
        if rng.random() < .2:
            t.datetime = from_instant(us - rng.choice([SEC, 100 * SEC, 0]))
        if rng.random() < .3:
            t.status = rng.choice(list(TransactionStatus))
        if rng.random() < .2:
            t.meta["note"] = n
        if rng.random() < .4:
            e.close_trade(t, **rng.choice([{}, {"quantity": 1}, {"quantity": 2}]))
    for e in epics:
        us += SEC
        if rng.random() < .7:
            e.on_new_tick(mk_tick(us, *bidask(rng)))
    for e in epics:
        settle(e.trade_provider)
    return strats, epics, us


def is_open(t):
    return t.open_quantity != sum(c.quantity for c in t.closes)


def c22(rng):
    strats, epics, us = strat_with_trades(rng)
    for _ in range(4):
        s = rng.choice(strats)
        ep = rng.choice([None, None, [], [epics[0]], [epics[1]], list(epics), [epics[0], epics[0]]])
        oo = rng.random() < .5
        oa = rng.choice([None, None, from_instant(us - rng.choice([0, SEC, 60 * SEC, 200 * SEC]), rng.choice(ZONES))])
        if s.trades and rng.random() < .3:
            oa = rng.choice(s.trades).datetime
        want = []
        for t in reversed(s.trades):
            if (ep is None or any(t.epic is e for e in ep)) and (not oo or is_open(t)):
                if oa is not None and instant(t.datetime) < instant(oa):
                    break
                want.append(t)
        snap = [(id(t), t.result, len(t.closes), t.current_close_value, t.max_result) for t in s.trades]
        kw = {}
        if ep is not None:
            kw["epics"] = ep
        if oo:
            kw["open_only"] = True
        if oa is not None:
            kw["only_after"] = oa
        got = list(s.get_trades(**kw))
        eq([id(t) for t in got], [id(t) for t in want], f"trades found (epics {ep and [e.ref for e in ep]}, open only {oo}, only after {oa}) of {[(t.ref, t.epic.ref, is_open(t), str(t.datetime)) for t in s.trades]}")
        eq([(id(t), t.result, len(t.closes), t.current_close_value, t.max_result) for t in s.trades], snap, "trades after a query")


def c23(rng):
    strats, epics, us = strat_with_trades(rng)
    s = strats[0]
    if rng.random() < .4:
        for t in s.trades:
            t.update(walk(rng, t.open_value, 20))
    pool = strats[0].trades + strats[1].trades
    sub = rng.sample(pool, rng.randint(0, len(pool)))
    for arg, lst in ((None, s.trades), (sub, sub), ([], []), (sub[::-1], sub), ("gen", sub), ("own", s.trades)):
        rs = [F(t.result) for t in lst]
        mk = lambda: (x for x in lst) if arg == "gen" else list(arg)
        call = lambda f: f() if arg is None else f(s.get_trades()) if arg == "own" else f(mk()) if rng.random() < .5 else f(trades=mk())
        near2(call(s.result), sum(rs), f"result of {[float(x) for x in rs]}")
        g, l = sum(x for x in rs if x > 0), -sum(x for x in rs if x < 0)
        pf = call(s.profit_factor)
        need(pf >= 0, f"profit factor {pf} of {[float(x) for x in rs]} negative")
        if l == 0:
            near(pf, g, f"profit factor of {[float(x) for x in rs]}")
        else:
            near2(pf, g / max(l, 1), f"profit factor of {[float(x) for x in rs]}")


def c24(rng):
    strats, epics, us = strat_with_trades(rng)
    s, o = strats
    if rng.random() < .2:                      # trades of one instrument more
        pass
    before = {t: (t.opened_quantities, list(t.closes)) for t in s.trades + o.trades}
    logs = {e: len(e.trade_provider.log) for e in epics}
    s.close_opened_trades()
    for e in epics:
        settle(e.trade_provider)
    want = {e: [] for e in epics}
    for t in s.trades + o.trades:
        left, closes = before[t]
        for a, b in zip(t.closes, closes):
            same(a, b, "earlier closes")
        if t in s.trades and left:
            eq(len(t.closes), len(closes) + 1, "closes of a trade that was open")
            c = t.closes[-1]
            eq(c.quantity, left, "quantity of the close")
            eq(c.close_value, side(t.direction, t.epic.last_tick), "price of the close")
            eq(instant(c.datetime), instant(t.epic.last_tick.datetime), "datetime of the close")
            want[t.epic].append(c)
        else:
            eq(len(t.closes), len(closes), "closes of another or closed trade")
        if t in s.trades:
            eq(t.closed, True, "trade after closing all trades")
    for e in epics:
        got = e.trade_provider.log[logs[e]:]
        eq(sorted((k, id(c)) for k, c in got), sorted(("close", id(c)) for c in want[e]), "requests to the provider of the instrument")


# ------------------------------------------------------------------ C25
def c25(rng):
    for mk in (lambda r: Epic(ref=r), lambda r: BaseStrategy(ref=r), lambda r: FrameSet(unit=Unit.MINUTE, unit_quantity=1, ref=r),
               lambda r: CandleSet(ref=r), lambda r: QuietProvider(ref=r),
               lambda r: Trade(direction=BUY, quantity=1, open_value=1, open_datetime=from_instant(T0), epic=Epic(), ref=r),
               lambda r: Pivot(ref=r), lambda r: SimpleMovingAverage(max_periods=2, ref=r), lambda r: RSI(periods=2, ref=r)):
        r = rng.choice([None, "", "abc", "x" * 20, "e1"])
        o = mk(r)
        if r:
            eq(o.ref, r, f"reference of a {type(o).__name__}")
        else:
            need(isinstance(o.ref, str) and o.ref, f"generated reference of a {type(o).__name__}: {o.ref!r}")
    epic = Epic(ref="epic")
    sets, strats = {}, {}
    for n in range(rng.randint(1, 8)):
        ref = rng.choice(["a", "b", "c", "d"])
        snap = (dict(epic.frame_sets), dict(epic.strategies))
        if rng.random() < .5:
            f = FrameSet(unit=Unit.TICK, unit_quantity=rng.randint(1, 3), ref=ref, max_frames_in_memory=rng.choice([3, 100]))
            if ref in sets:
                raises(EpicException, lambda: epic.add_frame_set(f), f"second frame set {ref}")
                eq((dict(epic.frame_sets), dict(epic.strategies)), snap, "registrations after a refusal")
                same(f.epic, None, "instrument of a refused frame set")
            else:
                epic.add_frame_set(f)
                sets[ref] = f
                same(f.epic, epic, "instrument of a frame set")
        else:
            s = BaseStrategy(ref=ref)
            if ref in strats:
                raises(EpicException, lambda: epic.add_strategy(s), f"second strategy {ref}")
                eq((dict(epic.frame_sets), dict(epic.strategies)), snap, "registrations after a refusal")
                eq(dict(s.epics), {}, "instruments of a refused strategy")
            else:
                epic.add_strategy(s)
                strats[ref] = s
                eq(list(s.epics), ["epic"], "instruments of a strategy")
                same(s.epics["epic"], epic, "instrument of a strategy")
        eq({k: id(v) for k, v in epic.frame_sets.items()}, {k: id(v) for k, v in sets.items()}, "frame sets")
        eq({k: id(v) for k, v in epic.strategies.items()}, {k: id(v) for k, v in strats.items()}, "strategies")
    ind = {}
    for r, f in sets.items():
        ind[r] = CandleSet(ref=f"i{r}")
        f.add_indicator(ind[r])
    for k in range(rng.randint(0, 9)):
        epic.on_new_tick(mk_tick(T0 + k * SEC, price(rng)))
        for r, f in sets.items():
            for off in range(0, len(f.frames) + 3):
                want = f.frames[len(f.frames) - 1 - off] if off < len(f.frames) else None
                same(epic.get_frame(frame_set_ref=r, offset=off), want, f"frame at offset {off} of {len(f.frames)}")
                if off == 0:
                    same(epic.get_frame(r), want, "frame without offset")
                v = epic.get_indicator_value(frame_set_ref=r, indicator_ref=f"i{r}", offset=off)
                same(v, None if want is None else want[f"i{r}"], f"indicator value at offset {off}")
                same(epic.get_indicator_value(r, "nope", off), None, "value of an unknown indicator")
    eps = [Epic(ref=r) for r in rng.sample(["x", "y", "z", "xx", "t"], rng.randint(0, 4))]
    tp = BaseTickProvider(eps)
    for r in ["x", "y", "z", "xx", "t", "", "X"]:
        same(tp.get_epic_by_ref(r), next((e for e in eps if e.ref == r), None), f"instrument found under {r!r}")


# ------------------------------------------------------------------ C26
def read_csv(p):
    with open(p, newline="") as f:
        return list(csv.reader(f))


def tree(root):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            out.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(out)


def trade_row(t):
    return {"ref": t.ref, "epic": t.epic.ref, "strategy": t.strategy.ref if t.strategy else "undefined",
            "open_quantity": str(t.open_quantity), "open_value": str(t.open_value), "closed_quantities": str(t.closed_quantities),
            "result": str(t.result), "direction": str(t.direction), "status": str(t.status),
            "open_date": t.datetime.datetime.strftime("%Y-%m-%d %H:%M:%S")}


def c26(rng):
    from estrade.reporting.csv import ReportingCSV
    strats, epics, us = strat_with_trades(rng)
    strats[1].ref = rng.choice(["s1", "other, with comma", 'quo"te'])
    given = rng.choice([strats, strats[::-1], strats[:1], strats[1:], []])
    details = rng.random() < .7
    root = tempfile.mkdtemp(prefix="verif_c26_")
    cwd = os.getcwd()
    try:
        os.chdir(root)
        target = rng.choice(["out", "a/b/c", os.path.join(root, "abs")])
        if rng.random() < .3:
            os.makedirs(target)
        full = os.path.join(root, target) if not os.path.isabs(target) else target
        # start at the beginning of a second so that consecutive reports share their timestamp
        n_reports = rng.choice([1, 1, 2, 2])
        if n_reports == 2:
            f = time.time() % 1
            if f > .9:
                time.sleep(1.001 - f)
        rep = ReportingCSV(target_folder=target)
        for _ in range(n_reports):
            if details and rng.random() < .3:
                rep.report(list(given))
            else:
                rep.report(list(given), trade_details=details)
        files = tree(root)
        rel = os.path.relpath(full, root)
        need(all(os.path.dirname(f) == rel for f in files), f"files outside the target folder {rel}: {files}")
        summ = [f for f in files if f.endswith("_strategies.csv")]
        rows = []
        for f in summ:
            r = read_csv(os.path.join(root, f))
            eq(r[0], ["ref", "nb_trades", "result", "profit_factor"], "header of the summary")
            eq(sum(1 for x in r if x == r[0]), 1, "header rows of the summary")
            rows += r[1:]
        want = [[s.ref, str(len(s.trades)), str(s.result()), str(s.profit_factor())] for s in given] * n_reports
        eq(rows, want, f"summary rows of {n_reports} report(s)")
        others = [f for f in files if f not in summ]
        if not details:
            eq(others, [], "files of a report without trade details")
        else:
            for s in given:
                mine = [f for f in others if f.endswith(f"_{s.ref}_trades.csv")]
                need(mine, f"no trade file for strategy {s.ref}: {files}")
                got = []
                for f in mine:
                    r = read_csv(os.path.join(root, f))
                    if not s.trades:
                        eq([x for x in r if x], [], "trade file of a strategy without trades")
                        continue
                    h = r[0]
                    eq(sum(1 for x in r if x == h), 1, "header rows of a trade file")
                    got += [dict(zip(h, x)) for x in r[1:]]
                ts = list(reversed(s.trades)) * n_reports
                eq(len(got), len(ts), f"trade rows of {n_reports} report(s)")
                for g, t in zip(got, ts):
                    w = trade_row(t)
                    eq({k: g.get(k) for k in w}, w, "row of a trade")
            eq(len(others) % max(1, len(given)), 0, "number of trade files")
            need(len(others) == 0 or given, "trade files for no strategy")
            need(all(any(f.endswith(f"_{s.ref}_trades.csv") for s in given) for f in others), f"unexpected files {others}")
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)

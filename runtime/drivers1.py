from common import *
import decimal


# ------------------------------------------------------------------ C01
def c01(rng):
    pool = [lambda: price(rng), lambda: price(rng), lambda: price(rng), lambda: rng.choice(["1", "abc", "", None, [], (1,),
            decimal.Decimal("1.5"), Fraction(1, 2), {}, b"1", 1j, object()])]
    bid, ask = rng.choice(pool)(), rng.choice(pool)()
    if rng.random() < .6 and isinstance(bid, (int, float)):
        ask = bid + rng.choice([0, 1, 1 / 64, 3, -1 / 64, -1, 33 / 64])
    num = isinstance(bid, (int, float)) and isinstance(ask, (int, float))
    mk = lambda: Tick(datetime=from_instant(T0), bid=bid, ask=ask)
    if not num or bid > ask:
        raises(TickException, mk, f"Tick(bid={bid!r}, ask={ask!r})")
        return
    try:
        t = mk()
    except Exception as e:
        raise Bad(f"Tick(bid={bid!r}, ask={ask!r}) refused: {type(e).__name__}: {e}")

    def check(t, b, a):
        eq(t.bid, b, "bid")
        eq(t.ask, a, "ask")
        need(type(t.bid) is float and type(t.ask) is float, "prices read back as floats")
        near2(t.spread, F(a) - F(b), f"spread of bid={b!r} ask={a!r}")
        near2(t.value, F(b) + F(t.spread) / 2, f"value of bid={b!r} ask={a!r}")
    check(t, bid, ask)
    for _ in range(rng.randint(0, 4)):
        which, v = rng.choice(["bid", "ask"]), rng.choice(pool)()
        if isinstance(v, (int, float)):
            setattr(t, which, v)
            bid, ask = (v, ask) if which == "bid" else (bid, v)
        else:
            raises(TickException, lambda: setattr(t, which, v), f"{which} = {v!r}")
        check(t, bid, ask)


# ------------------------------------------------------------------ C02
def rand_dt(rng):
    us = T0 + rng.randint(-40 * 365, 10 * 365) * DAY + rng.randint(0, DAY - 1)
    k = rng.randint(0, 7)
    if k == 0:
        return from_instant(us, rng.choice(ZONES))
    if k == 6:      # a wall clock that is ambiguous, or does not exist, carried by a pytz offset
        z = pytz.timezone("Europe/Paris")
        w = rng.choice([pdt.datetime(2020, 10, 25, 2, 10), pdt.datetime(2020, 3, 29, 2, 10)]) + pdt.timedelta(minutes=rng.randint(0, 45))
        return z.localize(w, is_dst=rng.random() < .5)
    if k == 7:
        return (pdt.datetime(1970, 1, 1) + pdt.timedelta(microseconds=us)).replace(tzinfo=pytz.timezone(rng.choice(ZONES)))
    u = pdt.datetime(1970, 1, 1, tzinfo=UTC) + pdt.timedelta(microseconds=us)
    if k == 1:
        return u
    if k == 2:
        return u.astimezone(pytz.timezone(rng.choice(ZONES)))
    if k == 3:
        return u.astimezone(pdt.timezone(pdt.timedelta(minutes=rng.randint(-700, 700))))
    if k == 4:
        from dateutil import tz
        return u.astimezone(tz.gettz(rng.choice(ZONES)))
    # around a change to or from summer time
    z = pytz.timezone("Europe/Paris")
    b = rng.choice([1603587600, 1585443600, 1572138000]) * SEC + rng.randint(-2 * 3600, 2 * 3600) * SEC
    return from_instant(b, "Europe/Paris")


def bad_dt(rng):
    return rng.choice([pdt.datetime(2020, 1, 1, rng.randint(0, 23)), None, "2020-01-01", 12, 1.5, pdt.date(2020, 1, 1),
                       pdt.datetime(2019, 10, 27, 2, 30)])


def c02(rng):
    epic = Epic(timezone=rng.choice(ZONES))
    # something always carries a good datetime first
    good = rand_dt(rng)
    kind = rng.choice(["tick", "trade", "close"])

    def build(d):
        if kind == "tick":
            return Tick(datetime=d, bid=1, ask=2)
        tr = Trade(direction=BUY, quantity=5, open_value=1, open_datetime=d if kind == "trade" else good, epic=epic)
        if kind == "trade":
            return tr
        n = len(tr.closes)
        try:
            return tr.close(close_value=2, datetime=d, quantity=2)
        except TimeException:
            eq(len(tr.closes), n, "a refused close leaves no close")
            raise
    if rng.random() < .3:
        b = bad_dt(rng)
        raises(TimeException, lambda: build(b), f"{kind} with datetime {b!r}")
        return
    o = build(good)
    cur = good
    for _ in range(rng.randint(0, 3)):
        if rng.random() < .4:
            b = bad_dt(rng)
            raises(TimeException, lambda: setattr(o, "datetime", b), f"{kind}.datetime = {b!r}")
        else:
            cur = rand_dt(rng)
            o.datetime = cur
        check_dt(o, cur, kind)
    check_dt(o, cur, kind)
    if kind == "tick":
        epic.on_new_tick(o)
        check_dt(o, cur, "tick given to an instrument")
        z = pytz.timezone(epic.timezone)
        want = (pdt.datetime(1970, 1, 1, tzinfo=UTC) + pdt.timedelta(microseconds=instant(cur))).astimezone(z)
        eq(o.datetime.datetime.replace(tzinfo=None), want.replace(tzinfo=None), "local clock in the instrument's timezone")
        eq(o.datetime.utcoffset(), want.utcoffset(), "offset in the instrument's timezone")
    # timezones
    tz0 = epic.timezone
    for _ in range(2):
        z = rng.choice(ZONES + ["", "Mars/Olympus", "europe/paris", "UTC+1", "Europe/Paris ", "GMT+25"])
        known = z in pytz.all_timezones
        if known:
            epic.timezone = z
            tz0 = z
            eq(Epic(timezone=z).timezone, z, "timezone at construction")
        else:
            raises(EpicException, lambda: setattr(epic, "timezone", z), f"timezone = {z!r}")
            raises(EpicException, lambda: Epic(timezone=z), f"Epic(timezone={z!r})")
        eq(epic.timezone, tz0, "timezone of the instrument")


def check_dt(o, d, kind):
    got = o.datetime
    need(got.tzinfo is not None and got.utcoffset() is not None, f"{kind}: datetime without timezone")
    eq(instant(got), instant(d), f"{kind}: instant of {d!r}")
    u = o.datetime_utc
    eq(instant(u), instant(d), f"{kind}: instant of the UTC view of {d!r}")
    eq(u.utcoffset(), pdt.timedelta(0), f"{kind}: offset of the UTC view")


# ------------------------------------------------------------------ instruments
class RecStrategy(BaseStrategy):
    def __init__(self, log, *a, **k):
        self.log = log
        BaseStrategy.__init__(self, *a, **k)

    def on_every_tick(self, epic):
        self.log.append(("every", self, epic, epic.last_tick))

    def on_market_open(self, epic):
        self.log.append(("open", self, epic, epic.last_tick))

    def on_market_close(self, epic):
        self.log.append(("close", self, epic, epic.last_tick))

    def on_every_tick_market_open(self, epic):
        self.log.append(("in", self, epic, epic.last_tick))


class RecFrameSet(FrameSet):
    def __init__(self, log, *a, **k):
        self.log = log
        FrameSet.__init__(self, *a, **k)

    def on_new_tick(self, tick):
        self.log.append(("frame", self, tick, self.epic.market_open, self.epic_market_open))
        FrameSet.on_new_tick(self, tick)


class RecTrade(Trade):
    log = None

    @property
    def current_close_value(self):
        return self.__dict__["ccv"]

    @current_close_value.setter
    def current_close_value(self, v):
        self.__dict__["ccv"] = v
        if self.log is not None:
            self.log.append(("trade", self, v))


def expected_open(epic_conf, us):
    tz, ot, ct, days, hol = epic_conf
    l = (pdt.datetime(1970, 1, 1, tzinfo=UTC) + pdt.timedelta(microseconds=us)).astimezone(pytz.timezone(tz))
    return ot <= l.time() <= ct and l.weekday() in (days or [0, 1, 2, 3, 4]) and l.date() not in (hol or [])


def rand_epic(rng, **kw):
    tz = rng.choice(ZONES)
    a, b = sorted([pdt.time(rng.randint(0, 23), rng.choice([0, 30]), rng.choice([0, 0, 15])) for _ in range(2)])
    if rng.random() < .1:
        a, b = b, a
    days = rng.choice([None, [0, 1, 2, 3, 4], [5, 6], list(range(7)), [rng.randint(0, 6)], [6, 0]])
    hol = rng.choice([None, [], [pdt.date(2020, 1, rng.randint(1, 10)) for _ in range(3)]])
    conf = (tz, a, b, days, hol)
    k = dict(timezone=tz, open_time=a, close_time=b)
    if days is not None:
        k["trade_days"] = days
    if hol is not None:
        k["holidays"] = hol
    k.update(kw)
    return Epic(**k), conf


def boundary_us(rng, conf, us):
    """an instant near `us` whose local time is (close to) an opening or closing time"""
    z = pytz.timezone(conf[0])
    l = (pdt.datetime(1970, 1, 1, tzinfo=UTC) + pdt.timedelta(microseconds=us)).astimezone(z)
    t = rng.choice([conf[1], conf[2], pdt.time(0, 0)])
    n = pdt.datetime.combine(l.date() + pdt.timedelta(days=rng.choice([0, 0, 1])), t)
    try:
        d = z.localize(n, is_dst=False)
    except Exception:
        return us
    return instant(d) + rng.choice([0, 0, 0, 1, -1, SEC, -SEC])


def c03(rng):
    log = []
    prov = QuietProvider()
    epic, conf = rand_epic(rng, trade_provider=prov)
    fs = RecFrameSet(log, unit=Unit.MINUTE, unit_quantity=1, ref="fs")
    epic.add_frame_set(fs)
    st = RecStrategy(log, ref="s")
    epic.add_strategy(st)
    us = rng.choice([T0, T0 + 5 * DAY, 1603587600 * SEC])      # the last: end of summer time in Paris
    last = None
    trade = None
    for n in range(rng.randint(2, 10)):
        us += rng.choice([0, 1, -1, 30 * SEC, -30 * SEC, 1800 * SEC, -1800 * SEC, 3600 * SEC, -3600 * SEC, 60 * SEC])
        if last is not None and abs(us - instant(last.datetime)) > DAY:
            us = instant(last.datetime)
        b, a = bidask(rng)
        tick = mk_tick(us, b, a, rng.choice(["UTC", conf[0], "Asia/Tokyo", "Europe/Paris"]))
        before = (epic.last_tick, epic.market_open, len(log), trade and (trade.current_close_value, trade.max_result, trade.min_result))
        lastus = None if last is None else instant(last.datetime)
        if lastus is not None and us < lastus:
            raises(EpicException, lambda: epic.on_new_tick(tick), f"tick {lastus - us} us before the last one")
            same(epic.last_tick, before[0], "last tick after a refusal")
            eq(epic.market_open, before[1], "market state after a refusal")
            eq(len(log), before[2], "notifications after a refusal")
            if trade:
                eq((trade.current_close_value, trade.max_result, trade.min_result), before[3], "trade after a refusal")
        else:
            try:
                epic.on_new_tick(tick)
            except EpicException as e:
                raise Bad(f"tick {None if last is None else us - lastus} us after the last one refused: {e}")
            same(epic.last_tick, tick, "last tick")
            eq(sum(1 for x in log[before[2]:] if x[0] == "frame"), 1, "frame set notified")
            eq(sum(1 for x in log[before[2]:] if x[0] == "every"), 1, "strategy notified")
            last = tick
            if trade is None and rng.random() < .5:
                trade = epic.open_trade(direction=rng.choice([BUY, SELL]), quantity=3)
                settle(prov)
            elif trade is not None:
                eq(trade.current_close_value, side(trade.direction, tick), "trade value after an accepted tick")


def c04(rng):
    epic, conf = rand_epic(rng)
    eq(epic.market_open, False, "market before any tick")
    us = T0 + rng.randint(0, 20) * DAY + rng.randint(0, DAY)
    for n in range(rng.randint(1, 14)):
        nus = us + rng.choice([0, SEC, 3600 * SEC, rng.randint(0, 3 * DAY)])
        if rng.random() < .5:
            nus = boundary_us(rng, conf, nus)
        us = max(us, nus)
        t = mk_tick(us, 1, 2, rng.choice(ZONES))
        epic.on_new_tick(t)
        want = expected_open(conf, us)
        eq(epic.market_open, want, f"market state at {t.datetime} with {conf}")
        eq(epic.is_market_open(), want, f"is_market_open() at {t.datetime} with {conf}")


def c05(rng):
    log = []
    prov = rng.choice([QuietProvider, TradeProviderBacktests])()
    epic, conf = rand_epic(rng, trade_provider=prov)
    other, oconf = rand_epic(rng, trade_provider=prov)
    sets = [RecFrameSet(log, unit=rng.choice([Unit.HOUR, Unit.TICK, Unit.DAY]), unit_quantity=1, ref=f"fs{i}") for i in range(rng.randint(0, 4))]
    for f in sets:
        epic.add_frame_set(f)
    of = RecFrameSet(log, unit=Unit.HOUR, unit_quantity=1, ref="fs0")
    other.add_frame_set(of)
    strats = [RecStrategy(log, ref=f"s{i}") for i in range(rng.randint(1, 3))]
    for s in strats:
        epic.add_strategy(s)
    us = T0 + rng.randint(0, 8) * DAY + rng.randint(0, DAY)
    base = bidask(rng)
    other.on_new_tick(mk_tick(us, *bidask(rng)))
    trades = []
    for n in range(rng.randint(3, 9)):
        us += rng.choice([0, SEC, 600 * SEC, 8 * 3600 * SEC])
        if rng.random() < .3:
            us = max(us, boundary_us(rng, conf, us))
        tick = mk_tick(us, *bidask(rng))
        del log[:]
        before = {t: (t.current_close_value, t.max_result, t.min_result, len(t.closes), t.result) for t in trades}
        opened = [t for t in trades if t.opened_quantities != 0 and t.epic is epic]
        epic.on_new_tick(tick)
        fr = [x for x in log if x[0] == "frame"]
        eq([id(x[1]) for x in fr], [id(f) for f in sets] if sorted(id(x[1]) for x in fr) != sorted(id(f) for f in sets) else [id(x[1]) for x in fr],
           "frame sets notified")
        want = expected_open(conf, us)
        for x in fr:
            same(x[2], tick, "tick given to a frame set")
            eq((x[3], x[4]), (want, want), "market state seen by a frame set")
        tr = [x for x in log if x[0] == "trade"]
        eq(sorted(id(x[1]) for x in tr), sorted(id(t) for t in opened), f"trades updated by the tick ({len(tr)} updates)")
        for x in tr:
            eq(x[2], side(x[1].direction, tick), "value of an updated trade")
        kinds = [{"frame": 0, "trade": 1}.get(x[0], 2) for x in log]
        eq(kinds, sorted(kinds), "order: frame sets, trades, strategies")
        for t in trades:
            if t not in opened:
                eq((t.current_close_value, t.max_result, t.min_result, len(t.closes), t.result), before[t], "closed or foreign trade after a tick")
        # strategies saw the new state: all done above because of the order
        for f in sets:
            same(f.current.last_tick, tick, "last tick of a frame set")
        r = rng.random()
        if r < .5:
            e = rng.choice([epic, epic, other])
            kw = dict(direction=rng.choice([BUY, SELL]), quantity=rng.randint(1, 5), strategy=rng.choice(strats + [None]))
            k0 = dict(open_datetime=e.last_tick.datetime, open_value=side_in(kw["direction"], e.last_tick),
                      current_close_value=side(kw["direction"], e.last_tick))
            t = RecTrade(epic=e, **kw, **k0)
            prov.open_trade(t)
            settle(prov)
            if t in prov.trades:
                t.log = log
                trades.append(t)
        elif r < .8 and trades:
            t = rng.choice(trades)
            if t.opened_quantities:
                t.epic.close_trade(t, quantity=rng.choice([None, 1, t.opened_quantities]))
                settle(prov)


def c06(rng):
    log = []
    epic, conf = rand_epic(rng)
    strats = [RecStrategy(log, ref=f"s{i}") for i in range(rng.randint(1, 4))]
    for s in strats:
        epic.add_strategy(s)
    alien = RecStrategy(log, ref="alien")
    us = T0 + rng.randint(0, 8) * DAY + rng.randint(0, DAY)
    was = False
    for n in range(rng.randint(2, 12)):
        us += rng.choice([0, SEC, 3600 * SEC, rng.randint(0, DAY)])
        if rng.random() < .4:
            us = max(us, boundary_us(rng, conf, us))
        pauses = {}
        for s in strats:
            if rng.random() < .15:
                s.stopped = not s.stopped
            if rng.random() < .25:
                s.paused_until = rng.choice([None, from_instant(us + rng.choice([0, 1, -1, SEC, 7200 * SEC, -SEC]), rng.choice(ZONES))])
            pauses[s] = (s.stopped, s.paused_until)
        tick = mk_tick(us, 1, 2, rng.choice(ZONES))
        del log[:]
        snap = {s: dict(s.__dict__) for s in strats}
        epic.on_new_tick(tick)
        is_open = expected_open(conf, us)
        per = {id(s): [] for s in strats + [alien]}
        for x in log:
            same(x[2], epic, "instrument given to a strategy")
            same(x[3], tick, "last tick seen by a strategy")
            per[id(x[1])].append(x[0])
        for s in strats:
            stopped, pu = pauses[s]
            act = not stopped and (pu is None or instant(pu) <= us)
            want = []
            if act:
                if was != is_open:
                    want.append("open" if is_open else "close")
                if is_open:
                    want.append("in")
                want.append("every")
            eq(per[id(s)], want, f"notifications (stopped={stopped}, paused until {pu}, tick at {tick.datetime}, market {was}->{is_open})")
            eq(s.stopped, stopped, "stopped flag after a tick")
            if stopped or (pu is not None and instant(pu) > us):
                same(s.paused_until, pu, "pause of an inactive strategy")
            else:
                same(s.paused_until, None, "pause that has ended")
        eq(per[id(alien)], [], "notifications of a strategy of no instrument")
        was = is_open
        # direct check
        s = rng.choice(strats)
        s.paused_until = rng.choice([None, from_instant(us + rng.choice([0, 1, -1, 10 * SEC]))])
        pu, d = s.paused_until, from_instant(us)
        before = {k: v for k, v in s.__dict__.items() if k != "paused_until"}
        r = s.is_active(d)
        eq(r, not s.stopped and (pu is None or instant(pu) <= us), f"is_active (stopped={s.stopped}, paused until {pu}, {d})")
        eq({k: v for k, v in s.__dict__.items() if k != "paused_until"}, before, "state after checking activity")


# ------------------------------------------------------------------ trades
def rand_trade(rng, epic=None, strategy=None, q=None):
    d = rng.choice([BUY, SELL])
    tick = mk_tick(T0 + rng.randint(0, 10 ** 9), *bidask(rng))
    q = q or rng.randint(1, 12)
    k = rng.randint(0, 2)
    epic = epic or Epic(ref="e")
    if k == 0:
        kw = dict(direction=d, quantity=q, open_value=price(rng), open_datetime=tick.datetime, epic=epic, strategy=strategy)
        if rng.random() < .6:
            kw["current_close_value"] = rng.choice([0, price(rng), price(rng)])
        t = Trade(**kw)
        eq(t.current_close_value, kw.get("current_close_value", kw["open_value"]), f"current close value at creation ({kw.get('current_close_value')!r})")
    elif k == 1:
        t = Trade.open_from_tick(tick=tick, epic=epic, direction=d, quantity=q, strategy=strategy)
    else:
        try:
            epic.on_new_tick(tick)
        except EpicException:
            pass
        t = Trade.open_from_epic(epic=epic, direction=d, quantity=q, strategy=strategy)
    return t


def c16(rng):
    prov = QuietProvider()
    epics = [rand_epic(rng, trade_provider=prov, ref=f"e{i}")[0] for i in range(2)]
    us = T0
    for e in epics:
        us += SEC
        e.on_new_tick(mk_tick(us, *bidask(rng)))
    strat = BaseStrategy(ref="s")
    for n in range(rng.randint(2, 8)):
        e = rng.choice(epics)
        if rng.random() < .5:
            us += SEC
            e.on_new_tick(mk_tick(us, *bidask(rng), tz=rng.choice(ZONES)))
        d = rng.choice([BUY, SELL, BUY, SELL, rng.choice([None, "BUY", 1, -1, "buy", TransactionStatus.CREATED])])
        how = rng.choice(["tick", "epic", "epic.open", "strategy"])
        tick = mk_tick(us + rng.randint(0, 100), *bidask(rng), tz=rng.choice(ZONES)) if how == "tick" else e.last_tick
        kw = dict(direction=d, quantity=rng.randint(1, 9))
        if how in ("tick", "epic", "epic.open") and rng.random() < .5:
            kw["strategy"] = strat
        fn = {"tick": lambda: Trade.open_from_tick(tick=tick, epic=e, **kw), "epic": lambda: Trade.open_from_epic(epic=e, **kw),
              "epic.open": lambda: e.open_trade(**kw), "strategy": lambda: strat.open_trade(epic=e, **kw)}[how]
        if d not in (BUY, SELL):
            nt = len(prov.trades)
            raises(TradeException, fn, f"direction {d!r} ({how})")
            eq(len(prov.trades), nt, "trades registered after a refusal")
            continue
        t = fn()
        settle(prov)
        eq(t.open_value, side_in(d, tick), f"open value of a {d} ({how})")
        eq(t.current_close_value, side(d, tick), f"current close value of a {d} ({how})")
        eq(instant(t.datetime), instant(tick.datetime), "datetime of the trade")
        same(t.epic, e, "instrument of the trade")
        eq(t.direction, d, "direction")
        eq(t.open_quantity, kw["quantity"], "quantity")
        same(t.strategy, strat if how == "strategy" else kw.get("strategy"), "strategy of the trade")
        for _ in range(rng.randint(0, 3)):
            how = rng.choice(["tick", "epic", "tick", "epic", "close_tick", "close_epic", "epic.close", "strategy.close"])
            if rng.random() < .6:
                us += SEC
                e2 = rng.choice(epics)
                e2.on_new_tick(mk_tick(us, *bidask(rng)))
            tick = mk_tick(us, *bidask(rng), tz=rng.choice(ZONES)) if how in ("tick", "close_tick") else e.last_tick
            was_closed = t.opened_quantities == 0
            ccv = t.current_close_value
            if how == "tick":
                t.update_from_tick(tick)
            elif how == "epic":
                t.update_from_epic()
            else:
                if was_closed:
                    continue
                q = rng.choice([None, 1, 2])
                kq = {} if q is None else {"quantity": q}
                c = {"close_tick": lambda: t.close_from_tick(tick, **kq), "close_epic": lambda: t.close_from_epic(**kq),
                     "epic.close": lambda: e.close_trade(t, **kq), "strategy.close": lambda: strat.close_trade(t, **kq)}[how]()
                settle(prov)
                eq(c.close_value, side(t.direction, tick), f"close value of a {t.direction} ({how})")
                eq(instant(c.datetime), instant(tick.datetime), f"datetime of the close ({how})")
                same(c.trade, t, "trade of the close")
                need(t.closes and t.closes[-1] is c, "the close is recorded in its trade")
            eq(t.current_close_value, ccv if was_closed else side(t.direction, tick), f"current close value after {how} (closed: {was_closed})")


def c17(rng):
    t = rand_trade(rng)
    q0 = t.open_quantity
    closed = 0
    recs = []
    for n in range(rng.randint(1, 8)):
        eq(t.closed_quantities, closed, "closed quantities")
        eq(t.opened_quantities, q0 - closed, "open quantities")
        eq(t.closed, closed == q0, "closed state")
        eq(t.open_quantity, q0, "opening quantity")
        if rng.random() < .2:
            t.update(price(rng))
            continue
        q = rng.choice([None, rng.randint(1, q0 + 3), 1])
        if q is None and closed == q0:
            continue
        left = q0 - closed
        kq = {} if q is None else {"quantity": q}
        how = rng.randint(0, 2)
        if how == 0:
            c = t.close(close_value=price(rng), datetime=from_instant(T0 + n), **kq)
        elif how == 1:
            c = t.close_from_tick(mk_tick(T0 + n, *bidask(rng)), **kq)
        else:
            c = t.close_from_epic(**kq)
        want = left if q is None else min(q, left)
        eq(c.quantity, want, f"quantity of a close of {q} with {left} left")
        closed += want
        eq(len(t.closes), len(recs) + 1, "number of close records")
        for i, (rc, snap) in enumerate(recs):
            same(t.closes[i], rc, "earlier close record")
            eq((rc.quantity, rc.close_value, instant(rc.datetime), rc.ref, rc.result), snap, "earlier close record")
        same(t.closes[-1], c, "new close record")
        recs.append((c, (c.quantity, c.close_value, instant(c.datetime), c.ref, c.result)))
    eq(t.closed_quantities + t.opened_quantities, q0, "closed plus open quantities")
    need(t.opened_quantities >= 0, "open quantity negative")


def ex_result(t):
    sg = 1 if t.direction == BUY else -1
    cl = [(F(c.close_value) - F(t.open_value)) * sg for c in t.closes]
    tot = Fraction(0)
    for c, d in zip(t.closes, cl):
        near2(c.result_avg, d, "average result of a close")
        near2(c.result, F(c.result_avg) * c.quantity, "result of a close")
        tot += F(c.result)
    left = t.open_quantity - sum(c.quantity for c in t.closes)
    av = Fraction(0)
    if left:
        d = (F(t.current_close_value) - F(t.open_value)) * sg
        near2(t.opened_result_avg, d, "average result of the open part")
        av = F(t.opened_result_avg)
    else:
        eq(t.opened_result_avg, 0, "average result of the open part of a closed trade")
    near(t.opened_result, av * left, "result of the open part")
    near(t.closed_result, tot, "result of the closed part")
    near(t.result, tot + av * left, "result of the trade")
    if t.closes and sum(c.quantity for c in t.closes):
        near2(t.closed_result_avg, tot / sum(c.quantity for c in t.closes), "average closed result")
    else:
        eq(t.closed_result_avg, 0, "average closed result without closes")
    near2(t.result_avg, (tot + av * left) / t.open_quantity, "average result")


def c18(rng):
    t = rand_trade(rng)
    ex_result(t)
    for n in range(rng.randint(1, 7)):
        if rng.random() < .4:
            t.update(price(rng))
        elif not t.closed:
            t.close(close_value=price(rng), datetime=from_instant(T0 + n), quantity=rng.choice([None, 1, rng.randint(1, t.open_quantity)]))
        ex_result(t)


def c19(rng):
    t = rand_trade(rng)
    mx, mn = t.max_result, t.min_result
    near(mx, F(t.result), "maximum result at creation")
    near(mn, F(t.result), "minimum result at creation")
    epic = t.epic
    for n in range(rng.randint(1, 9)):
        k = rng.randint(0, 4)
        if k == 4:
            if not t.closed:
                t.close(close_value=price(rng), datetime=from_instant(T0 + n), quantity=rng.choice([None, 1, 1]))
            eq((t.max_result, t.min_result), (mx, mn), "maximum and minimum after a close")
            continue
        snap = (t.current_close_value, t.max_result, t.min_result, t.result, len(t.closes))
        was = t.closed
        b, a = bidask(rng)
        if k <= 1:
            v = side(t.direction, mk_tick(T0, b, a))
            t.update(v)
        elif k == 2:
            v = side(t.direction, mk_tick(T0, b, a))
            t.update_from_tick(mk_tick(T0, b, a))
        else:
            v = side(t.direction, epic.last_tick)
            t.update_from_epic()
        if was:
            eq((t.current_close_value, t.max_result, t.min_result, t.result, len(t.closes)), snap, "closed trade after a market update")
        else:
            r = t.result
            mx, mn = max(mx, r), min(mn, r)
            near(t.max_result, F(mx), "maximum result after an update")
            near(t.min_result, F(mn), "minimum result after an update")
            need(t.min_result <= r <= t.max_result, "min <= result <= max", t.min_result, r, t.max_result)
            eq(t.current_close_value, v, "current close value after an update")

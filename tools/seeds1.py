from seedlib import run_all
E, T, ST, TP, FS = "estrade/epic.py", "estrade/trade.py", "estrade/strategy.py", "estrade/trade_provider.py", "estrade/graph/frame_set.py"
IND = "estrade/graph/indicators/"
S = []
def add(*a): S.append(a)

add("C06-pause-wall-clock", "C06", [(ST, "is_still_paused = new_tick_date < self.paused_until", "is_still_paused = new_tick_date.naive < self.paused_until.naive")], """
    e = Epic(trade_provider=Quiet(), timezone="America/New_York")
    n = []
    class St(BaseStrategy):
        def on_every_tick(self, epic): n.append(1)
    s = St(ref="s"); e.add_strategy(s)
    s.paused_until = arrow.get("2020-06-01 12:00:00")
    e.on_new_tick(tick("2020-06-01 13:00:00"))
    assert n == [1] and s.paused_until is None
    """, "an instrument in another timezone than the pause datetime", "a pause already reached is prolonged by the timezone offset")
add("C17-cap-at-opening-quantity", "C17", [(T, "if quantity > self.opened_quantities:", "if quantity > self.open_quantity:")], """
    e = Epic(trade_provider=Quiet())
    t = Trade(direction=B, quantity=5, open_value=10, open_datetime=arrow.get("2020-01-01"), epic=e)
    t.close(close_value=11, datetime=arrow.get("2020-01-02"), quantity=3)
    t.close(close_value=11, datetime=arrow.get("2020-01-02"), quantity=4)
    assert t.opened_quantities == 0 and t.closed_quantities == 5
    """, "two partial closes, the second one larger than what is left but not than the opening quantity", "more is closed than was opened")
add("C18-unrounded-close-average", "C18", [(T, """        return round(self.result_avg * self.quantity, 2)""", """        delta = self.close_value - self.trade.open_value
        if self.trade.direction == TradeDirection.SELL:
            delta = -delta
        return round(delta * self.quantity, 2)""")], """
    e = Epic(trade_provider=Quiet())
    t = Trade(direction=B, quantity=64, open_value=10, open_datetime=arrow.get("2020-01-01"), epic=e)
    c = t.close(close_value=10 + 1 / 64, datetime=arrow.get("2020-01-02"))
    assert c.result == round(c.result_avg * 64, 2)
    """, "prices with more than two decimals and a large quantity", "a close's result is not its average result times its quantity")
add("C19-open-part-only", "C19", [(T, """        if self.result > self.max_result:
            self.max_result = self.result
""", """        if self.opened_result > self.max_result:
            self.max_result = self.result
""")], """
    e = Epic(trade_provider=Quiet())
    t = Trade(direction=B, quantity=5, open_value=10, open_datetime=arrow.get("2020-01-01"), epic=e)
    t.update(12)
    t.close(close_value=12, datetime=arrow.get("2020-01-02"), quantity=3)
    t.update(14)
    assert t.max_result == t.result == 14, (t.max_result, t.result)
    """, "a partial close followed by a market update", "the maximum misses a higher result after a partial close")
add("C16-given-datetime-kept", "C16", [(T, """        kwargs["open_datetime"] = tick.datetime
""", """        kwargs.setdefault("open_datetime", tick.datetime)
""")], """
    e = Epic(trade_provider=Quiet())
    e.on_new_tick(tick("2020-01-01 10:00:00", 10, 11))
    t = e.open_trade(direction=B, quantity=1, open_datetime=arrow.get("2019-01-01"))
    assert t.datetime == arrow.get("2020-01-01 10:00:00")
    """, "a caller that passes its own opening datetime", "a trade opened from a tick does not carry the tick's datetime")
add("C02-wall-clock-conversion", "C02", [(E, "tick.datetime = tick.datetime.to(self.timezone)", "tick.datetime = tick.datetime_utc.replace(tzinfo=self.timezone).shift(\n            seconds=tick.datetime_utc.to(self.timezone).utcoffset().total_seconds()\n        )")], """
    e = Epic(trade_provider=Quiet(), timezone="Europe/Paris")
    t = tick("2020-10-25 01:30:00")
    e.on_new_tick(t)
    assert t.datetime.to("UTC") == arrow.get("2020-10-25 01:30:00"), t.datetime.to("UTC")
    """, "a tick in the repeated hour at the end of summer time", "the instrument changes the instant of the tick by one hour")
add("C04-ignores-microseconds", "C04", [(E, "if not self._in_market_hours(self.last_tick.datetime.time()):", "if not self._in_market_hours(self.last_tick.datetime.time().replace(microsecond=0)):")], """
    e = Epic(trade_provider=Quiet(), open_time=pdt.time(9), close_time=pdt.time(17))
    e.on_new_tick(tick("2020-01-01 17:00:00.500000"))
    assert e.market_open is False
    """, "a tick less than a second after the closing time", "the market counts as open after its closing time")
add("C03-last-tick-first", "C03", [(E, """        # update last tick
        self.last_tick = tick
        market_open_before_new_tick = self.market_open
        self.market_open = self.is_market_open()
""", """        market_open_before_new_tick = self.market_open
        self.market_open = self.is_market_open()
"""), (E, """        tick.datetime = tick.datetime.to(self.timezone)
        if tick""", """        tick.datetime = tick.datetime.to(self.timezone)
        # update last tick
        previous_tick, self.last_tick = self.last_tick, tick
        if tick"""), (E, "tick.datetime_utc < self.last_tick.datetime_utc", "tick.datetime_utc < previous_tick.datetime_utc")], """
    e = Epic(trade_provider=Quiet())
    a, b = tick("2020-01-02"), tick("2020-01-01")
    e.on_new_tick(a)
    try: e.on_new_tick(b)
    except EpicException: pass
    assert e.last_tick is a
    """, "a refused tick", "a refused tick becomes the instrument's last tick")
add("C05-trades-after-strategies", "C05", [(E, """        self._update_open_trades(tick)

        self._execute_strategies(market_open_before_new_tick)
""", """        self._execute_strategies(market_open_before_new_tick)

        self._update_open_trades(tick)
""")], """
    e = Epic(trade_provider=Quiet())
    seen = []
    class St(BaseStrategy):
        def on_every_tick(self, epic): seen.extend(t.result for t in self.trades)
    s = St(ref="s"); e.add_strategy(s)
    e.on_new_tick(tick("2020-01-01", 10))
    s.open_trade(e, direction=B, quantity=1)
    e.on_new_tick(tick("2020-01-02", 15))
    assert seen == [5], seen
    """, "a strategy that looks at its open trades when notified", "strategies see trades that the tick has not updated yet")
add("C20-alive-last-only", "C20", [(TP, """        for thread in self.threads:
            if thread.is_alive():
                return True
        return False
""", """        for thread in reversed(self.threads):
            return thread.is_alive()
        return False
""")], """
    import threading
    ev = threading.Event()
    class Slow(BaseTradeProvider):
        def open_trade_request(self, trade):
            if trade.ref == "slow": ev.wait(20)
            return trade
    p = Slow(); e = Epic(trade_provider=p)
    e.on_new_tick(tick("2020-01-01", 10))
    e.open_trade(direction=B, quantity=1, ref="slow")
    e.open_trade(direction=B, quantity=1, ref="fast")
    p.threads[1].join()
    alive = p.is_alive
    ev.set()
    assert alive
    """, "a slow request followed by a fast one", "the provider looks idle while an earlier request is running")
add("C21-opening-quantity-absorbed", "C21", [(TP, "open_trade.opened_quantities, trade.open_quantity", "open_trade.open_quantity, trade.open_quantity")], """
    p = TradeProviderBacktests(); e = Epic(trade_provider=p); s = BaseStrategy(); e.add_strategy(s)
    e.on_new_tick(tick("2020-01-01", 10))
    t = s.open_trade(e, direction=B, quantity=5)
    s.close_trade(t, quantity=3)
    n = s.open_trade(e, direction=S, quantity=4)
    assert n in s.trades and n.open_quantity == 2 and t.closed
    """, "an opposite trade that is partially closed already", "more of the new quantity is absorbed than is closed")
add("C22-after-inclusive", "C22", [(ST, "trade.datetime < only_after", "trade.datetime <= only_after")], """
    p = Quiet(); e = Epic(trade_provider=p); s = BaseStrategy(); e.add_strategy(s)
    e.on_new_tick(tick("2020-01-01", 10))
    t = s.open_trade(e, direction=B, quantity=5)
    assert list(s.get_trades(only_after=arrow.get("2020-01-01"))) == [t]
    """, "a trade opened exactly at the given datetime", "a trade opened at the given datetime is left out")
add("C23-small-profit-precision", "C23", [(ST, "return abs(round(sum_positive / sum_negative, 2))", "return abs(round(sum_positive / round(sum_negative), 2))")], """
    p = Quiet(); e = Epic(trade_provider=p); s = BaseStrategy(); e.add_strategy(s)
    for d in (-2.5, 10):
        t = Trade(direction=B, quantity=1, open_value=100, open_datetime=arrow.get("2020-01-01"), epic=e, strategy=s)
        t.update(100 + d); s.trades.append(t)
    assert s.profit_factor() == 4.0, s.profit_factor()
    """, "losses that are no whole number", "the ratio uses rounded losses")
add("C25-linked-before-check", "C25", [(E, """        if self.frame_sets.get(frame_set.ref):
            raise""", """        frame_set.epic = self
        if self.frame_sets.get(frame_set.ref):
            raise"""), (E, """        logger.info("Add frame set %s to epic %s", frame_set.ref, self.ref)
        frame_set.epic = self
""", """        logger.info("Add frame set %s to epic %s", frame_set.ref, self.ref)
""")], """
    e = Epic(trade_provider=Quiet())
    a, b = FrameSet(Unit.MINUTE, 1, ref="x"), FrameSet(Unit.MINUTE, 1, ref="x")
    e.add_frame_set(a)
    try: e.add_frame_set(b)
    except EpicException: pass
    assert b.epic is None
    """, "a frame set refused because of its reference", "a refused frame set is linked to the instrument")
add("C08-one-skipped-frame", "C08", [(FS, "while period_start > self.current.period_end:", "if period_start > self.current.period_end:")], """
    fs = FrameSet(Unit.MINUTE, 1)
    fs.on_new_tick(tick("2020-01-01 10:00:10")); fs.on_new_tick(tick("2020-01-01 10:05:10"))
    assert [f.period_start.minute for f in fs.frames] == [0, 1, 2, 3, 4, 5]
    """, "a gap of several periods between two ticks", "only one of the skipped periods gets a frame")
add("C08-stale-previous", "C08", [(FS, """            self.frames[1].previous_frame = None
            self.frames[0].next_frame = None
            self.frames.pop(0)
""", """            oldest = self.frames.pop(0)
            oldest.next_frame = None
            if len(self.frames) == self.max_frames_in_memory:
                self.frames[1 % len(self.frames)].previous_frame = None
""")], """
    fs = FrameSet(Unit.MINUTE, 1, max_frames_in_memory=3)
    for i in range(6): fs.on_new_tick(tick("2020-01-01 10:0%d:10" % i))
    assert fs.frames[0].previous_frame is None and fs.frames[1].previous_frame is fs.frames[0]
    """, "more frames than are kept in memory", "the link between kept frames is cut at the wrong place")
add("C10-equal-replaces", "C10", [(FS, "if tick.value > self.high_tick.value:", "if tick.value >= self.high_tick.value:")], """
    fs = FrameSet(Unit.MINUTE, 1)
    a = tick("2020-01-01 10:00:10"); fs.on_new_tick(a); fs.on_new_tick(tick("2020-01-01 10:00:20"))
    assert fs.current.high_tick is a
    """, "two ticks of the same value", "a tick that equals the high replaces it")
add("C11-nearest-previous", "C11", [("estrade/graph/base_indicator.py", """            frame = frame.previous_frame
        return None
""", """            return None
        return None
""")], """
    e = Epic(trade_provider=Quiet(), holidays=[pdt.date(2020, 1, 7)])
    fs = FrameSet(Unit.DAY, 1); e.add_frame_set(fs); fs.add_indicator(CandleSet(ref="c", market_open_only=True))
    for t in ("2020-01-06 10:30:00", "2020-01-07 13:00:00", "2020-01-08 10:30:00"): e.on_new_tick(tick(t))
    assert fs.current["c"].previous is fs.frames[0]["c"]
    """, "a frame without value between two frames with one", "the previous value is lost over a frame without value")
add("C13-short-history", "C13", [(IND + "simple_moving_average.py", "if len(self.extended_closes) < periods:", "if len(self.last_closes) < periods - 1 or not self.last_closes:")], """
    fs = FrameSet(Unit.MINUTE, 1); fs.add_indicator(SimpleMovingAverage(max_periods=3, ref="s"))
    fs.on_new_tick(tick("2020-01-01 10:00:10", 7))
    assert fs.current["s"].get_value(1) == 7
    """, "the average over one period on the first frame", "the average is undefined although a frame has a value")
add("C14-only-open-market", "C14", [(IND + "rsi.py", """        super().on_new_tick(tick, market_open)
        self._update_rsi()
""", """        super().on_new_tick(tick, market_open)
        if self.last_tick is tick or market_open:
            if tick.value != self.high_tick.value or tick is self.high_tick:
                self._update_rsi()
""")], """
    fs = FrameSet(Unit.MINUTE, 1); fs.add_indicator(RSI(periods=1, ref="r"))
    for t, p in (("10:00:10", 10), ("10:01:10", 12), ("10:01:20", 5), ("10:01:30", 12)): fs.on_new_tick(tick("2020-01-01 " + t, p))
    assert fs.current["r"].value == 100, fs.current["r"].value
    """, "a tick equal to an earlier high after a lower one", "the RSI does not follow a tick that equals the high")
add("C15-last-instead-of-first", "C15", [(IND + "pivot.py", "                    + self.first_tick.value", "                    + self.last_tick.value")], """
    fs = FrameSet(Unit.MINUTE, 1); fs.add_indicator(Pivot(pivot_type=PivotType.OLHC, ref="r"))
    for t, p in (("10:00:10", 10), ("10:01:10", 12), ("10:01:20", 20)): fs.on_new_tick(tick("2020-01-01 " + t, p))
    assert fs.current["r"].pivot == round(42 / 4, 2), fs.current["r"].pivot
    """, "a second tick in the current frame", "the OLHC pivot moves with the current frame")
add("C12-first-of-previous", "C12", [(IND + "candle_set.py", "round((self.previous.open + self.previous.last) / 2, 2)", "round((self.previous.open + (self.previous.close or self.previous.last)) / 2, 1 + 1 * (self.previous.open >= 0))")], """
    fs = FrameSet(Unit.MINUTE, 1); fs.add_indicator(CandleSet(CandleType.HEIKIN_ASHI, ref="r"))
    for t, p in (("10:00:10", -10), ("10:01:10", -10.5)): fs.on_new_tick(tick("2020-01-01 " + t, p))
    for t, p in (("10:02:10", -10.25), ("10:03:10", -10.25)): fs.on_new_tick(tick("2020-01-01 " + t, p))
    f = fs.frames
    for a, b in zip(f, f[1:]): assert b["r"].open == round((a["r"].open + a["r"].last) / 2, 2)
    """, "negative prices", "the open is rounded to one decimal")
add("C26-nested-folder", "C26", [("estrade/reporting/csv.py", "            os.makedirs(path)", "            os.mkdir(path) if os.path.dirname(path) in ('', '.') else os.makedirs(path.rsplit('/', 1)[0], exist_ok=True)")], """
    import tempfile, shutil
    from estrade.reporting.csv import ReportingCSV
    d = tempfile.mkdtemp()
    try:
        try: ReportingCSV(target_folder=d + "/a/b").report([BaseStrategy(ref="s")], trade_details=False)
        except OSError: pass
        assert os.path.isdir(d + "/a/b") and len(os.listdir(d + "/a/b")) == 1
    finally: shutil.rmtree(d)
    """, "a target folder whose parent does not exist", "no report is written")
add("C07-year-grid", "C07", [("estrade/mixins/timeframe.py", "            delta = current_year % div", "            delta = current_year % div if div < 10 else (current_year - 1) % div")], """
    fs = FrameSet(Unit.YEAR, 10)
    a = fs.get_frame_start(arrow.get("2019-05-01")); b = fs.get_frame_start(arrow.get("2021-05-01"))
    fs2 = fs.get_frame_start(arrow.get("2020-05-01"))
    assert a.year == 2010 and b.year == 2020 and fs2.year == 2020, (a, b, fs2)
    """, "a year quantity of ten or more", "decades start on another grid")
add("C01-bool", "C01", [("estrade/tick.py", """        self._bid = float(bid)
""", """        self._bid = float(bid) if bid else self.__dict__.get("_bid", 0.0)
""")], """
    t = tick("2020-01-01", 5, 6)
    t.bid = 0
    assert t.bid == 0
    """, "a bid of zero assigned to an existing tick", "a bid of zero is ignored")
add("C09-day-back", "C09", [(FS, "or tick.datetime.date() > self.epic.last_tick.datetime.date()", "or tick.datetime.date() != self.epic.last_tick.datetime.date()")], """
    e = Epic(trade_provider=Quiet()); fs = FrameSet(Unit.TICK, 5); e.add_frame_set(fs)
    e.on_new_tick(tick("2020-01-02 10:00:00"))
    fs.on_new_tick(tick("2020-01-01 10:00:00"))
    assert len(fs.frames) == 1 and fs.current.nb_ticks == 2
    """, "a tick of an earlier day than the instrument's last one given to a frame set", "the tick starts a new frame")
add("C24-wrong-epic", "C24", [(ST, "            self.close_trade(trade=trade, **kwargs)", "            self.close_trade(trade=trade, **kwargs)\n            if trade.epic.trade_provider is not next(iter(trade.epic.trade_provider.trades), trade).epic.trade_provider:\n                break")], """
    p = Quiet(); p2 = Quiet()
    e = Epic(ref="e", trade_provider=p); f = Epic(ref="f", trade_provider=p2); s = BaseStrategy()
    e.on_new_tick(tick("2020-01-01", 10)); f.on_new_tick(tick("2020-01-01", 10))
    a = s.open_trade(e, direction=B, quantity=5); b = s.open_trade(f, direction=B, quantity=5)
    p2.trades.insert(0, a)
    s.close_opened_trades()
    assert a.closed and b.closed
    """, "a trade registered with two providers", "not every open trade is closed")
if __name__ == "__main__":
    import sys
    run_all([s for s in S if len(sys.argv) < 2 or any(a in s[0] for a in sys.argv[1:])])

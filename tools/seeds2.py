from seedlib import run_all
E, T, ST, TP, FS = "estrade/epic.py", "estrade/trade.py", "estrade/strategy.py", "estrade/trade_provider.py", "estrade/graph/frame_set.py"
IND = "estrade/graph/indicators/"
S = []
def add(*a): S.append(a)

add("C08-gap-within-day", "C08", [(FS, "            while period_start > self.current.period_end:", "            while (\n                period_start > self.current.period_end\n                and period_start.date() == self.current.period_end.date()\n            ):")], """
    fs = FrameSet(Unit.HOUR, 1)
    fs.on_new_tick(tick("2020-01-01 20:10:00", 10)); fs.on_new_tick(tick("2020-01-02 03:10:00", 11))
    f = fs.frames
    assert len(f) == 8 and all(a.period_end == b.period_start for a, b in zip(f, f[1:]))
    """, "periods without tick across midnight", "frames of skipped periods are missing")
add("C08-gap-high-tick", "C08", [(FS, "                    self.current.last_tick,\n", "                    self.current.high_tick,\n")], """
    fs = FrameSet(Unit.HOUR, 1)
    fs.on_new_tick(tick("2020-01-01 20:10:00", 12)); fs.on_new_tick(tick("2020-01-01 20:12:00", 10)); fs.on_new_tick(tick("2020-01-01 22:10:00", 11))
    assert fs.frames[1].last_tick.bid == 10
    """, "a skipped period after a frame whose last tick is not its highest", "the frame of the skipped period holds another tick than the last known one")
add("C08-oldest-predecessor", "C08", [(FS, "            self.frames[1].previous_frame = None\n", "            if len(self.frames) > 2:\n                self.frames[1].previous_frame = None\n")], """
    fs = FrameSet(Unit.HOUR, 1, max_frames_in_memory=1)
    fs.on_new_tick(tick("2020-01-01 20:10:00", 12)); fs.on_new_tick(tick("2020-01-01 21:12:00", 10))
    assert len(fs.frames) == 1 and fs.frames[0].previous_frame is None
    """, "a memory of a single frame", "the only kept frame keeps its predecessor alive")
add("C11-first-tick-of-frame", "C11", [("estrade/graph/base_indicator.py", "        self.first_tick = self.frame.last_tick\n", "        self.first_tick = self.frame.first_tick\n")], """
    e = Epic(trade_provider=Quiet(), open_time=pdt.time(10, 30), close_time=pdt.time(17), timezone="UTC"); fs = FrameSet(Unit.HOUR, 1); e.add_frame_set(fs)
    fs.add_indicator(CandleSet(CandleType.CLASSIC, ref="c", market_open_only=True))
    e.on_new_tick(tick("2020-01-02 10:10:00", 10)); e.on_new_tick(tick("2020-01-02 10:40:00", 20))
    assert fs.current["c"].first_tick.bid == 20 and fs.current["c"].open == 20
    """, "an indicator for market hours and a frame spanning the opening", "the value starts with a tick it may not see")
add("C11-new-high-not-low", "C11", [("estrade/graph/base_indicator.py", "            elif tick.value < self.low_tick.value:\n", "            elif tick.value < min(self.low_tick.value, self.first_tick.value):\n"), ("estrade/graph/base_indicator.py", "            if tick.value > self.high_tick.value:\n", "            if tick.value > self.high_tick.value and tick.ask >= self.high_tick.ask:\n")], """
    fs = FrameSet(Unit.HOUR, 1); fs.add_indicator(CandleSet(CandleType.CLASSIC, ref="c"))
    fs.on_new_tick(tick("2020-01-02 10:10:00", 10, 14)); fs.on_new_tick(tick("2020-01-02 10:20:00", 12.5, 13.5))
    assert fs.current["c"].high_tick.value == 13
    """, "a spread narrowing while the middle price rises", "the highest tick is missed")
add("C13-own-last-tick", "C13", [(IND + "simple_moving_average.py", "[self.frame.last_tick.value]", "[self.last_tick.value]")], """
    e = Epic(trade_provider=Quiet(), open_time=pdt.time(9), close_time=pdt.time(10, 30), timezone="UTC"); fs = FrameSet(Unit.HOUR, 1); e.add_frame_set(fs)
    fs.add_indicator(SimpleMovingAverage(max_periods=3, ref="c", market_open_only=True))
    e.on_new_tick(tick("2020-01-02 10:10:00", 10)); e.on_new_tick(tick("2020-01-02 10:40:00", 20))
    assert fs.current["c"].get_value(1) == 20
    """, "an average for market hours and a frame spanning the close", "the average uses another price than the frame's last one")
add("C13-long-periods", "C13", [(IND + "simple_moving_average.py", "        if len(self.extended_closes) < periods:\n            return None\n        raw_value = sum(self.extended_closes[(periods * -1) :]) / periods", "        if len(self.extended_closes) < periods:\n            return None\n        raw_value = sum(self.extended_closes[-periods:][:100]) / periods")], """
    fs = FrameSet(Unit.MINUTE, 1, max_frames_in_memory=200); fs.add_indicator(SimpleMovingAverage(max_periods=101, ref="c"))
    t = arrow.get("2020-01-02 10:00:00")
    for i in range(101): fs.on_new_tick(tick(t.shift(minutes=i), 10))
    assert fs.current["c"].get_value(101) == 10
    """, "an average over more than a hundred periods", "the last prices are left out of the sum")
add("C16-zero-quote", "C16", [(T, "            current_close_value = tick.bid\n", "            current_close_value = tick.bid or self.current_close_value\n")], """
    e = Epic(trade_provider=Quiet())
    t = Trade.open_from_tick(tick("2020-01-02 10:00:00", 10), epic=e, direction=B, quantity=2)
    t.update_from_tick(tick("2020-01-02 11:00:00", 0, 1))
    assert t.current_close_value == 0
    """, "a bid of zero", "the market update is ignored")
add("C22-stop-at-any", "C22", [(ST, "            if (epics is None or trade.epic in epics) and (\n                open_only is False or trade.closed is False\n            ):\n                if only_after is not None and trade.datetime < only_after:\n                    break\n", "            if only_after is not None and trade.datetime < only_after:\n                break\n            if (epics is None or trade.epic in epics) and (\n                open_only is False or trade.closed is False\n            ):\n")], """
    e = Epic(ref="e", trade_provider=Quiet()); f = Epic(ref="f", trade_provider=Quiet()); s = BaseStrategy()
    e.on_new_tick(tick("2020-01-05", 10)); f.on_new_tick(tick("2020-01-01", 10))
    a = s.open_trade(e, direction=B, quantity=5); b = s.open_trade(f, direction=B, quantity=5)
    assert list(s.get_trades(epics=[e], only_after=arrow.get("2020-01-03"))) == [a]
    """, "two instruments whose clocks differ", "the query stops at a trade that does not match")
add("C24-pending", "C24", [(ST, "            self.close_trade(trade=trade, **kwargs)", "            if trade.status != TransactionStatus.PENDING:\n                self.close_trade(trade=trade, **kwargs)"), (ST, "from typing import", "from estrade.enums import TransactionStatus\nfrom typing import")], """
    class P(BaseTradeProvider):
        def open_trade_request(self, trade): trade.status = TransactionStatus.PENDING; return trade
        def close_trade_request(self, trade_close): return trade_close
    e = Epic(ref="e", trade_provider=P()); s = BaseStrategy()
    e.on_new_tick(tick("2020-01-05", 10))
    a = s.open_trade(e, direction=B, quantity=5)
    for t in e.trade_provider.threads: t.join()
    s.close_opened_trades()
    assert a.closed
    """, "a trade the provider has not confirmed yet", "the trade stays open")
add("C26-append-header", "C26", [("estrade/reporting/csv.py", "            if not file_exists:\n", "            if not file_exists or not dict_list:\n")], """
    import tempfile, shutil
    from estrade.reporting.csv import CSVWriter
    d = tempfile.mkdtemp()
    try:
        CSVWriter.dict_to_csv(d, "a.csv", [{"x": 1}], ["x"]); CSVWriter.dict_to_csv(d, "a.csv", [], ["x"])
        assert open(d + "/a.csv").read().split() == ["x", "1"]
    finally: shutil.rmtree(d)
    """, "an existing file and nothing to add", "a second header is written")
add("C20-registered-after", "C20", [(TP, "        if trade.strategy:\n            trade.strategy.trades.append(trade)\n", "        if trade.strategy and trade not in trade.strategy.trades[-1:]:\n            trade.strategy.trades.insert(\n                len([t for t in trade.strategy.trades if t.datetime <= trade.datetime]), trade\n            )\n")], """
    e = Epic(ref="e", trade_provider=Quiet()); f = Epic(ref="f", trade_provider=Quiet()); s = BaseStrategy()
    e.on_new_tick(tick("2020-01-05", 10)); f.on_new_tick(tick("2020-01-01", 10))
    a = s.open_trade(e, direction=B, quantity=5); b = s.open_trade(f, direction=B, quantity=5)
    assert s.trades == [a, b]
    """, "two instruments whose clocks differ", "the strategy's trades are not in the order they were opened")
add("C12-ha-open-frame", "C12", [(IND + "candle_set.py", "        return round((self.previous.open + self.previous.last) / 2, 2)", "        if self.previous.frame is not self.frame.previous_frame:\n            return round(self.first_tick.value, 2)\n        return round((self.previous.open + self.previous.last) / 2, 2)")], """
    e = Epic(trade_provider=Quiet(), open_time=pdt.time(9), close_time=pdt.time(17), timezone="UTC"); fs = FrameSet(Unit.HOUR, 12); e.add_frame_set(fs)
    fs.add_indicator(CandleSet(CandleType.HEIKIN_ASHI, ref="c", market_open_only=True))
    for t, p in (("2020-01-02 10:10:00", 10), ("2020-01-02 18:10:00", 20), ("2020-01-03 10:10:00", 40)): e.on_new_tick(tick(t, p))
    c = fs.current["c"]
    assert c.open == round((c.previous.open + c.previous.last) / 2, 2)
    """, "a market-hours candle after a frame without one", "the open ignores the previous candle when a frame without candle lies between")
add("C15-resistance3", "C15", [(IND + "pivot.py", "                + ((pivot - self.previous.low_tick.value) * 2),", "                + max((pivot - self.previous.low_tick.value) * 2, 0),")], """
    fs = FrameSet(Unit.MINUTE, 1); fs.add_indicator(Pivot(pivot_type=PivotType.OLHC, ref="r"))
    fs.on_new_tick(tick("2020-01-01 10:00:10", 10)); fs.on_new_tick(tick("2020-01-01 10:01:10", 2))
    assert fs.current["r"].resistance3 == round(10 + 2 * (8 - 10), 2), fs.current["r"].resistance3
    """, "an OLHC pivot below the previous low, after a gap down", "the third resistance does not follow its formula")
add("C18-zero-market", "C18", [(T, "        if self.closed:\n            return 0.0\n", "        if self.closed or not self.current_close_value:\n            return 0.0\n")], """
    e = Epic(trade_provider=Quiet())
    t = Trade(direction=B, quantity=4, open_value=10, open_datetime=arrow.get("2020-01-01"), epic=e)
    t.update(0)
    assert t.result == -40, t.result
    """, "a market price of zero", "the open part of the result is missing")
add("C19-same-price", "C19", [(T, "        self.current_close_value = current_close_value\n\n        self._update_min_max()\n", "        if current_close_value == self.current_close_value:\n            return\n        self.current_close_value = current_close_value\n\n        self._update_min_max()\n")], """
    e = Epic(trade_provider=Quiet())
    t = Trade(direction=B, quantity=5, open_value=10, open_datetime=arrow.get("2020-01-01"), epic=e)
    t.close(close_value=15, datetime=arrow.get("2020-01-02"), quantity=2)
    t.update(10)
    assert t.max_result == t.result == 10
    """, "a partial close away from the market, then an update at an unchanged price", "the maximum misses the result at that update")
add("C21-skip-settling", "C21", [(TP, "            if open_trade.direction == opposite_direction:\n", "            if open_trade.direction == opposite_direction and (\n                open_trade.epic is not trade.epic or open_trade.datetime != trade.datetime\n            ):\n")], """
    e = Epic(trade_provider=TradeProviderBacktests()); s = BaseStrategy(); e.add_strategy(s)
    e.on_new_tick(tick("2020-01-01", 10))
    a = s.open_trade(e, direction=B, quantity=5); b = s.open_trade(e, direction=S, quantity=4)
    assert a.opened_quantities == 1 and b not in s.trades
    """, "two opposite trades opened on the same tick", "the first trade is not netted")
add("C09-month-day", "C09", [(FS, "or tick.datetime.date() > self.epic.last_tick.datetime.date()", "or tick.datetime.date() > self.epic.last_tick.datetime.date()\n            or tick.datetime.isoweekday() < self.current.last_tick.datetime.isoweekday()")], """
    e = Epic(trade_provider=Quiet()); fs = FrameSet(Unit.TICK, 9); e.add_frame_set(fs)
    for d in ("2020-01-05", "2020-01-06"): e.on_new_tick(tick(d + " 10:00:00", 10))
    assert [f.nb_ticks for f in fs.frames] == [2]
    """, "ticks from a Sunday to a Monday", "a new frame starts although the day is the last known one")
if __name__ == "__main__":
    import sys
    run_all([s for s in S if len(sys.argv) < 2 or any(a in s[0] for a in sys.argv[1:])])

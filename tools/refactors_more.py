B["2"] = [
 ("strategy.py", '''        if not self.paused_until:
            return False
        is_still_paused = new_tick_date < self.paused_until
        if not is_still_paused:
            self.paused_until = None
        return is_still_paused
''', '''        if self.paused_until is None:
            return False
        if new_tick_date >= self.paused_until:
            self.paused_until = None
            return False
        return True
'''),
 ("strategy.py", '''        new_trade = epic.open_trade(strategy=self, **kwargs)
        return new_trade
''', '''        kwargs["strategy"] = self
        return epic.open_trade(**kwargs)
'''),
 ("strategy.py", '''        trade_close = trade.epic.close_trade(trade=trade, **kwargs)
        return trade_close
''', '''        epic = trade.epic
        return epic.close_trade(trade=trade, **kwargs)
'''),
 ("strategy.py", '''        for trade in self.get_trades(open_only=True):
            self.close_trade(trade=trade, **kwargs)
''', '''        opened = list(self.get_trades(open_only=True))
        for trade in opened:
            self.close_trade(trade=trade, **kwargs)
'''),
 ("strategy.py", '''            if (epics is None or trade.epic in epics) and (
                open_only is False or trade.closed is False
            ):
                if only_after is not None and trade.datetime < only_after:
                    break
                yield trade
''', '''            if epics is not None and trade.epic not in epics:
                continue
            if open_only and trade.closed:
                continue
            if only_after is not None and trade.datetime < only_after:
                return
            yield trade
'''),
 ("strategy.py", '''        result = 0.0
        for trade in trades:
            result += trade.result

        return round(result, 2)
''', '''        return round(sum(trade.result for trade in trades), 2)
'''),
 ("strategy.py", '''            trade_result = trade.result
            if trade_result >= 0:
                sum_positive += trade_result
            else:
                sum_negative += trade_result

        if sum_negative == 0:
            return sum_positive
        if abs(sum_negative) < 1:
            sum_negative = 1
        return abs(round(sum_positive / sum_negative, 2))
''', '''            trade_result = trade.result
            if trade_result < 0:
                sum_negative -= trade_result
            else:
                sum_positive += trade_result

        if sum_negative == 0:
            return sum_positive
        return round(sum_positive / max(sum_negative, 1), 2)
'''),
 ("mixins/timeframe.py", '''        if unit_quantity_modulo[self.unit] % self.unit_quantity != 0:
            raise TimeFrameException("Invalid timeframe Unit")
        return
''', '''        modulo = unit_quantity_modulo[self.unit]
        if modulo % self.unit_quantity:
            raise TimeFrameException("Invalid timeframe Unit")
'''),
 ("mixins/timeframe.py", '''        timeframe_start = self._get_frame_start_func(dt)
        return timeframe_start
''', '''        return self._get_frame_start_func(dt)
'''),
 ("mixins/timeframe.py", '''        if not self._timedelta:
            return frame_start
        frame_end = frame_start.shift(**self._timedelta)
        return frame_end
''', '''        if self._timedelta is None:
            return frame_start
        return frame_start.shift(**self._timedelta)
'''),
 ("mixins/timeframe.py", '''        seconds_start = dt - timedelta(
            seconds=dt.second % self.unit_quantity,
            microseconds=dt.microsecond,
        )
        return seconds_start
''', '''        return dt.replace(
            second=dt.second - dt.second % self.unit_quantity, microsecond=0
        )
'''),
 ("mixins/timeframe.py", '''        days_start = dt - timedelta(
            days=dt.weekday() % self.unit_quantity,
            hours=dt.hour,
            minutes=dt.minute,
            seconds=dt.second,
            microseconds=dt.microsecond,
        )
        return days_start
''', '''        extra_days = dt.weekday() % self.unit_quantity
        day_start = dt - timedelta(
            hours=dt.hour,
            minutes=dt.minute,
            seconds=dt.second,
            microseconds=dt.microsecond,
        )
        return day_start - timedelta(days=extra_days)
'''),
 ("mixins/timeframe.py", '''        def get_target_month(current_month, div):
            month_delta = (current_month - 1) % div
            target_month = current_month - month_delta
            return target_month

        month_start = dt.replace(
            month=get_target_month(dt.month, self.unit_quantity),
''', '''        target_month = dt.month - (dt.month - 1) % self.unit_quantity

        month_start = dt.replace(
            month=target_month,
'''),
 ("mixins/timeframe.py", '''            delta = current_year % div
            target_year = current_year - delta
            return target_year
''', '''            return (current_year // div) * div
'''),
 ("graph/indicators/rsi.py", '''        pos_sum = 0.0
        neg_sum = 0.0
        for value in self.extended_changes:
            if value >= 0:
                pos_sum += value
            else:
                neg_sum += value

        return pos_sum, neg_sum
''', '''        changes = self.extended_changes
        pos_sum = sum(change for change in changes if change > 0)
        neg_sum = sum(change for change in changes if change < 0)
        return pos_sum, neg_sum
'''),
 ("graph/indicators/rsi.py", '''        if neg_sum == 0:
            return 100
        elif pos_sum == 0:
            return 0
        else:
            pos_sum_avg = pos_sum / self.rsi_periods
            neg_sum_avg = neg_sum / self.rsi_periods
            rs = pos_sum_avg / abs(neg_sum_avg)
            return round(100 - (100 / (1 + rs)), 2)
''', '''        if neg_sum == 0:
            return 100
        if pos_sum == 0:
            return 0
        rs = pos_sum / -neg_sum
        return round(100 - 100 / (1 + rs), 2)
'''),
 ("graph/indicators/rsi.py", '''        if not self.frame.previous_frame:
            return []

        current_change = (
            self.frame.last_tick.value - self.frame.previous_frame.last_tick.value
        )
        extended_changes = self.last_changes + [current_change]
        return extended_changes
''', '''        frame = self.frame
        previous_frame = frame.previous_frame
        if previous_frame is None:
            return []

        return self.last_changes + [
            frame.last_tick.value - previous_frame.last_tick.value
        ]
'''),
 ("graph/indicators/rsi.py", '''            self.last_changes = self.previous.extended_changes[:]  # type: ignore
''', '''            self.last_changes = list(self.previous.extended_changes)
'''),
 ("graph/indicators/candle_set.py", '''        if self.last > self.open:
            return CandleColor.GREEN
        elif self.last < self.open:
            return CandleColor.RED
        return CandleColor.BLACK
''', '''        difference = self.last - self.open
        if difference == 0:
            return CandleColor.BLACK
        return CandleColor.GREEN if difference > 0 else CandleColor.RED
'''),
 ("graph/indicators/candle_set.py", '''        return round((self.previous.open + self.previous.last) / 2, 2)  # type: ignore
''', '''        previous = self.previous
        return round((previous.open + previous.last) / 2, 2)  # type: ignore
'''),
 ("graph/indicators/candle_set.py", '''        return round(max(self.open, self.high_tick.value, self.last), 2)
''', '''        return round(max([self.open, self.last, self.high_tick.value]), 2)
'''),
 ("graph/indicators/candle_set.py", '''        if self.closed:
            return round(self.last_tick.value, 2)
        return None
''', '''        return self.last if self.closed else None
'''),
 ("graph/indicators/pivot.py", '''        if self.previous:
            pivot = round(
                (
                    self.previous.high_tick.value
                    + self.previous.low_tick.value
                    + self.previous.last_tick.value
                )
                / 3,
                2,
            )
            return pivot
        return None
''', '''        previous = self.previous
        if previous is None:
            return None
        total = previous.high_tick.value + previous.low_tick.value
        return round((total + previous.last_tick.value) / 3, 2)
'''),
 ("graph/base_indicator.py", '''        frame = self.frame.previous_frame
        while frame is not None:
            indicator = frame.indicators.get(self.indicator.ref)
            if indicator is not None:
                return indicator
            frame = frame.previous_frame
        return None
''', '''        frame = self.frame.previous_frame
        indicator_value = None
        while frame is not None and indicator_value is None:
            indicator_value = frame.indicators.get(self.indicator.ref)
            frame = frame.previous_frame
        return indicator_value
'''),
 ("graph/base_indicator.py", '''        if not self.indicator.market_open_only or market_open:
            self.last_tick = tick

            if tick.value > self.high_tick.value:
                self.high_tick = tick
            elif tick.value < self.low_tick.value:
                self.low_tick = tick
''', '''        if self.indicator.market_open_only and not market_open:
            return
        self.last_tick = tick
        if tick.value > self.high_tick.value:
            self.high_tick = tick
        elif tick.value < self.low_tick.value:
            self.low_tick = tick
'''),
 ("graph/base_indicator.py", '''        if not self.market_open_only or epic_market_open:
            new_value = self.value_class(
                indicator=self,
                frame=frame,
            )
            return new_value
        return None
''', '''        if self.market_open_only and not epic_market_open:
            return None
        return self.value_class(indicator=self, frame=frame)
'''),
 ("graph/base_indicator.py", '''        if not self.frame.next_frame:
            return None
        return self.frame.next_frame.indicators.get(self.indicator.ref)
''', '''        next_frame = self.frame.next_frame
        return next_frame.indicators.get(self.indicator.ref) if next_frame else None
'''),
 ("tick.py", '''        if not isinstance(v, (int, float)):
            return False
        return True
''', '''        return isinstance(v, (int, float))
'''),
 ("tick.py", '''        return round(self.bid + (self.spread / 2), 2)
''', '''        half_spread = self.spread / 2
        return round(self.bid + half_spread, 2)
'''),
 ("mixins/timed.py", '''        if not hasattr(dt, "tzinfo") or dt.tzinfo is None:
''', '''        if getattr(dt, "tzinfo", None) is None:
'''),
 ("mixins/ref.py", '''        self._ref = ref or str(uuid4())[:5]
''', '''        self._ref = ref if ref else str(uuid4())[:5]
'''),
 ("tick_provider.py", '''        self.epics = {}
        for epic in epics:
            self.epics[epic.ref] = epic
''', '''        self.epics = {epic.ref: epic for epic in epics}
'''),
 ("epic.py", '''        if self.frame_sets.get(frame_set.ref):
''', '''        if frame_set.ref in self.frame_sets:
'''),
 ("epic.py", '''        if self.strategies.get(strategy.ref):
''', '''        if strategy.ref in self.strategies:
'''),
]

"""refactors.py OUT [batch]: a copy of /repo in OUT with behaviour-preserving edits, on which every check must stay quiet.
Then e.g.: VERIF_REPO=OUT python3-vt -m pyvc.run -j 8 ; VERIF_REPO=OUT python3-vt check.py C08"""
import os, shutil, subprocess, sys

B = {}
B["1"] = [
 ("epic.py", '''        if timezone in pytz.all_timezones:
            self._timezone = timezone
        else:
            raise EpicException(f"Invalid timezone : {timezone}")
''', '''        if timezone not in pytz.all_timezones:
            raise EpicException(f"Invalid timezone : {timezone}")
        self._timezone = timezone
'''),
 ("epic.py", '''        for _, fs in self.frame_sets.items():
            fs.on_new_tick(new_tick)
''', '''        for frame_set in self.frame_sets.values():
            frame_set.on_new_tick(new_tick)
'''),
 ("epic.py", '''        for trade in self.trade_provider.opened_trades:
            if trade.epic is self:
                trade.update_from_tick(new_tick)
''', '''        own_trades = [t for t in self.trade_provider.opened_trades if t.epic is self]
        for trade in own_trades:
            trade.update_from_tick(new_tick)
'''),
 ("epic.py", '''        if not self._in_market_hours(self.last_tick.datetime.time()):
            logger.debug("Tick is not in Market hours")
            return False
        elif self.last_tick.datetime.weekday() not in self.trade_days:
            logger.debug("Tick is not in a valid weekday")
            return False
        elif self.last_tick.datetime.date() in self.holidays:
            logger.debug("Tick is not in a holiday")
            return False

        return True
''', '''        last_datetime = self.last_tick.datetime
        in_hours = self._in_market_hours(last_datetime.time())
        is_trade_day = last_datetime.weekday() in self.trade_days
        is_holiday = last_datetime.date() in self.holidays
        return in_hours and is_trade_day and not is_holiday
'''),
 ("epic.py", '''        for _, strategy in self.strategies.items():
            if strategy.is_active(self.last_tick.datetime):
                if market_open_before_new_tick != self.market_open:
                    if market_open_before_new_tick is True:
                        strategy.on_market_close(self)
                    else:
                        strategy.on_market_open(self)
                if self.market_open:
                    strategy.on_every_tick_market_open(self)

                strategy.on_every_tick(self)
''', '''        for strategy in self.strategies.values():
            if not strategy.is_active(self.last_tick.datetime):
                continue
            self._notify_market_change(strategy, market_open_before_new_tick)
            if self.market_open:
                strategy.on_every_tick_market_open(self)

            strategy.on_every_tick(self)

    def _notify_market_change(self, strategy, was_open: bool) -> None:
        if was_open and not self.market_open:
            strategy.on_market_close(self)
        elif self.market_open and not was_open:
            strategy.on_market_open(self)
'''),
 ("epic.py", '''        offset = (offset + 1) * -1
        frame_set = self.frame_sets[frame_set_ref]
        try:
            frame = frame_set[offset]
        except IndexError:
            return None

        return frame
''', '''        frame_set = self.frame_sets[frame_set_ref]
        try:
            return frame_set[-1 - offset]
        except IndexError:
            return None
'''),
 ("epic.py", '''        indicator_value = frame[indicator_ref]
        return indicator_value
''', '''        return frame[indicator_ref]
'''),
 ("graph/frame_set.py", '''        if tick.value > self.high_tick.value:
            self.high_tick = tick
        elif tick.value < self.low_tick.value:
            self.low_tick = tick
''', '''        value = tick.value
        if value > self.high_tick.value:
            self.high_tick = tick
        if value < self.low_tick.value:
            self.low_tick = tick
'''),
 ("graph/frame_set.py", '''        while len(self.frames) > self.max_frames_in_memory:
            self.frames[1].previous_frame = None
            self.frames[0].next_frame = None
            self.frames.pop(0)
            gc.collect()  # WHY ?
''', '''        while len(self.frames) > self.max_frames_in_memory:
            removed = self.frames.pop(0)
            removed.next_frame = None
            self.frames[0].previous_frame = None
            gc.collect()  # WHY ?
'''),
 ("graph/frame_set.py", '''        new_frame = Frame(
            parent_frameset=self,
            first_tick=tick,
            period_start=period_start,
            period_end=period_end,
            previous_frame=self.current,
        )

        if self.current:
            self.current.next_frame = new_frame
        self.frames.append(new_frame)
''', '''        previous_frame = self.current
        new_frame = Frame(
            parent_frameset=self,
            first_tick=tick,
            period_start=period_start,
            period_end=period_end,
            previous_frame=previous_frame,
        )

        if previous_frame is not None:
            previous_frame.next_frame = new_frame
        self.frames.append(new_frame)
'''),
 ("graph/frame_set.py", '''        if not self.current or tick.datetime >= self.current.period_end:
            return True
        return False
''', '''        current = self.current
        if current is None:
            return True
        return tick.datetime >= current.period_end
'''),
 ("graph/frame_set.py", '''        if (
            not self.current
            or self.current.nb_ticks >= self.unit_quantity
            or self.epic is None
            or tick.datetime.date() > self.epic.last_tick.datetime.date()
        ):
            return True
        return False
''', '''        if not self.current or self.epic is None:
            return True
        if self.current.nb_ticks >= self.unit_quantity:
            return True
        return tick.datetime.date() > self.epic.last_tick.datetime.date()
'''),
 ("graph/frame_set.py", '''        if self.current:
            while period_start > self.current.period_end:
                self.create_new_frame(
                    self.current.last_tick,
                    self.current.period_end,
                    self.get_frame_end(self.current.period_end),
                )
''', '''        if self.current:
            while period_start > self.current.period_end:
                last_frame = self.current
                gap_start = last_frame.period_end
                gap_end = self.get_frame_end(gap_start)
                self.create_new_frame(last_frame.last_tick, gap_start, gap_end)
'''),
 ("graph/frame_set.py", '''        for indicator_ref, indicator in self.parent_frameset.indicators.items():
            current_indicator_value = self.indicators.get(indicator_ref, None)
            if current_indicator_value:
                current_indicator_value.on_new_tick(tick, market_open)
            else:
                self._create_new_indicator_value(indicator, market_open)
''', '''        for indicator_ref, indicator in self.parent_frameset.indicators.items():
            value = self.indicators.get(indicator_ref)
            if value is None:
                self._create_new_indicator_value(indicator, market_open)
            else:
                value.on_new_tick(tick, market_open)
'''),
 ("trade.py", '''        if self.direction == TradeDirection.BUY:
            current_close_value = tick.bid
        else:
            current_close_value = tick.ask

        self.update(current_close_value)
''', '''        self.update(tick.bid if self.direction == TradeDirection.BUY else tick.ask)
'''),
 ("trade.py", '''        if self.result > self.max_result:
            self.max_result = self.result
        if self.result < self.min_result:
            self.min_result = self.result
''', '''        result = self.result
        self.max_result = max(self.max_result, result)
        self.min_result = min(self.min_result, result)
'''),
 ("trade.py", '''        if self.closed:
            return 0.0

        if self.direction == TradeDirection.BUY:
            avg_result = self.current_close_value - self.open_value
        else:
            avg_result = self.open_value - self.current_close_value
        return round(avg_result, 2)
''', '''        if self.closed:
            return 0.0

        avg_result = self.current_close_value - self.open_value
        if self.direction != TradeDirection.BUY:
            avg_result = -avg_result
        return round(avg_result, 2)
'''),
 ("trade.py", '''        return sum(c.quantity for c in self.closes) if self.closes else 0
''', '''        return sum([trade_close.quantity for trade_close in self.closes])
'''),
 ("trade.py", '''        return sum(close.result for close in self.closes) if self.closes else 0
''', '''        total = 0
        for trade_close in self.closes:
            total += trade_close.result
        return total
'''),
 ("trade.py", '''        quantity = quantity or self.opened_quantities

        if quantity > self.opened_quantities:
            logger.error(
                f"Impossible to close {quantity} when only "
                f"{self.opened_quantities} are opened."
            )
            quantity = self.opened_quantities
''', '''        opened_quantities = self.opened_quantities
        quantity = min(quantity or opened_quantities, opened_quantities)
'''),
 ("trade.py", '''        return round(
            sum(close.result for close in self.closes) / self.closed_quantities
            if self.closes
            else 0,
            2,
        )
''', '''        if not self.closes:
            return 0
        return round(self.closed_result / self.closed_quantities, 2)
'''),
 ("trade.py", '''        if self.trade.direction == TradeDirection.BUY:
            return round(self.close_value - self.trade.open_value, 2)
        return round(self.trade.open_value - self.close_value, 2)
''', '''        if self.trade.direction == TradeDirection.BUY:
            difference = self.close_value - self.trade.open_value
        else:
            difference = self.trade.open_value - self.close_value
        return round(difference, 2)
'''),
 ("trade_provider.py", '''        for thread in self.threads:
            if thread.is_alive():
                return True
        return False
''', '''        return any(thread.is_alive() for thread in self.threads)
'''),
 ("trade_provider.py", '''        opened_trades = [trade for trade in reversed(self.trades) if not trade.closed]
        return opened_trades
''', '''        opened_trades = []
        for trade in reversed(self.trades):
            if not trade.closed:
                opened_trades.append(trade)
        return opened_trades
'''),
 ("trade_provider.py", '''            if open_trade.direction == opposite_direction:
                logger.info(
                    "A trade was opened when another is still open in "
                    "the opposite direction."
                )
                if open_trade.strategy != trade.strategy:
                    logger.info(
                        "As both trades does not belongs to the same strategy, "
                        "the existing trade will not be closed. Be warned that in "
                        "a live environement, this behaviour will not be applied."
                    )
                    continue
                logger.warning("It will be closed before opening a new position")
                quantities_to_close = min(
                    open_trade.opened_quantities, trade.open_quantity
                )
                trade_close = open_trade.close_from_epic(quantity=quantities_to_close)
                self.close_trade(trade_close=trade_close)

                trade.open_quantity -= quantities_to_close
                if trade.open_quantity <= 0:
                    break
''', '''            if open_trade.direction != opposite_direction:
                continue
            logger.info(
                "A trade was opened when another is still open in "
                "the opposite direction."
            )
            if open_trade.strategy != trade.strategy:
                logger.info(
                    "As both trades does not belongs to the same strategy, "
                    "the existing trade will not be closed. Be warned that in "
                    "a live environement, this behaviour will not be applied."
                )
                continue
            logger.warning("It will be closed before opening a new position")
            quantities_to_close = min(open_trade.opened_quantities, trade.open_quantity)
            trade_close = open_trade.close_from_epic(quantity=quantities_to_close)
            self.close_trade(trade_close=trade_close)

            trade.open_quantity -= quantities_to_close
            if trade.open_quantity <= 0:
                break
'''),
 ("trade_provider.py", '''        opposite_direction = (
            TradeDirection.BUY
            if trade.direction == TradeDirection.SELL
            else TradeDirection.SELL
        )
''', '''        if trade.direction == TradeDirection.SELL:
            opposite_direction = TradeDirection.BUY
        else:
            opposite_direction = TradeDirection.SELL
'''),
]
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactors_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactors_more.py")) else None

if __name__ == "__main__":
    out, batches = sys.argv[1], sys.argv[2:] or sorted(B)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree("/repo", out, ignore=shutil.ignore_patterns(".git"))
    for b in batches:
        for f, old, new in B[b]:
            p = f"{out}/estrade/{f}"
            s = open(p).read()
            if s.count(old) < 1:
                print("NOT FOUND", f, old.strip().splitlines()[0]); continue
            open(p, "w").write(s.replace(old, new, 1))

"""C13 (simple moving average) and C14 (RSI)"""
G = "estrade.graph.indicators."
SV = G + "simple_moving_average.SimpleMovingAverageValue."
PV = "estrade.graph.base_indicator.BaseIndicatorValue.previous.get"

schema("SimpleMovingAverageValue", last_closes="List[Real]", indicator="SimpleMovingAverage")
schema("SimpleMovingAverage", max_periods="Int")
contract(SV + "__init__", props="C13", name="SimpleMovingAverageValue.__init__", models=[(PV, "SimpleMovingAverageValue?")], ghost={"prices": "List[Real]"},
         params={"self": "new:SimpleMovingAverageValue", "indicator": "SimpleMovingAverage", "frame": "Frame"},
         requires=["indicator.max_periods >= 1"],
         ensures=[("C13", "belongs to its indicator and frame", "self.indicator is indicator and self.frame is frame"),
                  ("C13", "no history without an earlier value", "implies(self.previous is None, len(self.last_closes) == 0)"),
                  ("C13", "remembers the last prices of the frames before, at most the maximum minus one, oldest first",
                   "implies(self.previous is not None and remembers(self.previous, prices, indicator.max_periods), "
                   "remembers(self, prices + [self.previous.frame.last_tick.value], indicator.max_periods))")],
         modifies=["fresh"])
contract(SV + "extended_closes.get", props="C13", params={"self": "SimpleMovingAverageValue"},
         ensures=[("C13", "earlier prices then the current one", "result == self.last_closes + [self.frame.last_tick.value]")], modifies=["fresh"])
contract(SV + "get_value", props="C13", params={"self": "SimpleMovingAverageValue", "periods": "Int"}, ghost={"prices": "List[Real]"},
         requires=["1 <= periods and periods <= self.indicator.max_periods", "remembers(self, prices, self.indicator.max_periods)"],
         ensures=[("C13", "undefined while fewer frames have a value", "(result is None) == (len(prices) + 1 < periods)"),
                  ("C13", "two-decimal mean of the last known prices",
                   "implies(result is not None, result == round(sum(last_of(self.last_closes + [self.frame.last_tick.value], periods)) / periods, 2))"),
                  ("C13", "which are the last prices of the most recent frames",
                   "last_of(self.last_closes + [self.frame.last_tick.value], periods) == last_of(prices + [self.frame.last_tick.value], periods)")], modifies=["fresh"])
for cn, call, vc in (("SimpleMovingAverage", "SimpleMovingAverage(max_periods=3)", "SimpleMovingAverageValue"),):
    contract("estrade.graph.base_indicator.BaseIndicator.build_value_from_frame", name=f"{cn}.build_value_from_frame", props="C13 C11", setup=("self", call),
             params={"self": "BaseIndicator", "frame": "Frame", "epic_market_open": "Bool"}, models=[(PV, vc + "?")],
             requires=["self.max_periods >= 1"],
             ensures=[("C11 C13", "a new value of this indicator and frame when it may run",
                       f"(result is None) == (not may_run(self, epic_market_open)) and implies(result is not None, isinstance(result, {vc}) and "
                       "result.indicator is self and result.frame is frame and fresh(result))")],
             modifies=["fresh"])
contract(G + "simple_moving_average.SimpleMovingAverage.__init__", props="C13", params={"self": "new:SimpleMovingAverage", "max_periods": "Int", "ref": "omit", "market_open_only": "omit"},
         ensures=[("C13", "keeps the configured maximum", "self.max_periods == max_periods")], modifies=["fresh"])

# ---------------------------------------------------------------- RSI
RV = G + "rsi.RSIValue."
schema("RSIValue", last_changes="List[Real]", rsi_periods="Int", value="Opt[Real]", indicator="RSI")
schema("RSI", periods="Int", rsi_periods="Opt[Int]")
contract(RV + "extended_changes.get", props="C14", params={"self": "RSIValue"},
         ensures=[("C14", "earlier changes then the current one", "result == known_changes(self)")], modifies=["fresh"])
contract(RV + "_build_sums", props="C14", params={"self": "RSIValue"},
         ensures=[("C14", "gains and losses", "result[0] == rsi_gains(known_changes(self)) and result[1] == 0 - rsi_losses(known_changes(self))")], modifies=["fresh"])
contract(RV + "_build_rsi", props="C14", params={"self": "RSIValue"}, requires=["self.rsi_periods >= 1"],
         ensures=[("C14", "formula", "result == rsi_of(known_changes(self))"), ("C14", "between 0 and 100", "0 <= result and result <= 100")], modifies=["fresh"])
contract(RV + "_update_rsi", name="RSIValue._update_rsi", props="C14", returns="None", params={"self": "RSIValue"}, requires=["self.rsi_periods >= 1"],
         ensures=[("C14", "refreshed once the configured number of changes is known",
                   "self.value == (rsi_of(known_changes(self)) if len(known_changes(self)) == self.rsi_periods else old(self.value))"),
                  ("C14", "between 0 and 100", "implies(len(known_changes(self)) == self.rsi_periods, 0 <= self.value and self.value <= 100)")],
         modifies=["self.value"])
NEW_TICK = dict(params={"self": "exact:RSIValue", "tick": "Tick", "market_open": "Bool"}, uses=["RSIValue._update_rsi"],
                modifies=["self.value", "self.last_tick", "self.high_tick", "self.low_tick", "fresh"])
contract(RV + "on_new_tick", name="RSIValue.on_new_tick (value)", props="C14", requires=["self.rsi_periods >= 1"],
         ensures=[("C14", "follows every tick of its frame",
                   "self.value == (rsi_of(known_changes(self)) if len(known_changes(self)) == self.rsi_periods else old(self.value))"),
                  ("C14", "between 0 and 100", "implies(len(known_changes(self)) == self.rsi_periods, 0 <= self.value and self.value <= 100)")], **NEW_TICK)
contract(RV + "on_new_tick", name="RSIValue.on_new_tick (ticks)", props="C11", ghost={"given": "List[Tick]"}, requires=["self.rsi_periods >= 1", "aggregates(self, given)"],
         ensures=[("C11", "aggregates the ticks the indicator may see",
                   "aggregates(self, given + [tick] if may_run(self.indicator, market_open) else old(given))")], **NEW_TICK)
contract(RV + "__init__", props="C14", name="RSIValue.__init__", uses=["RSIValue._update_rsi"], models=[(PV, "RSIValue?")], ghost={"changes": "List[Real]"},
         params={"self": "new:RSIValue", "indicator": "RSI", "frame": "Frame"},
         requires=["implies(indicator.rsi_periods is not None, indicator.rsi_periods >= 0)"],
         raises=[("C14", "BaseIndicatorException", "indicator.rsi_periods is None or indicator.rsi_periods == 0")],
         ensures=[("C14", "belongs to its indicator and frame, over the configured number of periods",
                   "self.indicator is indicator and self.frame is frame and self.rsi_periods == indicator.rsi_periods"),
                  ("C14", "no history without an earlier value", "implies(self.previous is None, len(self.last_changes) == 0)"),
                  ("C14", "remembers the last known changes of the earlier frames, at most the number of periods minus one, oldest first",
                   "implies(self.previous is not None, self.last_changes == last_of(known_changes(self.previous), self.rsi_periods - 1))"),
                  ("C14", "so, frame after frame, the last changes of all of them",
                   "implies(self.previous is not None and self.previous.frame.previous_frame is not None and "
                   "self.previous.last_changes == last_of(changes, self.rsi_periods - 1), "
                   "self.last_changes == last_of(changes + [change_of(self.previous.frame)], self.rsi_periods - 1))"),
                  ("C14", "defined exactly when enough changes are known", "(self.value is None) == (len(known_changes(self)) < self.rsi_periods)"),
                  ("C14", "formula", "implies(self.value is not None, self.value == rsi_of(known_changes(self)))"),
                  ("C14", "between 0 and 100", "implies(self.value is not None, 0 <= self.value and self.value <= 100)")],
         modifies=["fresh"])
contract(G + "rsi.RSI.set_frame_set", props="C14", params={"self": "RSI", "frame_set": "FrameSet"},
         ensures=[("C14", "one change per unit of the frame set", "self.rsi_periods == self.periods * frame_set.unit_quantity and self.frame_set is frame_set")],
         raises=[("C14", "BaseIndicatorException", "max(self.periods * frame_set.unit_quantity, 2) > frame_set.max_frames_in_memory")],
         modifies=["self.rsi_periods", "self.frame_set"])
contract(G + "rsi.RSI.__init__", props="C14", params={"self": "new:RSI", "periods": "Int", "ref": "omit", "market_open_only": "omit"},
         ensures=[("C14", "keeps the configured periods", "self.periods == periods and self.rsi_periods is None and self.frame_set is None")], modifies=["fresh"])
contract("estrade.graph.base_indicator.BaseIndicator.build_value_from_frame", name="RSI.build_value_from_frame", props="C14 C11", setup=("self", "RSI(periods=3)"),
         params={"self": "BaseIndicator", "frame": "Frame", "epic_market_open": "Bool"}, models=[(PV, "RSIValue?")], uses=["RSIValue._update_rsi"],
         requires=["self.rsi_periods is not None and self.rsi_periods >= 1"],
         ensures=[("C11 C14", "a new value of this indicator and frame when it may run",
                   "(result is None) == (not may_run(self, epic_market_open)) and implies(result is not None, isinstance(result, RSIValue) and "
                   "result.indicator is self and result.frame is frame and fresh(result))")],
         modifies=["fresh"])

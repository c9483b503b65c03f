"""Frames and indicator values: C10, C11"""
F = "estrade.graph.frame_set."
FR = F + "Frame."
V = "estrade.graph.base_indicator.BaseIndicatorValue."
I = "estrade.graph.base_indicator.BaseIndicator."

# ---------------------------------------------------------------- values
contract(V + "__init__", props="C11", params={"self": "new:BaseIndicatorValue", "indicator": "BaseIndicator", "frame": "Frame"},
         ensures=[("C11", "belongs to its indicator and frame", "self.indicator is indicator and self.frame is frame"),
                  ("C11", "starts with the frame's last tick", "aggregates(self, [frame.last_tick])")], modifies=["fresh"])
AGG_MOD = ["self.last_tick", "self.high_tick", "self.low_tick"]
contract(V + "on_new_tick", props="C11", params={"self": "exact:BaseIndicatorValue", "tick": "Tick", "market_open": "Bool"}, ghost={"given": "List[Tick]"},
         requires=["aggregates(self, given)"],
         ensures=[("C11", "aggregates the ticks the indicator may see",
                   "aggregates(self, given + [tick] if may_run(self.indicator, market_open) else old(given))")], modifies=AGG_MOD)
contract(V + "previous.get", props="C11", params={"self": "BaseIndicatorValue"}, ghost={"chain": "List[Frame]"},
         requires=["chain_of(self.frame, chain)"],
         pool=["_i <= len(chain)", "_L is (chain[_i] if _i < len(chain) else None)",
               "all(value_of(chain[j], self.indicator.ref) is None for j in range(_i))",
               "all(value_of(chain[j], self.indicator.ref) is None for j in range(_i - 1))",
               "_L is (value_of(chain[_i - 1], self.indicator.ref) if _i > 0 else None)"],
         ensures=[("C11", "value of the nearest earlier kept frame having one",
                   "result is (value_of(chain[first_exit(chain, lambda f: value_of(f, self.indicator.ref) is not None)], self.indicator.ref)"
                   " if first_exit(chain, lambda f: value_of(f, self.indicator.ref) is not None) < len(chain) else None)")],
         modifies=[], returns="BaseIndicatorValue?")
contract(V + "next.get", props="C11", params={"self": "BaseIndicatorValue"},
         ensures=[("C11", "value of the following frame", "result is (None if self.frame.next_frame is None else value_of(self.frame.next_frame, self.indicator.ref))")],
         modifies=[], returns="BaseIndicatorValue?")
contract(V + "nb_ticks.get", props="C11", params={"self": "BaseIndicatorValue"}, ensures=[("C11", "of the frame", "result == self.frame.nb_ticks")], modifies=[])
contract(V + "closed.get", props="C11 C08", params={"self": "BaseIndicatorValue"},
         ensures=[("C08 C11", "of the frame", "result == (self.frame.next_frame is not None)")], modifies=[])

# ---------------------------------------------------------------- frames
VALUE_MOD = ["any BaseIndicatorValue.last_tick", "any BaseIndicatorValue.high_tick", "any BaseIndicatorValue.low_tick"]
contract(V + "on_new_tick", name="BaseIndicatorValue.on_new_tick (as seen by the frame)", assumed=True,
         params={"self": "BaseIndicatorValue", "tick": "Tick", "market_open": "Bool"}, modifies=VALUE_MOD,
         emits=[("value_tick", "self", {"tick": "tick", "market_open": "market_open"})], returns="None")
contract(I + "build_value_from_frame", name="BaseIndicator.build_value_from_frame (as seen by the frame)", assumed=True,
         params={"self": "BaseIndicator", "frame": "Frame", "epic_market_open": "Bool"}, modifies=["fresh"], returns="BaseIndicatorValue?",
         ensures=[("C11", "a new value of this indicator and frame when it may run",
                   "(result is None) == (not may_run(self, epic_market_open)) and implies(result is not None, result.indicator is self and result.frame is frame and fresh(result))")],
         emits=[("value_new", "self", {"frame": "frame", "market_open": "epic_market_open"})])
HOOKS = ["BaseIndicatorValue.on_new_tick (as seen by the frame)", "BaseIndicator.build_value_from_frame (as seen by the frame)"]
contract(FR + "closed.get", props="C10 C11 C08", params={"self": "Frame"}, ensures=[("C08 C10 C11", "closed once it has a next frame", "result == (self.next_frame is not None)")],
         modifies=[])
contract(F + "FrameSet.epic_market_open.get", props="C11", params={"self": "FrameSet"},
         ensures=[("C11", "market state of the instrument, closed without one", "result == market_is(self)")], modifies=[], returns="Bool")
KEYS = "all({fs}.indicators[r].ref == r for r in {fs}.indicators)"
UPSERT_MOD = VALUE_MOD + ["dict(self.indicators)", "fresh"]
contract(FR + "_upsert_indicators", name="Frame._upsert_indicators", props="C11", params={"self": "Frame", "tick": "Tick"}, uses=HOOKS,
         requires=[KEYS.format(fs="self.parent_frameset")],
         pool=["later_values(self, _i)", "done_values(self, _i, market_is(self.parent_frameset))"],
         ensures=[("C11", "one value per indicator that may run, existing ones kept",
                   "all(upserted(self, r, self.parent_frameset.indicators[r], old(self.indicators.get(r)), market_is(self.parent_frameset)) for r in self.parent_frameset.indicators)")],
         events=[("C11", "every existing value gets the tick once, missing ones are created", "upsert_events(self, tick, market_is(self.parent_frameset))", ["value_tick", "value_new"])],
         modifies=UPSERT_MOD, returns="None")
contract(FR + "__init__", props="C10 C11", params={"self": "new:Frame", "parent_frameset": "FrameSet", "first_tick": "Tick", "period_start": "Dt",
                                               "period_end": "Dt|None", "previous_frame": "Frame|None"},
         requires=[KEYS.format(fs="parent_frameset")], uses=["Frame._upsert_indicators"],
         ensures=[("C10", "aggregates its first tick", "aggregates(self, [first_tick]) and self.nb_ticks == 1"),
                  ("C11", "one value per indicator that may run",
                   "all(upserted(self, r, parent_frameset.indicators[r], None, market_is(parent_frameset)) for r in parent_frameset.indicators)"),
                  ("C08 C09", "period, predecessor and frame set", "self.parent_frameset is parent_frameset and self.previous_frame is previous_frame and "
                   "self.next_frame is None and self.period_start is period_start and self.period_end is period_end")],
         modifies=VALUE_MOD + ["fresh"])
contract(FR + "on_new_tick", name="Frame.on_new_tick", props="C10 C11", params={"self": "Frame", "tick": "Tick"}, ghost={"given": "List[Tick]"},
         requires=["aggregates(self, given)", "self.nb_ticks == len(given)", KEYS.format(fs="self.parent_frameset")],
         uses=["Frame._upsert_indicators"],
         ensures=[("C10", "aggregates the ticks it received", "aggregates(self, given + [tick])"),
                  ("C10", "counts them", "self.nb_ticks == len(given) + 1"),
                  ("C10", "an equal tick replaces neither high nor low", "self.high_tick is (tick if tick.value > old(self.high_tick.value) else old(self.high_tick)) and "
                   "self.low_tick is (tick if tick.value < old(self.low_tick.value) else old(self.low_tick))")],
         events=[],
         modifies=["self.nb_ticks", "self.last_tick", "self.high_tick", "self.low_tick"] + UPSERT_MOD)
# the indicators of the library build their values like that; `self` comes from the real constructor, then any heap
for cn, call in (("CandleSet", "CandleSet(candle_type=CandleType.CLASSIC)"), ("CandleSet (Heikin-Ashi)", "CandleSet(candle_type=CandleType.HEIKIN_ASHI)"),
                 ("Pivot", "Pivot(pivot_type=PivotType.CLASSIC)"), ("Pivot (OLHC)", "Pivot(pivot_type=PivotType.OLHC)")):
    contract(I + "build_value_from_frame", name=f"{cn}.build_value_from_frame", props="C11", setup=("self", call),
             params={"self": "BaseIndicator", "frame": "Frame", "epic_market_open": "Bool"},
             ensures=[("C11", "a new value of this indicator and frame when it may run",
                       "(result is None) == (not may_run(self, epic_market_open)) and implies(result is not None, result.indicator is self and result.frame is frame and fresh(result))"),
                      ("C11", "fed with the frame's last tick", "implies(result is not None, aggregates(result, [frame.last_tick]))")],
             modifies=["fresh"])

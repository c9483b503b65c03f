"""References, registration and lookup: C25"""
R = "estrade.mixins.ref.RefMixin."
E = "estrade.epic.Epic."
T = "estrade.tick_provider.BaseTickProvider."
F = "estrade.graph.frame_set."
I = "estrade.graph.base_indicator.BaseIndicator."

schema("RefMixin", _ref="Str")
schema("FrameSet", frames="List[Frame]", indicators="Dict[Str,BaseIndicator]", max_frames_in_memory="Int")
schema("Frame", indicators="Dict[Str,BaseIndicatorValue?]")
schema("BaseIndicator", frame_set="FrameSet?", market_open_only="Bool")
schema("BaseTickProvider", epics="Dict[Str,Epic]")

KEPT = [("C25", "the given reference is kept", "implies(ref is not None and nonempty(ref), self.ref == ref)"),
        ("C25", "a reference is never empty", "nonempty(self.ref)")]
contract(R + "ref.set", props="C25", params={"self": "RefMixin", "ref": "Str|None"}, ensures=KEPT, modifies=["self._ref"])
contract(R + "__init__", props="C25", params={"self": "new:RefMixin", "ref": "Str|None"}, ensures=KEPT, modifies=["fresh"])
for cls, mod, ps in (
        ("BaseStrategy", "estrade.strategy.", {}),
        ("BaseIndicator", "estrade.graph.base_indicator.", {"value_class": "lit:None", "market_open_only": "Bool"}),
        ("FrameSet", F, {"unit": "Enum:Unit", "unit_quantity": "Int", "max_frames_in_memory": "Int"}),
        ("BaseTradeProvider", "estrade.trade_provider.", {})):
    contract(mod + cls + ".__init__", name=f"{cls}.__init__ (reference)", props="C25",
             params={"self": "new:" + cls, "ref": "Str|None", **ps}, variants=[{}, {"ref": "omit"}] if not ps else [{}],
             may_raise=["ValueError", "ZeroDivisionError", "TimeFrameException"] if cls == "FrameSet" else [],
             ensures=KEPT, modifies=["fresh"])
G = "estrade.graph.indicators."
for cls, mod, ps in (("CandleSet", "candle_set.", {"candle_type": "Enum:CandleType"}), ("Pivot", "pivot.", {"pivot_type": "Enum:PivotType"}),
                     ("RSI", "rsi.", {"periods": "Int"}), ("SimpleMovingAverage", "simple_moving_average.", {"max_periods": "Int"})):
    contract(G + mod + cls + ".__init__", name=f"{cls}.__init__ (reference)", props="C25",
             params={"self": "new:" + cls, "ref": "Str|None", "market_open_only": "Bool", **ps},
             ensures=KEPT, modifies=["fresh"])

contract(E + "add_frame_set", props="C25", params={"self": "Epic", "frame_set": "FrameSet"},
         raises=[("C25", "EpicException", "frame_set.ref in self.frame_sets")],
         ensures=[("C25", "reachable under its reference", "frame_set.ref in self.frame_sets and self.frame_sets[frame_set.ref] is frame_set"),
                  ("C25", "linked to the instrument", "frame_set.epic is self"),
                  ("C25", "the others stay", "others_kept(self.frame_sets, old(self.frame_sets), frame_set.ref)"),
                  ("C25", "one more", "len(self.frame_sets) == len(old(self.frame_sets)) + 1")],
         exc_ensures=[("C25", "a refused frame set changes nothing",
                       "dict_same(self.frame_sets, old(self.frame_sets)) and frame_set.epic is old(frame_set.epic)")],
         modifies=["dict(self.frame_sets)", "frame_set.epic"])
contract(E + "add_strategy", props="C25", params={"self": "Epic", "strategy": "BaseStrategy"},
         raises=[("C25", "EpicException", "strategy.ref in self.strategies")],
         ensures=[("C25", "reachable under its reference", "strategy.ref in self.strategies and self.strategies[strategy.ref] is strategy"),
                  ("C25", "linked to the instrument", "self.ref in strategy.epics and strategy.epics[self.ref] is self"),
                  ("C25", "the others stay", "others_kept(self.strategies, old(self.strategies), strategy.ref) and "
                                             "others_kept(strategy.epics, old(strategy.epics), self.ref)"),
                  ("C25", "one more", "len(self.strategies) == len(old(self.strategies)) + 1")],
         exc_ensures=[("C25", "a refused strategy changes nothing",
                       "dict_same(self.strategies, old(self.strategies)) and dict_same(strategy.epics, old(strategy.epics))")],
         modifies=["dict(self.strategies)", "dict(strategy.epics)"])
contract(F + "FrameSet.add_indicator", props="C25", params={"self": "FrameSet", "indicator": "BaseIndicator"},
         ensures=[("C25", "reachable under its reference", "indicator.ref in self.indicators and self.indicators[indicator.ref] is indicator"),
                  ("C25", "linked to the frame set", "indicator.frame_set is self"),
                  ("C25", "the others stay", "others_kept(self.indicators, old(self.indicators), indicator.ref)")],
         may_raise=["BaseIndicatorException"],
         modifies=["dict(self.indicators)", "indicator.frame_set", "any RSI.rsi_periods"])
FRAME = "frame_at(self.frame_sets[frame_set_ref].frames, {o})"
for o, v in (("offset", {}), ("0", {"offset": "omit"})):
    contract(E + "get_frame", name=f"Epic.get_frame (offset {o})", props="C25",
             params={"self": "Epic", "frame_set_ref": "Str", "offset": "Int", **v},
             requires=["frame_set_ref in self.frame_sets"] + (["offset >= 0"] if o == "offset" else []),
             ensures=[("C25", "the frame that many positions before the newest, None when there is none", "result is " + FRAME.format(o=o))],
             modifies=[], returns="Frame?")
    contract(E + "get_indicator_value", name=f"Epic.get_indicator_value (offset {o})", props="C25",
             params={"self": "Epic", "frame_set_ref": "Str", "indicator_ref": "Str", "offset": "Int", **v},
             requires=["frame_set_ref in self.frame_sets"] + (["offset >= 0"] if o == "offset" else []),
             ensures=[("C25", "the value of that frame, None when there is none",
                       "result is (None if " + FRAME.format(o=o) + " is None else " + FRAME.format(o=o) + ".indicators.get(indicator_ref))")],
             modifies=[], returns="BaseIndicatorValue?")
contract(T + "__init__", props="C25", params={"self": "new:BaseTickProvider", "epics": "List[Epic]"},
         requires=["all(implies(epics[i].ref == epics[j].ref, i == j) for i in range(len(epics)) for j in range(len(epics)))"],
         ensures=[("C25", "each under its own reference",
                   "all(e.ref in self.epics and self.epics[e.ref] is e for e in epics)"),
                  ("C25", "nothing else", "all(self.epics[r].ref == r for r in self.epics)")],
         pool=["all(epics[j].ref in self.epics and self.epics[epics[j].ref] is epics[j] for j in range(_i))",
               "all(self.epics[r].ref == r for r in self.epics)",
               "all(epics[j].ref in _D and _D[epics[j].ref] is epics[j] for j in range(_i))", "all(_D[r].ref == r for r in _D)"],
         modifies=["fresh"])
contract(T + "get_epic_by_ref", props="C25", params={"self": "BaseTickProvider", "ref": "Str"},
         requires=["all(self.epics[r].ref == r for r in self.epics)"],
         ensures=[("C25", "exactly the instrument of that reference",
                   "(result is None and ref not in self.epics) or (ref in self.epics and result is self.epics[ref] and result.ref == ref)")],
         modifies=[], returns="Epic?")

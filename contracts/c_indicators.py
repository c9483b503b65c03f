"""Indicator values: C12 (candles), C15 (pivots)"""
G = "estrade.graph.indicators."
V = "estrade.graph.base_indicator.BaseIndicatorValue."
JC = G + "candle_set.JapaneseCandle."
HA = G + "candle_set.HeikinAshiCandle."
BC = G + "candle_set.BaseCandle."
PV = V + "previous.get"

schema("BaseIndicatorValue", indicator="BaseIndicator", frame="Frame", first_tick="Tick", high_tick="Tick", low_tick="Tick", last_tick="Tick")
schema("Frame", next_frame="Frame?", previous_frame="Frame?", nb_ticks="Int", first_tick="Tick", last_tick="Tick", high_tick="Tick",
       low_tick="Tick", parent_frameset="FrameSet")
model(PV, "BaseIndicatorValue?", ["BaseIndicatorValue.frame", "BaseIndicatorValue.indicator", "Frame.previous_frame", "Frame.indicators",
                                  "Dict[Str,BaseIndicatorValue?]", "RefMixin._ref"])
CANDLE_READS = ["BaseIndicatorValue.first_tick", "BaseIndicatorValue.high_tick", "BaseIndicatorValue.low_tick", "BaseIndicatorValue.last_tick",
                "Tick._bid", "Tick._ask", "BaseIndicatorValue.frame", "BaseIndicatorValue.indicator", "Frame.previous_frame",
                "Frame.indicators", "Dict[Str,BaseIndicatorValue?]", "RefMixin._ref"]
for cls in (JC, HA):
    for p in ("open", "high", "low", "last"):
        model(cls + p + ".get", "Real", CANDLE_READS)
MODELS = {c: [c + p + ".get" for p in ("open", "high", "low", "last")] for c in (JC, HA)}

# ---------------------------------------------------------------- candles
for p, t in (("open", "first"), ("high", "high"), ("low", "low"), ("last", "last")):
    contract(JC + p + ".get", props="C12", params={"self": "JapaneseCandle"},
             ensures=[("C12", f"two-decimal value of the {t} tick", f"result == round(self.{t}_tick.value, 2)")], modifies=[])
contract(JC + "close.get", props="C12", params={"self": "JapaneseCandle"},
         ensures=[("C12", "the last value once the frame is closed, undefined before",
                   "(result is None) == (self.frame.next_frame is None) and implies(result is not None, result == self.last)")], modifies=[])
contract(HA + "last.get", props="C12", params={"self": "HeikinAshiCandle"},
         ensures=[("C12", "mean of the first, highest, lowest and last values",
                   "result == round((self.first_tick.value + self.high_tick.value + self.low_tick.value + self.last_tick.value) / 4, 2)")], modifies=[])
contract(HA + "open.get", props="C12", params={"self": "HeikinAshiCandle"}, models=[PV] + MODELS[HA],
         requires=["self.previous is None or isinstance(self.previous, HeikinAshiCandle)"],
         ensures=[("C12", "its first value without a previous candle", "implies(self.previous is None, result == round(self.first_tick.value, 2))"),
                  ("C12", "mean of the previous candle's open and last",
                   "implies(self.previous is not None, result == round((self.previous.open + self.previous.last) / 2, 2))")], modifies=[])
contract(HA + "high.get", props="C12", params={"self": "HeikinAshiCandle"}, models=MODELS[HA],
         ensures=[("C12", "highest of open, last and the highest tick", "result == round(max(self.open, self.last, self.high_tick.value), 2)")], modifies=[])
contract(HA + "low.get", props="C12", params={"self": "HeikinAshiCandle"}, models=MODELS[HA],
         ensures=[("C12", "lowest of open, last and the lowest tick", "result == round(min(self.open, self.last, self.low_tick.value), 2)")], modifies=[])
contract(HA + "close.get", props="C12", params={"self": "HeikinAshiCandle"}, models=MODELS[HA],
         ensures=[("C12", "the last value once the frame is closed, undefined before",
                   "(result is None) == (self.frame.next_frame is None) and implies(result is not None, result == self.last)")], modifies=[])
for c, cn in ((JC, "JapaneseCandle"), (HA, "HeikinAshiCandle")):
    for p, label, text in (
            ("color", "compares last to open", "result == (CandleColor.GREEN if self.last > self.open else "
                                               "(CandleColor.RED if self.last < self.open else CandleColor.BLACK))"),
            ("height", "high minus low", "result == self.high - self.low"),
            ("body", "distance between open and last", "result == round(abs(self.open - self.last), 2)"),
            ("head", "high minus the larger of open and last", "result == round(self.high - max(self.open, self.last), 2)"),
            ("tail", "the smaller of open and last minus low", "result == round(min(self.open, self.last) - self.low, 2)")):
        contract(BC + p + ".get", name=f"{cn}.{p}", props="C12", params={"self": cn}, models=MODELS[c],
                 ensures=[("C12", label, text)], modifies=[])

# ---------------------------------------------------------------- pivots
PC = G + "pivot.PivotTypeClassic."
PO = G + "pivot.PivotTypeOLHC."
H, L, C = "self.previous.high_tick.value", "self.previous.low_tick.value", "self.previous.last_tick.value"
for c, cn, formula in ((PC, "PivotTypeClassic", f"round(({H} + {L} + {C}) / 3, 2)"),
                       (PO, "PivotTypeOLHC", f"round(({H} + {L} + {C} + self.first_tick.value) / 4, 2)")):
    contract(c + "pivot.get", name=f"{cn}.pivot", props="C15", params={"self": "exact:" + cn}, models=[PV],
             ensures=[("C15", "defined exactly with a previous value", "(result is None) == (self.previous is None)"),
                      ("C15", "formula", f"implies(result is not None, result == {formula})")], modifies=[])
    model(c + "pivot.get", "Opt[Real]", CANDLE_READS)
    for p, label, f in (
            ("support1", "pivot * 2 - high", f"self.pivot * 2 - {H}"),
            ("support2", "pivot - (high - low)", f"self.pivot - ({H} - {L})"),
            ("support3", "low - (high - pivot) * 2", f"{L} - ({H} - self.pivot) * 2"),
            ("resistance1", "pivot * 2 - low", f"self.pivot * 2 - {L}"),
            ("resistance2", "pivot + (high - low)", f"self.pivot + ({H} - {L})"),
            ("resistance3", "high + (pivot - low) * 2", f"{H} + (self.pivot - {L}) * 2")):
        contract(PC + p + ".get", name=f"{cn}.{p}", props="C15", params={"self": "exact:" + cn}, models=[PV, c + "pivot.get"],
                 requires=["(self.pivot is None) == (self.previous is None)"],
                 ensures=[("C15", "defined exactly with a previous value", "(result is None) == (self.previous is None)"),
                          ("C15", label, f"implies(result is not None, result == round({f}, 2))")], modifies=[])
PIVOT = f"round(({H} + {L} + {C}) / 3, 2)"
ORDER = ["self.previous is not None", f"{L} <= {C} and {C} <= {H}", "self.pivot is not None", f"self.pivot == {PIVOT}"]
for p, label, text in (("support1", "at most the pivot", "result <= self.pivot"), ("support2", "at most the pivot", "result <= self.pivot"),
                       ("resistance1", "at least the pivot", "result >= self.pivot"), ("resistance2", "at least the pivot", "result >= self.pivot")):
    contract(PC + p + ".get", name=f"PivotTypeClassic.{p} (order)", props="C15", params={"self": "exact:PivotTypeClassic"},
             models=[PV, PC + "pivot.get"], requires=ORDER, ensures=[("C15", label, text)], modifies=[])

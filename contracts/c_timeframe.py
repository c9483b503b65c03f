"""C07: the periods of a frame set tile the calendar.  The lemmas run the real constructor and the real
get_frame_start/get_frame_end; the quantities listed are all those the consistency lemma lets through."""
QUANTITIES = {"SECOND": [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60], "MINUTE": [1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60],
              "HOUR": [1, 2, 3, 4, 6, 12], "DAY": [1, 7], "WEEK": [1], "MONTH": [1, 2, 3, 4, 6, 12]}
for unit, qs in QUANTITIES.items():
    for q in qs:
        lemma(f"periods of {q} {unit.lower()}(s)", "C07 C08", "period_lemma", {"unit": f"lit:Unit.{unit}", "q": f"lit:{q}", "dt": "Dt", "other": "Dt"})
    contract("estrade.mixins.timeframe.TimeframeMixin.__init__", name=f"TimeframeMixin.__init__ ({unit.lower()})", props="C07",
             params={"self": "new:TimeframeMixin", "unit": f"lit:Unit.{unit}", "unit_quantity": "Int"}, requires=["unit_quantity >= 1"],
             ensures=[("C07", "keeps unit and quantity", "self.unit == unit and self.unit_quantity == unit_quantity")],
             raises=[("C07", "TimeFrameException", f"unit_quantity not in {tuple(qs)}" if len(qs) > 1 else f"unit_quantity != {qs[0]}")], modifies=["fresh"])
lemma("periods of years", "C07 C08", "year_lemma", {"q": "Int", "dt": "Dt", "other": "Dt"})

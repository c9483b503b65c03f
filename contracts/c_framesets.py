"""Frame sets: C08 (timed), C09 (tick counts)"""
FS = "estrade.graph.frame_set.FrameSet."
schema("Frame", period_start="Dt", period_end="Opt[Dt]")
LINK_MOD = ["self.frames", "list(self.frames)", "any Frame.previous_frame", "any Frame.next_frame", "fresh"]
contract(FS + "clean_old_frames", name="FrameSet.clean_old_frames", props="C08 C09", params={"self": "FrameSet"}, returns="None",
         requires=["self.max_frames_in_memory >= 1", "linked(self.frames)"],
         pool=["self.frames == old(self.frames)[_i:]", "linked(self.frames)", "_i <= len(old(self.frames))",
               "implies(_i > 0, len(self.frames) >= self.max_frames_in_memory)"],
         ensures=[("C08 C09", "only the newest frames are kept", "self.frames == last_of(old(self.frames), self.max_frames_in_memory)"),
                  ("C08 C09", "linked to each other in both directions, the oldest having no predecessor", "linked(self.frames)")],
         modifies=LINK_MOD)
CREATE_MOD = LINK_MOD + ["any BaseIndicatorValue.last_tick", "any BaseIndicatorValue.high_tick", "any BaseIndicatorValue.low_tick"]
INV = ["self.max_frames_in_memory >= 1", "linked(self.frames)", "all(self.indicators[r].ref == r for r in self.indicators)"]
contract("estrade.graph.frame_set.Frame.__init__", name="Frame.__init__ (as seen by the frame set)", props="C08 C09",
         params={"self": "new:Frame", "parent_frameset": "FrameSet", "first_tick": "Tick", "period_start": "Dt",
                 "period_end": "Dt|None", "previous_frame": "Frame|None"},
         requires=["all(parent_frameset.indicators[r].ref == r for r in parent_frameset.indicators)"], uses=["Frame._upsert_indicators"],
         ensures=[("C08 C09", "holds its first tick only", "self.first_tick is first_tick and self.last_tick is first_tick and self.nb_ticks == 1"),
                  ("C08 C09", "period, predecessor and frame set", "self.parent_frameset is parent_frameset and self.previous_frame is previous_frame and "
                   "self.next_frame is None and self.period_start is period_start and self.period_end is period_end")],
         modifies=CREATE_MOD[-3:] + ["fresh"])
contract(FS + "create_new_frame", name="FrameSet.create_new_frame", props="C08 C09", returns="None",
         params={"self": "FrameSet", "tick": "Tick", "period_start": "Dt", "period_end": "Dt|None"}, requires=INV,
         uses=["Frame.__init__ (as seen by the frame set)", "FrameSet.clean_old_frames"],
         ensures=[("C08 C09", "the new frame follows the others, of which the newest are kept",
                   "len(self.frames) >= 1 and self.frames == last_of(old(self.frames) + [self.frames[-1]], self.max_frames_in_memory)"),
                  ("C08 C09", "frames are linked to each other in both directions", "linked(self.frames)"),
                  ("C08 C09", "the new frame starts with the tick and the period given",
                   "fresh(self.frames[-1]) and starts_with(self.frames[-1], self, tick) and self.frames[-1].period_start is period_start and self.frames[-1].period_end is period_end")],
         modifies=CREATE_MOD)
# consequences of the C07 lemmas, the grid being the datetimes where a period starts
TF = "estrade.mixins.timeframe.TimeframeMixin."
contract(TF + "get_frame_start", name="TimeframeMixin.get_frame_start (as seen by the frame set)", assumed=True, params={"self": "FrameSet", "dt": "Dt"},
         returns="Dt", modifies=[],
         ensures=[("C08", "start of the period", "kind_of(result) == 0 and tzid(result) == tzid(dt) and grid(self, tzid(dt), wall(result)) and "
                   "wall(result) == grid_floor(self, tzid(dt), wall(dt)) and wall(result) <= wall(dt) and "
                   "forall_int(lambda w: implies(grid(self, tzid(dt), w) and w <= wall(dt), w <= wall(result)))")])
contract(TF + "get_frame_end", name="TimeframeMixin.get_frame_end (as seen by the frame set)", assumed=True, params={"self": "FrameSet", "frame_start": "Dt"},
         returns="Dt", modifies=[], requires=["grid(self, tzid(frame_start), wall(frame_start))"],
         ensures=[("C08", "next period start", "kind_of(result) == 0 and tzid(result) == tzid(frame_start) and grid(self, tzid(result), wall(result)) and "
                   "wall(result) > wall(frame_start) and forall_int(lambda w: implies(grid(self, tzid(result), w) and w > wall(frame_start), w >= wall(result)))")])
PERIODS = ["TimeframeMixin.get_frame_start (as seen by the frame set)", "TimeframeMixin.get_frame_end (as seen by the frame set)"]
TICK_DT = "kind_of(tick.datetime) == 0"
TIMED = INV + [TICK_DT, "contiguous(self, tzid(tick.datetime))", "len(self.frames) <= self.max_frames_in_memory"]
contract(FS + "is_frame_over_timed", name="FrameSet.is_frame_over_timed", props="C08", params={"self": "FrameSet", "tick": "Tick"}, returns="Bool",
         requires=[TICK_DT, "contiguous(self, tzid(tick.datetime))"],
         ensures=[("C08", "no frame yet, or the tick is past the newest period",
                   "result == (len(self.frames) == 0 or wall(tick.datetime) >= wall(self.frames[-1].period_end))")], modifies=[])
NEWEST = [("C08", "the newest frame is the period of the tick", "period_of(self, self.frames[-1], tick.datetime)"),
          ("C08", "each kept frame starts where the one before it ends", "contiguous(self, tzid(tick.datetime))"),
          ("C08", "frames are linked to each other in both directions", "linked(self.frames)"),
          ("C08", "at most the configured number of frames is kept", "1 <= len(self.frames) and len(self.frames) <= self.max_frames_in_memory"),
          ("C08", "frames of skipped periods hold the last known tick only", "skipped(self, old(self.frames), old(self.current.last_tick if self.current is not None else None))")]
contract(FS + "_create_new_frame_timed", name="FrameSet._create_new_frame_timed", props="C08", params={"self": "FrameSet", "tick": "Tick"}, returns="None",
         requires=TIMED + ["implies(len(self.frames) > 0, wall(self.frames[-1].period_end) <= wall(tick.datetime))"],
         unroll=False, uses=["FrameSet.create_new_frame"] + PERIODS,
         pool=["linked(self.frames)", "contiguous(self, tzid(tick.datetime))", "1 <= len(self.frames) and len(self.frames) <= self.max_frames_in_memory",
               "wall(self.frames[-1].period_end) <= grid_floor(self, tzid(tick.datetime), wall(tick.datetime))", "self.frames[-1].last_tick is old(self.frames[-1].last_tick)",
               "all(implies(fresh(f), starts_with(f, self, old(self.frames[-1].last_tick))) for f in self.frames)"],
         ensures=NEWEST + [("C08", "the newest frame starts with the tick", "starts_with(self.frames[-1], self, tick) and fresh(self.frames[-1])")], modifies=CREATE_MOD)

contract("estrade.graph.frame_set.Frame.on_new_tick", name="Frame.on_new_tick (as seen by the frame set)", props="C08 C09", returns="None",
         params={"self": "Frame", "tick": "Tick"},
         requires=["all(self.parent_frameset.indicators[r].ref == r for r in self.parent_frameset.indicators)"], uses=["Frame._upsert_indicators"],
         ensures=[("C08 C09", "the tick is counted once and is the last one", "self.nb_ticks == old(self.nb_ticks) + 1 and self.last_tick is tick")],
         modifies=["self.nb_ticks", "self.last_tick", "self.high_tick", "self.low_tick", "dict(self.indicators)"] + CREATE_MOD[-3:] + ["fresh"])
JOIN = "Frame.on_new_tick (as seen by the frame set)"
ORDER = ["implies(len(self.frames) > 0, self.frames[-1].parent_frameset is self and period_of(self, self.frames[-1], self.frames[-1].last_tick.datetime)"
         " and wall(self.frames[-1].last_tick.datetime) <= wall(tick.datetime))"]
STEP_MOD = CREATE_MOD + ["any Frame.nb_ticks", "any Frame.last_tick", "any Frame.high_tick", "any Frame.low_tick", "any Dict[Str,BaseIndicatorValue?]"]
for u in ("SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "MONTH", "YEAR"):
    contract(FS + "on_new_tick", name=f"FrameSet.on_new_tick ({u.lower()} frames)", props="C08", params={"self": "new:FrameSet", "tick": "Tick", "ghost_quantity": "Int"},
             returns="None", setup=("self", "FrameSet(unit=Unit.%s, unit_quantity=ghost_quantity)" % u),
             requires=TIMED + ORDER, uses=["FrameSet.is_frame_over_timed", "FrameSet._create_new_frame_timed", JOIN],
             ensures=NEWEST + [("C08", "the last tick of the newest frame is the tick", "self.frames[-1].last_tick is tick and self.frames[-1].parent_frameset is self"),
                               ("C08", "no frame that is not over is closed",
                                "implies(old(len(self.frames) > 0 and wall(tick.datetime) < wall(self.frames[-1].period_end)), self.frames == old(self.frames))")],
             modifies=STEP_MOD)

# ---------------------------------------------------------------- tick counts
COUNTED = INV + ["len(self.frames) <= self.max_frames_in_memory", "self.unit_quantity >= 1",
                 "all(f.nb_ticks <= self.unit_quantity for f in self.frames)", "implies(len(self.frames) > 0, self.frames[-1].parent_frameset is self)"]
KNOWN = ["implies(self.epic is not None, self.epic.last_tick is not None)"]
contract(FS + "is_frame_over_tick", name="FrameSet.is_frame_over_tick", props="C09", params={"self": "FrameSet", "tick": "Tick"}, returns="Bool", requires=KNOWN,
         ensures=[("C09", "unless the newest frame has room and the tick is of the last known day", "result == (not joins(self, tick))")], modifies=[])
contract(FS + "_create_new_frame_tick", name="FrameSet._create_new_frame_tick", props="C09", params={"self": "FrameSet", "tick": "Tick"}, returns="None",
         requires=INV, uses=["FrameSet.create_new_frame"],
         ensures=[("C09", "a frame of the tick follows the others, of which the newest are kept",
                   "len(self.frames) >= 1 and self.frames == last_of(old(self.frames) + [self.frames[-1]], self.max_frames_in_memory)"),
                  ("C09", "frames are linked to each other in both directions", "linked(self.frames)"),
                  ("C09", "the new frame starts with the tick, at its datetime",
                   "fresh(self.frames[-1]) and starts_with(self.frames[-1], self, tick) and self.frames[-1].period_start is tick.datetime and self.frames[-1].period_end is None")],
         modifies=CREATE_MOD)
contract(FS + "on_new_tick", name="FrameSet.on_new_tick (tick count)", props="C09", params={"self": "new:FrameSet", "tick": "Tick", "ghost_quantity": "Int"}, returns="None",
         setup=("self", "FrameSet(unit=Unit.TICK, unit_quantity=ghost_quantity)"),
         requires=COUNTED + KNOWN, uses=["FrameSet.is_frame_over_tick", "FrameSet._create_new_frame_tick", JOIN],
         ensures=[("C09", "joins the newest frame when it has room and the day is not over",
                   "implies(old(joins(self, tick)), self.frames == old(self.frames) and self.frames[-1].nb_ticks == old(self.frames[-1].nb_ticks if len(self.frames) > 0 else 0) + 1"
                   " and self.frames[-1].last_tick is tick)"),
                  ("C09", "otherwise starts a new frame at the tick",
                   "implies(not old(joins(self, tick)), len(self.frames) >= 1 and self.frames == last_of(old(self.frames) + [self.frames[-1]], self.max_frames_in_memory) and "
                   "fresh(self.frames[-1]) and starts_with(self.frames[-1], self, tick) and self.frames[-1].period_start is tick.datetime)"),
                  ("C09", "other frames are left alone", "all(implies(i + 1 < len(old(self.frames)), old(self.frames)[i].nb_ticks == old([f.nb_ticks for f in self.frames])[i]) for i in range(len(old(self.frames))))"),
                  ("C09", "no frame holds more than the configured number of ticks", "all(f.nb_ticks <= self.unit_quantity for f in self.frames)"),
                  ("C09", "frames are linked to each other in both directions", "linked(self.frames)"),
                  ("C09", "at most the configured number of frames is kept", "1 <= len(self.frames) and len(self.frames) <= self.max_frames_in_memory"),
                  ("C09", "the newest frame is of this frame set", "self.frames[-1].parent_frameset is self")],
         modifies=STEP_MOD)

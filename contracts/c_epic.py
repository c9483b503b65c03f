schema("Epic", _timezone="Str", open_time="Time", close_time="Time", trade_days="List[Int]", holidays="List[Date]",
       trade_provider="BaseTradeProvider", last_tick="Tick", frame_sets="Dict[Str,FrameSet]",
       strategies="Dict[Str,BaseStrategy]", market_open="Bool")
schema("BaseStrategy", epics="Dict[Str,Epic]", paused_until="Opt[Dt]", stopped="Bool", trades="List[Trade]")
schema("BaseTradeProvider", trades="List[Trade]", threads="List[ThreadStub]", default_transaction_status="Enum:TransactionStatus")
schema("FrameSet", epic="Epic?")
schema("ThreadStub", running="Bool", started="Bool")

E = "estrade.epic.Epic."
S = "estrade.strategy.BaseStrategy."

contract(E + "timezone.set", props="C02", params={"self": "Epic", "value": "Str"},
         raises=[("C02", "EpicException", "not known_tz(value)")],
         ensures=[("C02", "a known timezone is taken", "self.timezone == value and known_tz(self.timezone)")],
         exc_ensures=[("C02", "a refused timezone leaves the previous one", "self.timezone == old(self.timezone)")],
         modifies=["self.timezone"])
contract("estrade.mixins.timed.TimedMixin.datetime.set", props="C02", params={"self": "TimedMixin", "value": "Dt|None|Str|Date|Int"},
         raises=[("C02", "TimeException", "not is_dt(value) or not is_aware(value)")],
         ensures=[("C02", "same instant, with a timezone", "utc(self.datetime) == utc(value) and stored_dt(self.datetime)")],
         exc_ensures=[("C02", "a refused datetime leaves the previous one", "self.datetime == old(self.datetime)")],
         modifies=["self.datetime"])
contract("estrade.mixins.timed.TimedMixin.datetime_utc.get", props="C02", params={"self": "TimedMixin"},
         requires=["is_aware(self.datetime)"],
         ensures=[("C02", "UTC view denotes the same instant", "utc(result) == utc(self.datetime) and tzid(result) == 0 and wall(result) == utc(self.datetime)")],
         modifies=[])
contract(E + "is_market_open", props="C04", params={"self": "Epic"}, requires=["is_aware(self.last_tick.datetime)"], returns="Bool",
         ensures=[("C04", "opening hours, trading days and holidays", "result == market_is_open(self, self.last_tick.datetime)")],
         modifies=[])
contract(E + "__init__", props="C04 C25 C02",
         params={"self": "new:Epic", "timezone": "Str", "open_time": "Time", "close_time": "Time",
                 "trade_days": "List[Int]|None", "holidays": "List[Date]|None", "trade_provider": "BaseTradeProvider",
                 "ref": "Str|None"},
         raises=[("C02", "EpicException", "not known_tz(timezone)")],
         ensures=[
             ("C02", "timezone", "self.timezone == timezone"),
             ("C04", "hours", "self.open_time == open_time and self.close_time == close_time"),
             ("C04", "trading days default to Monday to Friday",
              "list_same(self.trade_days, [0, 1, 2, 3, 4] if trade_days is None or len(trade_days) == 0 else trade_days)"),
             ("C04", "holidays default to none",
              "list_same(self.holidays, [] if holidays is None else holidays)"),
             ("C04", "the market starts closed", "self.market_open == False"),
             ("C25", "reference", "implies(ref is not None and nonempty(ref), self.ref == ref)"),
             ("C25", "nothing registered", "len(self.frame_sets) == 0 and len(self.strategies) == 0"),
         ],
         modifies=["fresh"])
FS_MOD = []
contract("estrade.graph.frame_set.FrameSet.on_new_tick", name="FrameSet.on_new_tick (as seen by the instrument)", assumed=True,
         params={"self": "FrameSet", "tick": "Tick"}, modifies=[],
         emits=[("frame_set", "self", {"tick": "tick", "market_open": "self.epic.market_open"})])
for hook, ev in (("on_market_close", "market_close"), ("on_market_open", "market_open"),
                 ("on_every_tick_market_open", "in_market"), ("on_every_tick", "every_tick")):
    contract(S + hook, assumed=True, params={"self": "BaseStrategy", "epic": "Epic"}, modifies=[],
             emits=[(ev, "self", {"epic": "epic"})])
contract(S + "is_active", props="C06", params={"self": "BaseStrategy", "new_tick_date": "Dt"},
         requires=["is_aware(new_tick_date)", "self.paused_until is None or is_aware(self.paused_until)"],
         ensures=[("C06", "active unless stopped or paused until later", "result == old(active(self, new_tick_date))"),
                  ("C06", "a reached pause is cleared",
                   "self.paused_until == (old(self.paused_until) if old(self.stopped or (self.paused_until is not None and new_tick_date < self.paused_until)) else None)")],
         modifies=["self.paused_until"], returns="Bool")
contract(E + "_execute_strategies", name="Epic._execute_strategies", props="C06",
         params={"self": "Epic", "market_open_before_new_tick": "Bool"},
         requires=["epic_inv(self)", "is_aware(self.last_tick.datetime)"],
         uses=[S + h for h in ("on_market_close", "on_market_open", "on_every_tick_market_open", "on_every_tick", "is_active")],
         events=[("C06", "exactly the notifications that activity and market dictate", "strategy_events(self, self.last_tick.datetime, market_open_before_new_tick, self.market_open)",
                  ["market_close", "market_open", "in_market", "every_tick"])],
         pool=["later_untouched(self, _i)"],
         modifies=["any BaseStrategy.paused_until"])
contract(E + "_update_frame_sets", props="C05", optional=True, params={"self": "Epic", "new_tick": "Tick"}, requires=["epic_inv(self)"],
         uses=["estrade.graph.frame_set.FrameSet.on_new_tick"],
         events=[("C05", "every frame set gets the tick once, with the market state", "frame_set_events(self, new_tick, self.market_open)", ["frame_set", "trade"])],
         modifies=[], returns="None")
contract(E + "_update_open_trades", props="C05 C19", optional=True, params={"self": "Epic", "new_tick": "Tick"},
         uses=["estrade.trade.Trade.update_from_tick"],
         events=[("C05", "every open trade of the instrument is updated once", "trade_events(self, new_tick)", ["frame_set", "trade"])],
         modifies=["any Trade.current_close_value", "any Trade.max_result", "any Trade.min_result"], returns="None")
contract(E + "on_new_tick", name="Epic.on_new_tick", props="C03",
         params={"self": "Epic", "tick": "Tick"},
         requires=["epic_inv(self)", "stored_dt(self.last_tick.datetime)", "stored_dt(tick.datetime)"],
         uses=["estrade.graph.frame_set.FrameSet.on_new_tick", "estrade.trade.Trade.update_from_tick", E + "_execute_strategies",
               E + "is_market_open", E + "_update_frame_sets", E + "_update_open_trades"],
         raises=[("C03", "EpicException", "utc(tick.datetime) < utc(self.last_tick.datetime)")],
         exc_ensures=[("C03", "a refused tick leaves the last tick and the market state",
                       "self.last_tick is old(self.last_tick) and self.market_open == old(self.market_open)")],
         ensures=[
             ("C03", "the tick becomes the last tick", "self.last_tick is tick"),
             ("C02", "the instant of the tick is kept", "utc(tick.datetime) == old(utc(tick.datetime)) and is_aware(tick.datetime)"),
             ("C02", "the tick is in the instrument's timezone", "tick.datetime is old(tick.datetime.to(self.timezone))"),
             ("C04", "market state", "self.market_open == market_is_open(self, tick.datetime)"),
         ],
         events=[("C03 C05 C06", "every frame set, then every open trade of the instrument, then the strategies",
                  "epic_tick_events(self, tick, tick.datetime.to(self.timezone), self.market_open, market_is_open(self, tick.datetime.to(self.timezone)))",
                  ["frame_set", "trade", "market_close", "market_open", "in_market", "every_tick"])],
         modifies=["self.last_tick", "self.market_open", "tick.datetime", "any Trade.current_close_value", "any Trade.max_result",
                   "any Trade.min_result", "any BaseStrategy.paused_until"])

schema("Trade", epic="Epic", strategy="BaseStrategy?", direction="Enum:TradeDirection", open_quantity="Int",
       closes="List[TradeClose]", open_value="Real", current_close_value="Real", max_result="Real", min_result="Real")
schema("TradeClose", trade="Trade", close_value="Real", quantity="Int")
schema("TransactionMixin", status="Enum:TransactionStatus")
schema("TimedMixin", _datetime="Dt")
schema("RefMixin", _ref="Str")
schema("MetaMixin", meta="Any")

T = "estrade.trade.Trade."
C = "estrade.trade.TradeClose."
NEWTRADE = ["fresh"]

contract(T + "__init__", props="C16 C17 C18 C19 C25",
         params={"self": "new:Trade", "direction": "Enum:TradeDirection", "quantity": "Int", "open_value": "Real",
                 "open_datetime": "Dt", "epic": "Epic", "current_close_value": "Real|None", "strategy": "BaseStrategy|None",
                 "ref": "Str|None", "meta": "omit"},
         raises=[("C02", "TimeException", "not is_aware(open_datetime)")],
         ensures=[
             ("C16", "values read back", "self.direction == direction and self.open_value == open_value and self.epic is epic and self.strategy is strategy"),
             ("C25", "reference", "nonempty(self.ref) and implies(ref is not None and nonempty(ref), self.ref == ref)"),
             ("C16", "current close value", "self.current_close_value == (open_value if current_close_value is None else current_close_value)"),
             ("C16 C02", "datetime denotes the given instant", "utc(self.datetime) == utc(open_datetime) and is_aware(self.datetime)"),
             ("C17", "opens with the given quantity and no close", "self.open_quantity == quantity and len(self.closes) == 0 and self.opened_quantities == quantity"),
             ("C17", "quantity invariant", "implies(quantity > 0, trade_inv(self))"),
             ("C18", "result at creation", "self.result == trade_result(self)"),
             ("C19", "min and max start at the result", "self.max_result == self.result and self.min_result == self.result"),
         ],
         modifies=["fresh"])

contract(T + "closed_quantities.get", props="C17", params={"self": "Trade"},
         ensures=[("C17", "sum over the closes", "result == closed_q(self)")], modifies=[])
contract(T + "opened_quantities.get", props="C17", params={"self": "Trade"},
         ensures=[("C17", "what is left", "result == left_q(self)"),
                  ("C17", "closed plus open quantities equal the opening quantity",
                   "result + self.closed_quantities == self.open_quantity"),
                  ("C17", "never negative", "implies(trade_inv(self), result >= 0)")], modifies=[])
contract(T + "closed.get", props="C17 C24", params={"self": "Trade"},
         ensures=[("C17 C24", "closed exactly when nothing is left", "result == (left_q(self) == 0)")], modifies=[])
contract(T + "close", props="C17",
         params={"self": "Trade", "close_value": "Real", "datetime": "Dt", "quantity": "Int|None",
                 "ref": "Str|None", "meta": "omit"},
         requires=["trade_inv(self)", "implies(quantity is not None, quantity > 0)"],
         raises=[("C02", "TimeException", "not is_aware(datetime)")],
         exc_ensures=[("C17", "a refused close closes nothing", "list_eq(self.closes, old(self.closes))")],
         ensures=[
             ("C17", "quantity invariant kept", "trade_inv(self)"),
             ("C17", "exactly one close is added, earlier ones stay",
              "len(self.closes) == len(old(self.closes)) + 1 and self.closes[-1] is result and fresh(result) and "
              "all(self.closes[i] is old(self.closes)[i] for i in range(len(old(self.closes))))"),
             ("C17", "closes what is asked, at most what is left",
              "result.quantity == (old(left_q(self)) if quantity is None else min(quantity, old(left_q(self))))"),
             ("C17", "what is left decreases by it", "self.opened_quantities == old(left_q(self)) - result.quantity"),
             ("C17", "closed exactly when nothing is left", "self.closed == (self.opened_quantities == 0)"),
             ("C16", "close carries the price, trade and datetime",
              "result.close_value == close_value and result.trade is self and utc(result.datetime) == utc(datetime)"),
         ],
         modifies=["list(self.closes)", "fresh"], returns="TradeClose")
contract(C + "result_avg.get", props="C18", params={"self": "TradeClose"},
         ensures=[("C18", "signed two-decimal difference",
                   "result == round(signed_diff(self.trade.direction, self.trade.open_value, self.close_value), 2)")], modifies=[])
contract(C + "result.get", props="C18", params={"self": "TradeClose"},
         ensures=[("C18", "average times quantity", "result == round(self.result_avg * self.quantity, 2)"),
                  ("C18", "spelled out", "result == close_result(self)")], modifies=[])
contract(T + "opened_result_avg.get", props="C18", params={"self": "Trade"},
         ensures=[("C18", "signed two-decimal difference",
                   "result == (0 if is_closed(self) else round(signed_diff(self.direction, self.open_value, self.current_close_value), 2))")],
         modifies=[])
contract(T + "opened_result.get", props="C18", params={"self": "Trade"},
         ensures=[("C18", "difference times the open quantity", "result == open_part(self)")], modifies=[])
contract(T + "closed_result.get", props="C18", params={"self": "Trade"},
         ensures=[("C18", "sum of the results of the closes", "result == sum(close_result(c) for c in self.closes)")], modifies=[])
contract(T + "closed_result_avg.get", props="C18", params={"self": "Trade"},
         requires=["all(c.quantity > 0 for c in self.closes)"],
         ensures=[("C18", "sum of the results divided by the closed quantity, zero without closes",
                   "result == (0 if len(self.closes) == 0 else round(sum(close_result(c) for c in self.closes) / closed_q(self), 2))")],
         modifies=[])
contract(T + "result.get", props="C18", params={"self": "Trade"},
         ensures=[("C18", "closes plus open part", "result == trade_result(self)")], modifies=[], returns="=trade_result(self)")
contract(T + "result_avg.get", props="C18", params={"self": "Trade"}, requires=["self.open_quantity > 0"],
         ensures=[("C18", "result divided by the quantity", "result == round(trade_result(self) / self.open_quantity, 2)")], modifies=[])
contract(T + "update", props="C19 C16", params={"self": "Trade", "current_close_value": "Real"},
         ensures=[
             ("C16", "current close value", "implies(not old(is_closed(self)), self.current_close_value == current_close_value)"),
             ("C19", "maximum", "implies(not old(is_closed(self)) and old(self.min_result <= self.max_result), self.max_result == max(old(self.max_result), trade_result(self)))"),
             ("C19", "minimum", "implies(not old(is_closed(self)) and old(self.min_result <= self.max_result), self.min_result == min(old(self.min_result), trade_result(self)))"),
             ("C19", "result lies between", "implies(not old(is_closed(self)) and old(self.min_result <= self.max_result), self.min_result <= self.result and self.result <= self.max_result)"),
             ("C19", "invariant", "implies(old(self.min_result <= self.max_result), self.min_result <= self.max_result)"),
             ("C19", "a closed trade does not change",
              "implies(old(is_closed(self)), self.current_close_value == old(self.current_close_value) and "
              "self.max_result == old(self.max_result) and self.min_result == old(self.min_result))"),
         ],
         modifies=["self.current_close_value", "self.max_result", "self.min_result"], returns="None")
contract(T + "update_from_tick", props="C16 C19", params={"self": "Trade", "tick": "Tick"},
         uses=[T + "update"],
         ensures=[
             ("C16", "market updates use the closing side",
              "implies(not old(is_closed(self)), self.current_close_value == side(self.direction, tick))"),
             ("C19", "maximum", "implies(not old(is_closed(self)) and old(self.min_result <= self.max_result), self.max_result == max(old(self.max_result), trade_result(self)))"),
             ("C19", "minimum", "implies(not old(is_closed(self)) and old(self.min_result <= self.max_result), self.min_result == min(old(self.min_result), trade_result(self)))"),
             ("C19", "invariant", "implies(old(self.min_result <= self.max_result), self.min_result <= self.max_result)"),
             ("C19 C16", "a closed trade does not change",
              "implies(old(is_closed(self)), self.current_close_value == old(self.current_close_value) and "
              "self.max_result == old(self.max_result) and self.min_result == old(self.min_result))"),
         ],
         emits=[("trade", "self", {"tick": "tick"})],
         modifies=["self.current_close_value", "self.max_result", "self.min_result"], returns="None")
contract(T + "update_from_epic", props="C16", params={"self": "Trade"},
         requires=["self.epic.last_tick is not None"],
         uses=[T + "update_from_tick"],
         ensures=[("C16", "the last tick of the trade's instrument",
                   "implies(not old(is_closed(self)), self.current_close_value == side(self.direction, self.epic.last_tick))")],
         modifies=["self.current_close_value", "self.max_result", "self.min_result"])
contract(T + "open_from_tick", props="C16",
         params={"tick": "Tick", "epic": "Epic", "direction": "Enum:TradeDirection|Int|None|Str", "quantity": "Int",
                 "strategy": "BaseStrategy|None", "ref": "Str|None"},
         raises=[("C16", "TradeException", "direction != TradeDirection.BUY and direction != TradeDirection.SELL")],
         ensures=[
             ("C16", "buys at the ask and sells at the bid", "result.open_value == side_in(direction, tick)"),
             ("C16", "other side as current close value", "result.current_close_value == side(direction, tick)"),
             ("C16", "datetime of the tick", "utc(result.datetime) == utc(tick.datetime)"),
             ("C16", "instrument, strategy, direction and quantity",
              "result.epic is epic and result.strategy is strategy and result.direction == direction and result.open_quantity == quantity"),
             ("C16 C17", "a new trade", "fresh(result) and len(result.closes) == 0"),
         ],
         requires=["is_aware(tick.datetime)"],
         modifies=["fresh"], returns="Trade")
contract(T + "open_from_epic", props="C16",
         params={"epic": "Epic", "direction": "Enum:TradeDirection", "quantity": "Int",
                 "strategy": "BaseStrategy|None", "ref": "Str|None"},
         requires=["epic.last_tick is not None", "is_aware(epic.last_tick.datetime)"],
         uses=[T + "open_from_tick"],
         ensures=[
             ("C16", "buys at the ask and sells at the bid of the last tick", "result.open_value == side_in(direction, epic.last_tick)"),
             ("C16", "other side as current close value", "result.current_close_value == side(direction, epic.last_tick)"),
             ("C16", "datetime of the last tick", "utc(result.datetime) == utc(epic.last_tick.datetime)"),
             ("C16", "instrument, strategy, direction and quantity",
              "result.epic is epic and result.strategy is strategy and result.direction == direction and result.open_quantity == quantity"),
             ("C16", "a new trade", "fresh(result) and len(result.closes) == 0"),
         ],
         modifies=["fresh"], returns="Trade")
CLOSE_ENS = [
    ("C16 C24", "the tick's price on the closing side and its datetime",
     "result.close_value == side(self.direction, {t}) and utc(result.datetime) == utc({t}.datetime) and result.trade is self"),
    ("C17 C24", "closes what is asked, at most what is left",
     "result.quantity == (old(left_q(self)) if quantity is None else min(quantity, old(left_q(self))))"),
    ("C17 C24", "exactly one close is added, earlier ones stay",
     "len(self.closes) == len(old(self.closes)) + 1 and self.closes[-1] is result and fresh(result) and "
     "all(self.closes[i] is old(self.closes)[i] for i in range(len(old(self.closes))))"),
    ("C17 C24", "what is left decreases by it", "left_q(self) == old(left_q(self)) - result.quantity"),
    ("C17", "quantity invariant kept", "trade_inv(self)"),
]
CLOSE_MOD = ["self.current_close_value", "self.max_result", "self.min_result", "list(self.closes)", "fresh"]
contract(T + "close_from_tick", props="C16 C17",
         params={"self": "Trade", "tick": "Tick", "quantity": "Int|None", "ref": "Str|None"},
         requires=["trade_inv(self)", "not is_closed(self)", "implies(quantity is not None, quantity > 0)",
                   "is_aware(tick.datetime)"],
         uses=[T + "update_from_tick", T + "close"],
         ensures=[(p, l, t.format(t="tick")) for p, l, t in CLOSE_ENS],
         modifies=CLOSE_MOD, returns="TradeClose")
contract(T + "close_from_epic", props="C16 C17",
         params={"self": "Trade", "quantity": "Int|None", "ref": "Str|None"},
         requires=["trade_inv(self)", "not is_closed(self)", "implies(quantity is not None, quantity > 0)",
                   "self.epic.last_tick is not None", "is_aware(self.epic.last_tick.datetime)"],
         uses=[T + "close_from_tick"],
         ensures=[(p, l, t.format(t="self.epic.last_tick")) for p, l, t in CLOSE_ENS],
         modifies=CLOSE_MOD, returns="TradeClose")

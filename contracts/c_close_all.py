"""C24: closing everything a strategy has open.  g_left stands for left_q(trade) and g_closes for len(trade.closes): the contracts named
(abstract) are those proved on the real bodies (same clauses, below), with the sum over the closes replaced by the field it equals."""
E = "estrade.epic.Epic."
T = "estrade.trade.Trade."
schema("Trade", g_left="Int", g_closes="Int", g_pos="Int")
contract(T + "closed.get", name="Trade.closed.get (abstract)", assumed=True, params={"self": "Trade"}, returns="=self.g_left == 0", modifies=[],
         ensures=[("C24", "closed exactly when nothing is left", "result == (self.g_left == 0)")])
contract(T + "opened_quantities.get", name="Trade.opened_quantities.get (abstract)", assumed=True, params={"self": "Trade"}, returns="=self.g_left", modifies=[],
         ensures=[("C24", "what is left", "result == self.g_left")])
TICKED = "{e}.last_tick is not None and is_aware({e}.last_tick.datetime)"
CLOSED_ENS = [
    ("C24", "a close of this trade at the last tick of its instrument", "close_of(trade, result, old({left}) if quantity is None else min(quantity, old({left}))) and fresh(result)"),
    ("C24", "what is left decreases by it", "{left} == old({left}) - result.quantity"),
    ("C24", "one close is added", "{closes} == old({closes}) + 1"),
]
contract(E + "close_trade", name="Epic.close_trade (abstract, proof)", props="C24", params={"self": "Epic", "trade": "Trade", "quantity": "Int|None"},
         ghost={"other": "Trade"}, variants=[{"quantity": "omit"}, {"quantity": "Int"}],
         requires=["trade_inv(trade)", "left_q(trade) > 0", TICKED.format(e="trade.epic"), "quantity is None or quantity > 0",
                   "trade_inv(other)", "other is not trade", "other.closes is not trade.closes"],
         uses=[T + "close_from_epic", "trade provider: close_trade"],
         ensures=[(p, l, t.format(left="left_q(trade)", closes="len(trade.closes)")) for p, l, t in CLOSED_ENS] +
                 [("C24", "still a valid trade", "trade_inv(trade)"),
                  ("C24", "other trades are untouched", "left_q(other) == old(left_q(other)) and list_eq(other.closes, old(other.closes)) and trade_inv(other)")],
         modifies=["trade.current_close_value", "trade.max_result", "trade.min_result", "list(trade.closes)",
                   "any TransactionMixin.status", "any List[ThreadStub]", "fresh"])
contract(E + "close_trade", name="Epic.close_trade (abstract)", assumed=True, params={"self": "Epic", "trade": "Trade", "quantity": "Int|None"},
         requires=["trade.g_left > 0", TICKED.format(e="trade.epic"), "quantity is None or quantity > 0"],
         ensures=[(p, l, t.format(left="trade.g_left", closes="trade.g_closes")) for p, l, t in CLOSED_ENS],
         emits=[("closed", "self.trade_provider", {"trade": "trade"})], returns="TradeClose",
         modifies=["trade.g_left", "trade.g_closes", "trade.current_close_value", "trade.max_result", "trade.min_result",
                   "any TransactionMixin.status", "any List[ThreadStub]", "fresh"])
contract("estrade.strategy.BaseStrategy.close_opened_trades", props="C24", params={"self": "BaseStrategy", "ref": "omit"},
         ghost={"other": "Trade"},
         requires=["all(self.trades[j].g_pos == j for j in range(len(self.trades)))",
                   "all(t.g_left >= 0 and t.epic.last_tick is not None and is_aware(t.epic.last_tick.datetime) for t in self.trades)",
                   "all(implies(t is other, t.g_left == 0) for t in self.trades)"],
         uses=["Epic.close_trade (abstract)", "Trade.closed.get (abstract)", "Trade.opened_quantities.get (abstract)"],
         ensures=[
             ("C24", "every trade is closed", "all(t.g_left == 0 for t in self.trades)"),
             ("C24", "each open trade got exactly one close, the closed ones none",
              "all(t.g_closes == old(t.g_closes) + (1 if old(t.g_left) > 0 else 0) for t in self.trades)"),
             ("C24", "trades that were closed, and those of other strategies, are untouched",
              "other.g_left == old(other.g_left) and other.g_closes == old(other.g_closes) and other.current_close_value == old(other.current_close_value) and "
              "other.max_result == old(other.max_result) and other.min_result == old(other.min_result)"),
         ],
         events=[("C24", "one request to the provider of each open trade's instrument", "closing_events(self)", ["closed"])],
         pool=["later_left(self, _i)", "done_closed(self, _i)",
               "other.g_left == old(other.g_left) and other.g_closes == old(other.g_closes)",
               "other.current_close_value == old(other.current_close_value) and other.max_result == old(other.max_result) and other.min_result == old(other.min_result)"],
         modifies=["any Trade.g_left", "any Trade.g_closes", "any Trade.current_close_value", "any Trade.max_result", "any Trade.min_result",
                   "any TransactionMixin.status", "any List[ThreadStub]", "fresh"])

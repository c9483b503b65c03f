"""C21: netting in backtests"""
schema("Trade", g_requests="Int")
T = "estrade.trade.Trade."
B = "estrade.trade_provider.TradeProviderBacktests."
P = "estrade.trade_provider.BaseTradeProvider."
TICKED = "{e}.last_tick is not None and is_aware({e}.last_tick.datetime)"
NET_ENS = [
    ("C21", "a close of this trade at the last tick of its instrument", "close_of(self, result, min(quantity, old({left}))) and fresh(result)"),
    ("C21", "what is left decreases by it", "{left} == old({left}) - result.quantity"),
    ("C21", "one close is added", "{closes} == old({closes}) + 1"),
]
CLOSE_MOD = ["self.current_close_value", "self.max_result", "self.min_result", "fresh"]
contract(T + "close_from_epic", name="Trade.close_from_epic (abstract, proof)", props="C21", params={"self": "Trade", "quantity": "Int"}, ghost={"other": "Trade"},
         requires=["trade_inv(self)", "left_q(self) > 0", TICKED.format(e="self.epic"), "quantity > 0", "trade_inv(other)", "other is not self", "other.closes is not self.closes"],
         uses=[T + "update", T + "close"],
         ensures=[(p, l, t.format(left="left_q(self)", closes="len(self.closes)")) for p, l, t in NET_ENS] +
                 [("C21", "still a valid trade", "trade_inv(self)"),
                  ("C21", "other trades are untouched", "left_q(other) == old(left_q(other)) and list_eq(other.closes, old(other.closes)) and trade_inv(other)")],
         modifies=CLOSE_MOD + ["list(self.closes)"])
contract(T + "close_from_epic", name="Trade.close_from_epic (abstract)", assumed=True, params={"self": "Trade", "quantity": "Int"}, returns="TradeClose",
         requires=["self.g_left > 0", TICKED.format(e="self.epic"), "quantity > 0"],
         ensures=[(p, l, t.format(left="self.g_left", closes="self.g_closes")) for p, l, t in NET_ENS], modifies=CLOSE_MOD + ["self.g_left", "self.g_closes"])
contract(P + "close_trade", name="trade provider: close_trade (netting)", assumed=True, params={"self": "BaseTradeProvider", "trade_close": "TradeClose"},
         modifies=["any List[ThreadStub]", "trade_close.trade.g_requests", "fresh"], returns="None",
         ensures=[("C21", "one request", "trade_close.trade.g_requests == old(trade_close.trade.g_requests) + 1")])
NET_MOD = ["any Trade.g_left", "any Trade.g_closes", "any Trade.g_requests", "trade.open_quantity", "any Trade.current_close_value", "any Trade.max_result", "any Trade.min_result",
           "any List[ThreadStub]", "any List[Trade]", "fresh"]
contract(B + "open_trade", name="TradeProviderBacktests.open_trade", props="C21", params={"self": "TradeProviderBacktests", "trade": "Trade"}, ghost={"other": "Trade", "j": "Int"},
         returns="None",
         requires=["0 <= j and j < len(self.trades)", "all(self.trades[j].g_pos == j for j in range(len(self.trades)))", "all(t is not trade for t in self.trades)", "trade.open_quantity > 0",
                   "all(t.g_left >= 0 and t.epic.last_tick is not None and is_aware(t.epic.last_tick.datetime) for t in self.trades)",
                   "all(implies(t is other, not nets(t, trade)) for t in self.trades)", "other is not trade",
                   "trade.strategy is None or trade.strategy.trades is not self.trades"],
         uses=["Trade.close_from_epic (abstract)", "Trade.closed.get (abstract)", "Trade.opened_quantities.get (abstract)", "trade provider: close_trade (netting)",
               "BaseTradeProvider.open_trade"],
         ensures=[
             ("C21", "each trade is closed by its share of the new quantity, newest first",
              "old(self.trades)[j].g_left == old(self.trades[j].g_left - share(self, trade, j))"),
             ("C21", "with one close and one request each",
              "old(self.trades)[j].g_closes == old(self.trades[j].g_closes + (1 if share(self, trade, j) > 0 else 0)) and "
              "old(self.trades)[j].g_requests == old(self.trades[j].g_requests + (1 if share(self, trade, j) > 0 else 0))"),
             ("C21", "the new trade is left with what was not absorbed", "trade.open_quantity == max(0, old(trade.open_quantity - open_before(self, trade, -1)))"),
             ("C21", "registered with what remains, not at all when nothing remains",
              "list_eq(self.trades, old(self.trades) + [trade]) if trade.open_quantity > 0 else list_eq(self.trades, old(self.trades))"),
             ("C21", "other trades are untouched",
              "other.g_left == old(other.g_left) and other.g_closes == old(other.g_closes) and other.g_requests == old(other.g_requests) and other.current_close_value == old(other.current_close_value) and "
              "other.max_result == old(other.max_result) and other.min_result == old(other.min_result)"),
         ],
         pool=["net_later(self, _i)", "net_done(self, trade, _i)", "trade.open_quantity == old(trade.open_quantity - open_before(self, trade, len(self.trades) - 1 - _i))",
               "trade.open_quantity > 0",
               "other.g_left == old(other.g_left) and other.g_closes == old(other.g_closes) and other.g_requests == old(other.g_requests)",
               "other.current_close_value == old(other.current_close_value) and other.max_result == old(other.max_result) and other.min_result == old(other.min_result)"],
         modifies=NET_MOD)

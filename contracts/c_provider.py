P = "estrade.trade_provider.BaseTradeProvider."
B = "estrade.trade_provider.TradeProviderBacktests."
T = "estrade.trade.Trade."
E = "estrade.epic.Epic."

contract(P + "__init__", props="C20 C25", params={"self": "new:BaseTradeProvider", "ref": "Str|None"},
         ensures=[("C20", "nothing registered and nothing running", "len(self.trades) == 0 and len(self.threads) == 0"),
                  ("C25", "reference", "implies(ref is not None and nonempty(ref), self.ref == ref)")],
         modifies=["fresh"])
contract(P + "open_trade", name="BaseTradeProvider.open_trade", props="C20",
         params={"self": "BaseTradeProvider", "trade": "Trade"},
         requires=["trade.strategy is None or trade.strategy.trades is not self.trades"],
         ensures=[("C20", "registered once, last", "list_eq(self.trades, old(self.trades) + [trade])"),
                  ("C20", "registered once, last, with its strategy",
                   "trade.strategy is None or list_eq(trade.strategy.trades, old(trade.strategy.trades) + [trade])"),
                  ("C20", "one more request thread, started", "added_thread(self.threads, old(self.threads))")],
         events=[("C20 C21", "exactly one open request", "request_events(self, 'open_trade_request', trade)", ["thread_start"])],
         modifies=["list(self.trades)", "list(trade.strategy.trades)", "list(self.threads)", "fresh"], returns="None")
contract(P + "close_trade", name="BaseTradeProvider.close_trade", props="C20",
         params={"self": "BaseTradeProvider", "trade_close": "TradeClose"},
         ensures=[("C20", "one more request thread, started", "added_thread(self.threads, old(self.threads))")],
         events=[("C20 C21", "exactly one close request", "request_events(self, 'close_trade_request', trade_close)", ["thread_start"])],
         modifies=["list(self.threads)", "fresh"], returns="None")
contract(P + "is_alive.get", props="C20", params={"self": "BaseTradeProvider"},
         ensures=[("C20", "alive exactly while a started request is still running", "result == any(t.running for t in self.threads)")],
         modifies=[])
contract(P + "opened_trades.get", props="C20", params={"self": "BaseTradeProvider"},
         ensures=[("C20", "the registered trades with open quantities, newest first",
                   "result == [t for t in reversed(self.trades) if not is_closed(t)]")],
         modifies=["fresh"], returns="List[Trade]")
contract(B + "open_trade_request", props="C21", params={"self": "TradeProviderBacktests", "trade": "Trade"},
         ensures=[("C21", "confirmed", "trade.status == TransactionStatus.CONFIRMED and result is trade")],
         modifies=["trade.status"], returns="Trade")
contract(B + "close_trade_request", props="C21", params={"self": "TradeProviderBacktests", "trade_close": "TradeClose"},
         ensures=[("C21", "confirmed", "trade_close.status == TransactionStatus.CONFIRMED and result is trade_close")],
         modifies=["trade_close.status"], returns="TradeClose")

# ---------------------------------------------------------------- through an instrument or a strategy
TICKED = "{e}.last_tick is not None and is_aware({e}.last_tick.datetime)"
PROVIDER_MOD = ["any Trade.open_quantity", "any Trade.current_close_value", "any Trade.max_result", "any Trade.min_result",
                "any TransactionMixin.status", "any List[Trade]", "any List[TradeClose]", "any List[ThreadStub]", "fresh"]
contract(P + "open_trade", name="trade provider: open_trade", assumed=True,
         params={"self": "BaseTradeProvider", "trade": "Trade"}, modifies=PROVIDER_MOD,
         emits=[("provider_open", "self", {"trade": "trade"})])
contract(P + "close_trade", name="trade provider: close_trade", assumed=True,
         params={"self": "BaseTradeProvider", "trade_close": "TradeClose"},
         modifies=["any TransactionMixin.status", "any List[ThreadStub]", "fresh"],
         emits=[("provider_close", "self", {"trade_close": "trade_close"})])
OPEN_ENS = [
    ("C16", "buys at the ask and sells at the bid of the last tick", "result.open_value == old(side_in(direction, {e}.last_tick))"),
    ("C16", "datetime of the last tick", "utc(result.datetime) == old(utc({e}.last_tick.datetime))"),
    ("C16", "direction and instrument", "result.direction == direction and result.epic is {e}"),
    ("C16", "a new trade", "fresh(result)"),
]
contract(E + "open_trade", name="Epic.open_trade", props="C16 C20",
         params={"self": "Epic", "direction": "Enum:TradeDirection", "quantity": "Int", "strategy": "BaseStrategy|None", "ref": "Str|None"},
         requires=[TICKED.format(e="self")],
         uses=[T + "open_from_epic", "trade provider: open_trade"],
         ensures=[(p, l, t.format(e="self")) for p, l, t in OPEN_ENS] + [("C16", "strategy", "result.strategy is strategy")],
         events=[("C16 C20", "handed once to the instrument's provider", "provider_open_events(self, result)", ["provider_open", "provider_close"])],
         modifies=PROVIDER_MOD, returns="Trade")
contract("estrade.strategy.BaseStrategy.open_trade", props="C16 C20",
         params={"self": "BaseStrategy", "epic": "Epic", "direction": "Enum:TradeDirection", "quantity": "Int", "ref": "Str|None"},
         requires=[TICKED.format(e="epic")],
         uses=["Epic.open_trade"],
         ensures=[(p, l, t.format(e="epic")) for p, l, t in OPEN_ENS] + [("C16", "strategy", "result.strategy is self")],
         events=[("C16 C20", "opened once on the instrument", "provider_open_events(epic, result)", ["provider_open", "provider_close"])],
         modifies=PROVIDER_MOD, returns="Trade")
CLOSE_REQ = ["trade_inv(trade)", "not is_closed(trade)", TICKED.format(e="trade.epic")]
CLOSE_ENS = [
    ("C16 C24", "the price on the closing side of the last tick of the trade's instrument, and its datetime",
     "result.close_value == side(trade.direction, trade.epic.last_tick) and utc(result.datetime) == utc(trade.epic.last_tick.datetime) and result.trade is trade"),
    ("C17 C24", "closes what is asked, at most what is left",
     "result.quantity == (old(left_q(trade)) if quantity is None else min(quantity, old(left_q(trade))))"),
    ("C17 C24", "exactly one close is added, earlier ones stay",
     "len(trade.closes) == len(old(trade.closes)) + 1 and trade.closes[-1] is result and fresh(result) and "
     "all(trade.closes[i] is old(trade.closes)[i] for i in range(len(old(trade.closes))))"),
    ("C17 C24", "what is left decreases by it", "left_q(trade) == old(left_q(trade)) - result.quantity"),
    ("C17", "quantity invariant kept", "trade_inv(trade)"),
]
CLOSE_MOD = ["trade.current_close_value", "trade.max_result", "trade.min_result", "list(trade.closes)",
             "any TransactionMixin.status", "any List[ThreadStub]", "fresh"]
contract(E + "close_trade", name="Epic.close_trade", props="C16 C17 C24 C20",
         params={"self": "Epic", "trade": "Trade", "quantity": "Int|None", "ref": "Str|None"},
         variants=[{}, {"quantity": "omit", "ref": "omit"}],
         requires=CLOSE_REQ + ["quantity is None or quantity > 0"],
         uses=[T + "close_from_epic", "trade provider: close_trade"], ensures=CLOSE_ENS,
         events=[("C24 C20", "handed once to the instrument's provider", "provider_close_events(self, result)", ["provider_open", "provider_close"])],
         emits=[("closed", "self.trade_provider", {"trade": "trade"})],
         modifies=CLOSE_MOD, returns="TradeClose")
contract("estrade.strategy.BaseStrategy.close_trade", name="BaseStrategy.close_trade", props="C16 C17 C24 C20",
         params={"self": "BaseStrategy", "trade": "Trade", "quantity": "Int|None", "ref": "Str|None"},
         variants=[{}, {"quantity": "omit", "ref": "omit"}],
         requires=CLOSE_REQ + ["quantity is None or quantity > 0"],
         uses=["Epic.close_trade"], ensures=CLOSE_ENS,
         events=[("C24 C20", "handed once to the provider of the trade's instrument", "closed_events(trade.epic, trade)", ["provider_open", "provider_close", "closed"])],
         modifies=CLOSE_MOD, returns="TradeClose")


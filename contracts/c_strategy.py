# ---------------------------------------------------------------- querying and summarising a strategy's trades
TR = "estrade.trade.Trade.result.get"    # what the result of one trade is, is C18
model(TR, "Real", ["Trade.open_quantity", "Trade.closes", "Trade.direction", "Trade.current_close_value", "Trade.open_value",
                   "TradeClose.trade", "TradeClose.close_value", "TradeClose.quantity", "List[TradeClose]"])
S = "estrade.strategy.BaseStrategy."

contract(S + "result", props="C23", params={"self": "BaseStrategy", "trades": "List[Trade]|None"},
         variants=[{}, {"trades": "omit"}], models=[TR],
         ensures=[("C23", "two-decimal sum over the given trades, its own trades when no list is given",
                   "result == round(sum(t.result for t in (self.trades if trades is None else trades)), 2)"),
                  ("C23", "zero for an empty list", "implies(trades is not None and len(trades) == 0, result == 0)")],
         modifies=[], returns="Real")
contract(S + "profit_factor", props="C23", params={"self": "BaseStrategy", "trades": "List[Trade]|None"},
         variants=[{}, {"trades": "omit"}], models=[TR],
         ensures=[("C23", "gains when there is no loss, otherwise the ratio, losses under one counting as one",
                   "result == profit_factor(gains(self.trades if trades is None else trades), losses(self.trades if trades is None else trades))"),
                  ("C23", "zero for an empty list", "implies(trades is not None and len(trades) == 0, result == 0)"),
                  ("C23", "never negative", "result >= 0")],
         modifies=[], returns="Real")
for meth, text in (("result", "result == round(sum(t.result for t in trades_all), 2)"),
                   ("profit_factor", "result == profit_factor(gains(trades_all), losses(trades_all))")):
    contract(S + meth, name=f"BaseStrategy.{meth} (of a generator)", props="C23",
             params={"self": "BaseStrategy", "trades": "gen:List[Trade]"}, models=[TR],
             ensures=[("C23", "computed over the given trades", text)], modifies=[])
EPICS = {"epics": "List[Epic]|None"}
contract(S + "get_trades", name="BaseStrategy.get_trades", props="C22",
         params={"self": "BaseStrategy", **EPICS, "open_only": "Bool", "only_after": "omit"},
         variants=[{}, {"open_only": "lit:False"}, {"epics": "omit"}, {"open_only": "omit", "only_after": "None"}],
         ensures=[("C22", "the matching trades, newest first", "result == matching(self, epics, open_only)")],
         modifies=["fresh"], returns="List[Trade]")
M = "matching(self, epics, open_only)"
for n, (label, text) in enumerate((
        ("a prefix of the matching trades", f"len(result) <= len({M})"),
        ("ends before a matching trade opened before the datetime",
         f"len(result) == len({M}) or earlier({M}[len(result)].datetime, only_after)"),
        ("the first one", "all(not earlier(t.datetime, only_after) for t in result)"),
        ("up to there, the matching trades, newest first",
         f"all(implies(i < len({M}), result[i] is {M}[i]) for i in range(len(result)))"))):
    contract(S + "get_trades", name=f"BaseStrategy.get_trades (only after, {n + 1})", props="C22",
             params={"self": "BaseStrategy", **EPICS, "open_only": "Bool", "only_after": "Dt"},
             requires=["is_aware(only_after)", "all(is_aware(t.datetime) for t in self.trades)"],
             ensures=[("C22", label, text)], modifies=["fresh"], returns="List[Trade]")

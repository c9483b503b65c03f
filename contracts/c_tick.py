NUM = "Int|Real"
NAN = "Str|None|Dt|Any"

contract(
    "estrade.tick.Tick.__init__", props="C01 C02",
    params={"self": "new:Tick", "datetime": "Dt|None|Str|Date", "bid": NUM + "|" + NAN, "ask": NUM + "|" + NAN, "meta": "omit"},
    raises=[("C02", "TimeException", "not is_dt(datetime) or not is_aware(datetime)"),
            ("C01", "TickException",
             "is_dt(datetime) and is_aware(datetime) and (not is_number(bid) or not is_number(ask) or bid > ask)")],
    ensures=[("C01", "bid reads back", "self.bid == bid"),
             ("C01", "ask reads back", "self.ask == ask"),
             ("C01", "bid is not above ask", "self.bid <= self.ask"),
             ("C02", "datetime denotes the given instant", "utc(self.datetime) == utc(datetime) and stored_dt(self.datetime)")],
    modifies=["self.bid", "self.ask", "self.datetime", "self.meta", "fresh"],
)
contract(
    "estrade.tick.Tick.ask.set", props="C01", params={"self": "Tick", "value": NUM + "|" + NAN},
    raises=[("C01", "TickException", "not is_number(value)")],
    ensures=[("C01", "ask reads back as given", "self.ask == value")],
    modifies=["self.ask"],
    exc_ensures=[("C01", "a refused ask leaves the old one", "self.ask == old(self.ask)")],
)
contract(
    "estrade.tick.Tick.bid.set", props="C01", params={"self": "Tick", "value": NUM + "|" + NAN},
    raises=[("C01", "TickException", "not is_number(value)")],
    ensures=[("C01", "bid reads back as given", "self.bid == value")],
    modifies=["self.bid"],
    exc_ensures=[("C01", "a refused bid leaves the old one", "self.bid == old(self.bid)")],
)
contract("estrade.tick.Tick.spread.get", props="C01", params={"self": "Tick"},
         ensures=[("C01", "spread is the two-decimal difference of ask and bid", "result == round(self.ask - self.bid, 2)")],
         modifies=[])
contract("estrade.tick.Tick.value.get", props="C01", params={"self": "Tick"},
         ensures=[("C01", "value is the two-decimal middle", "result == round(self.bid + self.spread / 2, 2)")],
         modifies=[])

"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})


p("C01", "A tick always carries a valid two-sided price",
  "A tick can only be built from numeric (int or float) bid and ask with bid not above ask; anything else raises TickException and yields no tick, and assigning a non-numeric bid or ask later raises TickException and leaves the old price. "
  "Bid and ask read back as the numbers given, converted to float. "
  "Spread is ask minus bid and value is bid plus half the spread, each rounded to two decimals.",
  ["inputs"], "every datetime, every pair of bid/ask of any type, every meta",
  "Tests sample a handful of prices; rounding, ordering and type checks must hold for every price.",
  ["estrade/tick.py"], [("type check and bid<=ask guard at construction", "Tick.__init__, bid/ask setters"), ("derived prices", "Tick.spread, Tick.value")],
  ["Tick(...)", "tick.bid/ask/spread/value", "tick.asdict()"])
p("C02", "Datetimes are timezone-aware and conversions keep the instant",
  "Ticks, trades and closes only ever hold a timezone-aware datetime denoting the very instant they were given; a datetime without timezone is refused with TimeException, at construction and at later assignment. "
  "The UTC view of an object's datetime denotes the same instant, and an instrument that receives a tick rewrites its datetime to the instrument's timezone without changing the instant. "
  "An instrument only ever holds a timezone from the known timezone list: any other one is refused with an EpicException and leaves the previous timezone in place.",
  ["inputs"], "every datetime object (arrow or python, aware or naive), every timezone string",
  "Tests sample a few zones and datetimes.",
  ["estrade/mixins/timed.py", "estrade/epic.py", "estrade/tick.py", "estrade/trade.py"],
  [("timezone guard", "TimedMixin.datetime setter"), ("conversion", "TimedMixin.datetime_utc, Epic.on_new_tick"), ("timezone guard", "Epic.timezone setter")],
  ["tick.datetime", "datetime_utc", "epic.timezone"])
p("C03", "An instrument's ticks are accepted in chronological order only",
  "A tick whose instant lies strictly before the last accepted tick is refused with an EpicException, and the refusal leaves the instrument's last tick and market state untouched and notifies no frame set, trade or strategy. "
  "Every other tick is accepted and becomes the instrument's last tick.",
  ["inputs", "histories"], "every epic state, every tick in every timezone, including repeated wall-clock hours at DST changes",
  "Tests use UTC and one or two sequences; the order must be that of instants in every timezone.",
  ["estrade/epic.py"], [("order guard", "Epic.on_new_tick")], ["epic.on_new_tick", "epic.last_tick"])
p("C04", "Market is open exactly in opening hours on trading days",
  "After every accepted tick the market state of an instrument is open exactly when the tick's local time is between the opening and closing times, both inclusive, the local weekday is a trading day and the local date is not a holiday. "
  "Trading days default to Monday-Friday and holidays to none.",
  ["inputs", "configurations"], "every tick datetime, opening/closing time, list of trade days and holidays",
  "Tests sample a few times and dates; boundaries and calendars are unbounded.",
  ["estrade/epic.py"], [("hours, weekday and holiday test", "Epic.is_market_open, Epic._in_market_hours"), ("state update", "Epic.on_new_tick")],
  ["epic.is_market_open()", "epic.market_open"])
p("C05", "Each accepted tick reaches each frame set and open trade exactly once",
  "An accepted tick is handed to every frame set of the instrument exactly once, then updates every trade of that instrument that is still open in its trade provider exactly once, and only then are strategies notified. "
  "It never changes a closed trade or a trade of another instrument. "
  "Frame sets see the market state of this very tick.",
  ["inputs", "histories"], "every number of frame sets, trades (open, closed, of any epic sharing the provider) and strategies",
  "Tests use at most one or two mocks of each kind.",
  ["estrade/epic.py", "estrade/trade_provider.py"],
  [("dispatch", "Epic.on_new_tick"), ("open trades", "BaseTradeProvider.opened_trades")], ["epic.on_new_tick"])
p("C06", "Strategies are notified exactly as their activity and the market dictate",
  "For each accepted tick, each active strategy of the instrument gets, in this order, one market-open or market-close notification exactly when the market state changed with that tick, one in-market notification exactly when the market is open, and one every-tick notification. "
  "A stopped strategy, or one paused until a datetime not yet reached by the tick, gets none. "
  "A pause ends, and is cleared, with the first tick at or after its datetime; checking activity changes nothing else.",
  ["inputs", "histories"], "every set of strategies in every stopped/paused state, every market state before and after",
  "Tests check one mocked strategy in a few combinations.",
  ["estrade/epic.py", "estrade/strategy.py"],
  [("notification", "Epic._execute_strategies"), ("activity", "BaseStrategy.is_active")], ["strategy.on_*", "strategy.is_active", "strategy.paused_until"])
p("C07", "Timeframe periods tile the calendar",
  "For second, minute, hour, day, week, month and year units, the period of a datetime starts on the grid of that unit and quantity, contains the datetime (start <= datetime < end, on the local clock) and ends where the next period of the grid starts, so every datetime has exactly one period (a day quantity of at least 1 divides 7, a month quantity divides 12). "
  "All datetimes of one period get the same start and end, and a later datetime never gets an earlier period. "
  "Quantities that do not divide their unit's cycle are refused with TimeFrameException.",
  ["inputs", "configurations"], "every unit and positive quantity, every datetime (local clock, outside DST jumps)",
  "Tests sample a few dozen datetimes.",
  ["estrade/mixins/timeframe.py"], [("period start", "TimeframeMixin.get_frame_start"), ("period end", "TimeframeMixin.get_frame_end"), ("consistency", "TimeframeMixin.__init__")],
  ["get_frame_start", "get_frame_end"])
p("C08", "Timed frame sets partition ticks into contiguous, linked frames",
  "After every tick given in chronological order to a timed frame set, the newest frame is the period containing the tick, and its last tick is that tick; frames of skipped periods are created with the last known tick as their only tick. "
  "Each kept frame starts where the one before it ends and the two are linked to each other in both directions; all frames but the newest are closed. "
  "At most the configured number of frames is kept, always the newest ones, the oldest kept one having no predecessor, and no frame that is not over is closed.",
  ["inputs", "histories"], "every unit/quantity, every chronological tick history, every memory bound >= 1",
  "Tests replay short sequences with a few units; the invariant must hold for every history.",
  ["estrade/graph/frame_set.py"], [("frame over test", "FrameSet.is_frame_over_timed"), ("gap filling", "FrameSet._create_new_frame_timed"), ("linking", "FrameSet.create_new_frame"), ("memory bound", "FrameSet.clean_old_frames")],
  ["frame_set.frames", "frame.previous_frame/next_frame"])
p("C09", "Tick-count frame sets group ticks by the configured count",
  "A tick given to a tick-count frame set joins the newest frame when that frame holds fewer than the configured number of ticks and the frame set belongs to an instrument whose last known day the tick does not exceed; otherwise it starts a new frame at the tick's datetime. "
  "So no frame ever holds more than the configured number of ticks, and no tick is lost or counted twice. "
  "New frames are linked to the previous one and the memory bound is kept as for timed frames.",
  ["inputs", "histories"], "every quantity >= 1, every tick history, every memory bound >= 1",
  "Tests replay short sequences.",
  ["estrade/graph/frame_set.py"], [("frame over test", "FrameSet.is_frame_over_tick"), ("creation", "FrameSet._create_new_frame_tick, create_new_frame, clean_old_frames")],
  ["frame_set.frames", "frame.nb_ticks"])
p("C10", "A frame aggregates exactly the ticks it received",
  "After any sequence of ticks, a frame's first and last ticks are the first and last it received, its tick count is the number it received, and its high and low ticks are received ticks whose value is the maximum and minimum over them. "
  "A tick that only equals the current high or low does not replace it.",
  ["inputs", "histories"], "every sequence of ticks",
  "Tests sample short sequences.",
  ["estrade/graph/frame_set.py"], [("aggregate update", "Frame.__init__, Frame.on_new_tick")], ["frame.first_tick/high_tick/low_tick/last_tick/nb_ticks"])
p("C11", "One indicator value per frame and indicator, fed with the right ticks",
  "For each frame and each registered indicator, exactly one value is created, on the first tick of that frame for which the indicator may run (any tick, or only ticks with the market open for market-hours-only indicators), and it is kept for the life of the frame. "
  "A value's first, high, low and last ticks aggregate exactly the ticks received since its creation that the indicator may see. "
  "The previous value is that of the nearest earlier kept frame having one, the next value that of the following frame, and tick count and closed state are those of the frame.",
  ["inputs", "histories"], "every set of indicators, every tick and market state history, every chain of frames",
  "Tests use one mocked indicator and a few frames.",
  ["estrade/graph/base_indicator.py", "estrade/graph/frame_set.py"],
  [("creation", "Frame._upsert_indicators, BaseIndicator.build_value_from_frame"), ("update", "BaseIndicatorValue.on_new_tick"), ("links", "BaseIndicatorValue.previous/next")],
  ["frame.indicators", "value.previous", "value.next"])
p("C12", "Candles follow the Japanese and Heikin-Ashi formulas",
  "A classic candle's open, high, low and last are the two-decimal values of its first, highest, lowest and last ticks; a Heikin-Ashi candle's last is the mean of these four, its open is the mean of the previous candle's open and last (its first tick's value without previous candle), its high and low the extremes of open, last and the high or low tick. "
  "Close equals last once the frame is closed and is undefined before. "
  "Colour compares last to open, height is high minus low, and body, head and tail are |open-last|, high minus the larger and the smaller minus low, rounded to two decimals.",
  ["inputs"], "every candle and price, including zero and negative prices",
  "Tests sample a few candles.",
  ["estrade/graph/indicators/candle_set.py"], [("formulas", "BaseCandle, JapaneseCandle, HeikinAshiCandle properties")],
  ["candle.open/high/low/last/close/color/height/body/head/tail"])
p("C13", "A simple moving average is the mean of the last closes",
  "For every number of periods from 1 to the configured maximum, the average equals the two-decimal mean of the last prices of the most recent frames, the current one included, and is undefined while fewer frames have a value. "
  "Each new frame's value remembers the last prices of at most the maximum minus one frames before it, oldest first.",
  ["inputs", "histories"], "every maximum >= 1, every number of periods, every history of frames",
  "Tests sample a few periods.",
  ["estrade/graph/indicators/simple_moving_average.py"], [("history", "SimpleMovingAverageValue.__init__"), ("mean", "SimpleMovingAverageValue.get_value")],
  ["value.get_value(n)"])
p("C14", "RSI follows its formula over the configured periods",
  "The RSI of a frame is defined exactly from the moment the configured number of frame-to-frame changes is known, and is 100 when no change was negative, 0 when none was positive but some was negative, otherwise 100-100/(1+gains/losses) rounded to two decimals over those changes. "
  "It always lies between 0 and 100 and follows every tick of its frame. "
  "Registering an RSI on a frame set that keeps too few frames raises BaseIndicatorException.",
  ["inputs", "histories"], "every period count >= 1, every history of prices",
  "Tests sample one or two series.",
  ["estrade/graph/indicators/rsi.py"], [("history of changes", "RSIValue.__init__, extended_changes"), ("formula", "RSIValue._build_rsi"), ("refresh", "RSIValue.on_new_tick"), ("memory check", "RSI.set_frame_set")],
  ["value.value"])
p("C15", "Pivot levels follow their formulas and are ordered",
  "With a previous value, the classic pivot is the two-decimal mean of its high, low and last prices, and the OLHC pivot the mean of these and the current first price; the three supports and resistances follow their documented formulas, rounded to two decimals. "
  "Without previous value every level is undefined, and with one every level is defined. "
  "For classic pivots support 1 <= pivot <= resistance 1 and support 2 <= pivot <= resistance 2.",
  ["inputs"], "every previous period and price, including zero and negative prices",
  "Tests sample one or two periods.",
  ["estrade/graph/indicators/pivot.py"], [("formulas", "PivotTypeClassic, PivotTypeOLHC properties")],
  ["value.pivot/support*/resistance*"])
p("C16", "Trades open and close on the right side of the market",
  "A trade opened from a tick or an instrument buys at the ask and sells at the bid, has the tick's datetime and the other side as its current close value; any other direction raises TradeException. "
  "Market updates and closes use the bid for a buy and the ask for a sell, and a close made from a tick carries the tick's datetime and that price. "
  "A trade opened or closed through a strategy or an instrument uses the last tick of the trade's instrument and belongs to that strategy and instrument.",
  ["inputs"], "every tick, direction, quantity and option",
  "Tests sample prices and mostly mock the collaborators.",
  ["estrade/trade.py", "estrade/epic.py", "estrade/strategy.py"],
  [("open side", "Trade.open_from_tick/open_from_epic"), ("close side", "Trade.update_from_tick, close_from_tick, close_from_epic"), ("delegation", "Epic.open_trade/close_trade, BaseStrategy.open_trade/close_trade")],
  ["trade.open_value", "trade.current_close_value", "trade_close.close_value/datetime"])
p("C17", "Quantities are conserved: a trade never closes more than it opened",
  "Whatever sequence of partial closes (each of a positive quantity, or of everything left) is performed on a trade opened with a positive quantity, closed plus open quantities equal the opening quantity and the open quantity is never negative. "
  "A close of more than what is left closes exactly what is left, each close adds exactly one close record and changes no earlier one, and the trade is closed exactly when nothing is left.",
  ["inputs", "histories"], "every quantity, every sequence of closes",
  "Tests sample short sequences.",
  ["estrade/trade.py"], [("cap", "Trade.close"), ("accounting", "Trade.closed_quantities/opened_quantities/closed")],
  ["trade.closes", "trade.opened_quantities"])
p("C18", "Trade results add up over open and closed quantities",
  "A close's average result is the two-decimal signed difference between close and open values (close minus open for a buy, open minus close for a sell) and its result is that times its quantity, rounded to two decimals. "
  "A trade's result is the sum of the results of its closes plus the two-decimal signed difference to the current close value times the open quantity, which is zero once the trade is closed. "
  "Per-quantity averages are these totals divided by the respective quantities and rounded to two decimals, zero without closes.",
  ["inputs", "histories"], "every price, quantity, direction and number of closes",
  "Tests sample one or two closes.",
  ["estrade/trade.py"], [("results", "Trade.*result* and TradeClose.*result* properties")],
  ["trade.result", "trade.result_avg", "trade.closed_result", "close.result"])
p("C19", "Max and min results track the trade's history of results",
  "After creation and after every market update of an open trade, its maximum (minimum) result is the larger (smaller) of the one before and the result at that update, so at every moment of an update min <= result <= max. "
  "A market update of a closed trade changes nothing at all.",
  ["inputs", "histories"], "every sequence of market updates and closes",
  "Tests sample a few updates.",
  ["estrade/trade.py"], [("tracking", "Trade._update_min_max, Trade.update")], ["trade.max_result", "trade.min_result"])
p("C20", "The provider registers each trade and sends exactly one request per transaction",
  "Opening a trade registers it once, last, with the provider and, if it has a strategy, once, last, with that strategy, and starts exactly one open request for that trade in a thread of its own; closing starts exactly one close request for that close and registers nothing. "
  "Open trades are exactly the registered trades with open quantities, newest first. "
  "The provider is alive exactly while one of the requests it started is still running.",
  ["inputs", "histories"], "every provider state, every trade and close, every running state of the request threads",
  "Tests check mocks for one trade; nothing checks arbitrary registries or thread states.",
  ["estrade/trade_provider.py"], [("registration and request", "BaseTradeProvider.open_trade/close_trade"), ("views", "opened_trades, is_alive")],
  ["provider.trades", "strategy.trades", "open_trade_request", "close_trade_request"])
p("C21", "Backtest netting closes opposite trades of the same strategy, never more",
  "In backtests, opening a trade first closes, newest first, the open trades of the same strategy in the opposite direction until the new quantity is absorbed; each such close takes the smaller of what is open there and what remains of the new quantity, so the total closed is min(new quantity, total opposite open quantity). "
  "Trades of other strategies or of the same direction are never closed, and closes use the price and datetime of each closed trade's instrument. "
  "The new trade is registered with exactly the remaining quantity, and not at all when nothing remains; accepted transactions end up confirmed.",
  ["inputs", "histories"], "every registry of trades, directions, strategies and quantities",
  "Tests use one existing trade; several open trades, or a new quantity absorbed half-way, are never exercised.",
  ["estrade/trade_provider.py"], [("netting", "TradeProviderBacktests.open_trade"), ("confirmation", "open_trade_request/close_trade_request")],
  ["provider.open_trade"])
p("C22", "Trade queries return exactly the matching trades, newest first",
  "Querying a strategy's trades yields, newest first and each once, exactly its trades matching the instrument filter and, when asked, still open, stopping at the first matching trade opened before the given datetime. "
  "Querying changes nothing.",
  ["inputs", "histories"], "every list of trades and every combination of filters",
  "Tests sample a few mocked trades.",
  ["estrade/strategy.py"], [("filter", "BaseStrategy.get_trades")], ["strategy.get_trades"])
p("C23", "Strategy result and profit factor are computed over the given trades",
  "The result of a list of trades is the two-decimal sum of their results; the profit factor is the sum of gains when there is no loss, otherwise the two-decimal absolute ratio of gains to losses, losses smaller than one counting as one. "
  "Both use the strategy's own trades only when no list is given (so both are zero for an empty list) and are never affected by the order of trades; the profit factor is never negative.",
  ["inputs"], "every list or generator of trades",
  "Tests sample short lists.",
  ["estrade/strategy.py"], [("aggregation", "BaseStrategy.result, BaseStrategy.profit_factor")], ["strategy.result", "strategy.profit_factor"])
p("C24", "Closing all trades closes every open trade of the strategy and nothing else",
  "After closing the opened trades of a strategy, each of its trades is closed; each trade that was open got exactly one close, for all it had left, at its own instrument's last tick, with one request to that instrument's provider. "
  "Trades that were already closed, and trades of other strategies, are untouched.",
  ["inputs", "histories"], "every number and state of trades over every number of instruments",
  "Tests mock the trade list.",
  ["estrade/strategy.py", "estrade/epic.py", "estrade/trade.py"], [("closing loop", "BaseStrategy.close_opened_trades"), ("delegation", "BaseStrategy.close_trade, Epic.close_trade")],
  ["strategy.close_opened_trades"])
p("C25", "References identify objects: registration and lookup",
  "An object keeps the non-empty reference it was given, and gets a generated one otherwise. "
  "Adding a frame set or strategy to an instrument makes it reachable under its reference and linked back to the instrument, without touching the others; a second one with the same reference is refused with EpicException, changing nothing. "
  "Looking up a frame by offset gives the frame that many positions before the newest and nothing when there is none, an indicator lookup gives that frame's value, and a tick provider finds an instrument exactly under its own reference.",
  ["inputs", "histories"], "every reference, registry, offset >= 0 and number of frames",
  "Tests sample one or two objects.",
  ["estrade/mixins/ref.py", "estrade/epic.py", "estrade/tick_provider.py", "estrade/graph/frame_set.py"],
  [("reference", "RefMixin.ref"), ("registration", "Epic.add_frame_set/add_strategy, FrameSet.add_indicator"), ("lookup", "Epic.get_frame/get_indicator_value, BaseTickProvider.get_epic_by_ref")],
  ["epic.get_frame", "epic.get_indicator_value", "provider.get_epic_by_ref"])
p("C26", "Reports contain every strategy and, when asked, every trade exactly once",
  "A report writes one summary row per given strategy, in order, with its reference, number of trades, result and profit factor and, when trade details are asked for, one file per strategy with one row per trade of that strategy, newest first, holding that trade's own data. "
  "A new file starts with one header row; rows added to an existing file are appended after its content without a second header. "
  "Files are only created under the target folder, which is created when missing, and without trade details only the summary is written.",
  ["inputs", "histories"], "every list of strategies and trades, every existing folder and file state",
  "No unit test reads the files back for several strategies, trades, or existing files.",
  ["estrade/reporting/csv.py", "estrade/trade.py"], [("writing", "CSVWriter.open_file/dict_to_csv"), ("report", "ReportingCSV.report, Trade.asdict")],
  ["files written"])
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))

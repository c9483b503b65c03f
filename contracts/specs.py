"""Specification functions: the vocabulary of the contracts.

They are evaluated by the verifier as specifications (pure expressions over the state),
never executed by CPython.
"""
from estrade.enums import TradeDirection, TransactionStatus, Unit, CandleType, CandleColor, PivotType
from estrade.graph import CandleSet, Pivot, RSI, SimpleMovingAverage
from estrade.graph.indicators.rsi import RSIValue
from estrade.graph.indicators.simple_moving_average import SimpleMovingAverageValue
from estrade.graph.frame_set import FrameSet


def r2(x):
    return round(x, 2)


def is_number(x):
    return isinstance(x, (int, float))


def is_dt(x):
    return kind_of(x) >= 0


def stored_dt(x):
    """what TimedMixin keeps: an arrow object with a timezone"""
    return kind_of(x) == 0 and is_aware(x)


# ---------------------------------------------------------------- trades
def signed_diff(direction, open_value, close_value):
    return close_value - open_value if direction == TradeDirection.BUY else open_value - close_value


def closed_q(trade):
    return sum(c.quantity for c in trade.closes)


def left_q(trade):
    return trade.open_quantity - closed_q(trade)


def is_closed(trade):
    return left_q(trade) == 0


def close_result(close):
    return round(round(signed_diff(close.trade.direction, close.trade.open_value, close.close_value), 2) * close.quantity, 2)


def open_part(trade):
    return 0 if is_closed(trade) else \
        round(signed_diff(trade.direction, trade.open_value, trade.current_close_value), 2) * left_q(trade)


def trade_result(trade):
    return open_part(trade) + sum(close_result(c) for c in trade.closes)


def side(direction, tick):
    """price at which a position of this direction is closed"""
    return tick.bid if direction == TradeDirection.BUY else tick.ask


def side_in(direction, tick):
    """price at which a position of this direction is opened"""
    return tick.ask if direction == TradeDirection.BUY else tick.bid


def trade_inv(trade):
    """what every sequence of closes preserves"""
    return trade.open_quantity > 0 and all(c.quantity >= 0 for c in trade.closes) and \
        closed_q(trade) <= trade.open_quantity


def list_eq(a, b):
    """same elements in the same order"""
    return len(a) == len(b) and all(a[i] is b[i] for i in range(len(b)))


# ---------------------------------------------------------------- instruments
def local_time(dt):
    """microseconds since local midnight"""
    return wall(dt) - day_of(dt) * 86400000000


def weekday_of_day(d):
    return (d + 3) % 7


def market_is_open(epic, dt):
    return epic.open_time <= dt.time() and dt.time() <= epic.close_time and \
        any(x == weekday_of_day(day_of(dt)) for x in epic.trade_days) and \
        not any(x == dt.date() for x in epic.holidays)


def provider_inv(p):
    """registered trades are distinct"""
    return True


def active(strategy, dt):
    return not strategy.stopped and (strategy.paused_until is None or not dt < strategy.paused_until)


def frame_set_events(epic, tick, is_open):
    for fs in epic.frame_sets.values():
        emit("frame_set", fs, tick=tick, market_open=is_open)


def epic_tick_events(epic, tick, dt, was_open, is_open):
    frame_set_events(epic, tick, is_open)
    trade_events(epic, tick)
    strategy_events(epic, dt, was_open, is_open)


def trade_events(epic, tick):
    for t in reversed(epic.trade_provider.trades):
        if t.epic is epic and not is_closed(t):
            emit("trade", t, tick=tick)


def strategy_events(epic, dt, was_open, is_open):
    for s in epic.strategies.values():
        if active(s, dt):
            if was_open and not is_open:
                emit("market_close", s, epic=epic)
            if is_open and not was_open:
                emit("market_open", s, epic=epic)
            if is_open:
                emit("in_market", s, epic=epic)
            emit("every_tick", s, epic=epic)


def list_same(a, b):
    """equal values in the same order"""
    return len(a) == len(b) and all(a[i] == b[i] for i in range(len(b)))


def distinct(xs):
    return all(all(xs[i] is not xs[j] for i in range(j)) for j in range(len(xs)))


def epic_inv(epic):
    """objects are registered under their own reference, so no object is registered twice"""
    return all(v.epic is epic for v in epic.frame_sets.values()) and distinct(list(epic.strategies.values())) and distinct(list(epic.frame_sets.values())) and all(s.paused_until is None or is_aware(s.paused_until) for s in epic.strategies.values()) and \
        all(v.ref == k for k, v in epic.strategies.items()) and all(v.ref == k for k, v in epic.frame_sets.items())


def later_untouched(epic, i):
    vs = list(epic.strategies.values())
    return all(implies(j >= i, vs[j].paused_until is old(vs[j].paused_until)) for j in range(len(vs)))


# ---------------------------------------------------------------- trade providers
def added_thread(now, before):
    """one started thread more"""
    return len(now) == len(before) + 1 and all(now[i] is before[i] for i in range(len(before))) and \
        fresh(now[-1]) and now[-1].started


def request_events(provider, target, what):
    emit("thread_start", provider, target=target, arg0=what)


def provider_open_events(epic, trade):
    emit("provider_open", epic.trade_provider, trade=trade)


def provider_close_events(epic, trade_close):
    emit("provider_close", epic.trade_provider, trade_close=trade_close)


def close_of(trade, close, quantity):
    """a close of this trade at the last tick of its instrument"""
    return close.trade is trade and close.quantity == quantity and \
        close.close_value == side(trade.direction, trade.epic.last_tick) and utc(close.datetime) == utc(trade.epic.last_tick.datetime)


def later_left(strategy, i):
    return all(implies(j < len(strategy.trades) - i, strategy.trades[j].g_left == old(strategy.trades[j].g_left) and strategy.trades[j].g_closes == old(strategy.trades[j].g_closes))
               for j in range(len(strategy.trades)))


def done_closed(strategy, i):
    return all(implies(j >= len(strategy.trades) - i, strategy.trades[j].g_left == 0 and
                       strategy.trades[j].g_closes == old(strategy.trades[j].g_closes + (1 if strategy.trades[j].g_left > 0 else 0)))
               for j in range(len(strategy.trades)))


def closing_events(strategy):
    for t in reversed(strategy.trades):
        if t.g_left > 0:
            emit("closed", t.epic.trade_provider, trade=t)


def closed_events(epic, trade):
    emit("closed", epic.trade_provider, trade=trade)


# ---------------------------------------------------------------- strategy summaries
def gains(trades):
    return sum((t.result if t.result > 0 else 0) for t in trades)


def losses(trades):
    return sum((-t.result if t.result < 0 else 0) for t in trades)


def profit_factor(gain, loss):
    return gain if loss == 0 else abs(round(gain / (loss if loss >= 1 else 1), 2))


def once(xs):
    """a generator over the elements of a list"""
    for x in xs:
        yield x


def trade_matches(trade, epics, open_only):
    return (epics is None or any(e is trade.epic for e in epics)) and (not open_only or not is_closed(trade))


def matching(strategy, epics, open_only):
    """newest first"""
    return [t for t in reversed(strategy.trades) if trade_matches(t, epics, open_only)]


def once(xs):
    """a generator over the elements of a list"""
    for x in xs:
        yield x


def trade_matches(trade, epics, open_only):
    return (epics is None or any(e is trade.epic for e in epics)) and (not open_only or not is_closed(trade))


def matching(strategy, epics, open_only):
    """newest first"""
    return [t for t in reversed(strategy.trades) if trade_matches(t, epics, open_only)]


def query_end(m, only_after, n):
    """n is the number of leading trades of m before the first one opened before the datetime"""
    return 0 <= n and n <= len(m) and (n == len(m) or m[n].datetime < only_after) and \
        all(implies(i < n, not m[i].datetime < only_after) for i in range(len(m)))


# ---------------------------------------------------------------- registries
def frame_at(frames, offset):
    """the frame that many positions before the newest"""
    return frames[len(frames) - 1 - offset] if offset < len(frames) else None


# ---------------------------------------------------------------- frames and indicator values
def aggregates(x, given):
    """x's first, last, high and low ticks are those of the ticks given so far"""
    return len(given) >= 1 and x.first_tick is given[0] and x.last_tick is given[len(given) - 1] and \
        all(t.value <= x.high_tick.value and t.value >= x.low_tick.value for t in given) and \
        any(t is x.high_tick for t in given) and any(t is x.low_tick for t in given)


def earliest(x, given):
    """the high and the low tick are the earliest ones of their value"""
    return given[first_exit(given, lambda t: t.value == x.high_tick.value)] is x.high_tick and \
        given[first_exit(given, lambda t: t.value == x.low_tick.value)] is x.low_tick


def market_is(frame_set):
    return frame_set.epic is not None and frame_set.epic.market_open


def value_of(frame, ref):
    return frame.indicators.get(ref)


def upsert_events(frame, tick, market_open):
    for ref, ind in frame.parent_frameset.indicators.items():
        v = old(frame.indicators.get(ref))
        if v is not None:
            emit("value_tick", v, tick=tick, market_open=market_open)
        else:
            emit("value_new", ind, frame=frame, market_open=market_open)


def later_values(frame, i):
    vs = list(frame.parent_frameset.indicators.keys())
    return all(implies(j >= i, frame.indicators.get(vs[j]) is old(frame.indicators.get(vs[j]))) for j in range(len(vs)))


def may_run(indicator, market_open):
    return not indicator.market_open_only or market_open


def upserted(frame, ref, ind, before, market_open):
    v = frame.indicators.get(ref)
    return v is before if before is not None else \
        (v is None) == (not may_run(ind, market_open)) and implies(v is not None, v.indicator is ind and v.frame is frame and fresh(v))


def done_values(frame, i, market_open):
    vs = list(frame.parent_frameset.indicators.items())
    return all(implies(j < i, upserted(frame, vs[j][0], vs[j][1], old(frame.indicators.get(vs[j][0])), market_open)) for j in range(len(vs)))


def chain_of(frame, chain):
    """the kept frames before this one, nearest first"""
    return frame.previous_frame is (chain[0] if len(chain) > 0 else None) and \
        all(chain[j].previous_frame is (chain[j + 1] if j + 1 < len(chain) else None) for j in range(len(chain)))


# ---------------------------------------------------------------- averages
def last_of(seq, n):
    """the last n elements of a sequence, all of them when it is shorter"""
    return seq[max(0, len(seq) - n):]


def remembers(value, prices, periods):
    """prices: last prices of all the earlier frames with a value, oldest first"""
    return value.last_closes == last_of(prices, periods - 1)


def known_changes(value):
    """changes of the earlier frames kept by the value, then the change of its own frame"""
    frame = value.frame
    return [] if frame.previous_frame is None else value.last_changes + [frame.last_tick.value - frame.previous_frame.last_tick.value]


def rsi_gains(changes):
    return sum(c for c in changes if c > 0)


def rsi_losses(changes):
    return 0 - sum(c for c in changes if c < 0)


def rsi_of(changes):
    return 100 if rsi_losses(changes) == 0 else (0 if rsi_gains(changes) == 0 else round(100 - 100 / (1 + rsi_gains(changes) / rsi_losses(changes)), 2))


def change_of(frame):
    return frame.last_tick.value - frame.previous_frame.last_tick.value


# ---------------------------------------------------------------- timeframes
def on_grid(unit, q, s):
    """s starts a period: everything below the unit is zero and the unit is a multiple of the quantity"""
    sub = s.microsecond == 0
    if unit == Unit.SECOND:
        return sub and s.second % q == 0
    sub = sub and s.second == 0
    if unit == Unit.MINUTE:
        return sub and s.minute % q == 0
    sub = sub and s.minute == 0
    if unit == Unit.HOUR:
        return sub and s.hour % q == 0
    sub = sub and s.hour == 0
    if unit == Unit.DAY:
        return sub and s.weekday() % q == 0
    if unit == Unit.WEEK:
        return sub and s.weekday() == 0
    sub = sub and s.day == 1
    if unit == Unit.MONTH:
        return sub and (s.month - 1) % q == 0
    return sub and s.month == 1 and s.year % q == 0


def period_lemma(unit, q, dt, other):
    fs = FrameSet(unit=unit, unit_quantity=q)
    assume(kind_of(dt) == 0 and kind_of(other) == 0 and tzid(dt) == tzid(other))
    start = fs.get_frame_start(dt)
    end = fs.get_frame_end(start)
    check("same timezone", kind_of(start) == 0 and tzid(start) == tzid(dt) and kind_of(end) == 0 and tzid(end) == tzid(dt))
    check("starts on the grid", on_grid(unit, q, start))
    check("ends on the grid", on_grid(unit, q, end))
    check("contains the datetime", start <= dt and dt < end)
    check("a later datetime never gets an earlier period", implies(dt <= other, start <= fs.get_frame_start(other)))
    check("no period starts between the start and the datetime", implies(on_grid(unit, q, other) and other <= dt, other <= start))
    check("no period starts between the start and the end", implies(on_grid(unit, q, other) and other > start, other >= end))
    assume(start <= other and other < end)
    check("every datetime of the period has the same start", fs.get_frame_start(other) == start)
    check("and the same end", fs.get_frame_end(fs.get_frame_start(other)) == end)


def year_lemma(q, dt, other):
    assume(q >= 1 and dt.year >= q and kind_of(dt) == 0 and kind_of(other) == 0 and tzid(dt) == tzid(other))
    fs = FrameSet(unit=Unit.YEAR, unit_quantity=q)
    start = fs.get_frame_start(dt)
    end = fs.get_frame_end(start)
    check("same timezone", kind_of(start) == 0 and tzid(start) == tzid(dt) and kind_of(end) == 0 and tzid(end) == tzid(dt))
    check("starts on the grid", on_grid(Unit.YEAR, q, start))
    check("ends on the grid", on_grid(Unit.YEAR, q, end))
    check("contains the datetime", start <= dt and dt < end)
    check("a later datetime never gets an earlier period", implies(dt <= other, start <= fs.get_frame_start(other)))
    check("no period starts between the start and the datetime", implies(on_grid(Unit.YEAR, q, other) and other <= dt, other <= start))
    check("no period starts between the start and the end", implies(on_grid(Unit.YEAR, q, other) and other > start, other >= end))
    assume(start <= other and other < end)
    check("every datetime of the period has the same start", fs.get_frame_start(other) == start)
    check("and the same end", fs.get_frame_end(fs.get_frame_start(other)) == end)


# ---------------------------------------------------------------- frame sets
def linked(frames):
    """each frame and the next one are linked to each other; the first has no predecessor, the last no successor"""
    return distinct(frames) and \
        all(frames[i].previous_frame is (frames[i - 1] if i > 0 else None) for i in range(len(frames))) and \
        all(frames[i].next_frame is (frames[i + 1] if i + 1 < len(frames) else None) for i in range(len(frames)))


def starts_with(frame, frame_set, tick):
    return frame.parent_frameset is frame_set and frame.first_tick is tick and frame.last_tick is tick and frame.nb_ticks == 1


def contiguous(fs, tz):
    """periods of one timezone, each starting where the one before it ends, the last ending where a period starts"""
    return all(f.period_end is not None and kind_of(f.period_start) == 0 and kind_of(f.period_end) == 0 and
               tzid(f.period_start) == tz and tzid(f.period_end) == tz for f in fs.frames) and \
        follow_on(fs) and implies(len(fs.frames) > 0, grid(fs, tz, wall(fs.frames[-1].period_end)))


def follow_on(fs):
    return all(implies(i > 0, wall(fs.frames[i].period_start) == wall(fs.frames[i - 1].period_end)) for i in range(len(fs.frames)))


def period_of(fs, frame, dt):
    """frame is the period of the frame set containing dt"""
    return tzid(frame.period_start) == tzid(dt) and frame.period_end is not None and tzid(frame.period_end) == tzid(dt) and \
        wall(frame.period_start) <= wall(dt) and wall(dt) < wall(frame.period_end) and \
        grid(fs, tzid(dt), wall(frame.period_start)) and grid(fs, tzid(dt), wall(frame.period_end)) and \
        forall_int(lambda w: implies(grid(fs, tzid(dt), w), w <= wall(frame.period_start) or w >= wall(frame.period_end)))


def skipped(fs, before, tick):
    """new frames but the newest are those of skipped periods: they hold the last known tick only"""
    return all(implies(fresh(fs.frames[i]) and i + 1 < len(fs.frames), len(before) > 0 and starts_with(fs.frames[i], fs, tick)) for i in range(len(fs.frames)))


def joins(fs, tick):
    """a tick count frame set adds the tick to its newest frame: not full, and not a new day for the instrument"""
    return len(fs.frames) > 0 and fs.frames[-1].nb_ticks < fs.unit_quantity and fs.epic is not None and \
        not after_day(tick.datetime, fs.epic.last_tick.datetime)


def after_day(a, b):
    return wall(a) // 86400000000 > wall(b) // 86400000000


# ---------------------------------------------------------------- netting in backtests
def nets(t, trade):
    """an open trade of the same strategy in the opposite direction"""
    return t.g_left > 0 and t.strategy is trade.strategy and \
        t.direction == (TradeDirection.BUY if trade.direction == TradeDirection.SELL else TradeDirection.SELL)


def open_before(provider, trade, j):
    """quantity open on the opposite trades newer than the one at position j"""
    n = len(provider.trades)
    return sum((provider.trades[n - 1 - i].g_left if nets(provider.trades[n - 1 - i], trade) else 0) for i in range(n - 1 - j))


def share(provider, trade, j):
    """what the trade at position j absorbs of the quantity of the new trade: the newest trades come first"""
    t = provider.trades[j]
    return min(t.g_left, max(0, trade.open_quantity - open_before(provider, trade, j))) if nets(t, trade) else 0


def net_later(provider, i):
    return all(implies(j < len(provider.trades) - i, provider.trades[j].g_left == old(provider.trades[j].g_left) and
                       provider.trades[j].g_closes == old(provider.trades[j].g_closes) and provider.trades[j].g_requests == old(provider.trades[j].g_requests))
               for j in range(len(provider.trades)))


def net_done(provider, trade, i):
    return all(implies(j >= len(provider.trades) - i,
                       provider.trades[j].g_left == (0 if old(nets(provider.trades[j], trade)) else old(provider.trades[j].g_left)) and
                       provider.trades[j].g_closes == old(provider.trades[j].g_closes + (1 if nets(provider.trades[j], trade) else 0)) and
                       provider.trades[j].g_requests == old(provider.trades[j].g_requests + (1 if nets(provider.trades[j], trade) else 0)))
               for j in range(len(provider.trades)))

From 4459f236610118955f527aa6ac90597574cd8c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 01/12] fix: stop netting once the new backtest trade is fully
 absorbed

---
 estrade/trade_provider.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/estrade/trade_provider.py b/estrade/trade_provider.py
index dc3c60a..923a904 100644
--- a/estrade/trade_provider.py
+++ b/estrade/trade_provider.py
@@ -184,6 +184,8 @@ class TradeProviderBacktests(BaseTradeProvider):
                 self.close_trade(trade_close=trade_close)
 
                 trade.open_quantity -= quantities_to_close
+                if trade.open_quantity <= 0:
+                    break
 
         # if after decrement, the trade to open has a zero quantity, stop
         if trade.open_quantity <= 0:
-- 
2.43.0


From f562b2df8179d9a4334ae896a762dfbc67b1bc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 02/12] fix: only update the trades of the epic that received
 the tick

---
 estrade/epic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index b5cf6d0..c83893f 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -209,7 +209,8 @@ class Epic(RefMixin):
 
     def _update_open_trades(self, new_tick: "Tick") -> None:
         for trade in self.trade_provider.opened_trades:
-            trade.update_from_tick(new_tick)
+            if trade.epic is self:
+                trade.update_from_tick(new_tick)
 
     def _execute_strategies(self, market_open_before_new_tick: bool) -> None:
         for _, strategy in self.strategies.items():
-- 
2.43.0


From c767ba6a62ed8f65006b4f423c0b7c845f8f3bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 03/12] fix: keep a current close value of zero on trade
 creation

---
 estrade/trade.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estrade/trade.py b/estrade/trade.py
index fbe1114..51116ca 100644
--- a/estrade/trade.py
+++ b/estrade/trade.py
@@ -75,7 +75,9 @@ class Trade(MetaMixin, TimedMixin, RefMixin, TransactionMixin):
         self.closes: List[TradeClose] = []
 
         self.open_value = open_value
-        self.current_close_value = current_close_value or open_value
+        self.current_close_value = (
+            open_value if current_close_value is None else current_close_value
+        )
 
         self.max_result: float = self.result
         self.min_result: float = self.result
-- 
2.43.0


From ff1d6729be21efead8d0125f6aebeb6a10ab2792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 04/12] fix: result and profit factor of an empty list of
 trades are zero

---
 estrade/strategy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/strategy.py b/estrade/strategy.py
index db06314..66cc04d 100644
--- a/estrade/strategy.py
+++ b/estrade/strategy.py
@@ -145,7 +145,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Result of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         result = 0.0
@@ -167,7 +167,7 @@ class BaseStrategy(RefMixin):
         Returns:
             Profit factor of the input list of trades.
         """
-        if not trades:
+        if trades is None:
             trades = self.trades
 
         sum_positive = 0.0
-- 
2.43.0


From f5d04badc79818ccf6839cfccfcd6e6968c7042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 05/12] fix: compare instants, not wall clocks, to refuse
 anterior ticks

---
 estrade/epic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estrade/epic.py b/estrade/epic.py
index c83893f..6671b27 100644
--- a/estrade/epic.py
+++ b/estrade/epic.py
@@ -243,7 +243,7 @@ class Epic(RefMixin):
         """
         # set tick timezone
         tick.datetime = tick.datetime.to(self.timezone)
-        if tick.datetime < self.last_tick.datetime:
+        if tick.datetime_utc < self.last_tick.datetime_utc:
             raise EpicException(
                 "Cannot handle a tick anterior to the last received tick."
             )
-- 
2.43.0


From 5e11c101fddf3558374c552c98a9e640e0845f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 06/12] fix: RSI over a single period keeps no previous change

---
 estrade/graph/indicators/rsi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index 504feb8..76b5018 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -48,7 +48,11 @@ class RSIValue(BaseIndicatorValue):
 
         if self.rsi_periods:
             max_last_changes_size = self.rsi_periods - 1
-            self.last_changes = self.last_changes[(max_last_changes_size * -1) :]
+            self.last_changes = (
+                self.last_changes[(max_last_changes_size * -1) :]
+                if max_last_changes_size
+                else []
+            )
 
             self._update_rsi()
 
-- 
2.43.0


From b4ae796947ef2fe9df91e581ba59ec9a3a70277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 07/12] fix: moving average over a single period keeps no
 previous close

---
 estrade/graph/indicators/simple_moving_average.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/estrade/graph/indicators/simple_moving_average.py b/estrade/graph/indicators/simple_moving_average.py
index 45ddf61..b38cba9 100644
--- a/estrade/graph/indicators/simple_moving_average.py
+++ b/estrade/graph/indicators/simple_moving_average.py
@@ -38,7 +38,11 @@ class SimpleMovingAverageValue(BaseIndicatorValue):
             self.last_closes = self.previous.extended_closes[:]  # type: ignore
 
         max_last_closes_size = self.indicator.max_periods - 1  # type: ignore
-        self.last_closes = self.last_closes[(max_last_closes_size * -1) :]
+        self.last_closes = (
+            self.last_closes[(max_last_closes_size * -1) :]
+            if max_last_closes_size
+            else []
+        )
 
     @property
     def extended_closes(self) -> List[float]:
-- 
2.43.0


From c03d33abc94cc030b783db3b39f5fc8287337a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 08/12] fix: supports and resistances exist when the pivot is
 zero

---
 estrade/graph/indicators/pivot.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/estrade/graph/indicators/pivot.py b/estrade/graph/indicators/pivot.py
index a605f0c..2db0b1a 100644
--- a/estrade/graph/indicators/pivot.py
+++ b/estrade/graph/indicators/pivot.py
@@ -117,7 +117,7 @@ class PivotTypeClassic(BasePivotType):
             Support 1 value (pivot * 2 - high).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.high_tick.value, 2)  # type: ignore
         return None
 
@@ -130,7 +130,7 @@ class PivotTypeClassic(BasePivotType):
             Support 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 - (
@@ -150,7 +150,7 @@ class PivotTypeClassic(BasePivotType):
             Support 3 value (low - (high - pivot) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.low_tick.value  # type: ignore
                 - ((self.previous.high_tick.value - pivot) * 2),  # type: ignore
@@ -167,7 +167,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 1 value (pivot * 2 - low).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round((pivot * 2) - self.previous.low_tick.value, 2)  # type: ignore
         return None
 
@@ -180,7 +180,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 2 value (pivot - (high - low)).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 pivot
                 + (
@@ -200,7 +200,7 @@ class PivotTypeClassic(BasePivotType):
             Resistance 3 value (high + (pivot - low) * 2).
         """
         pivot = self.pivot
-        if pivot:
+        if pivot is not None:
             return round(
                 self.previous.high_tick.value  # type: ignore
                 + ((pivot - self.previous.low_tick.value) * 2),  # type: ignore
-- 
2.43.0


From d8de0b8f72ef4439757505e95e3a7ebd653be751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:47 +0000
Subject: [PATCH 09/12] fix: candle color, body, head and tail exist for zero
 values

---
 estrade/graph/indicators/candle_set.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/estrade/graph/indicators/candle_set.py b/estrade/graph/indicators/candle_set.py
index 5d178e2..3495e5c 100644
--- a/estrade/graph/indicators/candle_set.py
+++ b/estrade/graph/indicators/candle_set.py
@@ -55,7 +55,7 @@ class BaseCandle(BaseIndicatorValue):
         Returns:
             Color as [`CandleColor`][estrade.enums.CandleColor] enum.
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         if self.last > self.open:
@@ -100,7 +100,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(abs(self.open - self.last), 2)
@@ -122,7 +122,7 @@ class BaseCandle(BaseIndicatorValue):
                 |
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
         return round(self.high - (max(self.open, self.last)), 2)
 
@@ -143,7 +143,7 @@ class BaseCandle(BaseIndicatorValue):
                 |  ┘
         ```
         """
-        if not self.open or not self.last:
+        if self.open is None or self.last is None:
             return None
 
         return round(min(self.open, self.last) - self.low, 2)
-- 
2.43.0


From d7f73850684aa5e671ac848f2c155c1ae7c0f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:52 +0000
Subject: [PATCH 10/12] fix: write report rows when the report file already
 exists

---
 estrade/reporting/csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/estrade/reporting/csv.py b/estrade/reporting/csv.py
index b133b0d..d9aa42a 100644
--- a/estrade/reporting/csv.py
+++ b/estrade/reporting/csv.py
@@ -34,8 +34,8 @@ class CSVWriter:
             writer = csv.DictWriter(f, fieldnames=headers)
             if not file_exists:
                 writer.writeheader()
-                for d in dict_list:
-                    writer.writerow(d)
+            for d in dict_list:
+                writer.writerow(d)
 
 
 class ReportingCSV:
-- 
2.43.0


From 6702633add44bfdb229d2e077906df71d66fa81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 11/12] fix: keep the instant of python datetimes with an
 ambiguous wall clock

---
 estrade/mixins/timed.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/estrade/mixins/timed.py b/estrade/mixins/timed.py
index 281a8e0..f3c6b91 100644
--- a/estrade/mixins/timed.py
+++ b/estrade/mixins/timed.py
@@ -1,4 +1,4 @@
-from datetime import datetime as pydatetime
+from datetime import datetime as pydatetime, timezone
 from typing import Union
 
 import arrow  # type: ignore
@@ -34,9 +34,10 @@ class TimedMixin:
                 f"Invalid {self.__class__.__name__} datetime, "
                 f"a timezoned datetime is required."
             )
-        # convert to arrow.Arrow
+        # convert to arrow.Arrow, through UTC as a wall clock does not always tell
+        # the instant (arrow ignores the offset of pytz localized datetimes)
         if isinstance(dt, pydatetime):
-            dt = arrow.get(dt)
+            dt = arrow.get(dt.astimezone(timezone.utc)).to(arrow.get(dt).tzinfo)
 
         self._datetime = dt
 
-- 
2.43.0


From 3f146ef78d3465a83b31285c3415e6e3d67c2f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 12/12] fix: refuse an RSI on a frame set that keeps a single
 frame

---
 estrade/graph/indicators/rsi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estrade/graph/indicators/rsi.py b/estrade/graph/indicators/rsi.py
index 76b5018..1e8da8d 100644
--- a/estrade/graph/indicators/rsi.py
+++ b/estrade/graph/indicators/rsi.py
@@ -133,7 +133,8 @@ class RSI(BaseIndicator):
     def set_frame_set(self, frame_set: "FrameSet") -> None:
         super(RSI, self).set_frame_set(frame_set)
         self.rsi_periods = self.periods * frame_set.unit_quantity
-        if self.rsi_periods > frame_set.max_frames_in_memory:
+        # a change always involves a frame and the frame before it
+        if max(self.rsi_periods, 2) > frame_set.max_frames_in_memory:
             raise BaseIndicatorException(
                 "Not enough frames kept in memory to calculate RSI"
             )
-- 
2.43.0


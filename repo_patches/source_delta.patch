From 1e5f8e4d5a83f17aab9f81cb178f79d2eb05600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 01/37] fix: volume_profile_developing wrote its per-bar
 results at absolute rows of window-sized buffers

---
 finmlkit/feature/core/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 38a6bbb..9f28c32 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -562,9 +562,9 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
             poc_price, hva_price, lva_price = comp_poc_hva_lva(price_levels_window, developing_total_volumes,
                                                                va_pct)
 
-        poc_prices[t] = poc_price
-        hva_prices[t] = hva_price
-        lva_prices[t] = lva_price
+        poc_prices[t - start_idx] = poc_price
+        hva_prices[t - start_idx] = hva_price
+        lva_prices[t - start_idx] = lva_price
 
     return ts[start_idx:end_idx], poc_prices, hva_prices, lva_prices
 
-- 
2.43.0


From 34561806a12ff00fdad01408c2f68c1ec4789dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 02/37] fix: triple_barrier returned an uninitialised touch
 index for skipped events

---
 finmlkit/label/tbm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 0e749fa..b4afbdb 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -97,6 +97,7 @@ def triple_barrier(
         if t1_idx <= t0_idx:
             print("Warning: Vertical barrier index is less than or equal to event index. Skipping this event.")
             print(t0, t1)
+            touch_idxs[i_event] = t0_idx    # the event is never open: it ends where it starts
             continue
 
         # ---------- Evaluate the path -----------
-- 
2.43.0


From b8bc5e68891584ca35156f75aa8cb7964199961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 03/37] fix: directional bar features read the last trade when
 the first bar has no preceding trade

---
 finmlkit/bar/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index fc486e5..141e092 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -482,17 +482,17 @@ def comp_bar_directional_features(
         current_cum_spread = 0.0
 
         # Initialize previous tick sign for spread calculation
-        if end > start:
+        if end > start and start > 0:
             prev_tick_sign = trade_sides[start - 1]  # Previous trade side at the start of the bar
         else:
-            prev_tick_sign = 0  # Default value if no trades in bar
+            prev_tick_sign = 0  # Default value if no trades in bar or no trade before it
 
         # Iterate over trades in the current bar (start exclusive, end inclusive)
         for j in range(start, end + 1):
             current_tick_sign = trade_sides[j]
 
             # Calculate the spread between buy and sell prices
-            if current_tick_sign != prev_tick_sign:
+            if j > 0 and current_tick_sign != prev_tick_sign:
                 spread = abs(prices[j] - prices[j - 1])
                 if spread > current_max_spread:
                     current_max_spread = spread
-- 
2.43.0


From d235e3801fd8066d049d24c0de83bba5d3747050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 04/37] fix: CUSUM bar indexer accepted arrays of different
 lengths

---
 finmlkit/bar/logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/logic.py b/finmlkit/bar/logic.py
index d95da3b..a9bac1f 100644
--- a/finmlkit/bar/logic.py
+++ b/finmlkit/bar/logic.py
@@ -171,7 +171,7 @@ def _cusum_bar_indexer(
     :param sigma_mult: sigma multiplier for the CUSUM filter (threshold will be lambda_mult*sigma).
     :returns: close_indices
     """
-    if len(prices) != len(sigma) != len(timestamps):
+    if len(prices) != len(sigma) or len(prices) != len(timestamps):
         raise ValueError("Prices, timestamps, and sigma arrays must have the same length.")
 
     n = len(prices)
-- 
2.43.0


From 6bc819ce551251cd7e41b8985ccfe3e63785296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 05/37] fix: CUSUMBarKit filled the gaps of the caller's sigma
 array in place

---
 finmlkit/bar/kit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/kit.py b/finmlkit/bar/kit.py
index f20f8db..c04ad4a 100644
--- a/finmlkit/bar/kit.py
+++ b/finmlkit/bar/kit.py
@@ -154,7 +154,7 @@ class CUSUMBarKit(BarBuilderBase):
         """
         super().__init__(trades)
         self.lambda_mult = sigma_mult
-        self._sigma = sigma
+        self._sigma = np.array(sigma, dtype=np.float64)  # own copy: the indexer fills its gaps in place
         self.sigma_floor = sigma_floor
 
         logger.info(f"CUSUM Bar builder initialized with: sigma multiplier={sigma_mult}.")
-- 
2.43.0


From 9b742fa25eb3097baf325ca280b3b08a21d34300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 06/37] fix: preprocessing misassigned buyer-maker flags when
 trades were sorted or deduplicated

---
 finmlkit/bar/data_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index e91437d..9fe6f2d 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -299,6 +299,10 @@ class TradesData:
         self.data_ok = True
         self.discontinuities = []  # Reset discontinuities list
 
+        if self.is_buyer_maker is not None:
+            # Keep the flag on its trade while the rows are reordered and dropped
+            self._data['is_buyer_maker'] = self.is_buyer_maker
+
         # Sort by ID to inspect data integrity
         self.data.sort_values(by=['id'], inplace=True)
         # Reset index
@@ -333,7 +337,7 @@ class TradesData:
             self.data['timestamp'].values.astype(np.int64),
             self.data['price'].values.astype(np.float64),
             self.data['amount'].values.astype(np.float32),
-            self.is_buyer_maker,
+            self.data['is_buyer_maker'].values if self.is_buyer_maker is not None else None,
         )
         self._data = pd.DataFrame({
             'timestamp': ts,
-- 
2.43.0


From 6bd963a79fd404ad5509115bfb26573c026e9fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:36 +0000
Subject: [PATCH 07/37] fix: appending trades to a stored month lost the
 earlier rows from its recorded time range

---
 finmlkit/bar/data_model.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 9fe6f2d..b55716e 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -537,12 +537,20 @@ class TradesData:
             # ------------------------------------------------------------------
             #  Update lightweight per‑group metadata (fast group discovery later)
             # ------------------------------------------------------------------
+            first_timestamp = int(frame["timestamp"].iloc[0])
+            last_timestamp = int(frame["timestamp"].iloc[-1])
+            if month_exists and not should_overwrite and meta_key in store:
+                # Appended: the recorded range has to cover the rows stored earlier as well
+                prev_meta = store.get(meta_key)
+                first_timestamp = min(first_timestamp, int(prev_meta["first_timestamp"]))
+                last_timestamp = max(last_timestamp, int(prev_meta["last_timestamp"]))
+
             meta = pd.Series(
                 {
                     "record_count": len(frame) if should_overwrite else (
                         store.get_storer(h5_key).nrows if month_exists else len(frame)),
-                    "first_timestamp": int(frame["timestamp"].iloc[0]),
-                    "last_timestamp": int(frame["timestamp"].iloc[-1]),
+                    "first_timestamp": first_timestamp,
+                    "last_timestamp": last_timestamp,
                     "data_integrity_ok": self.data_ok,  # Add integrity flag to main metadata
                     "missing_pct": self.missing_pct     # Add count of discontinuities
                 }
-- 
2.43.0


From 86f3eb7d3d68f431005860a7a9a195bd9dd54d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 08/37] fix: StochK passed high and close to the kernel in each
 other's place

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 2e99d41..d8e2157 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -300,7 +300,7 @@ class StochK(MISOTransform):
         low = input_dict[self.requires[1]]
         close = input_dict[self.requires[2]]
 
-        result = stoch_k(high, low, close, self.length)
+        result = stoch_k(close, low, high, self.length)
 
         return self._prepare_output_nb(x.index, result)
 
-- 
2.43.0


From 361c6b0f2ada3a53239c38f462146dd5c6ad8ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 09/37] fix: DailyGap compared the day's open with the same
 day's close instead of the previous day's

---
 finmlkit/feature/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index d8e2157..d73bda7 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1095,8 +1095,8 @@ class DailyGap(SISOTransform):
         # Get close prices at 00:00 UTC (first value of each day)
         midnight_close = series.resample('D').first()
 
-        # Get close prices at 23:45 UTC from previous day (last value of each day after shifting)
-        prev_2345_close = series.shift(1).resample('D').last()
+        # Get close prices at 23:45 UTC from previous day (last value of the preceding day)
+        prev_2345_close = series.resample('D').last().shift(1)
 
         # Calculate the gap as percentage change
         daily_gap = (midnight_close - prev_2345_close) / prev_2345_close
-- 
2.43.0


From 6d90ce9818a4510cfa9fb2686dc4178ed85e74b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:18 +0000
Subject: [PATCH 10/37] fix: PctChange, BarRate and the bar-duration transforms
 named their series differently from the advertised output name

---
 finmlkit/feature/transforms.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index d73bda7..e3b888d 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -194,7 +194,9 @@ class PctChange(SISOTransform):
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
         series = x[self.requires[0]]
-        return series.pct_change(self.periods)
+        outp = series.pct_change(self.periods)
+        outp.name = self.output_name
+        return outp
 
     def _nb(self, x: Union[pd.DataFrame, pd.Series]) -> pd.Series:
         input_arr = self._prepare_input_nb(x)
@@ -1260,7 +1262,7 @@ class BarRate(SISOTransform):
 
         # Count occurrences within the rolling window
         result = ones.rolling(window=window_td, closed='both').sum() / self.window_sec * 3600  # Convert to rate per hour
-        result.name = self.out_name
+        result.name = self.output_name
 
         return result
 
@@ -1498,7 +1500,7 @@ class BarDurationEWMA(SISOTransform):
         result = dur_s.ewm(span=self.span, adjust=True).mean()
 
         # Set the name of the result series explicitly to the direct name we want
-        result.name = self.out_name
+        result.name = self.output_name
 
         return result
 
@@ -1538,7 +1540,7 @@ class BarDuration(SISOTransform):
         dur_s = x.index.to_series().diff(self.periods).dt.total_seconds()
 
         # Set the name of the result series explicitly to the direct name we want
-        dur_s.name = self.out_name
+        dur_s.name = self.output_name
 
         return dur_s
 
-- 
2.43.0


From 03ba221db6f35ee98bb22880d2624261673548cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 11/37] fix: RSIWilder pandas backend wrote past the end of
 inputs not longer than the window

---
 finmlkit/feature/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index e3b888d..09f8980 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -236,6 +236,9 @@ class RSIWilder(SISOTransform):
 
         # Initialize results with NaNs
         rsi = pd.Series(np.nan, index=series.index)
+        if len(series) <= self.window:
+            rsi.name = self.output_name
+            return rsi
 
         # First average is simple average
         first_avg_gain = gains.iloc[1:self.window + 1].mean()
-- 
2.43.0


From e0bbc11e35a1f2df6c7d9823ccbf32c4ab50feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 12/37] fix: DirRunLen read past the end of a one-row input

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 09f8980..158b660 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1650,7 +1650,7 @@ class DirRunLen(SISOTransform):
         n = len(x)
         run_lengths = np.zeros(n, dtype=np.int8)
 
-        if n == 0:
+        if n < 2:
             return run_lengths
 
         prev_sign = np.sign(x[1])
-- 
2.43.0


From 6217fae219d182e1a027aaae8e743543c89167f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 13/37] fix: DirRunLen counter wrapped to negative after 127
 bars

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 158b660..7cd3f2e 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1648,7 +1648,7 @@ class DirRunLen(SISOTransform):
         :return: Array containing directional run lengths
         """
         n = len(x)
-        run_lengths = np.zeros(n, dtype=np.int8)
+        run_lengths = np.zeros(n, dtype=np.int32)
 
         if n < 2:
             return run_lengths
-- 
2.43.0


From af8f242e0db64f2f04f0fa5be00b3cbe71fdc4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 14/37] fix: single-trade bars take the previous trade's side
 for the spread

---
 finmlkit/bar/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index 141e092..296e978 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -482,7 +482,7 @@ def comp_bar_directional_features(
         current_cum_spread = 0.0
 
         # Initialize previous tick sign for spread calculation
-        if end > start and start > 0:
+        if end >= start and start > 0:
             prev_tick_sign = trade_sides[start - 1]  # Previous trade side at the start of the bar
         else:
             prev_tick_sign = 0  # Default value if no trades in bar or no trade before it
-- 
2.43.0


From 46e58f53ef1162a6bf5da54d08bab07f072b9642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 15/37] fix: bars without sided trades report zero cumulative
 imbalances

---
 finmlkit/bar/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index 296e978..fa40a27 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -526,6 +526,15 @@ def comp_bar_directional_features(
             cum_dollars_max[i] = max(cum_dollars_max[i], current_cum_dollars)
             cum_dollars_min[i] = min(cum_dollars_min[i], current_cum_dollars)
 
+        if current_tics_buy + current_tics_sell == 0:
+            # No sided trade in the bar: the cumulative imbalances never left zero
+            cum_ticks_max[i] = 0
+            cum_ticks_min[i] = 0
+            cum_volumes_max[i] = 0.0
+            cum_volumes_min[i] = 0.0
+            cum_dollars_max[i] = 0.0
+            cum_dollars_min[i] = 0.0
+
         ticks_buy[i] = current_tics_buy
         ticks_sell[i] = current_tics_sell
         volume_buy[i] = current_volume_buy
-- 
2.43.0


From 51dad489bbe42fdf914bb8ac37a676c43af89177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 16/37] fix: VWAP distance honours is_log in its first window

---
 finmlkit/feature/core/reversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/reversion.py b/finmlkit/feature/core/reversion.py
index afc990a..c6d1c1e 100644
--- a/finmlkit/feature/core/reversion.py
+++ b/finmlkit/feature/core/reversion.py
@@ -37,7 +37,10 @@ def vwap_distance(close: NDArray[np.float64],
         vsum += volume[k]
 
     if vsum > 0:
-        out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
+        if is_log:
+            out[n_periods-1] = np.log(close[n_periods-1] / (wsum / vsum))
+        else:
+            out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
 
     # rolling update
     for i in range(n_periods, n):
-- 
2.43.0


From ef3663bbfb76d8c8493303485237eaedb43aa590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 17/37] fix: a horizontal touch on the last bar has barrier
 ratio 1

---
 finmlkit/label/tbm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index b4afbdb..db10127 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -103,6 +103,7 @@ def triple_barrier(
         # ---------- Evaluate the path -----------
         side_mult = side[i_event]
         touch_idx = t1_idx
+        is_hit = False
         max_urbr = 0.0
         max_lrbr = 0.0
         base_price = log_close[t0_idx]  # Base price for calculating returns
@@ -127,9 +128,11 @@ def triple_barrier(
             # Check if we touch the barrier
             if ret >= upper_barrier:
                 touch_idx = j
+                is_hit = True
                 break
             if ret <= lower_barrier:
                 touch_idx = j
+                is_hit = True
                 break
 
         # ---------- Assign the label and other values ------------
@@ -144,7 +147,7 @@ def triple_barrier(
             labels[i_event] = sign if sign != 0 else 1
 
 
-        if touch_idx == t1_idx:
+        if not is_hit:
             # Calculate the maximum return-barrier ratio based sample weight
             if ret > 0.:
                 max_rbr = max_urbr / (1 + max_lrbr)
-- 
2.43.0


From 085c69c66110d0e97494de37b6505ef806d7c5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:59 +0000
Subject: [PATCH 18/37] fix: an infinite horizontal barrier is disabled
 whatever its sign

---
 finmlkit/label/tbm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index db10127..dbd060e 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -126,11 +126,11 @@ def triple_barrier(
                 max_lrbr = max(max_lrbr, ret / lower_barrier)
 
             # Check if we touch the barrier
-            if ret >= upper_barrier:
+            if np.isfinite(upper_barrier) and ret >= upper_barrier:
                 touch_idx = j
                 is_hit = True
                 break
-            if ret <= lower_barrier:
+            if np.isfinite(lower_barrier) and ret <= lower_barrier:
                 touch_idx = j
                 is_hit = True
                 break
-- 
2.43.0


From e6676747eaccb93a38f238875d8913b4bc3254c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 19/37] fix: missing values carry no weight in the time-decayed
 std

---
 finmlkit/feature/core/volatility.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index b4b16e7..c1389a6 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -184,16 +184,16 @@ def ewmst(
 
         yi = y[i]
 
-        # update weight sums
-        V  = alpha       + one_minus * V
-        V2 = alpha*alpha + (one_minus*one_minus) * V2
-
-        # update EWMA sums
+        # update weight sums and EWMA sums
         if np.isnan(yi):
-            # decay only
+            # decay only: a missing value carries no weight
+            V   = one_minus * V
+            V2  = (one_minus*one_minus) * V2
             Sy  = one_minus * Sy
             Syy = one_minus * Syy
         else:
+            V   = alpha            + one_minus * V
+            V2  = alpha*alpha      + (one_minus*one_minus) * V2
             Sy  = alpha * yi        + one_minus * Sy
             Syy = alpha * yi * yi   + one_minus * Syy
 
-- 
2.43.0


From 60446678532a513ddefa8bc401fc768529a8315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 20/37] fix: rsi_wilder reports 100 when the window has no
 losses, as the pandas backend does

---
 finmlkit/feature/core/momentum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index 962044b..a1e4d6d 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -49,7 +49,7 @@ def rsi_wilder(close: NDArray[np.float64], window: int) -> NDArray[np.float64]:
 
     avg_gain = sum_gain / window
     avg_loss = sum_loss / window
-    out[window] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else np.nan
+    out[window] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else 100.0
 
     # ----- Wilder smoothing -----
     for i in range(window + 1, n):
@@ -60,7 +60,7 @@ def rsi_wilder(close: NDArray[np.float64], window: int) -> NDArray[np.float64]:
         avg_gain = ((window - 1) * avg_gain + gain) / window
         avg_loss = ((window - 1) * avg_loss + loss) / window
 
-        out[i] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else np.nan
+        out[i] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else 100.0
 
     return out
 
-- 
2.43.0


From 76bd9d1c02bb143bb3e21a9705de861ac3c7af2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 21/37] fix: bi-power variation is scaled by 1/mu1^2 = pi/2,
 not by 1/mu1

---
 finmlkit/feature/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 7cd3f2e..fee767a 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1575,8 +1575,8 @@ class BiPowerVariation(SISOTransform):
         """
         super().__init__(input_col, f"bv_{window}")
         self.window = window
-        # 1 / mu1 where mu1 = E[|Z|] with Z ~ N(0,1)
-        self.mu1_inv_sq = (np.pi / 2)**0.5
+        # 1 / mu1^2 where mu1 = E[|Z|] with Z ~ N(0,1)
+        self.mu1_inv_sq = np.pi / 2
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
         """
-- 
2.43.0


From d77823246b40280730bc599223c65502b9e4c2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 22/37] fix: HurstExponent no longer raises for windows not
 longer than its largest lag

---
 finmlkit/feature/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index fee767a..764f59d 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1391,8 +1391,8 @@ class HurstExponent(SISOTransform):
                 taus.append(np.sqrt(np.var(diff)))
         taus = np.asarray(taus)
 
-        if np.all(taus > 0):
-            slope, _ = np.polyfit(np.log(lags), np.log(taus), 1)
+        if len(taus) > 1 and np.all(taus > 0):
+            slope, _ = np.polyfit(np.log(lags[:len(taus)]), np.log(taus), 1)
             return slope  # std-slope = H
         return np.nan
 
-- 
2.43.0


From fd997cdc9e3c6a9bc5113eecd838deb6663e7f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 23/37] fix: ReturnT, PctChange, EWMST and BarRate keep their
 window so that a saved configuration can rebuild them

---
 finmlkit/feature/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 764f59d..249798e 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -102,6 +102,7 @@ class ReturnT(SISOTransform):
         window_sec = window.total_seconds()
         output_col = f"ret{window_sec}s" if window_sec > 1e-6 else "ret1"
         super().__init__(input_col, output_col)
+        self.window = window
         self.window_sec = window_sec
         self.is_log = is_log
 
@@ -190,6 +191,7 @@ class PctChange(SISOTransform):
         :return: The percentage change of the signal.
         """
         super().__init__(input_col, f"pctc{window}")
+        self.window = window
         self.periods = window
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
@@ -323,6 +325,7 @@ class EWMST(SISOTransform):
         """
         half_life_sec = half_life.total_seconds()
         super().__init__(input_col, f"ewms{half_life_sec}s")
+        self.half_life = half_life
         self.half_life_sec = half_life_sec
 
     def _pd(self, x):
@@ -1240,6 +1243,7 @@ class BarRate(SISOTransform):
 
         super().__init__(input_col, output_name)
         self.out_name = output_name
+        self.window = window
         self.window_sec = window_sec
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
-- 
2.43.0


From 007e8bd698fde2288a00250b774d4af434b29f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 24/37] fix: numpy scalar parameters are serialized as numbers,
 not as their text

---
 finmlkit/feature/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index d6fad11..d2b7b57 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -26,6 +26,8 @@ def _serialize_value(val: Any) -> Any:
         pd = None
     if pd is not None and isinstance(val, pd.Timedelta):
         return {"__timedelta__": True, "seconds": val.total_seconds()}
+    if isinstance(val, np.generic):
+        return val.item()
     if isinstance(val, (str, int, float, bool)) or val is None:
         return val
     if isinstance(val, (list, tuple)):
-- 
2.43.0


From fdd17617aa132b57feb9026c27a0ed1c7751c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 25/37] fix: a restored unary operation keeps its output column
 name

---
 finmlkit/feature/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index d2b7b57..6e33c5c 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -261,7 +261,10 @@ def transform_from_config(cfg: Dict[str, Any]) -> BaseTransform:
         op = _maybe_unary_from_name(op_name)
         if op is None:
             raise ValueError(f"Unsupported unary op: {op_name}")
-        return UnaryOpTransform(child, op_name, op)
+        t = UnaryOpTransform(child, op_name, op)
+        if cfg.get("produces"):
+            t.produces = list(cfg["produces"])  # Feature.apply names its output after the feature it extends
+        return t
     if kind == "compose":
         # lazy import to avoid circular dependency at import-time
         from finmlkit.feature.kit import Compose  # type: ignore
-- 
2.43.0


From 401a1f5d98f64ff03fc18ff5fbc9bce300f4c336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 26/37] fix: unadjusted EMA features have their own name, so
 they neither collide with adjusted ones nor are restored as such

---
 finmlkit/feature/kit.py   | 2 +-
 finmlkit/feature/utils.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 341e6a9..c6d51c5 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -397,7 +397,7 @@ class Feature:
         :param adjust: Whether to adjust the EMA calculation (default is True)
         :return: A new Feature with EMA values
         """
-        return self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}")
+        return self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}" if adjust else f"ema{span}_noadj")
 
     def rolling_sum(self, window):
         """
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 6e33c5c..a66e937 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -115,9 +115,9 @@ def _maybe_unary_from_name(name: str):
             n = int(name[len(base):])
             return lambda x: x.rolling(window=n).sum()
         if name.startswith("ema"):
-            n = int(name[len("ema"):])
-            # Default to adjust=True (matches Feature.ema default)
-            return lambda x: x.ewm(span=n, adjust=True).mean()
+            adjust = not name.endswith("_noadj")
+            n = int(name[len("ema"):] if adjust else name[len("ema"):-len("_noadj")])
+            return lambda x: x.ewm(span=n, adjust=adjust).mean()
         if name.startswith("lag"):
             n = int(name[len("lag"):])
             return lambda x: x.shift(n)
-- 
2.43.0


From 7f5b8fb1af515e5d020b593d9bff4bb9589afa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 27/37] fix: Compose reuses a column only under the step's full
 output name

---
 finmlkit/feature/kit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index c6d51c5..d9315b4 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -681,7 +681,7 @@ class Compose(BaseTransform):
 
         current_series = None
         for i, tfs in enumerate(self.transforms):
-            out_name = tfs.produces[0]
+            out_name = tfs.output_name
 
             # If this step's output already exists, reuse it
             if out_name in x.columns:
-- 
2.43.0


From 42daea23e92ef1439a30d70a7f16a495b2d0fc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:15 +0000
Subject: [PATCH 28/37] fix: naming a computed feature no longer renames a
 column of the caller's frame

---
 finmlkit/feature/base.py | 12 ++++--------
 finmlkit/feature/kit.py  |  3 +--
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/finmlkit/feature/base.py b/finmlkit/feature/base.py
index 04d5585..f9c3441 100644
--- a/finmlkit/feature/base.py
+++ b/finmlkit/feature/base.py
@@ -1295,8 +1295,7 @@ class BinaryOpTransform(BaseTransform):
         else:
             right_result = self.right(x, backend=backend)
         result = self.op_func(left_result, right_result)
-        result.name = self.output_name
-        return result
+        return result.rename(self.output_name)
 
 
 class ConstantOpTransform(BaseTransform):
@@ -1328,8 +1327,7 @@ class ConstantOpTransform(BaseTransform):
         else:
             base = self.transform(x, backend=backend)
         result = self.op_func(base, self.constant)
-        result.name = self.output_name
-        return result
+        return result.rename(self.output_name)
 
 
 class UnaryOpTransform(BaseTransform):
@@ -1360,8 +1358,7 @@ class UnaryOpTransform(BaseTransform):
         else:
             base = self.transform(x, backend=backend)
         result = self.op_func(base)
-        result.name = self.output_name
-        return result
+        return result.rename(self.output_name)
 
 
 class MinMaxOpTransform(BaseTransform):
@@ -1405,5 +1402,4 @@ class MinMaxOpTransform(BaseTransform):
         else:
             right_result = self.right(x, backend=backend)
         result = self.op_func(left_result, right_result)
-        result.name = self.output_name
-        return result
+        return result.rename(self.output_name)
diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index d9315b4..7eaa82c 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -706,8 +706,7 @@ class Compose(BaseTransform):
             # If consumers expect caching to materialize, FeatureKit handles DataFrame accumulation.
 
         # Return the final output Series with the composed name
-        current_series.name = final_name
-        return current_series
+        return current_series.rename(final_name)
 
     def __call__(self, x: pd.DataFrame, *, backend="nb") -> pd.Series:
         """
-- 
2.43.0


From aefca9bbf4bb79aa9f00d22b0ee917cd9ebd1a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:48 +0000
Subject: [PATCH 29/37] fix: topological build order and operator inputs no
 longer depend on set iteration order

---
 finmlkit/feature/base.py  | 4 ++--
 finmlkit/feature/kit.py   | 6 +++---
 finmlkit/feature/utils.py | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/finmlkit/feature/base.py b/finmlkit/feature/base.py
index f9c3441..5a3ad6a 100644
--- a/finmlkit/feature/base.py
+++ b/finmlkit/feature/base.py
@@ -1258,7 +1258,7 @@ class BinaryOpTransform(BaseTransform):
     """Transform that applies binary operations between two transforms"""
     def __init__(self, left: BaseTransform, right: BaseTransform, op_name: str, op_func: Callable):
         # Combine all input requirements from both transforms
-        combined_inputs = list(set(left.requires + right.requires))
+        combined_inputs = list(dict.fromkeys(left.requires + right.requires))
         output_name = f"{op_name}({left.output_name},{right.output_name})"
         super().__init__(combined_inputs, output_name)
         self.left = left
@@ -1365,7 +1365,7 @@ class MinMaxOpTransform(BaseTransform):
     """Transform that applies min or max operations between two transforms"""
     def __init__(self, left: BaseTransform, right: BaseTransform, op_name: str, op_func: Callable):
         # Combine all input requirements from both transforms
-        combined_inputs = list(set(left.requires + right.requires))
+        combined_inputs = list(dict.fromkeys(left.requires + right.requires))
         output_name = f"{op_name}({left.output_name},{right.output_name})"
         super().__init__(combined_inputs, output_name)
         self.left = left
diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 7eaa82c..2b4e764 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -987,8 +987,8 @@ class FeatureKit:
         names = [str(f.name) for f in self.features]
         name_set = set(names)
         # Build subgraph edges between feature nodes
-        edges = {n: set() for n in name_set}
-        indeg = {n: 0 for n in name_set}
+        edges = {n: set() for n in names}
+        indeg = {n: 0 for n in names}
         for src, dests in g.edges.items():
             if src not in name_set:
                 continue
@@ -1002,7 +1002,7 @@ class FeatureKit:
         while zero:
             n = zero.pop(0)
             order.append(n)
-            for d in list(edges.get(n, [])):
+            for d in sorted(edges.get(n, []), key=names.index):
                 indeg[d] -= 1
                 if indeg[d] == 0:
                     zero.append(d)
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index a66e937..cd8c178 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -327,7 +327,7 @@ class ComputationGraph:
 
     def topological_sort(self) -> List[str]:
         # Kahn's algorithm
-        indeg = {n: 0 for n in self.nodes}
+        indeg = {n: 0 for n in sorted(self.nodes)}
         for src, dests in self.edges.items():
             for d in dests:
                 indeg[d] = indeg.get(d, 0) + 1
@@ -336,7 +336,7 @@ class ComputationGraph:
         while zero:
             n = zero.pop(0)
             order.append(n)
-            for d in list(self.edges.get(n, [])):
+            for d in sorted(self.edges.get(n, [])):
                 indeg[d] -= 1
                 if indeg[d] == 0:
                     zero.append(d)
@@ -353,7 +353,7 @@ class ComputationGraph:
 def _flatten_requires(t: BaseTransform) -> List[str]:
     # For op transforms, union child requires
     if isinstance(t, (BinaryOpTransform, MinMaxOpTransform)):
-        return list(set(_flatten_requires(t.left) + _flatten_requires(t.right)))
+        return list(dict.fromkeys(_flatten_requires(t.left) + _flatten_requires(t.right)))
     if isinstance(t, (UnaryOpTransform, ConstantOpTransform)):
         return _flatten_requires(t.transform)
     if hasattr(t, "transforms") and isinstance(getattr(t, "transforms", None), (list, tuple)):
-- 
2.43.0


From 6f6588a54e22c211e27a6ae1ef3825fbcce22f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 30/37] fix: footprint validation also checks the optional
 per-bar arrays

---
 finmlkit/bar/data_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index b55716e..440247f 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -1062,10 +1062,13 @@ class FootprintData:
         expected_length = len(self.bar_timestamps)
         attributes = [
             self.price_levels, self.buy_volumes, self.sell_volumes,
-            self.buy_ticks, self.sell_ticks, self.buy_imbalances, self.sell_imbalances
+            self.buy_ticks, self.sell_ticks, self.buy_imbalances, self.sell_imbalances,
+            self.cot_price_levels, self.sell_imbalances_sum, self.buy_imbalances_sum,
+            self.imb_max_run_signed, self.vp_skew, self.vp_gini
         ]
         for attr in attributes:
-            if len(attr) != expected_length:
+            # The optional per-bar arrays may be absent
+            if attr is not None and len(attr) != expected_length:
                 return False
         return True
 
-- 
2.43.0


From 41851fd08cccadc3d017de5e8f96d3d16ad43686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:20 +0000
Subject: [PATCH 31/37] fix: indexing a footprint with an integer gives that
 one bar

---
 finmlkit/bar/data_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 440247f..b8f0f45 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -894,6 +894,12 @@ class FootprintData:
                 start_idx, end_idx = self._datetime_index.slice_locs(start=key.start, end=key.stop)
                 return self[start_idx:end_idx]
 
+            if isinstance(key, int):
+                # A single bar is a container of one bar
+                if not -len(self) <= key < len(self):
+                    raise IndexError("Footprint index out of range.")
+                key = slice(key, key + 1 or None)
+
             # Handle integer index or regular slicing
             return FootprintData(
                 bar_timestamps=self.bar_timestamps[key],
-- 
2.43.0


From 0be592047ed555c540c0ea58a3a3c3a1f9cdc1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:00 +0000
Subject: [PATCH 32/37] fix: read event and feature times in nanoseconds
 whatever the index resolution

---
 finmlkit/feature/base.py | 2 +-
 finmlkit/label/kit.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/base.py b/finmlkit/feature/base.py
index 5a3ad6a..726c868 100644
--- a/finmlkit/feature/base.py
+++ b/finmlkit/feature/base.py
@@ -295,7 +295,7 @@ class CoreTransform(BaseTransform, ABC):
 
         """
         self._check_datetime_index(x)
-        return x.index.values.astype(np.int64)
+        return x.index.values.astype('datetime64[ns]').astype(np.int64)
 
     # --- to be implemented by children --------------------------------------
     @abstractmethod
diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index 776ea1f..be0f6b2 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -285,7 +285,7 @@ class TBMLabel:
         if "event_idx" in self._features.columns:
             event_idx = self._features.event_idx.values
         else:
-            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.values.astype(np.int64))
+            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.values.astype('datetime64[ns]').astype(np.int64))
 
         # Call the triple_barrier function
         labels, touch_idx, rets, max_rb_ratios = triple_barrier(
-- 
2.43.0


From 3051cb1bcc5323676ae3e49af086c505aea63f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:04 +0000
Subject: [PATCH 33/37] fix: keep converted trade times in 64 bits when the raw
 times are narrower

---
 finmlkit/bar/data_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index b8f0f45..7a34460 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -369,7 +369,7 @@ class TradesData:
         # trades.timestamp = pd.to_datetime(trades.timestamp, unit=timestamp_unit).astype(np.int64).values
         # Work directly on the underlying NumPy array for better performance
         factor = unit_scale_factor[self.orig_timestamp_unit]
-        self._data['timestamp'].values[:] = np.multiply(self.data['timestamp'].values, factor, dtype=np.int64)
+        self._data['timestamp'] = np.multiply(self.data['timestamp'].values, factor, dtype=np.int64)
 
     def _apply_timestamp_resolution(self, proc_res: Optional[str]) -> None:
         """
-- 
2.43.0


From 50ed5dacf32bd717cf69ab3ee5e6ac3ddcafc91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:45 +0000
Subject: [PATCH 34/37] fix: keep the quality flag and gap records of earlier
 rows when appending to a stored month

---
 finmlkit/bar/data_model.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 7a34460..a5062e0 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -539,9 +539,15 @@ class TradesData:
             # ------------------------------------------------------------------
             first_timestamp = int(frame["timestamp"].iloc[0])
             last_timestamp = int(frame["timestamp"].iloc[-1])
-            if month_exists and not should_overwrite and meta_key in store:
-                # Appended: the recorded range has to cover the rows stored earlier as well
+            data_ok, missing_pct = self.data_ok, self.missing_pct
+            appended = month_exists and not should_overwrite
+            if appended and meta_key in store:
+                # Appended: the record has to cover the rows stored earlier as well
                 prev_meta = store.get(meta_key)
+                if data_ok is not False and prev_meta["data_integrity_ok"] is not True:
+                    data_ok = prev_meta["data_integrity_ok"]
+                n_prev = int(prev_meta["record_count"])
+                missing_pct = (prev_meta["missing_pct"] * n_prev + missing_pct * len(frame)) / (n_prev + len(frame))
                 first_timestamp = min(first_timestamp, int(prev_meta["first_timestamp"]))
                 last_timestamp = max(last_timestamp, int(prev_meta["last_timestamp"]))
 
@@ -551,8 +557,8 @@ class TradesData:
                         store.get_storer(h5_key).nrows if month_exists else len(frame)),
                     "first_timestamp": first_timestamp,
                     "last_timestamp": last_timestamp,
-                    "data_integrity_ok": self.data_ok,  # Add integrity flag to main metadata
-                    "missing_pct": self.missing_pct     # Add count of discontinuities
+                    "data_integrity_ok": data_ok,  # Add integrity flag to main metadata
+                    "missing_pct": missing_pct     # Add count of discontinuities
                 }
             )
             store.put(meta_key, meta, format="fixed")
@@ -578,6 +584,8 @@ class TradesData:
                 # Save discontinuity data as DataFrame
                 if discontinuity_data:
                     disc_df = pd.DataFrame(discontinuity_data)
+                    if appended and integrity_key in store:
+                        disc_df = pd.concat([store[integrity_key], disc_df], ignore_index=True)
                     store.put(integrity_key, disc_df, format="table")
                     logger.info(f"Saved {len(disc_df)} trade ID discontinuities to metadata.")
 
-- 
2.43.0


From f64665f4d08578ba568c62ff1793fe9522b22f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 35/37] fix: daily bars up to a date keep the last day when it
 is complete

---
 finmlkit/bar/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 956336c..6d32c30 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -880,7 +880,9 @@ class TimeBarReader:
 
             # For daily bars, if the end date is specified without time component,
             # exclude the last day if it's incomplete
-            last_valid_day = original_end_time - pd.Timedelta(days=1)
+            last_valid_day = original_end_time
+            if self._list_time_range()[1] < end_time.floor("s"):
+                last_valid_day = original_end_time - pd.Timedelta(days=1)
             resampled = resampled[resampled.index <= last_valid_day]
             return resampled
         else:
-- 
2.43.0


From b685148006d3a48e309c3f2b9aaeaebafd111dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:21 +0000
Subject: [PATCH 36/37] fix: time bars of a month can be asked for by its name

---
 finmlkit/bar/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 6d32c30..2878c97 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -431,6 +431,7 @@ class AddTimeBarH5:
     def _check_keys(self, keys: list[str]):
         available_keys = self._list_keys()
         if keys:
+            keys = [f"/trades/{key.split('/')[-1]}" for key in keys]
             missing_keys = [key for key in keys if key not in available_keys]
             if missing_keys:
                 raise KeyError(f"Missing keys: {missing_keys}\nAvailable keys: {available_keys}")
@@ -465,9 +466,10 @@ class AddTimeBarH5:
         from finmlkit.utils.log import get_logger
         logger = get_logger(__name__)
 
-        # Derive timebar key from trade key
-        timebar_key = key.replace('/trades/', '/klines/')
+        # Derive timebar key from trade key or bare month
         month_key = key.split('/')[-1]
+        key = f'/trades/{month_key}'
+        timebar_key = f'/klines/{month_key}'
 
         # Check if time bars already exist
         with pd.HDFStore(self.h5_path, mode='r') as store:
-- 
2.43.0


From 5417504ca70565e8a79f5ce7731086b529304c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:49 +0000
Subject: [PATCH 37/37] fix: reading bars refuses a range whose end precedes
 its start

---
 finmlkit/bar/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 2878c97..76902c2 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -841,6 +841,9 @@ class TimeBarReader:
             original_end_time = end_time  # Store for later use in resampling
             end_time = end_time + pd.Timedelta(days=1) - pd.Timedelta(microseconds=1)
 
+        if start_time is not None and end_time is not None and start_time > end_time:
+            raise ValueError("start_time must not be after end_time.")
+
         # Find relevant keys
         relevant_keys = self._find_relevant_keys(start_time, end_time)
 
-- 
2.43.0


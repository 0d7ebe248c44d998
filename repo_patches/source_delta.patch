From 978cf70b527244a366b9971231ff57d09aea817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 01/20] fix: PSAR sets the downtrend SAR by position, not by
 index label

---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 553afad..8cd8623 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1027,7 +1027,7 @@ class PSARIndicator(IndicatorMixin):
                     high1 = self._high.iloc[i - 1]
                     high2 = self._high.iloc[i - 2]
                     if high2 > self._psar.iloc[i]:
-                        self._psar[i] = high2
+                        self._psar.iloc[i] = high2
                     elif high1 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high1
 
-- 
2.43.0


From 231807951bd79cb849cb7d93ddff580fdf80061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 02/20] fix: keep the PSAR outside the range of both previous
 bars

---
 ta/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 8cd8623..6186208 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1005,7 +1005,7 @@ class PSARIndicator(IndicatorMixin):
                     low2 = self._low.iloc[i - 2]
                     if low2 < self._psar.iloc[i]:
                         self._psar.iloc[i] = low2
-                    elif low1 < self._psar.iloc[i]:
+                    if low1 < self._psar.iloc[i]:
                         self._psar.iloc[i] = low1
             else:
                 self._psar.iloc[i] = self._psar.iloc[i - 1] - (
@@ -1028,7 +1028,7 @@ class PSARIndicator(IndicatorMixin):
                     high2 = self._high.iloc[i - 2]
                     if high2 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high2
-                    elif high1 > self._psar.iloc[i]:
+                    if high1 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high1
 
             up_trend = up_trend != reversal  # XOR
-- 
2.43.0


From 4da44faebef77534a2ed794166f94436ef13c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 03/20] fix: KAMA no longer uses the last closes for the first
 bars and accepts integer closes

---
 ta/momentum.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 69a4cda..4250263 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -315,11 +315,17 @@ class KAMAIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        close_values = self._close.values
-        vol = pd.Series(abs(self._close - np.roll(self._close, 1)))
+        close_values = self._close.values.astype("float64")
+        # bars before the first one are taken equal to the first close
+        first_close = close_values[:1]
+        prev_close = np.concatenate((first_close, close_values))[: close_values.size]
+        lag_close = np.concatenate(
+            (np.repeat(first_close, self._window), close_values)
+        )[: close_values.size]
+        vol = pd.Series(np.abs(close_values - prev_close), index=self._close.index)
 
         min_periods = 0 if self._fillna else self._window
-        er_num = abs(close_values - np.roll(close_values, self._window))
+        er_num = np.abs(close_values - lag_close)
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
         efficiency_ratio = np.divide(
             er_num, er_den, out=np.zeros_like(er_num), where=er_den != 0
-- 
2.43.0


From 721490b89b75eca5d44b8d756b79efe2c31e96f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 04/20] fix: TRIX does not fill its first bar with the mean of
 the whole history

---
 ta/trend.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 6186208..6fd7bf0 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -270,9 +270,8 @@ class TRIXIndicator(IndicatorMixin):
         ema1 = _ema(self._close, self._window, self._fillna)
         ema2 = _ema(ema1, self._window, self._fillna)
         ema3 = _ema(ema2, self._window, self._fillna)
-        self._trix = (ema3 - ema3.shift(1, fill_value=ema3.mean())) / ema3.shift(
-            1, fill_value=ema3.mean()
-        )
+        ema3_shift = ema3.shift(1)
+        self._trix = (ema3 - ema3_shift) / ema3_shift
         self._trix *= 100
 
     def trix(self) -> pd.Series:
-- 
2.43.0


From bb747e2d0a25b8959bf7b134bd6060b960b4e439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 05/20] fix: KST does not fill its first bars with the mean of
 the whole history

---
 ta/trend.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 6fd7bf0..b086b84 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -494,44 +494,32 @@ class KSTIndicator(IndicatorMixin):
         min_periods_n4 = 0 if self._fillna else self._window4
         rocma1 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r1, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r1, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r1))
+                / self._close.shift(self._r1)
             )
             .rolling(self._window1, min_periods=min_periods_n1)
             .mean()
         )
         rocma2 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r2, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r2, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r2))
+                / self._close.shift(self._r2)
             )
             .rolling(self._window2, min_periods=min_periods_n2)
             .mean()
         )
         rocma3 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r3, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r3, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r3))
+                / self._close.shift(self._r3)
             )
             .rolling(self._window3, min_periods=min_periods_n3)
             .mean()
         )
         rocma4 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r4, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r4, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r4))
+                / self._close.shift(self._r4)
             )
             .rolling(self._window4, min_periods=min_periods_n4)
             .mean()
-- 
2.43.0


From 67fce302163afbe0eec9c190401272e1f32a56a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 06/20] fix: DPO does not fill its first bars with the mean of
 the whole history

---
 ta/trend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index b086b84..4b0f0f3 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -583,9 +583,7 @@ class DPOIndicator(IndicatorMixin):
     def _run(self):
         min_periods = 0 if self._fillna else self._window
         self._dpo = (
-            self._close.shift(
-                int((0.5 * self._window) + 1), fill_value=self._close.mean()
-            )
+            self._close.shift(int((0.5 * self._window) + 1))
             - self._close.rolling(self._window, min_periods=min_periods).mean()
         )
 
-- 
2.43.0


From 87892a62bf459b3c43cd0c1ba39ec43bafe330a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 07/20] fix: Vortex does not use the mean of the whole history
 as the first previous close

---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 4b0f0f3..4dd057c 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -878,7 +878,7 @@ class VortexIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        close_shift = self._close.shift(1, fill_value=self._close.mean())
+        close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         min_periods = 0 if self._fillna else self._window
         trn = true_range.rolling(self._window, min_periods=min_periods).sum()
-- 
2.43.0


From 09e273dc4e00cf7f8bab4b151266ff149722dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 08/20] fix: shifted Ichimoku spans are not filled with the
 mean of the whole history

---
 ta/trend.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 4dd057c..d2d31e3 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -409,11 +409,7 @@ class IchimokuIndicator(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         spana = 0.5 * (self._conv + self._base)
-        spana = (
-            spana.shift(self._window2, fill_value=spana.mean())
-            if self._visual
-            else spana
-        )
+        spana = spana.shift(self._window2) if self._visual else spana
         spana = self._check_fillna(spana, value=-1)
         return pd.Series(spana, name=f"ichimoku_a_{self._window1}_{self._window2}")
 
@@ -427,11 +423,7 @@ class IchimokuIndicator(IndicatorMixin):
             self._high.rolling(self._window3, min_periods=0).max()
             + self._low.rolling(self._window3, min_periods=0).min()
         )
-        spanb = (
-            spanb.shift(self._window2, fill_value=spanb.mean())
-            if self._visual
-            else spanb
-        )
+        spanb = spanb.shift(self._window2) if self._visual else spanb
         spanb = self._check_fillna(spanb, value=-1)
         return pd.Series(spanb, name=f"ichimoku_b_{self._window1}_{self._window2}")
 
-- 
2.43.0


From 10fb396e44de92911adc8f92b6a3669fb71398e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 09/20] fix: Donchian outputs are filled after the offset is
 applied

---
 ta/volatility.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index 3bbf57e..a5739ae 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -376,9 +376,10 @@ class DonchianChannel(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        hband = self._check_fillna(self._hband, value=-1)
+        hband = self._hband
         if self._offset != 0:
             hband = hband.shift(self._offset)
+        hband = self._check_fillna(hband, value=-1)
         return pd.Series(hband, name="dchband")
 
     def donchian_channel_lband(self) -> pd.Series:
@@ -387,9 +388,10 @@ class DonchianChannel(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        lband = self._check_fillna(self._lband, value=-1)
+        lband = self._lband
         if self._offset != 0:
             lband = lband.shift(self._offset)
+        lband = self._check_fillna(lband, value=-1)
         return pd.Series(lband, name="dclband")
 
     def donchian_channel_mband(self) -> pd.Series:
@@ -399,9 +401,9 @@ class DonchianChannel(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         mband = ((self._hband - self._lband) / 2.0) + self._lband
-        mband = self._check_fillna(mband, value=-1)
         if self._offset != 0:
             mband = mband.shift(self._offset)
+        mband = self._check_fillna(mband, value=-1)
         return pd.Series(mband, name="dcmband")
 
     def donchian_channel_wband(self) -> pd.Series:
@@ -412,9 +414,9 @@ class DonchianChannel(IndicatorMixin):
         """
         mavg = self._close.rolling(self._window, min_periods=self._min_periods).mean()
         wband = ((self._hband - self._lband) / mavg) * 100
-        wband = self._check_fillna(wband, value=0)
         if self._offset != 0:
             wband = wband.shift(self._offset)
+        wband = self._check_fillna(wband, value=0)
         return pd.Series(wband, name="dcwband")
 
     def donchian_channel_pband(self) -> pd.Series:
@@ -424,9 +426,9 @@ class DonchianChannel(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         pband = (self._close - self._lband) / (self._hband - self._lband)
-        pband = self._check_fillna(pband, value=0)
         if self._offset != 0:
             pband = pband.shift(self._offset)
+        pband = self._check_fillna(pband, value=0)
         return pd.Series(pband, name="dcpband")
 
 
-- 
2.43.0


From afffd3a6ec744b05623b17527582f9ef4d0441de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 10/20] fix: Aroon counts the days since the extreme in
 shortened windows too

---
 ta/trend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index d2d31e3..90de637 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -44,12 +44,18 @@ class AroonIndicator(IndicatorMixin):
 
         rolling_high = self._high.rolling(self._window + 1, min_periods=min_periods)
         self._aroon_up = rolling_high.apply(
-            lambda x: float(np.argmax(x)) / self._window * 100, raw=True
+            lambda x: float(self._window - (len(x) - 1 - np.argmax(x)))
+            / self._window
+            * 100,
+            raw=True,
         )
 
         rolling_low = self._low.rolling(self._window + 1, min_periods=min_periods)
         self._aroon_down = rolling_low.apply(
-            lambda x: float(np.argmin(x)) / self._window * 100, raw=True
+            lambda x: float(self._window - (len(x) - 1 - np.argmin(x)))
+            / self._window
+            * 100,
+            raw=True,
         )
 
     def aroon_up(self) -> pd.Series:
-- 
2.43.0


From ee916491acfadaa0b9c0cc5bed73d405e4ee3b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 11/20] fix: OBV stays unchanged when the close is unchanged

---
 ta/volume.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index eabf4d2..85fbed4 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -83,7 +83,9 @@ class OnBalanceVolumeIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        obv = np.where(self._close < self._close.shift(1), -self._volume, self._volume)
+        close_shift = self._close.shift(1)
+        obv = np.where(self._close < close_shift, -self._volume, self._volume)
+        obv = np.where(self._close == close_shift, 0, obv)
         self._obv = pd.Series(obv, index=self._close.index).cumsum()
 
     def on_balance_volume(self) -> pd.Series:
-- 
2.43.0


From 087f3d6bbbc3b114e1301529c891379755d4d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 12/20] fix: ATR accepts histories shorter than its window

---
 ta/volatility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index a5739ae..bb80bcd 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -47,7 +47,8 @@ class AverageTrueRange(IndicatorMixin):
         close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         atr = np.zeros(len(self._close))
-        atr[self._window - 1] = true_range[0 : self._window].mean()
+        if len(atr) >= self._window:
+            atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
         for i in range(self._window, len(atr)):
             atr[i] = (atr[i - 1] * (self._window - 1) + true_range.iloc[i]) / float(
                 self._window
-- 
2.43.0


From 8c73df0b91f90f2461d23921df43039157d3c508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 13/20] fix: ADX accepts histories shorter than twice its
 window

---
 ta/trend.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 90de637..7ac916f 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -709,8 +709,9 @@ class ADXIndicator(IndicatorMixin):
 
         diff_directional_movement = pdm - pdn
 
+        size = max(len(self._close) - (self._window - 1), 1)
         self._trs_initial = np.zeros(self._window - 1)
-        self._trs = np.zeros(len(self._close) - (self._window - 1))
+        self._trs = np.zeros(size)
         self._trs[0] = diff_directional_movement.dropna().iloc[0 : self._window].sum()
         diff_directional_movement = diff_directional_movement.reset_index(drop=True)
 
@@ -727,7 +728,7 @@ class ADXIndicator(IndicatorMixin):
         pos = abs(((diff_up > diff_down) & (diff_up > 0)) * diff_up)
         neg = abs(((diff_down > diff_up) & (diff_down > 0)) * diff_down)
 
-        self._dip = np.zeros(len(self._close) - (self._window - 1))
+        self._dip = np.zeros(size)
         self._dip[0] = pos.dropna().iloc[0 : self._window].sum()
 
         pos = pos.reset_index(drop=True)
@@ -739,7 +740,7 @@ class ADXIndicator(IndicatorMixin):
                 + pos[self._window + i]
             )
 
-        self._din = np.zeros(len(self._close) - (self._window - 1))
+        self._din = np.zeros(size)
         self._din[0] = neg.dropna().iloc[0 : self._window].sum()
 
         neg = neg.reset_index(drop=True)
@@ -787,7 +788,8 @@ class ADXIndicator(IndicatorMixin):
                 directional_index[idx] = 0
 
         adx_series = np.zeros(len(self._trs))
-        adx_series[self._window] = directional_index[0 : self._window].mean()
+        if len(adx_series) > self._window:
+            adx_series[self._window] = directional_index[0 : self._window].mean()
 
         for i in range(self._window + 1, len(adx_series)):
             adx_series[i] = (
@@ -795,6 +797,7 @@ class ADXIndicator(IndicatorMixin):
             ) / float(self._window)
 
         adx_series = np.concatenate((self._trs_initial, adx_series), axis=0)
+        adx_series = adx_series[: len(self._close)]
         adx_series = pd.Series(data=adx_series, index=self._close.index)
         adx_series = self._check_fillna(adx_series, value=20)
 
-- 
2.43.0


From a54c89abe3e10620bc2ac4b6b3b1dc17a7b2ba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 14/20] fix: dropna also drops rows with minus infinity

---
 ta/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ta/utils.py b/ta/utils.py
index 9f93bab..2940f87 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -50,7 +50,9 @@ def dropna(df: pd.DataFrame) -> pd.DataFrame:
     """Drop rows with "Nans" values"""
     df = df.copy()
     number_cols = df.select_dtypes(include=np.number).columns.tolist()
-    df[number_cols] = df[number_cols][df[number_cols] < math.exp(709)]  # big number
+    df[number_cols] = df[number_cols][
+        df[number_cols].abs() < math.exp(709)
+    ]  # big number
     df[number_cols] = df[number_cols][df[number_cols] != 0.0]
     df = df.dropna()
     return df
-- 
2.43.0


From 11fe6850e2f369143a1a030b3401dd222ca71442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:37 +0000
Subject: [PATCH 15/20] fix: Keltner Channel raised OverflowError for unsigned
 integer price columns

---
 ta/volatility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index bb80bcd..e33d5cd 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -232,13 +232,14 @@ class KeltnerChannel(IndicatorMixin):
                 .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
+            # float factors: unsigned columns cannot be multiplied by -2
             self._tp_high = (
-                (((4 * self._high) - (2 * self._low) + self._close) / 3.0)
+                (((4.0 * self._high) - (2.0 * self._low) + self._close) / 3.0)
                 .rolling(self._window, min_periods=0)
                 .mean()
             )
             self._tp_low = (
-                (((-2 * self._high) + (4 * self._low) + self._close) / 3.0)
+                (((-2.0 * self._high) + (4.0 * self._low) + self._close) / 3.0)
                 .rolling(self._window, min_periods=0)
                 .mean()
             )
-- 
2.43.0


From 88baf83a24596ae6d57ba30dccdf9868881ea17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:37 +0000
Subject: [PATCH 16/20] fix: OBV wrapped around on falling bars when the volume
 column is unsigned

---
 ta/volume.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index 85fbed4..1156326 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -84,7 +84,8 @@ class OnBalanceVolumeIndicator(IndicatorMixin):
 
     def _run(self):
         close_shift = self._close.shift(1)
-        obv = np.where(self._close < close_shift, -self._volume, self._volume)
+        # -1.0: negating an unsigned volume would wrap around
+        obv = np.where(self._close < close_shift, -1.0 * self._volume, self._volume)
         obv = np.where(self._close == close_shift, 0, obv)
         self._obv = pd.Series(obv, index=self._close.index).cumsum()
 
-- 
2.43.0


From d36032015440776f0b1851cc55c44143ac3c3ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:37 +0000
Subject: [PATCH 17/20] fix: ADI and CMF wrapped around for unsigned integer
 price columns

---
 ta/volume.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ta/volume.py b/ta/volume.py
index 1156326..fdddbfe 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -45,7 +45,8 @@ class AccDistIndexIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        clv = ((self._close - self._low) - (self._high - self._close)) / (
+        # 1.0: unsigned columns would wrap around below zero
+        clv = (1.0 * (self._close - self._low) - (self._high - self._close)) / (
             self._high - self._low
         )
         clv = clv.fillna(0.0)  # float division by zero
@@ -133,7 +134,8 @@ class ChaikinMoneyFlowIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        mfv = ((self._close - self._low) - (self._high - self._close)) / (
+        # 1.0: unsigned columns would wrap around below zero
+        mfv = (1.0 * (self._close - self._low) - (self._high - self._close)) / (
             self._high - self._low
         )
         mfv = mfv.fillna(0.0)  # float division by zero
-- 
2.43.0


From e678cbb9a0a950907cde379a929c492650e88824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 18/20] fix: Ease of Movement wrapped around for unsigned
 integer price columns

---
 ta/volume.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index fdddbfe..7a92746 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -232,7 +232,8 @@ class EaseOfMovementIndicator(IndicatorMixin):
 
     def _run(self):
         self._emv = (
-            (self._high.diff(1) + self._low.diff(1))
+            # not diff(), which wraps around on unsigned columns
+            ((self._high - self._high.shift(1)) + (self._low - self._low.shift(1)))
             * (self._high - self._low)
             / (2 * self._volume)
         )
-- 
2.43.0


From 03a50277acb3061ff1d77e41495a6abeabd89c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 19/20] fix: RSI wrapped around on falling bars for unsigned
 integer price columns

---
 ta/momentum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 4250263..716665f 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -34,7 +34,8 @@ class RSIIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        diff = self._close.diff(1)
+        # not diff(), which wraps around on unsigned columns
+        diff = self._close - self._close.shift(1)
         up_direction = diff.where(diff > 0, 0.0)
         down_direction = -diff.where(diff < 0, 0.0)
         min_periods = 0 if self._fillna else self._window
-- 
2.43.0


From cd38a4910107d58de6833592f786018debd4ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 20/20] fix: Parabolic SAR wrapped around for unsigned integer
 price columns

---
 ta/trend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 7ac916f..b4edf5c 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -960,7 +960,8 @@ class PSARIndicator(IndicatorMixin):
         up_trend_high = self._high.iloc[0]
         down_trend_low = self._low.iloc[0]
 
-        self._psar = self._close.copy()
+        # floats: unsigned columns would wrap around below zero
+        self._psar = self._close.astype("float64")
         self._psar_up = pd.Series(index=self._psar.index, dtype="float64")
         self._psar_down = pd.Series(index=self._psar.index, dtype="float64")
 
-- 
2.43.0


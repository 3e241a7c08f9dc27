From cc719e6ffa98c2d627259da381635bd1c61334c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:33 +0000
Subject: [PATCH 01/23] fix: build hourly index for daily data with gaps

The gap branch used pandas APIs that no longer exist (Index.to_datetime,
pd.datetime) and raised AttributeError for any daily index with missing days.
---
 melodist/util/util.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 7550078..2cbf4af 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -28,17 +28,7 @@ def hourly_index(daily_index, fill_gaps=False):
 
     # remove days that are not in the daily index:
     if not fill_gaps and len(index) > len(daily_index) * 24:
-        df = pd.DataFrame(index=index.date, data=dict(hour=index.hour, keep=True))
-        df.index = df.index.to_datetime()
-        dropdates = list(set(index.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        index = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h)
-                for y, m, d, h in zip(df.index.year, df.index.month, df.index.day, df.hour)
-            ]
-        )
+        index = index[index.normalize().isin(daily_index.normalize())]
 
     return index
 
-- 
2.43.0


From 3f5ceabc888c6af83c5e5ba578c07f0a0a07513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:33 +0000
Subject: [PATCH 02/23] fix: build sub-daily indices for daily data with gaps

sub_level_index() and fmin_index() raised for daily indices with missing days
(pd.datetime was removed), and fmin_index() used an invalid frequency alias.
---
 melodist/precipitation.py | 43 +++------------------------------------
 1 file changed, 3 insertions(+), 40 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index fb8295f..f869f5d 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -712,27 +712,7 @@ def sub_level_index(daily_index, level=9, fill_gaps=False):
     # remove days that are not in the daily index:
     time_steps = 2**level
     if not fill_gaps and len(sublevel_index) > len(daily_index) * time_steps:
-        df = pd.DataFrame(
-            index=sublevel_index.date,
-            data=dict(
-                hour=sublevel_index.hour,
-                minute=sublevel_index.minute,
-                second=sublevel_index.second,
-                keep=True,
-            ),
-        )
-        df.index = pd.to_datetime(df.index)
-        dropdates = list(set(sublevel_index.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        sublevel_index = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h, minute, second)
-                for y, m, d, h, minute, second in zip(
-                    df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
-                )
-            ]
-        )
+        sublevel_index = sublevel_index[sublevel_index.normalize().isin(daily_index.normalize())]
 
     return sublevel_index
 
@@ -741,27 +721,10 @@ def fmin_index(daily_index, fill_gaps=False):
     fminindex = pd.date_range(
         start=daily_index.min(),
         end=daily_index.max().replace(hour=23, minute=59, second=59),
-        freq='300000L',
+        freq='300000ms',
     )
     # remove days that are not in the daily index:
     if not fill_gaps and len(fminindex) > len(daily_index) * 288:
-        df = pd.DataFrame(
-            index=fminindex.date,
-            data=dict(
-                hour=fminindex.hour, minute=fminindex.minute, second=fminindex.second, keep=True
-            ),
-        )
-        df.index = pd.to_datetime(df.index)  # got a warning at firsr: "to_datetime"is depreciated
-        dropdates = list(set(fminindex.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        fminindex = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h, minute, second)
-                for y, m, d, h, minute, second in zip(
-                    df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
-                )
-            ]
-        )
+        fminindex = fminindex[fminindex.normalize().isin(daily_index.normalize())]
 
     return fminindex
-- 
2.43.0


From 6bc5f253081c5d4fab7e12edc76e980d4331601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:33 +0000
Subject: [PATCH 03/23] fix: make master station precipitation disaggregation
 work again

Series.iteritems() was removed from pandas, so the method always raised.
Also create the result as a float series.
---
 melodist/precipitation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index f869f5d..45c2caa 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -386,10 +386,10 @@ def precip_master_station(precip_daily, master_precip_hourly, zerodiv):
         distribution
     """
 
-    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index))
+    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index), dtype=float)
 
     # set some parameters for cosine function
-    for index_d, precip in precip_daily.iteritems():
+    for index_d, precip in precip_daily.items():
         # get hourly data of the day
         index = index_d.date().isoformat()
         precip_h = master_precip_hourly[index]
-- 
2.43.0


From 244b4b943d10076a80c2a8ad6e127d010c0d9c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:33 +0000
Subject: [PATCH 04/23] fix: detect_gaps no longer uses the removed
 Timedelta.delta

---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 2cbf4af..fb6ca07 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -266,7 +266,7 @@ def detect_gaps(dataframe, timestep, print_all=False, print_max=5, verbose=True)
     for i in range(0, n):
         if i > 0:
             time_diff = dataframe.index[i] - dataframe.index[i - 1]
-            if time_diff.delta / 1e9 != timestep:
+            if time_diff.total_seconds() != timestep:
                 gcount += 1
                 if print_all or (msg_counter <= print_max - 1):
                     if verbose:
-- 
2.43.0


From 07ceff3f97666f942614cb14ce61b67020e9097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:33 +0000
Subject: [PATCH 05/23] fix: drop_incomplete_days keeps no row of an incomplete
 single day

The trailing scan stopped before the first row, so a series starting at the
first hour of the day but never reaching its last hour kept one stray row.
---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index fb6ca07..811a77e 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -331,7 +331,7 @@ def drop_incomplete_days(dataframe, shift=0):
             dropped += 1
 
     # drop tailing lines if required
-    for i in range(n - 1, 0, -1):
+    for i in range(n - 1, -1, -1):
         if dataframe.index.hour[i] == last and dataframe.index.minute[i] == 0:
             break
         else:
-- 
2.43.0


From 1929a961a81bb7985abebfeb736c69b9bbeb60d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:52 +0000
Subject: [PATCH 06/23] fix: use pd.concat in prepare_interpolation_data

Series.append() was removed from pandas, so Station.interpolate() always raised.
---
 melodist/util/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 811a77e..d173c14 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -346,14 +346,14 @@ def prepare_interpolation_data(data_daily, column_hours):
     start_date = data_daily.index[0]
     end_date = data_daily.index[-1]
 
-    data = pd.Series()
+    data = pd.Series(dtype=float)
 
     for column, hour in column_hours.items():
         index = pd.date_range(
             start=start_date.replace(hour=hour), end=end_date.replace(hour=hour), freq='D'
         )
         s = pd.Series(index=index, data=data_daily[column].values)
-        data = data.append(s)
+        data = pd.concat([data, s])
 
     data = data.sort_index()
     data = data.reindex(hourly_index(data_daily.index))
-- 
2.43.0


From b6139fa172f41058bca1bb51f5d279a286ab69bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:46 +0000
Subject: [PATCH 07/23] fix: temperature disaggregation works for series with
 polar nights

Boolean indexing with a diff() that contains NaN and Series.append() both fail
with current pandas, so any station with polar nights raised an error.
---
 melodist/temperature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index a5ad2b8..d30dc48 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -206,7 +206,7 @@ def disaggregate_temperature(
             temp_disagg[getting_colders_max_loc] = locdf_day.min_val_cur[getting_colders].values
 
             temp_polars = temp_disagg.loc[polars_index_hourly].copy()
-            transition_days = polars[polars.diff()].astype(
+            transition_days = polars[polars != polars.shift(1, fill_value=polars.iloc[0])].astype(
                 int
             )
             # (0 where transition from polar to "normal" mode, 1 where transition from normal to
@@ -219,8 +219,8 @@ def disaggregate_temperature(
                 )
                 add_days = polar_to_normal_days.union(normal_to_polar_days)
 
-                temp_polars = temp_polars.append(
-                    temp_disagg[melodist.util.hourly_index(add_days)]
+                temp_polars = pd.concat(
+                    [temp_polars, temp_disagg[melodist.util.hourly_index(add_days)]]
                 ).sort_index()
 
                 for day in polar_to_normal_days:
-- 
2.43.0


From 86af6de0596368715138558259ebcde8457b0199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:46 +0000
Subject: [PATCH 08/23] fix: write daily minimum and maximum temperature to the
 matching SMET fields

write_smet() stored tmin as TMAX and tmax as TMIN.
---
 melodist/data_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 0fe8ba3..b6060cf 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -244,8 +244,8 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
     # daily data
     dict_d = {
         'tmean': 'TA',
-        'tmin': 'TMAX',  # no spec
-        'tmax': 'TMIN',  # no spec
+        'tmin': 'TMIN',  # no spec
+        'tmax': 'TMAX',  # no spec
         'precip': 'PSUM',
         'glob': 'ISWR',  # no spec
         'hum': 'RH',
-- 
2.43.0


From 348e63037e6805a18b35b7e19cf1691c052b80b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:46 +0000
Subject: [PATCH 09/23] fix: read_smet no longer deletes the index name
 attribute

Deleting Index.name raises AttributeError, so read_smet() always failed.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index b6060cf..41e72c4 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -93,7 +93,7 @@ def read_smet(filename, mode):
 
     data = data * multiplier
 
-    del data.index.name
+    data.index.name = None
 
     # rename columns
     if mode == "d":
-- 
2.43.0


From b860a2cc9f2ca01e522915e0a2d5afa3a0dd7f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:11:34 +0000
Subject: [PATCH 10/23] fix: write_smet drops columns without data as
 documented

The sum of an all-NaN column is 0 by default, so check_nan never dropped any
column.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 41e72c4..995f357 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -263,7 +263,7 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
 
     if check_nan:
         # get all columns with data
-        datas_in = data.sum().dropna().to_frame().T
+        datas_in = data.sum(min_count=1).dropna().to_frame().T
         # get colums with no datas
         drop = [data_nan for data_nan in data.columns if data_nan not in datas_in]
         # delete columns
-- 
2.43.0


From 44ab8d52b5cb4d121705c7c3decfc2c613abd050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:30 +0000
Subject: [PATCH 11/23] fix: read KNMI files with current pandas

The date_parser, nested parse_dates and keep_date_col options were removed from
read_csv(), so read_single_knmi_file() always raised.
---
 melodist/data_io.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 995f357..851a1d3 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -320,18 +320,15 @@ def read_single_knmi_file(filename):
     """
     hourly_data_obs_raw = pd.read_csv(
         filename,
-        parse_dates=[['YYYYMMDD', 'HH']],
-        date_parser=lambda yyyymmdd, hh: pd.datetime(
-            int(str(yyyymmdd)[0:4]), int(str(yyyymmdd)[4:6]), int(str(yyyymmdd)[6:8]), int(hh) - 1
-        ),
         skiprows=31,
         skipinitialspace=True,
         na_values='',
-        keep_date_col=True,
     )
 
-    hourly_data_obs_raw.index = hourly_data_obs_raw['YYYYMMDD_HH']
-    hourly_data_obs_raw.index = hourly_data_obs_raw.index + pd.Timedelta(hours=1)
+    # hours are numbered from 1 to 24
+    dates = pd.to_datetime(hourly_data_obs_raw['YYYYMMDD'].astype(str), format='%Y%m%d')
+    hours = pd.to_timedelta(hourly_data_obs_raw['HH'], unit='h')
+    hourly_data_obs_raw.index = pd.DatetimeIndex(dates + hours, name='YYYYMMDD_HH')
 
     columns_hourly = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
 
-- 
2.43.0


From 287ef50063c64b3ac13754872ae5d7ac59acc1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:30 +0000
Subject: [PATCH 12/23] fix: read hourly DWD files with current pandas

The date_parser option was removed from read_csv(), so read_dwd(mode='h')
always raised.
---
 melodist/data_io.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 851a1d3..f256cb6 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -167,24 +167,15 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
 
         # hourly data must be parsed by custom definition
         if mode == "h":
-
-            def date_parser(date_time):
-                hour = date_time[8:10]
-                day = date_time[6:8]
-                month = date_time[4:6]
-                year = date_time[0:4]
-                minute = '00'
-                sec = '00'
-                return pd.Timestamp('%s-%s-%s %s:%s:%s' % (year, month, day, hour, minute, sec))
-
             data = pd.read_csv(
                 filename,
                 sep=';',
                 na_values='-999',
                 index_col=' MESS_DATUM',
-                date_parser=date_parser,
+                dtype={' MESS_DATUM': str},
                 skiprows=skip_last,
             )
+            data.index = pd.to_datetime(data.index.str[0:10], format='%Y%m%d%H')
 
         # remove whitespace from header columns
         data.rename(columns=lambda x: x.strip(), inplace=True)
-- 
2.43.0


From c2b2b08da0326310cdb86d1d38e35c30c34b6245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:30 +0000
Subject: [PATCH 13/23] fix: read_dwd(skip_last=False) keeps the last line of
 the file

---
 melodist/data_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index f256cb6..37e96b3 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -150,9 +150,11 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
         }
 
         # ---read data------------------
-        if skip_last is not None:
+        if skip_last:
             num_lines = sum(1 for line in open(filename))
             skip_last = [num_lines - 1]
+        else:
+            skip_last = None
 
         # hourly data must be parsed by custom definition
         if mode == "d":
-- 
2.43.0


From f33be08d8a14016274c2aeabf3f15bd8368f5363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:14 +0000
Subject: [PATCH 14/23] fix: build_casc handles missing values alike for all
 seasons

Missing values were only replaced after the subset for the first season had
been taken, so the first season was evaluated with NaN values and all others
without. The replacement also modified the observations of the caller.
---
 melodist/precipitation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 45c2caa..1fbbbca 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -657,10 +657,13 @@ def build_casc(ObsData, hourly=True, level=9, months=None, avg_stats=True, perce
     if months is None:
         months = [np.arange(12) + 1]
 
+    # treat missing values as dry (without changing the data of the caller)
+    ObsData = ObsData.copy()
+    ObsData['precip'] = ObsData['precip'].fillna(0)
+
     # Parameter estimation for each season
     for cur_months in months:
         vdn = seasonal_subset(ObsData, cur_months)
-        ObsData['precip'] = ObsData['precip'].fillna(0)
 
         casc_opt = melodist.cascade.CascadeStatistics()
         casc_opt.percentile = percentile
-- 
2.43.0


From 791c21ce3754148958f2e628bb83015963bdcaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:14 +0000
Subject: [PATCH 15/23] fix: cascade always selects a weight class

If the cumulative weight probabilities stay below 1 due to rounding and the
random number exceeds them, w1 was undefined (or left over from another box).
---
 melodist/precipitation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 1fbbbca..1df838a 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -258,7 +258,8 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
                     # we need a new random number
                     rndw = np.random.random()
 
-                    # guess w1:
+                    # guess w1 (highest class if the cumulative probabilities do not reach 1):
+                    w1 = wclassbounds[7] - 1.0 / 14.0
                     for k in range(0, 7):
                         if rndw <= wxxcum[k, belowabove, vbtype - 1]:
                             w1 = wclassbounds[k + 1] - 1.0 / 14.0  # class center
-- 
2.43.0


From cf9978a1692109a394a42364f911d377f59e79ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:27 +0000
Subject: [PATCH 16/23] fix: potential radiation is defined for the sun in the
 zenith and at the poles

Rounding pushed the arguments of arccos and arcsin above 1, and a zenith angle
of 0 led to a division 0/0. The result was NaN although the sun was shining.
---
 melodist/radiation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 325808c..1f6d939 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -166,7 +166,7 @@ def potential_radiation(
     cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
         solar_decline
     ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
-    cos_solar_zenith = cos_solar_zenith.clip(min=0)
+    cos_solar_zenith = cos_solar_zenith.clip(0, 1)
     solar_zenith_angle = np.arccos(cos_solar_zenith)
 
     # compute transmissivities for direct and diffus radiation using cloud fraction
@@ -184,7 +184,10 @@ def potential_radiation(
     )
     solar_constant_times_radius_ratio = solar_constant * radius_ratio
 
-    mu = np.arcsin(np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle))
+    # solar azimuth (undefined if the sun is in the zenith, but then it has no effect)
+    sin_zenith = np.sin(solar_zenith_angle)
+    sin_mu = np.cos(solar_decline) * np.sin(hour_angle) / np.where(sin_zenith > 0, sin_zenith, 1.0)
+    mu = np.arcsin(sin_mu.clip(-1, 1))
     cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
         solar_zenith_angle
     ) * np.cos(mu - terrain_slope_azimuth)
-- 
2.43.0


From 92ea53bdf30382f4e9717be5267d41e63b63072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:29 +0000
Subject: [PATCH 17/23] fix: disaggregated radiation is 0 instead of NaN during
 polar nights

On days without potential radiation the scaling was 0/0.
---
 melodist/radiation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 1f6d939..e692368 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -96,6 +96,8 @@ def disaggregate_radiation(
     )  # hourly values (replicate daily mean value for each hour)
     pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
     glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
+    # no potential radiation on this day (polar night)
+    glob_disagg[(pot_rad_daily_equal == 0) & globalrad_equal.notnull()] = 0.0
     glob_disagg[glob_disagg < 1e-2] = 0.0
 
     return glob_disagg
-- 
2.43.0


From 54152bb6ef129083e72fec1e415da414a6c11449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:29 +0000
Subject: [PATCH 18/23] fix: fit monthly Bristow-Campbell parameters if
 sunshine duration is given

The month ranges were an iterator that had already been consumed by fitting the
Angstroem parameters.
---
 melodist/stationstatistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 9e426c0..714ed9b 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -150,7 +150,7 @@ class StationStatistics(object):
             elif how == 'seasonal':
                 month_ranges = [[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]]
             elif how == 'monthly':
-                month_ranges = zip(np.arange(12) + 1)
+                month_ranges = list(zip(np.arange(12) + 1))
 
             def myisin(s, v):
                 return pd.Series(s).isin(v).values
-- 
2.43.0


From 4edabfd3dc10ec8371e0cfd2e8b7d7ca12bab1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:07 +0000
Subject: [PATCH 19/23] fix: load statistics that do not cover all months

from_json() required mean courses for all 12 months and raised KeyError for
statistics derived from observations covering only part of the year.
---
 melodist/stationstatistics.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 714ed9b..e59e1e1 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -257,14 +257,11 @@ class StationStatistics(object):
             ).sort_index()
 
         if stats.temp.mean_course is not None:
-            mc = (
-                pd.read_json(
-                    io.StringIO(json.dumps(stats.temp.mean_course)),
-                    typ='frame',
-                )
-                .sort_index()
-            )[np.arange(1, 12 + 1)]
-            stats.temp.mean_course = mc.sort_index()[np.arange(1, 12 + 1)]
+            mc = pd.read_json(
+                io.StringIO(json.dumps(stats.temp.mean_course)),
+                typ='frame',
+            )
+            stats.temp.mean_course = mc.sort_index().sort_index(axis=1)
 
         if stats.hum.month_hour_precip_mean is not None:
             mhpm = pd.read_json(
@@ -283,6 +280,6 @@ class StationStatistics(object):
                 ).sort_index()
 
         if stats.glob.mean_course is not None:
-            stats.glob.mean_course = stats.glob.mean_course[np.arange(1, 12 + 1)]
+            stats.glob.mean_course = stats.glob.mean_course.sort_index(axis=1)
 
         return stats
-- 
2.43.0


From 5d88681671784ba0f756b2c78c637d96ac9958c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:07 +0000
Subject: [PATCH 20/23] fix: update sun times if the location of a station
 changes

Setting lon, lat or timezone after assigning daily data left sun times of the
old location (or none at all), which then entered the disaggregation.
---
 melodist/station.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/melodist/station.py b/melodist/station.py
index 297bb9a..3a0b387 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -116,6 +116,7 @@ class Station(object):
     def lon(self, lon):
         self._lon = lon
         self.statistics._lon = lon
+        self._update_sun_times()
 
     @property
     def lat(self):
@@ -128,6 +129,7 @@ class Station(object):
     def lat(self, lat):
         self._lat = lat
         self.statistics._lat = lat
+        self._update_sun_times()
 
     @property
     def timezone(self):
@@ -143,6 +145,7 @@ class Station(object):
     def timezone(self, timezone):
         self._timezone = timezone
         self.statistics._timezone = timezone
+        self._update_sun_times()
 
     @property
     def statistics(self):
@@ -169,6 +172,11 @@ class Station(object):
 
         return self._data_disagg
 
+    def _update_sun_times(self):
+        # keep the sun times consistent with the location
+        if self.data_daily is not None and None not in (self.lon, self.lat, self.timezone):
+            self.calc_sun_times()
+
     def calc_sun_times(self):
         """
         Computes the times of sunrise, solar noon, and sunset for each day.
-- 
2.43.0


From 723ddcf4c8065e5ab4ce1979fec49bff31322165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:09 +0000
Subject: [PATCH 21/23] fix: preserve maximum temperature during midnight sun
 with sun_loc

Sunrise is wrapped to the end of the day then, so that the minimum was placed
after the maximum and the maximum of the previous day was used for all hours.
---
 melodist/temperature.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index d30dc48..7d14573 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -109,6 +109,9 @@ def disaggregate_temperature(
         locdf.min_loc = locdf.min_loc.astype(int)
         locdf.max_loc = locdf.max_loc.astype(int)
 
+        # sunrise before midnight (midnight sun): assume minimum at the beginning of the day
+        locdf.loc[locdf.min_loc > locdf.max_loc, 'min_loc'] = 0
+
         locdf.min_val_cur = data_daily.tmin
         locdf.max_val_cur = data_daily.tmax
         locdf.mean_val_cur = data_daily.temp
-- 
2.43.0


From 0f095717c57f29e89f1396d4d47b02ebedcf5601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:49 +0000
Subject: [PATCH 22/23] fix: temperature disaggregation when a polar night
 begins after a gap in the daily data

---
 melodist/temperature.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 7d14573..63032ba 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -220,11 +220,14 @@ def disaggregate_temperature(
                 normal_to_polar_days = transition_days.index[transition_days == 1] - pd.Timedelta(
                     days=1
                 )
+                # the preceding day might not be part of the dataset
+                normal_to_polar_days = normal_to_polar_days.intersection(polars.index)
                 add_days = polar_to_normal_days.union(normal_to_polar_days)
 
-                temp_polars = pd.concat(
-                    [temp_polars, temp_disagg[melodist.util.hourly_index(add_days)]]
-                ).sort_index()
+                if len(add_days) > 0:
+                    temp_polars = pd.concat(
+                        [temp_polars, temp_disagg[melodist.util.hourly_index(add_days)]]
+                    ).sort_index()
 
                 for day in polar_to_normal_days:
                     min_loc = int(locdf.loc[day].min_loc)
-- 
2.43.0


From ca3d451fb72265ac429882fa3b44eb6a1f7366eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:54:19 +0000
Subject: [PATCH 23/23] fix: accept daily data for a station whose location is
 not complete

Assigning daily data with a time zone but without longitude or latitude
raised a TypeError from the sun time computation after half of the
assignment had been done. Sun times are now computed as soon as the
location is complete.
---
 melodist/station.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/melodist/station.py b/melodist/station.py
index 3a0b387..f448ce5 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -102,8 +102,7 @@ class Station(object):
         df = pd.DataFrame(index=index, columns=Station._columns_hourly, dtype=float)
         self._data_disagg = df
 
-        if self.timezone is not None:
-            self.calc_sun_times()
+        self._update_sun_times()
 
     @property
     def lon(self):
-- 
2.43.0


From 4e101097f5dc9629f85528c0f66abe3cdbc392f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:45 +0000
Subject: [PATCH 01/36] fix: build hourly index for daily data with missing
 days

hourly_index() used Index.to_datetime() and pd.datetime, which no longer
exist in pandas, so any daily index with gaps raised AttributeError. This
also broke the cascade model for seasons that are not contiguous, e.g.
December to February within one calendar year.
---
 melodist/util/util.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 7550078..2cbf4af 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -28,17 +28,7 @@ def hourly_index(daily_index, fill_gaps=False):
 
     # remove days that are not in the daily index:
     if not fill_gaps and len(index) > len(daily_index) * 24:
-        df = pd.DataFrame(index=index.date, data=dict(hour=index.hour, keep=True))
-        df.index = df.index.to_datetime()
-        dropdates = list(set(index.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        index = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h)
-                for y, m, d, h in zip(df.index.year, df.index.month, df.index.day, df.hour)
-            ]
-        )
+        index = index[index.normalize().isin(daily_index.normalize())]
 
     return index
 
-- 
2.43.0


From bf46b3489f4d4c8893d37f7a924f0a0cc4f34399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:45 +0000
Subject: [PATCH 02/36] fix: disaggregate precipitation to 5 minutes for daily
 data with missing days

sub_level_index() and fmin_index() relied on pd.datetime and on the 'L'
frequency alias, both removed from pandas. Days absent from the daily
index no longer show up in the 5 minute result as dry days.
---
 melodist/precipitation.py | 45 +++++----------------------------------
 1 file changed, 5 insertions(+), 40 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index fb8295f..352d579 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -309,6 +309,8 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
             index=sub_level_index(precip_daily.index, level=level, fill_gaps=False), data=vdn_out
         )
         disagg_precip = precip_sn.resample('5min').sum()
+        # resampling also creates time steps for days that are not in the daily index
+        disagg_precip = disagg_precip.reindex(fmin_index(precip_daily.index))
 
     # set missing days to nan again:
     for date in missing_days:
@@ -712,27 +714,7 @@ def sub_level_index(daily_index, level=9, fill_gaps=False):
     # remove days that are not in the daily index:
     time_steps = 2**level
     if not fill_gaps and len(sublevel_index) > len(daily_index) * time_steps:
-        df = pd.DataFrame(
-            index=sublevel_index.date,
-            data=dict(
-                hour=sublevel_index.hour,
-                minute=sublevel_index.minute,
-                second=sublevel_index.second,
-                keep=True,
-            ),
-        )
-        df.index = pd.to_datetime(df.index)
-        dropdates = list(set(sublevel_index.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        sublevel_index = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h, minute, second)
-                for y, m, d, h, minute, second in zip(
-                    df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
-                )
-            ]
-        )
+        sublevel_index = sublevel_index[sublevel_index.normalize().isin(daily_index.normalize())]
 
     return sublevel_index
 
@@ -741,27 +723,10 @@ def fmin_index(daily_index, fill_gaps=False):
     fminindex = pd.date_range(
         start=daily_index.min(),
         end=daily_index.max().replace(hour=23, minute=59, second=59),
-        freq='300000L',
+        freq='5min',
     )
     # remove days that are not in the daily index:
     if not fill_gaps and len(fminindex) > len(daily_index) * 288:
-        df = pd.DataFrame(
-            index=fminindex.date,
-            data=dict(
-                hour=fminindex.hour, minute=fminindex.minute, second=fminindex.second, keep=True
-            ),
-        )
-        df.index = pd.to_datetime(df.index)  # got a warning at firsr: "to_datetime"is depreciated
-        dropdates = list(set(fminindex.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        fminindex = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h, minute, second)
-                for y, m, d, h, minute, second in zip(
-                    df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
-                )
-            ]
-        )
+        fminindex = fminindex[fminindex.normalize().isin(daily_index.normalize())]
 
     return fminindex
-- 
2.43.0


From dfe229e57a748cb250379786c04e59ae4f0381ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:45 +0000
Subject: [PATCH 03/36] fix: make the master station precipitation method work
 with current pandas

Series.iteritems() was removed in pandas 2, so method='masterstation'
always raised AttributeError.
---
 melodist/precipitation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 352d579..6f4a54f 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -388,10 +388,10 @@ def precip_master_station(precip_daily, master_precip_hourly, zerodiv):
         distribution
     """
 
-    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index))
+    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index), dtype=float)
 
     # set some parameters for cosine function
-    for index_d, precip in precip_daily.iteritems():
+    for index_d, precip in precip_daily.items():
         # get hourly data of the day
         index = index_d.date().isoformat()
         precip_h = master_precip_hourly[index]
-- 
2.43.0


From 37199cf6500714b94b0c6afe6e7cbbfebc36e662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:45 +0000
Subject: [PATCH 04/36] fix: detect_gaps() with current pandas

Timedelta.delta was removed in pandas 2, so every call on a data frame
with more than one row raised AttributeError.
---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 2cbf4af..fb6ca07 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -266,7 +266,7 @@ def detect_gaps(dataframe, timestep, print_all=False, print_max=5, verbose=True)
     for i in range(0, n):
         if i > 0:
             time_diff = dataframe.index[i] - dataframe.index[i - 1]
-            if time_diff.delta / 1e9 != timestep:
+            if time_diff.total_seconds() != timestep:
                 gcount += 1
                 if print_all or (msg_counter <= print_max - 1):
                     if verbose:
-- 
2.43.0


From e5a6ef23fadb154e22f722640e5ab2edc594a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:45 +0000
Subject: [PATCH 05/36] fix: Station.interpolate() with current pandas

Series.append() was removed in pandas 2, so prepare_interpolation_data()
always raised AttributeError.
---
 melodist/util/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index fb6ca07..78d1e9c 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -346,16 +346,16 @@ def prepare_interpolation_data(data_daily, column_hours):
     start_date = data_daily.index[0]
     end_date = data_daily.index[-1]
 
-    data = pd.Series()
+    data = []
 
     for column, hour in column_hours.items():
         index = pd.date_range(
             start=start_date.replace(hour=hour), end=end_date.replace(hour=hour), freq='D'
         )
         s = pd.Series(index=index, data=data_daily[column].values)
-        data = data.append(s)
+        data.append(s)
 
-    data = data.sort_index()
+    data = pd.concat(data).sort_index()
     data = data.reindex(hourly_index(data_daily.index))
 
     return data
-- 
2.43.0


From 207d1be7036d8783d4aa0d44eb72e3e2ec8e855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:45 +0000
Subject: [PATCH 06/36] fix: temperature disaggregation during polar nights

Masking with a boolean diff (first element is NaN) and Series.append() both
fail with current pandas, so the sine methods raised an error as soon as
one day of the period was a polar night.
---
 melodist/temperature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index a5ad2b8..cf3d23b 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -206,7 +206,7 @@ def disaggregate_temperature(
             temp_disagg[getting_colders_max_loc] = locdf_day.min_val_cur[getting_colders].values
 
             temp_polars = temp_disagg.loc[polars_index_hourly].copy()
-            transition_days = polars[polars.diff()].astype(
+            transition_days = polars[polars != polars.shift(fill_value=polars.iloc[0])].astype(
                 int
             )
             # (0 where transition from polar to "normal" mode, 1 where transition from normal to
@@ -219,8 +219,8 @@ def disaggregate_temperature(
                 )
                 add_days = polar_to_normal_days.union(normal_to_polar_days)
 
-                temp_polars = temp_polars.append(
-                    temp_disagg[melodist.util.hourly_index(add_days)]
+                temp_polars = pd.concat(
+                    [temp_polars, temp_disagg[melodist.util.hourly_index(add_days)]]
                 ).sort_index()
 
                 for day in polar_to_normal_days:
-- 
2.43.0


From e5c368490f4454273eb32a891800b7208e7edcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:45 +0000
Subject: [PATCH 07/36] fix: read_smet() with current pandas

The index name can no longer be deleted, so reading any SMET file raised
AttributeError.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 0fe8ba3..70d53ae 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -93,7 +93,7 @@ def read_smet(filename, mode):
 
     data = data * multiplier
 
-    del data.index.name
+    data.index.name = None
 
     # rename columns
     if mode == "d":
-- 
2.43.0


From 314a3093a16388c1f4045384006fbcff8156a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:45 +0000
Subject: [PATCH 08/36] fix: do not swap minimum and maximum temperature in
 write_smet()

Daily tmin was written to the TMAX column and vice versa, and read_smet()
then returned them swapped.
---
 melodist/data_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 70d53ae..41e72c4 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -244,8 +244,8 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
     # daily data
     dict_d = {
         'tmean': 'TA',
-        'tmin': 'TMAX',  # no spec
-        'tmax': 'TMIN',  # no spec
+        'tmin': 'TMIN',  # no spec
+        'tmax': 'TMAX',  # no spec
         'precip': 'PSUM',
         'glob': 'ISWR',  # no spec
         'hum': 'RH',
-- 
2.43.0


From 9bbcb0d87f82d6c46f86f5a88b6f326649e0522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:45 +0000
Subject: [PATCH 09/36] fix: drop columns without data in write_smet()

The sum of an all-NaN column is 0 in pandas since 0.22, so check_nan=True
did not drop anything.
---
 melodist/data_io.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 41e72c4..02172ef 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -262,12 +262,8 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
         data = data.rename(columns=dict_h)
 
     if check_nan:
-        # get all columns with data
-        datas_in = data.sum().dropna().to_frame().T
-        # get colums with no datas
-        drop = [data_nan for data_nan in data.columns if data_nan not in datas_in]
-        # delete columns
-        data = data.drop(drop, axis=1)
+        # delete columns with no data
+        data = data.dropna(axis=1, how='all')
 
     with open(filename, 'w') as f:
         # preparing data
-- 
2.43.0


From 5e8af3d224938c52f1f00e4ee8c85710fc5fde1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:35 +0000
Subject: [PATCH 10/36] fix: read hourly DWD files with current pandas

The date_parser argument of read_csv() was removed in pandas 3, so
read_dwd(mode='h') always raised TypeError.
---
 melodist/data_io.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 02172ef..6c9ace7 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -167,24 +167,14 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
 
         # hourly data must be parsed by custom definition
         if mode == "h":
-
-            def date_parser(date_time):
-                hour = date_time[8:10]
-                day = date_time[6:8]
-                month = date_time[4:6]
-                year = date_time[0:4]
-                minute = '00'
-                sec = '00'
-                return pd.Timestamp('%s-%s-%s %s:%s:%s' % (year, month, day, hour, minute, sec))
-
             data = pd.read_csv(
                 filename,
                 sep=';',
                 na_values='-999',
                 index_col=' MESS_DATUM',
-                date_parser=date_parser,
                 skiprows=skip_last,
             )
+            data.index = pd.to_datetime(data.index.astype(str).str[:10], format='%Y%m%d%H')
 
         # remove whitespace from header columns
         data.rename(columns=lambda x: x.strip(), inplace=True)
-- 
2.43.0


From 16b1e88f4c55bd943d1123da580ee76026f6dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:35 +0000
Subject: [PATCH 11/36] fix: keep the last line of DWD files if skip_last is
 False

read_dwd(skip_last=False) still dropped the last line of the file.
---
 melodist/data_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 6c9ace7..e300af6 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -150,9 +150,12 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
         }
 
         # ---read data------------------
-        if skip_last is not None:
-            num_lines = sum(1 for line in open(filename))
+        if skip_last:
+            with open(filename) as f:
+                num_lines = sum(1 for line in f)
             skip_last = [num_lines - 1]
+        else:
+            skip_last = None
 
         # hourly data must be parsed by custom definition
         if mode == "d":
-- 
2.43.0


From 88d7d78d2ff531a5c003862c26b44c461c4068a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:35 +0000
Subject: [PATCH 12/36] fix: read KNMI files with current pandas

Nested parse_dates, date_parser and keep_date_col were removed from
read_csv(), and pd.datetime does not exist anymore, so KNMI files could
not be read at all.
---
 melodist/data_io.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index e300af6..8533ecc 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -309,18 +309,17 @@ def read_single_knmi_file(filename):
     """
     hourly_data_obs_raw = pd.read_csv(
         filename,
-        parse_dates=[['YYYYMMDD', 'HH']],
-        date_parser=lambda yyyymmdd, hh: pd.datetime(
-            int(str(yyyymmdd)[0:4]), int(str(yyyymmdd)[4:6]), int(str(yyyymmdd)[6:8]), int(hh) - 1
-        ),
         skiprows=31,
         skipinitialspace=True,
         na_values='',
-        keep_date_col=True,
     )
 
-    hourly_data_obs_raw.index = hourly_data_obs_raw['YYYYMMDD_HH']
-    hourly_data_obs_raw.index = hourly_data_obs_raw.index + pd.Timedelta(hours=1)
+    # hours are numbered from 1 to 24
+    hourly_data_obs_raw.index = pd.DatetimeIndex(
+        pd.to_datetime(hourly_data_obs_raw['YYYYMMDD'].astype(str), format='%Y%m%d')
+        + pd.to_timedelta(hourly_data_obs_raw['HH'], unit='h'),
+        name='YYYYMMDD_HH',
+    )
 
     columns_hourly = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
 
-- 
2.43.0


From b118a69c5be7b3f3e9c03ca3650b2415c04f45f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:35 +0000
Subject: [PATCH 13/36] fix: no negative sunshine duration from KNMI files

KNMI encodes less than 0.05 h of sunshine as -1, just like traces of
precipitation. read_single_knmi_file() returned -6 minutes for these
hours.
---
 melodist/data_io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 8533ecc..6def3bd 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -335,9 +335,10 @@ def read_single_knmi_file(filename):
             ssd=hourly_data_obs_raw['SQ'] * 6,
         ),
     )
-    # remove negative values
-    negative_values = hourly_data_obs['precip'] < 0.0
-    hourly_data_obs.loc[negative_values, 'precip'] = 0.0
+    # remove negative values (KNMI reports -1 for traces of precipitation or sunshine)
+    for var in ('precip', 'ssd'):
+        negative_values = hourly_data_obs[var] < 0.0
+        hourly_data_obs.loc[negative_values, var] = 0.0
     return hourly_data_obs
 
 
-- 
2.43.0


From 0fa0cd0daa231d35a9aa917056f448eea53ea2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:35 +0000
Subject: [PATCH 14/36] fix: return KNMI datasets in chronological order

glob.glob() lists files in arbitrary order, so the merged time series of
read_knmi_dataset() could be unsorted.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 6def3bd..2dfd0f6 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -369,4 +369,4 @@ def read_knmi_dataset(directory):
             first_call = False
         else:
             ts = pd.concat([ts, current])
-    return ts
+    return ts.sort_index()
-- 
2.43.0


From e9af0b281e549e815a07bafc9875b5f933b965b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:35 +0000
Subject: [PATCH 15/36] fix: always select a weighting class in the cascade
 model

The cumulated weighting probabilities may be slightly smaller than 1 due
to rounding errors. A random number above that value selected no class at
all, so the weight of the previous box was used again, or an
UnboundLocalError was raised for the first box.
---
 melodist/precipitation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 6f4a54f..e845fd4 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -261,8 +261,10 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
                     # guess w1:
                     for k in range(0, 7):
                         if rndw <= wxxcum[k, belowabove, vbtype - 1]:
-                            w1 = wclassbounds[k + 1] - 1.0 / 14.0  # class center
                             break
+                    # (if the probabilities add up to slightly less than 1 due to rounding errors,
+                    # no class might be found - use the last one in this case)
+                    w1 = wclassbounds[k + 1] - 1.0 / 14.0  # class center
 
                     vdn_out[j] = w1 * vdn_in[i]
                     j = j + 1
-- 
2.43.0


From c20fbf8086bd41de8e8129c28a281f9cba06d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:35 +0000
Subject: [PATCH 16/36] fix: treat missing precipitation consistently in
 build_casc()

Missing values were set to zero only after the data of the first season
had been extracted, and in the data frame of the caller. The statistics
of a season depended on its position in the list, a second call returned
different results, and the input data were modified.
---
 melodist/precipitation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index e845fd4..d5cb15c 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -661,10 +661,13 @@ def build_casc(ObsData, hourly=True, level=9, months=None, avg_stats=True, perce
     if months is None:
         months = [np.arange(12) + 1]
 
+    # set missing values to zero without modifying the input data
+    ObsData = ObsData.copy()
+    ObsData['precip'] = ObsData['precip'].fillna(0)
+
     # Parameter estimation for each season
     for cur_months in months:
         vdn = seasonal_subset(ObsData, cur_months)
-        ObsData['precip'] = ObsData['precip'].fillna(0)
 
         casc_opt = melodist.cascade.CascadeStatistics()
         casc_opt.percentile = percentile
-- 
2.43.0


From cc275cd90f19da8bed4ad6e505c96cc8000ca1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:35 +0000
Subject: [PATCH 17/36] fix: calibrate both radiation models with how='monthly'

month_ranges was an iterator that was exhausted after fitting the
Angstroem parameters, so the Bristow-Campbell parameters kept their
default values.
---
 melodist/stationstatistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 9e426c0..714ed9b 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -150,7 +150,7 @@ class StationStatistics(object):
             elif how == 'seasonal':
                 month_ranges = [[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]]
             elif how == 'monthly':
-                month_ranges = zip(np.arange(12) + 1)
+                month_ranges = list(zip(np.arange(12) + 1))
 
             def myisin(s, v):
                 return pd.Series(s).isin(v).values
-- 
2.43.0


From d47d9d882d7b1810e70e1fb29f64b23f88c3d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:35 +0000
Subject: [PATCH 18/36] fix: avoid infinite wind speed in the random method

np.random.rand() returns values in [0, 1), and the logarithm of 0 gave
infinite wind speed.
---
 melodist/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/wind.py b/melodist/wind.py
index d56e0f4..2a6df32 100644
--- a/melodist/wind.py
+++ b/melodist/wind.py
@@ -67,7 +67,7 @@ def disaggregate_wind(wind_daily, method='equal', a=None, b=None, t_shift=None):
             np.array([wind_eq.values, wind_eq.index.hour]), a, b, t_shift
         )
     elif method == 'random':
-        wind_disagg = wind_eq * (-np.log(np.random.rand(len(wind_eq)))) ** 0.3
+        wind_disagg = wind_eq * (-np.log(1.0 - np.random.rand(len(wind_eq)))) ** 0.3
 
     return wind_disagg
 
-- 
2.43.0


From e2b5e847b3b1f549665480386084e4ce8ef78f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:35 +0000
Subject: [PATCH 19/36] fix: drop the last remaining hour in
 drop_incomplete_days()

The first row was never considered when dropping trailing rows, so a
single hour remained if the data did not contain any complete day.
---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 78d1e9c..51d08db 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -331,7 +331,7 @@ def drop_incomplete_days(dataframe, shift=0):
             dropped += 1
 
     # drop tailing lines if required
-    for i in range(n - 1, 0, -1):
+    for i in range(n - 1, -1, -1):
         if dataframe.index.hour[i] == last and dataframe.index.minute[i] == 0:
             break
         else:
-- 
2.43.0


From deccea588871b581ecd3c9b52859a78cd7cf7e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:24 +0000
Subject: [PATCH 20/36] fix: temperature statistics of data with missing days

idxmax() raises an error in current pandas if all values of a group are
missing, so calc_temperature_stats() failed if the hourly temperature was
missing for a whole day.
---
 melodist/temperature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index cf3d23b..bf13cb9 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -277,9 +277,10 @@ def get_shift_by_data(temp_hourly, lon, lat, time_zone):
     daily_index = temp_hourly.resample('D').mean().index
     sun_times = melodist.util.get_sun_times(daily_index, lon, lat, time_zone)
 
+    temp_hourly = temp_hourly.dropna()
     idxmax = temp_hourly.groupby(temp_hourly.index.date).idxmax()
     idxmax.index = pd.to_datetime(idxmax.index)
-    max_temp_hour_obs = idxmax.dropna().apply(lambda d: d.hour)
+    max_temp_hour_obs = idxmax.apply(lambda d: d.hour)
     max_temp_hour_pot = sun_times.sunnoon
     max_delta = max_temp_hour_obs - max_temp_hour_pot
     mean_monthly_delta = max_delta.groupby(max_delta.index.month).mean()
-- 
2.43.0


From acc2ec41a542abb353ce4dc9cd4e23a18c7bb97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:24 +0000
Subject: [PATCH 21/36] fix: load statistics that do not cover all months

from_json() raised KeyError if the mean courses of temperature or radiation
had been derived from data covering less than twelve months.
---
 melodist/stationstatistics.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 714ed9b..e59e1e1 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -257,14 +257,11 @@ class StationStatistics(object):
             ).sort_index()
 
         if stats.temp.mean_course is not None:
-            mc = (
-                pd.read_json(
-                    io.StringIO(json.dumps(stats.temp.mean_course)),
-                    typ='frame',
-                )
-                .sort_index()
-            )[np.arange(1, 12 + 1)]
-            stats.temp.mean_course = mc.sort_index()[np.arange(1, 12 + 1)]
+            mc = pd.read_json(
+                io.StringIO(json.dumps(stats.temp.mean_course)),
+                typ='frame',
+            )
+            stats.temp.mean_course = mc.sort_index().sort_index(axis=1)
 
         if stats.hum.month_hour_precip_mean is not None:
             mhpm = pd.read_json(
@@ -283,6 +280,6 @@ class StationStatistics(object):
                 ).sort_index()
 
         if stats.glob.mean_course is not None:
-            stats.glob.mean_course = stats.glob.mean_course[np.arange(1, 12 + 1)]
+            stats.glob.mean_course = stats.glob.mean_course.sort_index(axis=1)
 
         return stats
-- 
2.43.0


From 82ef424acf6256068432c4c683284cc005b730af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:24 +0000
Subject: [PATCH 22/36] fix: potential radiation with the sun in the zenith

Rounding errors (cosine of the zenith angle or sine of the azimuth slightly
larger than 1) and the undefined azimuth with the sun in the zenith gave
NaN, e.g. for noon of the summer solstice at the Tropic of Cancer.
---
 melodist/radiation.py | 692 +++++++++++++++++++++---------------------
 1 file changed, 348 insertions(+), 344 deletions(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 325808c..055e955 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -1,344 +1,348 @@
-################################################################################
-# This file is part of MELODIST - MEteoroLOgical observation time series       #
-# DISaggregation Tool.                                                         #
-#                                                                              #
-# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
-# Thomas Marke                                                                 #
-#                                                                              #
-# MELODIST is free software: you can redistribute it and/or modify it under    #
-# the terms of the GNU General Public License as published by the Free         #
-# Software Foundation, either version 3 of the License, or (at your option)    #
-# any later version.                                                           #
-#                                                                              #
-# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
-# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
-# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
-# details.                                                                     #
-#                                                                              #
-# You should have received a copy of the GNU General Public License along with #
-# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
-################################################################################
-import numpy as np
-import pandas as pd
-import scipy.optimize
-
-import melodist.util
-
-"""
-This routine diaggregates daily values of global radiation data to hourly values
-"""
-
-
-def disaggregate_radiation(
-    data_daily,
-    sun_times=None,
-    pot_rad=None,
-    method='pot_rad',
-    angstr_a=0.25,
-    angstr_b=0.5,
-    bristcamp_a=0.75,
-    bristcamp_c=2.4,
-    mean_course=None,
-):
-    """general function for radiation disaggregation
-
-    Args:
-        daily_data: daily values
-        sun_times: daily dataframe including results of the util.sun_times function
-        pot_rad: hourly dataframe including potential radiation
-        method: keyword specifying the disaggregation method to be used
-        angstr_a: parameter a of the Angstrom model (intercept)
-        angstr_b: parameter b of the Angstrom model (slope)
-        mean_course: monthly values of the mean hourly radiation course
-
-    Returns:
-        Disaggregated hourly values of shortwave radiation.
-    """
-    # check if disaggregation method has a valid value
-    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
-        raise ValueError('Invalid option')
-
-    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
-
-    if method == 'mean_course':
-        assert mean_course is not None
-
-        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
-        pot_rad[:] = (
-            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
-        )
-    else:
-        assert pot_rad is not None
-
-    pot_rad_daily = pot_rad.resample('D').mean()
-
-    if method in ('pot_rad', 'mean_course'):
-        globalrad = data_daily.glob
-    elif method == 'pot_rad_via_ssd':
-        # in this case use the Angstrom model
-        globalrad = pd.Series(index=data_daily.index, data=0.0)
-        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
-        globalrad[dates] = angstroem(
-            data_daily.ssd[dates],
-            sun_times.daylength[dates],
-            pot_rad_daily[dates],
-            angstr_a,
-            angstr_b,
-        )
-    elif method == 'pot_rad_via_bc':
-        # using data from Bristow-Campbell model
-        globalrad = bristow_campbell(
-            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
-        )
-
-    globalrad_equal = globalrad.reindex(
-        pot_rad.index, method='ffill'
-    )  # hourly values (replicate daily mean value for each hour)
-    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
-    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
-    glob_disagg[glob_disagg < 1e-2] = 0.0
-
-    return glob_disagg
-
-
-def potential_radiation(
-    dates,
-    lon,
-    lat,
-    timezone,
-    terrain_slope=0,
-    terrain_slope_azimuth=0,
-    cloud_fraction=0,
-    split=False,
-):
-    """
-    Calculate potential shortwave radiation for a specific location and time.
-
-    This routine calculates global radiation as described in:
-    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
-    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
-
-    Corrections for eccentricity are carried out following:
-    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
-    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
-
-    Parameters
-    ----------
-    dates : DatetimeIndex or array-like
-        The dates for which potential radiation shall be calculated
-    lon : float
-        Longitude (degrees)
-    lat : float
-        Latitude (degrees)
-    timezone : float
-        Time zone
-    terrain_slope : float, default 0
-        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
-    terrain_slope_azimuth : float, default 0
-        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
-    cloud_fraction : float, default 0
-        Cloud fraction between 0 and 1
-    split : boolean, default False
-        If True, return a DataFrame containing direct and diffuse radiation,
-        otherwise return a Series containing total radiation
-    """
-    solar_constant = 1367.0
-    days_per_year = 365.25
-    tropic_of_cancer = np.deg2rad(23.43697)
-    solstice = 173.0
-
-    dates = pd.DatetimeIndex(dates)
-    dates_hour = np.array(dates.hour)
-    dates_minute = np.array(dates.minute)
-    day_of_year = np.array(dates.dayofyear)
-
-    # compute solar decline in rad
-    solar_decline = tropic_of_cancer * np.cos(
-        2.0 * np.pi * (day_of_year - solstice) / days_per_year
-    )
-
-    # compute the sun hour angle in rad
-    standard_meridian = timezone * 15.0
-    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
-    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
-
-    # get solar zenith angle
-    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
-        solar_decline
-    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
-    cos_solar_zenith = cos_solar_zenith.clip(min=0)
-    solar_zenith_angle = np.arccos(cos_solar_zenith)
-
-    # compute transmissivities for direct and diffus radiation using cloud fraction
-    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
-    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
-
-    # modify solar constant for eccentricity
-    beta = 2.0 * np.pi * (day_of_year / days_per_year)
-    radius_ratio = (
-        1.00011
-        + 0.034221 * np.cos(beta)
-        + 0.00128 * np.sin(beta)
-        + 0.000719 * np.cos(2.0 * beta)
-        + 0.000077 * np.sin(2 * beta)
-    )
-    solar_constant_times_radius_ratio = solar_constant * radius_ratio
-
-    mu = np.arcsin(np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle))
-    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
-        solar_zenith_angle
-    ) * np.cos(mu - terrain_slope_azimuth)
-
-    # get total shortwave radiation
-    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
-    diffuse_radiation = (
-        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
-    )
-    direct_radiation = direct_radiation.clip(min=0)
-
-    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
-
-    if split:
-        return df
-    else:
-        return df.direct + df.diffuse
-
-
-def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
-    """calculates potential shortwave radiation based on minimum and maximum temperature
-
-    This routine calculates global radiation as described in:
-    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
-    incoming solar radiation and daily maximum and minimum temperature.
-    Agricultural and forest meteorology 31.2 (1984): 159-166.
-
-    Args:
-        daily_data: time series (daily data) including at least minimum and maximum temeprature
-        pot_rad_daily: mean potential daily radiation
-        A: parameter A of the Bristow-Campbell model
-        C: parameter C of the Bristow-Campbell model
-    Returns:
-        series of potential shortwave radiation
-    """
-
-    assert tmin.index.equals(tmax.index)
-
-    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
-    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
-    temp['tmin_nextday'] = temp.tmin
-    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
-
-    temp = temp.loc[tmin.index]
-    pot_rad_daily = pot_rad_daily.loc[tmin.index]
-
-    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
-
-    dT_m_avg = dT.groupby(dT.index.month).mean()
-    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
-    B.index = temp.index
-
-    if isinstance(A, pd.Series):
-        months = temp.index.month
-        A = A.loc[months].values
-        C = C.loc[months].values
-
-    transmissivity = A * (1 - np.exp(-B * dT**C))
-    R0 = transmissivity * pot_rad_daily
-
-    return R0
-
-
-def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
-    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    tmin : Series
-        Observed daily minimum temperature.
-
-    tmax : Series
-        Observed daily maximum temperature.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-
-    def bc_absbias(ac):
-        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
-
-    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
-        how='any'
-    )
-    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
-
-    return res.x
-
-
-def angstroem(ssd, day_length, pot_rad_daily, a, b):
-    """
-    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    a : float
-        First parameter for the Angstroem model (originally 0.25).
-
-    b : float
-        Second parameter for the Angstroem model (originally 0.75).
-    """
-    if isinstance(a, pd.Series):
-        months = ssd.index.month
-        a = a.loc[months].values
-        b = b.loc[months].values
-
-    glob_day = (a + b * ssd / day_length) * pot_rad_daily
-
-    return glob_day
-
-
-def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the a and b parameters for the Angstroem (1924) model using observed daily
-    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-    df = pd.DataFrame(
-        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
-    ).dropna(how='any')
-
-    def angstroem_opt(x, a, b):
-        return angstroem(x[0], x[1], x[2], a, b)
-
-    x = np.array([df.ssd, df.day_length, df.pot])
-    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
-
-    return popt
+################################################################################
+# This file is part of MELODIST - MEteoroLOgical observation time series       #
+# DISaggregation Tool.                                                         #
+#                                                                              #
+# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
+# Thomas Marke                                                                 #
+#                                                                              #
+# MELODIST is free software: you can redistribute it and/or modify it under    #
+# the terms of the GNU General Public License as published by the Free         #
+# Software Foundation, either version 3 of the License, or (at your option)    #
+# any later version.                                                           #
+#                                                                              #
+# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
+# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
+# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
+# details.                                                                     #
+#                                                                              #
+# You should have received a copy of the GNU General Public License along with #
+# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
+################################################################################
+import numpy as np
+import pandas as pd
+import scipy.optimize
+
+import melodist.util
+
+"""
+This routine diaggregates daily values of global radiation data to hourly values
+"""
+
+
+def disaggregate_radiation(
+    data_daily,
+    sun_times=None,
+    pot_rad=None,
+    method='pot_rad',
+    angstr_a=0.25,
+    angstr_b=0.5,
+    bristcamp_a=0.75,
+    bristcamp_c=2.4,
+    mean_course=None,
+):
+    """general function for radiation disaggregation
+
+    Args:
+        daily_data: daily values
+        sun_times: daily dataframe including results of the util.sun_times function
+        pot_rad: hourly dataframe including potential radiation
+        method: keyword specifying the disaggregation method to be used
+        angstr_a: parameter a of the Angstrom model (intercept)
+        angstr_b: parameter b of the Angstrom model (slope)
+        mean_course: monthly values of the mean hourly radiation course
+
+    Returns:
+        Disaggregated hourly values of shortwave radiation.
+    """
+    # check if disaggregation method has a valid value
+    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
+        raise ValueError('Invalid option')
+
+    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
+
+    if method == 'mean_course':
+        assert mean_course is not None
+
+        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
+        pot_rad[:] = (
+            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
+        )
+    else:
+        assert pot_rad is not None
+
+    pot_rad_daily = pot_rad.resample('D').mean()
+
+    if method in ('pot_rad', 'mean_course'):
+        globalrad = data_daily.glob
+    elif method == 'pot_rad_via_ssd':
+        # in this case use the Angstrom model
+        globalrad = pd.Series(index=data_daily.index, data=0.0)
+        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
+        globalrad[dates] = angstroem(
+            data_daily.ssd[dates],
+            sun_times.daylength[dates],
+            pot_rad_daily[dates],
+            angstr_a,
+            angstr_b,
+        )
+    elif method == 'pot_rad_via_bc':
+        # using data from Bristow-Campbell model
+        globalrad = bristow_campbell(
+            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
+        )
+
+    globalrad_equal = globalrad.reindex(
+        pot_rad.index, method='ffill'
+    )  # hourly values (replicate daily mean value for each hour)
+    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
+    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
+    glob_disagg[glob_disagg < 1e-2] = 0.0
+
+    return glob_disagg
+
+
+def potential_radiation(
+    dates,
+    lon,
+    lat,
+    timezone,
+    terrain_slope=0,
+    terrain_slope_azimuth=0,
+    cloud_fraction=0,
+    split=False,
+):
+    """
+    Calculate potential shortwave radiation for a specific location and time.
+
+    This routine calculates global radiation as described in:
+    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
+    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
+
+    Corrections for eccentricity are carried out following:
+    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
+    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
+
+    Parameters
+    ----------
+    dates : DatetimeIndex or array-like
+        The dates for which potential radiation shall be calculated
+    lon : float
+        Longitude (degrees)
+    lat : float
+        Latitude (degrees)
+    timezone : float
+        Time zone
+    terrain_slope : float, default 0
+        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
+    terrain_slope_azimuth : float, default 0
+        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
+    cloud_fraction : float, default 0
+        Cloud fraction between 0 and 1
+    split : boolean, default False
+        If True, return a DataFrame containing direct and diffuse radiation,
+        otherwise return a Series containing total radiation
+    """
+    solar_constant = 1367.0
+    days_per_year = 365.25
+    tropic_of_cancer = np.deg2rad(23.43697)
+    solstice = 173.0
+
+    dates = pd.DatetimeIndex(dates)
+    dates_hour = np.array(dates.hour)
+    dates_minute = np.array(dates.minute)
+    day_of_year = np.array(dates.dayofyear)
+
+    # compute solar decline in rad
+    solar_decline = tropic_of_cancer * np.cos(
+        2.0 * np.pi * (day_of_year - solstice) / days_per_year
+    )
+
+    # compute the sun hour angle in rad
+    standard_meridian = timezone * 15.0
+    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
+    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
+
+    # get solar zenith angle
+    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
+        solar_decline
+    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
+    cos_solar_zenith = cos_solar_zenith.clip(min=0, max=1)
+    solar_zenith_angle = np.arccos(cos_solar_zenith)
+
+    # compute transmissivities for direct and diffus radiation using cloud fraction
+    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
+    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
+
+    # modify solar constant for eccentricity
+    beta = 2.0 * np.pi * (day_of_year / days_per_year)
+    radius_ratio = (
+        1.00011
+        + 0.034221 * np.cos(beta)
+        + 0.00128 * np.sin(beta)
+        + 0.000719 * np.cos(2.0 * beta)
+        + 0.000077 * np.sin(2 * beta)
+    )
+    solar_constant_times_radius_ratio = solar_constant * radius_ratio
+
+    with np.errstate(divide='ignore', invalid='ignore'):
+        sin_mu = np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle)
+
+    # the azimuth is undefined if the sun is in the zenith, and rounding errors may occur
+    mu = np.arcsin(np.nan_to_num(sin_mu).clip(-1, 1))
+    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
+        solar_zenith_angle
+    ) * np.cos(mu - terrain_slope_azimuth)
+
+    # get total shortwave radiation
+    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
+    diffuse_radiation = (
+        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
+    )
+    direct_radiation = direct_radiation.clip(min=0)
+
+    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
+
+    if split:
+        return df
+    else:
+        return df.direct + df.diffuse
+
+
+def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
+    """calculates potential shortwave radiation based on minimum and maximum temperature
+
+    This routine calculates global radiation as described in:
+    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
+    incoming solar radiation and daily maximum and minimum temperature.
+    Agricultural and forest meteorology 31.2 (1984): 159-166.
+
+    Args:
+        daily_data: time series (daily data) including at least minimum and maximum temeprature
+        pot_rad_daily: mean potential daily radiation
+        A: parameter A of the Bristow-Campbell model
+        C: parameter C of the Bristow-Campbell model
+    Returns:
+        series of potential shortwave radiation
+    """
+
+    assert tmin.index.equals(tmax.index)
+
+    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
+    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
+    temp['tmin_nextday'] = temp.tmin
+    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
+
+    temp = temp.loc[tmin.index]
+    pot_rad_daily = pot_rad_daily.loc[tmin.index]
+
+    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
+
+    dT_m_avg = dT.groupby(dT.index.month).mean()
+    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
+    B.index = temp.index
+
+    if isinstance(A, pd.Series):
+        months = temp.index.month
+        A = A.loc[months].values
+        C = C.loc[months].values
+
+    transmissivity = A * (1 - np.exp(-B * dT**C))
+    R0 = transmissivity * pot_rad_daily
+
+    return R0
+
+
+def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
+    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    tmin : Series
+        Observed daily minimum temperature.
+
+    tmax : Series
+        Observed daily maximum temperature.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+
+    def bc_absbias(ac):
+        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
+
+    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
+        how='any'
+    )
+    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
+
+    return res.x
+
+
+def angstroem(ssd, day_length, pot_rad_daily, a, b):
+    """
+    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    a : float
+        First parameter for the Angstroem model (originally 0.25).
+
+    b : float
+        Second parameter for the Angstroem model (originally 0.75).
+    """
+    if isinstance(a, pd.Series):
+        months = ssd.index.month
+        a = a.loc[months].values
+        b = b.loc[months].values
+
+    glob_day = (a + b * ssd / day_length) * pot_rad_daily
+
+    return glob_day
+
+
+def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the a and b parameters for the Angstroem (1924) model using observed daily
+    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+    df = pd.DataFrame(
+        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
+    ).dropna(how='any')
+
+    def angstroem_opt(x, a, b):
+        return angstroem(x[0], x[1], x[2], a, b)
+
+    x = np.array([df.ssd, df.day_length, df.pot])
+    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
+
+    return popt
-- 
2.43.0


From 83e7fd0fdb34d775218bec2212c3dbc50fc25134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:24 +0000
Subject: [PATCH 23/36] fix: no potential direct radiation on slopes during the
 night

With a terrain slope larger than 0, potential_radiation() returned direct
radiation also if the sun was below the horizon.
---
 melodist/radiation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 055e955..a44bd8c 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -192,6 +192,7 @@ def potential_radiation(
     cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
         solar_zenith_angle
     ) * np.cos(mu - terrain_slope_azimuth)
+    cosi[cos_solar_zenith <= 0] = 0  # sun below the horizon
 
     # get total shortwave radiation
     direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
-- 
2.43.0


From 4475683dc77279ebc0adda39280f0b3e165d0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:24 +0000
Subject: [PATCH 24/36] fix: zero instead of missing radiation during polar
 nights

Potential radiation is zero for all hours of a polar night, so dividing by
its daily mean gave NaN even though the daily radiation is zero.
---
 melodist/radiation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index a44bd8c..4fac07e 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -97,6 +97,7 @@ def disaggregate_radiation(
     pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
     glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
     glob_disagg[glob_disagg < 1e-2] = 0.0
+    glob_disagg[globalrad_equal == 0] = 0.0  # avoid 0 / 0 during polar nights
 
     return glob_disagg
 
-- 
2.43.0


From 28a07f3d6c73433861c923cf8e57f43c1ed634da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:24 +0000
Subject: [PATCH 25/36] fix: keep sun times up to date if the station location
 changes

Sun times were computed only when assigning daily data. Setting the
timezone afterwards left them undefined, and changing longitude, latitude
or timezone left outdated values, so the results depended on the order of
the assignments.
---
 melodist/station.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/melodist/station.py b/melodist/station.py
index 297bb9a..f797c40 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -102,8 +102,7 @@ class Station(object):
         df = pd.DataFrame(index=index, columns=Station._columns_hourly, dtype=float)
         self._data_disagg = df
 
-        if self.timezone is not None:
-            self.calc_sun_times()
+        self._update_sun_times()
 
     @property
     def lon(self):
@@ -116,6 +115,7 @@ class Station(object):
     def lon(self, lon):
         self._lon = lon
         self.statistics._lon = lon
+        self._update_sun_times()
 
     @property
     def lat(self):
@@ -128,6 +128,7 @@ class Station(object):
     def lat(self, lat):
         self._lat = lat
         self.statistics._lat = lat
+        self._update_sun_times()
 
     @property
     def timezone(self):
@@ -143,6 +144,7 @@ class Station(object):
     def timezone(self, timezone):
         self._timezone = timezone
         self.statistics._timezone = timezone
+        self._update_sun_times()
 
     @property
     def statistics(self):
@@ -178,6 +180,12 @@ class Station(object):
             self.data_daily.index, self.lon, self.lat, self.timezone
         )
 
+    def _update_sun_times(self):
+        if self.data_daily is None or None in (self.lon, self.lat, self.timezone):
+            self.sun_times = None
+        else:
+            self.calc_sun_times()
+
     def disaggregate_wind(self, method='equal'):
         """
         Disaggregate wind speed.
-- 
2.43.0


From baa06402ee2b221d4455cbf6009b8dafe6b4e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:34 +0000
Subject: [PATCH 26/36] fix: keep missing days in the master station method if
 the master is dry

---
 melodist/precipitation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index d5cb15c..a0b757f 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -409,7 +409,7 @@ def precip_master_station(precip_daily, master_precip_hourly, zerodiv):
                 precip_h_rel = (1 / 24) * precip
 
             else:
-                precip_h_rel = 0
+                precip_h_rel = 0 * precip  # (keeps missing values)
 
         # write the disaggregated day to data
         precip_hourly[index] = precip_h_rel
-- 
2.43.0


From f902a3ac2a1890b84057152d1463c53d3ed90131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:20 +0000
Subject: [PATCH 27/36] fix: keep header values containing '=' in read_smet()

---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 2dfd0f6..e4e7287 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -72,7 +72,7 @@ def read_smet(filename, mode):
                 break
 
             if in_header:
-                line_split = line.split('=')
+                line_split = line.split('=', 1)
                 k = line_split[0].strip()
                 v = line_split[1].strip()
                 header[k] = v
-- 
2.43.0


From e45c98ca86e3bfc43fb72bf598118a954ad81aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:14 +0000
Subject: [PATCH 28/36] fix: recognize missing values in padded fields of DWD
 files

---
 melodist/data_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index e4e7287..2fa4760 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -189,6 +189,9 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
         # delete columns
         data = data.drop(drop, axis=1)
 
+        # missing values in fields padded with blanks are not recognized by read_csv()
+        data = data.mask(data == -999)
+
         # convert temperatures to Kelvin (+273.15)
         if 'tmin' in data.columns:
             data["tmin"] = data["tmin"] + 273.15
-- 
2.43.0


From e9780751837200560009b21ef1ea4253cf5490b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:20 +0000
Subject: [PATCH 29/36] fix: do not require daily mean temperature for the
 sine_min_max method

---
 melodist/temperature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index bf13cb9..8042c0e 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -111,7 +111,8 @@ def disaggregate_temperature(
 
         locdf.min_val_cur = data_daily.tmin
         locdf.max_val_cur = data_daily.tmax
-        locdf.mean_val_cur = data_daily.temp
+        if method == 'sine_mean':
+            locdf.mean_val_cur = data_daily.temp
         locdf.min_val_next = data_daily.tmin.shift(-1, 'D')
         locdf.max_val_next = data_daily.tmax.shift(-1, 'D')
         locdf.loc[locdf.index[-1], 'min_val_next'] = locdf.min_val_cur.iloc[-1]
-- 
2.43.0


From 52df29485f576ed1fa61eac50e343e1a99609376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:20 +0000
Subject: [PATCH 30/36] fix: check the plausibility of daily mean temperature

---
 melodist/station.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/station.py b/melodist/station.py
index f797c40..0bbdd4b 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -89,7 +89,7 @@ class Station(object):
         if df.index.freq is None:  # likely some days are missing
             df = df.reindex(pd.date_range(start=df.index[0], end=df.index[-1], freq='D'))
 
-        for var in 'tmin', 'tmax', 'tmean':
+        for var in 'tmin', 'tmax', 'tmean', 'temp':
             if var in df:
                 assert not any(
                     df[var] < 200
-- 
2.43.0


From 8e97f389721e1667995d6ae47de90f8d0678a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:28:15 +0000
Subject: [PATCH 31/36] fix: keep previous statistics if calculating new ones
 fails

---
 melodist/stationstatistics.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index e59e1e1..a91f188 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -88,10 +88,10 @@ class StationStatistics(object):
         if months is None:
             months = [np.arange(12) + 1]
 
-        self.precip.months = months
-        self.precip.stats = melodist.build_casc(
+        stats = melodist.build_casc(
             self.data, months=months, avg_stats=avg_stats, percentile=percentile
         )
+        self.precip.update(months=months, stats=stats)
 
     def calc_wind_stats(self):
         """
@@ -105,10 +105,8 @@ class StationStatistics(object):
         Calculates statistics in order to derive diurnal patterns of relative humidity.
         """
         a1, a0 = melodist.calculate_dewpoint_regression(self.data, return_stats=False)
-        self.hum.update(a0=a0, a1=a1)
-        self.hum.kr = 12
-
-        self.hum.month_hour_precip_mean = melodist.calculate_month_hour_precip_mean(self.data)
+        month_hour_precip_mean = melodist.calculate_month_hour_precip_mean(self.data)
+        self.hum.update(a0=a0, a1=a1, kr=12, month_hour_precip_mean=month_hour_precip_mean)
 
     def calc_temperature_stats(self):
         """
@@ -136,7 +134,9 @@ class StationStatistics(object):
         """
         assert how in ('all', 'seasonal', 'monthly')
 
-        self.glob.mean_course = melodist.util.calculate_mean_daily_course_by_month(self.data.glob)
+        mean_course = melodist.util.calculate_mean_daily_course_by_month(self.data.glob)
+        angstroem = self.glob.angstroem.copy()
+        bristcamp = self.glob.bristcamp.copy()
 
         if data_daily is not None:
             pot_rad = melodist.potential_radiation(
@@ -168,7 +168,7 @@ class StationStatistics(object):
                     )
 
                     for month in months:
-                        self.glob.angstroem.loc[month] = a, b
+                        angstroem.loc[month] = a, b
 
             if 'tmin' in data_daily and 'tmax' in data_daily:
                 df = pd.DataFrame(
@@ -189,7 +189,9 @@ class StationStatistics(object):
                     )
 
                     for month in months:
-                        self.glob.bristcamp.loc[month] = a, c
+                        bristcamp.loc[month] = a, c
+
+        self.glob.update(mean_course=mean_course, angstroem=angstroem, bristcamp=bristcamp)
 
     def to_json(self, filename=None):
         """
-- 
2.43.0


From 4a32e539048b79c51adc1bab4a1dd4fa79b44c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:47 +0000
Subject: [PATCH 32/36] fix: restore the line endings of radiation.py changed
 by an earlier commit

---
 melodist/radiation.py | 700 +++++++++++++++++++++---------------------
 1 file changed, 350 insertions(+), 350 deletions(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 4fac07e..caad068 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -1,350 +1,350 @@
-################################################################################
-# This file is part of MELODIST - MEteoroLOgical observation time series       #
-# DISaggregation Tool.                                                         #
-#                                                                              #
-# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
-# Thomas Marke                                                                 #
-#                                                                              #
-# MELODIST is free software: you can redistribute it and/or modify it under    #
-# the terms of the GNU General Public License as published by the Free         #
-# Software Foundation, either version 3 of the License, or (at your option)    #
-# any later version.                                                           #
-#                                                                              #
-# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
-# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
-# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
-# details.                                                                     #
-#                                                                              #
-# You should have received a copy of the GNU General Public License along with #
-# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
-################################################################################
-import numpy as np
-import pandas as pd
-import scipy.optimize
-
-import melodist.util
-
-"""
-This routine diaggregates daily values of global radiation data to hourly values
-"""
-
-
-def disaggregate_radiation(
-    data_daily,
-    sun_times=None,
-    pot_rad=None,
-    method='pot_rad',
-    angstr_a=0.25,
-    angstr_b=0.5,
-    bristcamp_a=0.75,
-    bristcamp_c=2.4,
-    mean_course=None,
-):
-    """general function for radiation disaggregation
-
-    Args:
-        daily_data: daily values
-        sun_times: daily dataframe including results of the util.sun_times function
-        pot_rad: hourly dataframe including potential radiation
-        method: keyword specifying the disaggregation method to be used
-        angstr_a: parameter a of the Angstrom model (intercept)
-        angstr_b: parameter b of the Angstrom model (slope)
-        mean_course: monthly values of the mean hourly radiation course
-
-    Returns:
-        Disaggregated hourly values of shortwave radiation.
-    """
-    # check if disaggregation method has a valid value
-    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
-        raise ValueError('Invalid option')
-
-    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
-
-    if method == 'mean_course':
-        assert mean_course is not None
-
-        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
-        pot_rad[:] = (
-            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
-        )
-    else:
-        assert pot_rad is not None
-
-    pot_rad_daily = pot_rad.resample('D').mean()
-
-    if method in ('pot_rad', 'mean_course'):
-        globalrad = data_daily.glob
-    elif method == 'pot_rad_via_ssd':
-        # in this case use the Angstrom model
-        globalrad = pd.Series(index=data_daily.index, data=0.0)
-        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
-        globalrad[dates] = angstroem(
-            data_daily.ssd[dates],
-            sun_times.daylength[dates],
-            pot_rad_daily[dates],
-            angstr_a,
-            angstr_b,
-        )
-    elif method == 'pot_rad_via_bc':
-        # using data from Bristow-Campbell model
-        globalrad = bristow_campbell(
-            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
-        )
-
-    globalrad_equal = globalrad.reindex(
-        pot_rad.index, method='ffill'
-    )  # hourly values (replicate daily mean value for each hour)
-    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
-    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
-    glob_disagg[glob_disagg < 1e-2] = 0.0
-    glob_disagg[globalrad_equal == 0] = 0.0  # avoid 0 / 0 during polar nights
-
-    return glob_disagg
-
-
-def potential_radiation(
-    dates,
-    lon,
-    lat,
-    timezone,
-    terrain_slope=0,
-    terrain_slope_azimuth=0,
-    cloud_fraction=0,
-    split=False,
-):
-    """
-    Calculate potential shortwave radiation for a specific location and time.
-
-    This routine calculates global radiation as described in:
-    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
-    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
-
-    Corrections for eccentricity are carried out following:
-    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
-    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
-
-    Parameters
-    ----------
-    dates : DatetimeIndex or array-like
-        The dates for which potential radiation shall be calculated
-    lon : float
-        Longitude (degrees)
-    lat : float
-        Latitude (degrees)
-    timezone : float
-        Time zone
-    terrain_slope : float, default 0
-        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
-    terrain_slope_azimuth : float, default 0
-        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
-    cloud_fraction : float, default 0
-        Cloud fraction between 0 and 1
-    split : boolean, default False
-        If True, return a DataFrame containing direct and diffuse radiation,
-        otherwise return a Series containing total radiation
-    """
-    solar_constant = 1367.0
-    days_per_year = 365.25
-    tropic_of_cancer = np.deg2rad(23.43697)
-    solstice = 173.0
-
-    dates = pd.DatetimeIndex(dates)
-    dates_hour = np.array(dates.hour)
-    dates_minute = np.array(dates.minute)
-    day_of_year = np.array(dates.dayofyear)
-
-    # compute solar decline in rad
-    solar_decline = tropic_of_cancer * np.cos(
-        2.0 * np.pi * (day_of_year - solstice) / days_per_year
-    )
-
-    # compute the sun hour angle in rad
-    standard_meridian = timezone * 15.0
-    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
-    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
-
-    # get solar zenith angle
-    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
-        solar_decline
-    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
-    cos_solar_zenith = cos_solar_zenith.clip(min=0, max=1)
-    solar_zenith_angle = np.arccos(cos_solar_zenith)
-
-    # compute transmissivities for direct and diffus radiation using cloud fraction
-    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
-    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
-
-    # modify solar constant for eccentricity
-    beta = 2.0 * np.pi * (day_of_year / days_per_year)
-    radius_ratio = (
-        1.00011
-        + 0.034221 * np.cos(beta)
-        + 0.00128 * np.sin(beta)
-        + 0.000719 * np.cos(2.0 * beta)
-        + 0.000077 * np.sin(2 * beta)
-    )
-    solar_constant_times_radius_ratio = solar_constant * radius_ratio
-
-    with np.errstate(divide='ignore', invalid='ignore'):
-        sin_mu = np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle)
-
-    # the azimuth is undefined if the sun is in the zenith, and rounding errors may occur
-    mu = np.arcsin(np.nan_to_num(sin_mu).clip(-1, 1))
-    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
-        solar_zenith_angle
-    ) * np.cos(mu - terrain_slope_azimuth)
-    cosi[cos_solar_zenith <= 0] = 0  # sun below the horizon
-
-    # get total shortwave radiation
-    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
-    diffuse_radiation = (
-        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
-    )
-    direct_radiation = direct_radiation.clip(min=0)
-
-    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
-
-    if split:
-        return df
-    else:
-        return df.direct + df.diffuse
-
-
-def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
-    """calculates potential shortwave radiation based on minimum and maximum temperature
-
-    This routine calculates global radiation as described in:
-    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
-    incoming solar radiation and daily maximum and minimum temperature.
-    Agricultural and forest meteorology 31.2 (1984): 159-166.
-
-    Args:
-        daily_data: time series (daily data) including at least minimum and maximum temeprature
-        pot_rad_daily: mean potential daily radiation
-        A: parameter A of the Bristow-Campbell model
-        C: parameter C of the Bristow-Campbell model
-    Returns:
-        series of potential shortwave radiation
-    """
-
-    assert tmin.index.equals(tmax.index)
-
-    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
-    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
-    temp['tmin_nextday'] = temp.tmin
-    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
-
-    temp = temp.loc[tmin.index]
-    pot_rad_daily = pot_rad_daily.loc[tmin.index]
-
-    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
-
-    dT_m_avg = dT.groupby(dT.index.month).mean()
-    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
-    B.index = temp.index
-
-    if isinstance(A, pd.Series):
-        months = temp.index.month
-        A = A.loc[months].values
-        C = C.loc[months].values
-
-    transmissivity = A * (1 - np.exp(-B * dT**C))
-    R0 = transmissivity * pot_rad_daily
-
-    return R0
-
-
-def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
-    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    tmin : Series
-        Observed daily minimum temperature.
-
-    tmax : Series
-        Observed daily maximum temperature.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-
-    def bc_absbias(ac):
-        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
-
-    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
-        how='any'
-    )
-    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
-
-    return res.x
-
-
-def angstroem(ssd, day_length, pot_rad_daily, a, b):
-    """
-    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    a : float
-        First parameter for the Angstroem model (originally 0.25).
-
-    b : float
-        Second parameter for the Angstroem model (originally 0.75).
-    """
-    if isinstance(a, pd.Series):
-        months = ssd.index.month
-        a = a.loc[months].values
-        b = b.loc[months].values
-
-    glob_day = (a + b * ssd / day_length) * pot_rad_daily
-
-    return glob_day
-
-
-def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the a and b parameters for the Angstroem (1924) model using observed daily
-    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-    df = pd.DataFrame(
-        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
-    ).dropna(how='any')
-
-    def angstroem_opt(x, a, b):
-        return angstroem(x[0], x[1], x[2], a, b)
-
-    x = np.array([df.ssd, df.day_length, df.pot])
-    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
-
-    return popt
+################################################################################
+# This file is part of MELODIST - MEteoroLOgical observation time series       #
+# DISaggregation Tool.                                                         #
+#                                                                              #
+# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
+# Thomas Marke                                                                 #
+#                                                                              #
+# MELODIST is free software: you can redistribute it and/or modify it under    #
+# the terms of the GNU General Public License as published by the Free         #
+# Software Foundation, either version 3 of the License, or (at your option)    #
+# any later version.                                                           #
+#                                                                              #
+# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
+# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
+# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
+# details.                                                                     #
+#                                                                              #
+# You should have received a copy of the GNU General Public License along with #
+# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
+################################################################################
+import numpy as np
+import pandas as pd
+import scipy.optimize
+
+import melodist.util
+
+"""
+This routine diaggregates daily values of global radiation data to hourly values
+"""
+
+
+def disaggregate_radiation(
+    data_daily,
+    sun_times=None,
+    pot_rad=None,
+    method='pot_rad',
+    angstr_a=0.25,
+    angstr_b=0.5,
+    bristcamp_a=0.75,
+    bristcamp_c=2.4,
+    mean_course=None,
+):
+    """general function for radiation disaggregation
+
+    Args:
+        daily_data: daily values
+        sun_times: daily dataframe including results of the util.sun_times function
+        pot_rad: hourly dataframe including potential radiation
+        method: keyword specifying the disaggregation method to be used
+        angstr_a: parameter a of the Angstrom model (intercept)
+        angstr_b: parameter b of the Angstrom model (slope)
+        mean_course: monthly values of the mean hourly radiation course
+
+    Returns:
+        Disaggregated hourly values of shortwave radiation.
+    """
+    # check if disaggregation method has a valid value
+    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
+        raise ValueError('Invalid option')
+
+    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
+
+    if method == 'mean_course':
+        assert mean_course is not None
+
+        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
+        pot_rad[:] = (
+            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
+        )
+    else:
+        assert pot_rad is not None
+
+    pot_rad_daily = pot_rad.resample('D').mean()
+
+    if method in ('pot_rad', 'mean_course'):
+        globalrad = data_daily.glob
+    elif method == 'pot_rad_via_ssd':
+        # in this case use the Angstrom model
+        globalrad = pd.Series(index=data_daily.index, data=0.0)
+        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
+        globalrad[dates] = angstroem(
+            data_daily.ssd[dates],
+            sun_times.daylength[dates],
+            pot_rad_daily[dates],
+            angstr_a,
+            angstr_b,
+        )
+    elif method == 'pot_rad_via_bc':
+        # using data from Bristow-Campbell model
+        globalrad = bristow_campbell(
+            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
+        )
+
+    globalrad_equal = globalrad.reindex(
+        pot_rad.index, method='ffill'
+    )  # hourly values (replicate daily mean value for each hour)
+    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
+    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
+    glob_disagg[glob_disagg < 1e-2] = 0.0
+    glob_disagg[globalrad_equal == 0] = 0.0  # avoid 0 / 0 during polar nights
+
+    return glob_disagg
+
+
+def potential_radiation(
+    dates,
+    lon,
+    lat,
+    timezone,
+    terrain_slope=0,
+    terrain_slope_azimuth=0,
+    cloud_fraction=0,
+    split=False,
+):
+    """
+    Calculate potential shortwave radiation for a specific location and time.
+
+    This routine calculates global radiation as described in:
+    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
+    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
+
+    Corrections for eccentricity are carried out following:
+    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
+    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
+
+    Parameters
+    ----------
+    dates : DatetimeIndex or array-like
+        The dates for which potential radiation shall be calculated
+    lon : float
+        Longitude (degrees)
+    lat : float
+        Latitude (degrees)
+    timezone : float
+        Time zone
+    terrain_slope : float, default 0
+        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
+    terrain_slope_azimuth : float, default 0
+        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
+    cloud_fraction : float, default 0
+        Cloud fraction between 0 and 1
+    split : boolean, default False
+        If True, return a DataFrame containing direct and diffuse radiation,
+        otherwise return a Series containing total radiation
+    """
+    solar_constant = 1367.0
+    days_per_year = 365.25
+    tropic_of_cancer = np.deg2rad(23.43697)
+    solstice = 173.0
+
+    dates = pd.DatetimeIndex(dates)
+    dates_hour = np.array(dates.hour)
+    dates_minute = np.array(dates.minute)
+    day_of_year = np.array(dates.dayofyear)
+
+    # compute solar decline in rad
+    solar_decline = tropic_of_cancer * np.cos(
+        2.0 * np.pi * (day_of_year - solstice) / days_per_year
+    )
+
+    # compute the sun hour angle in rad
+    standard_meridian = timezone * 15.0
+    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
+    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
+
+    # get solar zenith angle
+    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
+        solar_decline
+    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
+    cos_solar_zenith = cos_solar_zenith.clip(min=0, max=1)
+    solar_zenith_angle = np.arccos(cos_solar_zenith)
+
+    # compute transmissivities for direct and diffus radiation using cloud fraction
+    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
+    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
+
+    # modify solar constant for eccentricity
+    beta = 2.0 * np.pi * (day_of_year / days_per_year)
+    radius_ratio = (
+        1.00011
+        + 0.034221 * np.cos(beta)
+        + 0.00128 * np.sin(beta)
+        + 0.000719 * np.cos(2.0 * beta)
+        + 0.000077 * np.sin(2 * beta)
+    )
+    solar_constant_times_radius_ratio = solar_constant * radius_ratio
+
+    with np.errstate(divide='ignore', invalid='ignore'):
+        sin_mu = np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle)
+
+    # the azimuth is undefined if the sun is in the zenith, and rounding errors may occur
+    mu = np.arcsin(np.nan_to_num(sin_mu).clip(-1, 1))
+    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
+        solar_zenith_angle
+    ) * np.cos(mu - terrain_slope_azimuth)
+    cosi[cos_solar_zenith <= 0] = 0  # sun below the horizon
+
+    # get total shortwave radiation
+    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
+    diffuse_radiation = (
+        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
+    )
+    direct_radiation = direct_radiation.clip(min=0)
+
+    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
+
+    if split:
+        return df
+    else:
+        return df.direct + df.diffuse
+
+
+def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
+    """calculates potential shortwave radiation based on minimum and maximum temperature
+
+    This routine calculates global radiation as described in:
+    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
+    incoming solar radiation and daily maximum and minimum temperature.
+    Agricultural and forest meteorology 31.2 (1984): 159-166.
+
+    Args:
+        daily_data: time series (daily data) including at least minimum and maximum temeprature
+        pot_rad_daily: mean potential daily radiation
+        A: parameter A of the Bristow-Campbell model
+        C: parameter C of the Bristow-Campbell model
+    Returns:
+        series of potential shortwave radiation
+    """
+
+    assert tmin.index.equals(tmax.index)
+
+    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
+    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
+    temp['tmin_nextday'] = temp.tmin
+    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
+
+    temp = temp.loc[tmin.index]
+    pot_rad_daily = pot_rad_daily.loc[tmin.index]
+
+    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
+
+    dT_m_avg = dT.groupby(dT.index.month).mean()
+    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
+    B.index = temp.index
+
+    if isinstance(A, pd.Series):
+        months = temp.index.month
+        A = A.loc[months].values
+        C = C.loc[months].values
+
+    transmissivity = A * (1 - np.exp(-B * dT**C))
+    R0 = transmissivity * pot_rad_daily
+
+    return R0
+
+
+def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
+    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    tmin : Series
+        Observed daily minimum temperature.
+
+    tmax : Series
+        Observed daily maximum temperature.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+
+    def bc_absbias(ac):
+        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
+
+    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
+        how='any'
+    )
+    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
+
+    return res.x
+
+
+def angstroem(ssd, day_length, pot_rad_daily, a, b):
+    """
+    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    a : float
+        First parameter for the Angstroem model (originally 0.25).
+
+    b : float
+        Second parameter for the Angstroem model (originally 0.75).
+    """
+    if isinstance(a, pd.Series):
+        months = ssd.index.month
+        a = a.loc[months].values
+        b = b.loc[months].values
+
+    glob_day = (a + b * ssd / day_length) * pot_rad_daily
+
+    return glob_day
+
+
+def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the a and b parameters for the Angstroem (1924) model using observed daily
+    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+    df = pd.DataFrame(
+        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
+    ).dropna(how='any')
+
+    def angstroem_opt(x, a, b):
+        return angstroem(x[0], x[1], x[2], a, b)
+
+    x = np.array([df.ssd, df.day_length, df.pot])
+    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
+
+    return popt
-- 
2.43.0


From e5ae1c41b63fa23a15dcfc579d292a32f32b5744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:26 +0000
Subject: [PATCH 33/36] fix: insert missing days also in daily data with a
 regular step of several days

---
 melodist/station.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/station.py b/melodist/station.py
index 0bbdd4b..25158ca 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -86,7 +86,7 @@ class Station(object):
         assert df.index.resolution == 'day'
         assert df.index.is_monotonic_increasing
 
-        if df.index.freq is None:  # likely some days are missing
+        if df.index.freq != 'D':  # likely some days are missing
             df = df.reindex(pd.date_range(start=df.index[0], end=df.index[-1], freq='D'))
 
         for var in 'tmin', 'tmax', 'tmean', 'temp':
-- 
2.43.0


From 0d12d254e75c934e36f6a0d4836f1e3220255c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:25 +0000
Subject: [PATCH 34/36] fix: count a sunrise before midnight as the first hour
 in the sine temperature methods

---
 melodist/temperature.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 8042c0e..5fb81c5 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -84,6 +84,12 @@ def disaggregate_temperature(
             ],
         )
 
+        if min_max_time != 'fix':
+            # a sunrise before midnight (midnight sun) counts as the first hour of the day
+            sun_times = sun_times.assign(
+                sunrise=sun_times.sunrise.where(sun_times.sunrise <= sun_times.sunnoon, 0)
+            )
+
         if min_max_time == 'fix':
             # take fixed location for minimum and maximum
             locdf.min_loc = 7
-- 
2.43.0


From 412ef543acaff5fd61f6f45d1ab1a0b16a3297af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:25 +0000
Subject: [PATCH 35/36] fix: solar noon of places whose time zone lies across
 the date line

---
 melodist/util/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 51d08db..8be15f0 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -197,6 +197,8 @@ def get_sun_times(dates, lon, lat, time_zone):
     #
     standard_meridian = time_zone * 15.0
     delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
+    # the time zone may lie on the other side of the date line
+    delta_lat_time = (delta_lat_time + 12.0) % 24.0 - 12.0
 
     omega_nul_arg = -np.tan(np.deg2rad(lat)) * np.tan(declination)
     omega_nul = np.arccos(omega_nul_arg)
-- 
2.43.0


From 034f90c676cb99bcef78b5282f5250436e8535bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:32 +0000
Subject: [PATCH 36/36] fix: keep imported statistics as floating point numbers

Tables with only whole numbers became integer tables on import and could not be
recalibrated, and a temperature shift without values became a series of dates.
---
 melodist/stationstatistics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index a91f188..8c615bc 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -256,12 +256,14 @@ class StationStatistics(object):
             stats.temp.max_delta = pd.read_json(
                 io.StringIO(json.dumps(stats.temp.max_delta)),
                 typ='series',
+                dtype=float,
             ).sort_index()
 
         if stats.temp.mean_course is not None:
             mc = pd.read_json(
                 io.StringIO(json.dumps(stats.temp.mean_course)),
                 typ='frame',
+                dtype=float,
             )
             stats.temp.mean_course = mc.sort_index().sort_index(axis=1)
 
@@ -271,14 +273,15 @@ class StationStatistics(object):
                 typ='frame',
             ).sort_index()
             mhpm = mhpm.set_index(['level_0', 'level_1', 'level_2'])  # convert to MultiIndex
-            mhpm = mhpm.squeeze()  # convert to Series
+            mhpm = mhpm.squeeze().astype(float)  # convert to Series
             mhpm = mhpm.rename_axis([None, None, None])  # remove index labels
             stats.hum.month_hour_precip_mean = mhpm
 
         for var in ('angstroem', 'bristcamp', 'mean_course'):
             if stats.glob[var] is not None:
                 stats.glob[var] = pd.read_json(
-                    io.StringIO(json.dumps(stats.glob[var]))
+                    io.StringIO(json.dumps(stats.glob[var])),
+                    dtype=float,
                 ).sort_index()
 
         if stats.glob.mean_course is not None:
-- 
2.43.0


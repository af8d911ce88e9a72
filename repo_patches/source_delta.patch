From a8459e4451c0b14a4f80651df5d1cb1b49ff0060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:21 +0000
Subject: [PATCH 01/33] fix: hourly_index failed for daily indices with missing
 days

The gap branch called Index.to_datetime and pandas.datetime, neither of
which exists in current pandas, so every daily index with a missing day
raised AttributeError. Drop the surplus hours with a boolean mask instead.
---
 melodist/util/util.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 7550078..2cbf4af 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -28,17 +28,7 @@ def hourly_index(daily_index, fill_gaps=False):
 
     # remove days that are not in the daily index:
     if not fill_gaps and len(index) > len(daily_index) * 24:
-        df = pd.DataFrame(index=index.date, data=dict(hour=index.hour, keep=True))
-        df.index = df.index.to_datetime()
-        dropdates = list(set(index.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        index = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h)
-                for y, m, d, h in zip(df.index.year, df.index.month, df.index.day, df.hour)
-            ]
-        )
+        index = index[index.normalize().isin(daily_index.normalize())]
 
     return index
 
-- 
2.43.0


From 5700728a29f0ff0ed1ffde016efd51a1367e8a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:21 +0000
Subject: [PATCH 02/33] fix: sub-hourly index helpers failed on days with gaps
 and on recent pandas

sub_level_index and fmin_index used pandas.datetime (removed) to drop the
days that are not in the daily index, which also lost the fractional
seconds of the cascade time steps. fmin_index additionally used the removed
frequency alias 'L'.
---
 melodist/precipitation.py | 43 +++------------------------------------
 1 file changed, 3 insertions(+), 40 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index fb8295f..6206566 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -712,27 +712,7 @@ def sub_level_index(daily_index, level=9, fill_gaps=False):
     # remove days that are not in the daily index:
     time_steps = 2**level
     if not fill_gaps and len(sublevel_index) > len(daily_index) * time_steps:
-        df = pd.DataFrame(
-            index=sublevel_index.date,
-            data=dict(
-                hour=sublevel_index.hour,
-                minute=sublevel_index.minute,
-                second=sublevel_index.second,
-                keep=True,
-            ),
-        )
-        df.index = pd.to_datetime(df.index)
-        dropdates = list(set(sublevel_index.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        sublevel_index = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h, minute, second)
-                for y, m, d, h, minute, second in zip(
-                    df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
-                )
-            ]
-        )
+        sublevel_index = sublevel_index[sublevel_index.normalize().isin(daily_index.normalize())]
 
     return sublevel_index
 
@@ -741,27 +721,10 @@ def fmin_index(daily_index, fill_gaps=False):
     fminindex = pd.date_range(
         start=daily_index.min(),
         end=daily_index.max().replace(hour=23, minute=59, second=59),
-        freq='300000L',
+        freq='5min',
     )
     # remove days that are not in the daily index:
     if not fill_gaps and len(fminindex) > len(daily_index) * 288:
-        df = pd.DataFrame(
-            index=fminindex.date,
-            data=dict(
-                hour=fminindex.hour, minute=fminindex.minute, second=fminindex.second, keep=True
-            ),
-        )
-        df.index = pd.to_datetime(df.index)  # got a warning at firsr: "to_datetime"is depreciated
-        dropdates = list(set(fminindex.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        fminindex = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h, minute, second)
-                for y, m, d, h, minute, second in zip(
-                    df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
-                )
-            ]
-        )
+        fminindex = fminindex[fminindex.normalize().isin(daily_index.normalize())]
 
     return fminindex
-- 
2.43.0


From 6095b16a0b94048509d2deae1aca6c3a7bb2029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:06 +0000
Subject: [PATCH 03/33] fix: 5-minute cascade reported days missing from the
 input as dry

Resampling the cascade result to 5 minutes also covers the days between the
first and last day that are not part of the daily series. These days came
back with zero precipitation. Restrict the result to the input days.
---
 melodist/precipitation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 6206566..3bbb49e 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -309,6 +309,8 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
             index=sub_level_index(precip_daily.index, level=level, fill_gaps=False), data=vdn_out
         )
         disagg_precip = precip_sn.resample('5min').sum()
+        # days that are not in the daily index must not show up as dry days
+        disagg_precip = disagg_precip.reindex(fmin_index(precip_daily.index))
 
     # set missing days to nan again:
     for date in missing_days:
-- 
2.43.0


From 74b924b6037907afe2039f51fa4a3bfc3e2c1fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:06 +0000
Subject: [PATCH 04/33] fix: master station disaggregation raised
 AttributeError

Series.iteritems was removed from pandas, so precip_master_station (and the
'masterstation' method of Station.disaggregate_precipitation) always failed.
---
 melodist/precipitation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 3bbb49e..0931bea 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -388,10 +388,12 @@ def precip_master_station(precip_daily, master_precip_hourly, zerodiv):
         distribution
     """
 
-    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index))
+    precip_hourly = pd.Series(
+        index=melodist.util.hourly_index(precip_daily.index), dtype=float
+    )
 
     # set some parameters for cosine function
-    for index_d, precip in precip_daily.iteritems():
+    for index_d, precip in precip_daily.items():
         # get hourly data of the day
         index = index_d.date().isoformat()
         precip_h = master_precip_hourly[index]
-- 
2.43.0


From beb4037858d93cefc4add7b8ab5137e520d94b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:06 +0000
Subject: [PATCH 05/33] fix: detect_gaps raised AttributeError

Timedelta.delta was removed from pandas; compare the total seconds instead.
---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 2cbf4af..fb6ca07 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -266,7 +266,7 @@ def detect_gaps(dataframe, timestep, print_all=False, print_max=5, verbose=True)
     for i in range(0, n):
         if i > 0:
             time_diff = dataframe.index[i] - dataframe.index[i - 1]
-            if time_diff.delta / 1e9 != timestep:
+            if time_diff.total_seconds() != timestep:
                 gcount += 1
                 if print_all or (msg_counter <= print_max - 1):
                     if verbose:
-- 
2.43.0


From 7bf30d31c785fb5c5a1cd9bfce0df47b00f05d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:06 +0000
Subject: [PATCH 06/33] fix: Station.interpolate raised AttributeError

Series.append was removed from pandas; concatenate the daily values once.
---
 melodist/util/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index fb6ca07..cbb5daf 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -346,16 +346,16 @@ def prepare_interpolation_data(data_daily, column_hours):
     start_date = data_daily.index[0]
     end_date = data_daily.index[-1]
 
-    data = pd.Series()
+    parts = []
 
     for column, hour in column_hours.items():
         index = pd.date_range(
             start=start_date.replace(hour=hour), end=end_date.replace(hour=hour), freq='D'
         )
         s = pd.Series(index=index, data=data_daily[column].values)
-        data = data.append(s)
+        parts.append(s)
 
-    data = data.sort_index()
+    data = pd.concat(parts).sort_index()
     data = data.reindex(hourly_index(data_daily.index))
 
     return data
-- 
2.43.0


From 0e95194784dc16b21915e34faaf05658a8aa3d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 07/33] fix: temperature disaggregation failed during polar
 nights

The transition between polar night and regular days used Series.append,
which was removed from pandas, and masked with the non-boolean result of
Series.diff. Every station with days shorter than three hours raised.
---
 melodist/temperature.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index a5ad2b8..0b787c1 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -206,9 +206,7 @@ def disaggregate_temperature(
             temp_disagg[getting_colders_max_loc] = locdf_day.min_val_cur[getting_colders].values
 
             temp_polars = temp_disagg.loc[polars_index_hourly].copy()
-            transition_days = polars[polars.diff()].astype(
-                int
-            )
+            transition_days = polars[polars.diff().fillna(False).astype(bool)].astype(int)
             # (0 where transition from polar to "normal" mode, 1 where transition from normal to
             # polar)
 
@@ -219,8 +217,8 @@ def disaggregate_temperature(
                 )
                 add_days = polar_to_normal_days.union(normal_to_polar_days)
 
-                temp_polars = temp_polars.append(
-                    temp_disagg[melodist.util.hourly_index(add_days)]
+                temp_polars = pd.concat(
+                    [temp_polars, temp_disagg[melodist.util.hourly_index(add_days)]]
                 ).sort_index()
 
                 for day in polar_to_normal_days:
-- 
2.43.0


From cbca901152baa7e6f4d94e46bad77dd37067a98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 08/33] fix: read_smet raised AttributeError

The name of a pandas index cannot be deleted anymore; reset it to None.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 0fe8ba3..70d53ae 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -93,7 +93,7 @@ def read_smet(filename, mode):
 
     data = data * multiplier
 
-    del data.index.name
+    data.index.name = None
 
     # rename columns
     if mode == "d":
-- 
2.43.0


From 8a60d59b6bbd789f00da6edb893a1c3b2995081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 09/33] fix: write_smet swapped minimum and maximum temperature

Daily minimum temperature was written to the TMAX field and vice versa, so
reading the file back with read_smet exchanged the two.
---
 melodist/data_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 70d53ae..41e72c4 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -244,8 +244,8 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
     # daily data
     dict_d = {
         'tmean': 'TA',
-        'tmin': 'TMAX',  # no spec
-        'tmax': 'TMIN',  # no spec
+        'tmin': 'TMIN',  # no spec
+        'tmax': 'TMAX',  # no spec
         'precip': 'PSUM',
         'glob': 'ISWR',  # no spec
         'hum': 'RH',
-- 
2.43.0


From 64262ed09b9ad86f6f7728850227187bffaaa964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:16 +0000
Subject: [PATCH 10/33] fix: write_smet modified the header passed by the
 caller

The fields and units_multiplier entries were added to the caller's own
metadata. Update a copy instead.
---
 melodist/data_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 41e72c4..0c00dcb 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -284,6 +284,7 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
         data = data[cols]
 
         # metadatas update
+        metadata = dict(metadata)
         metadata['fields'] = ' '.join(data.columns)
         metadata["units_multiplier"] = len(metadata['fields'].split()) * "1 "
 
-- 
2.43.0


From 1fd5c46bd1c2f055ff48e5d9915500fbbe9ec555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:25 +0000
Subject: [PATCH 11/33] fix: write_smet wrote columns without any data despite
 check_nan

The sum of a column without valid values is zero in current pandas, so no
column was ever recognized as empty. Require at least one valid value.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 0c00dcb..8259125 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -263,7 +263,7 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
 
     if check_nan:
         # get all columns with data
-        datas_in = data.sum().dropna().to_frame().T
+        datas_in = data.sum(min_count=1).dropna().to_frame().T
         # get colums with no datas
         drop = [data_nan for data_nan in data.columns if data_nan not in datas_in]
         # delete columns
-- 
2.43.0


From 8837642e33679dfe232e2436ea2a88e463c35a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:25 +0000
Subject: [PATCH 12/33] fix: read_smet truncated header values that contain an
 equals sign

---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 8259125..2b4ec11 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -72,7 +72,7 @@ def read_smet(filename, mode):
                 break
 
             if in_header:
-                line_split = line.split('=')
+                line_split = line.split('=', 1)
                 k = line_split[0].strip()
                 v = line_split[1].strip()
                 header[k] = v
-- 
2.43.0


From 305ddb0190869a7f6f2ee9a27a323e7b01b1561f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:25 +0000
Subject: [PATCH 13/33] fix: SMET files with a custom nodata value were read as
 valid data

write_smet did not record nodata_value in the header and read_smet always
assumed -999, so missing values came back as measurements.
---
 melodist/data_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 2b4ec11..c9b572f 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -84,7 +84,7 @@ def read_smet(filename, mode):
     data = pd.read_table(
         filename,
         sep=r'\s+',
-        na_values=[-999],
+        na_values=[float(header.get('nodata', -999))],
         skiprows=data_start,
         names=columns,
         index_col='timestamp',
@@ -286,6 +286,7 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
         # metadatas update
         metadata = dict(metadata)
         metadata['fields'] = ' '.join(data.columns)
+        metadata['nodata'] = nodata_value
         metadata["units_multiplier"] = len(metadata['fields'].split()) * "1 "
 
         # writing data
-- 
2.43.0


From 49c9cb70bb2998db401a01637bf70370098a87f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:12 +0000
Subject: [PATCH 14/33] fix: read_dwd failed for hourly data

The date_parser argument was removed from pandas.read_csv; convert the index
after reading.
---
 melodist/data_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index c9b572f..7bd078e 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -182,9 +182,10 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
                 sep=';',
                 na_values='-999',
                 index_col=' MESS_DATUM',
-                date_parser=date_parser,
+                dtype={' MESS_DATUM': str},
                 skiprows=skip_last,
             )
+            data.index = pd.DatetimeIndex([date_parser(d) for d in data.index])
 
         # remove whitespace from header columns
         data.rename(columns=lambda x: x.strip(), inplace=True)
-- 
2.43.0


From 3bb9f8d1d8586af3bd6bc469c7233226d22bbf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:12 +0000
Subject: [PATCH 15/33] fix: read_dwd dropped the last line even with
 skip_last=False

Any value other than None enabled skipping. The file opened for counting the
lines was also never closed.
---
 melodist/data_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 7bd078e..19f4171 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -150,9 +150,12 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
         }
 
         # ---read data------------------
-        if skip_last is not None:
-            num_lines = sum(1 for line in open(filename))
+        if skip_last:
+            with open(filename) as f:
+                num_lines = sum(1 for line in f)
             skip_last = [num_lines - 1]
+        else:
+            skip_last = None
 
         # hourly data must be parsed by custom definition
         if mode == "d":
-- 
2.43.0


From bc0711811eb240a9182e99ceea02179b2f9471d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:35 +0000
Subject: [PATCH 16/33] fix: reading KNMI files raised TypeError

The date_parser, keep_date_col and nested parse_dates arguments of
pandas.read_csv as well as pandas.datetime do not exist anymore. Build the
time stamps from the date and hour columns.
---
 melodist/data_io.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 19f4171..3f09985 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -326,18 +326,15 @@ def read_single_knmi_file(filename):
     """
     hourly_data_obs_raw = pd.read_csv(
         filename,
-        parse_dates=[['YYYYMMDD', 'HH']],
-        date_parser=lambda yyyymmdd, hh: pd.datetime(
-            int(str(yyyymmdd)[0:4]), int(str(yyyymmdd)[4:6]), int(str(yyyymmdd)[6:8]), int(hh) - 1
-        ),
         skiprows=31,
         skipinitialspace=True,
         na_values='',
-        keep_date_col=True,
     )
 
-    hourly_data_obs_raw.index = hourly_data_obs_raw['YYYYMMDD_HH']
-    hourly_data_obs_raw.index = hourly_data_obs_raw.index + pd.Timedelta(hours=1)
+    # HH denotes the end of the hourly interval (1-24)
+    hourly_data_obs_raw.index = pd.to_datetime(
+        hourly_data_obs_raw['YYYYMMDD'].astype(str), format='%Y%m%d'
+    ) + pd.to_timedelta(hourly_data_obs_raw['HH'], unit='h')
 
     columns_hourly = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
 
-- 
2.43.0


From efcf270f35b576258738dc8da667e6eb58476131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:35 +0000
Subject: [PATCH 17/33] fix: KNMI sunshine durations below resolution were read
 as -6 minutes

Sunshine below 0.05 h is encoded as -1, just like small precipitation
amounts, but only the latter were set to zero.
---
 melodist/data_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 3f09985..59f5243 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -351,8 +351,10 @@ def read_single_knmi_file(filename):
         ),
     )
     # remove negative values
-    negative_values = hourly_data_obs['precip'] < 0.0
-    hourly_data_obs.loc[negative_values, 'precip'] = 0.0
+    # (-1 denotes amounts/durations below the measurement resolution)
+    for column in ('precip', 'ssd'):
+        negative_values = hourly_data_obs[column] < 0.0
+        hourly_data_obs.loc[negative_values, column] = 0.0
     return hourly_data_obs
 
 
-- 
2.43.0


From fb8fa674fece3f7432c279a163ecb4d7c99d79ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:35 +0000
Subject: [PATCH 18/33] fix: read_knmi_dataset returned records in directory
 order

The order of the files is up to the file system, so the merged time series
was not guaranteed to be chronological.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 59f5243..e6e047e 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -371,7 +371,7 @@ def read_knmi_dataset(directory):
         pandas data frame including time series
     """
     filemask = '%s*.txt' % directory
-    filelist = glob.glob(filemask)
+    filelist = sorted(glob.glob(filemask))
 
     columns_hourly = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
     ts = pd.DataFrame(columns=columns_hourly)
-- 
2.43.0


From d908757824ec5f88f029fe5edcd0a0fd0bdecbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:35 +0000
Subject: [PATCH 19/33] fix: monthly Bristow-Campbell parameters were not
 calculated with sunshine data

With how='monthly' the month ranges were a one-shot iterator that the
Angstroem calibration exhausted, leaving the Bristow-Campbell parameters at
their defaults.
---
 melodist/stationstatistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 9e426c0..714ed9b 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -150,7 +150,7 @@ class StationStatistics(object):
             elif how == 'seasonal':
                 month_ranges = [[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]]
             elif how == 'monthly':
-                month_ranges = zip(np.arange(12) + 1)
+                month_ranges = list(zip(np.arange(12) + 1))
 
             def myisin(s, v):
                 return pd.Series(s).isin(v).values
-- 
2.43.0


From d457150feaf49395e8c5ec83359787efc94de4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:58 +0000
Subject: [PATCH 20/33] fix: build_casc overwrote missing precipitation in the
 observations

Missing values were replaced by zero in the data frame passed by the caller,
and only after the data of the first season had been extracted, so that
season was evaluated with missing values. Fill the extracted data instead.
---
 melodist/precipitation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 0931bea..9e44412 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -664,7 +664,7 @@ def build_casc(ObsData, hourly=True, level=9, months=None, avg_stats=True, perce
     # Parameter estimation for each season
     for cur_months in months:
         vdn = seasonal_subset(ObsData, cur_months)
-        ObsData['precip'] = ObsData['precip'].fillna(0)
+        vdn['precip'] = vdn['precip'].fillna(0)
 
         casc_opt = melodist.cascade.CascadeStatistics()
         casc_opt.percentile = percentile
-- 
2.43.0


From 477c7298a5aa179176b9d51515c2b0ee7b216d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:58 +0000
Subject: [PATCH 21/33] fix: cascade reused the weight of an earlier box for
 large random numbers

The cumulative weight probabilities can end slightly below one due to
rounding. A random number above that value left the weight undefined or
unchanged from the previous box. Use the last class in this case.
---
 melodist/precipitation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 9e44412..1ca61ba 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -263,6 +263,8 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
                         if rndw <= wxxcum[k, belowabove, vbtype - 1]:
                             w1 = wclassbounds[k + 1] - 1.0 / 14.0  # class center
                             break
+                    else:  # cumulative probabilities may sum up to slightly less than one
+                        w1 = wclassbounds[7] - 1.0 / 14.0
 
                     vdn_out[j] = w1 * vdn_in[i]
                     j = j + 1
-- 
2.43.0


From b19d47e7c167b69062581dd82f71022d508dc4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:07 +0000
Subject: [PATCH 22/33] fix: sun times were not updated when the location of a
 station changed

The times of sunrise, noon and sunset were only calculated when daily data
was assigned. Changing longitude, latitude or time zone afterwards kept the
sun times of the old location, or none at all if the time zone was set last.
---
 melodist/station.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/melodist/station.py b/melodist/station.py
index 297bb9a..6a9c887 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -116,6 +116,7 @@ class Station(object):
     def lon(self, lon):
         self._lon = lon
         self.statistics._lon = lon
+        self._update_sun_times()
 
     @property
     def lat(self):
@@ -128,6 +129,7 @@ class Station(object):
     def lat(self, lat):
         self._lat = lat
         self.statistics._lat = lat
+        self._update_sun_times()
 
     @property
     def timezone(self):
@@ -143,6 +145,7 @@ class Station(object):
     def timezone(self, timezone):
         self._timezone = timezone
         self.statistics._timezone = timezone
+        self._update_sun_times()
 
     @property
     def statistics(self):
@@ -169,6 +172,10 @@ class Station(object):
 
         return self._data_disagg
 
+    def _update_sun_times(self):
+        if self.data_daily is not None and None not in (self.lon, self.lat, self.timezone):
+            self.calc_sun_times()
+
     def calc_sun_times(self):
         """
         Computes the times of sunrise, solar noon, and sunset for each day.
-- 
2.43.0


From df543cbc9b67241806217fb5fcb5e2e6df7d63bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:04 +0000
Subject: [PATCH 23/33] fix: keep missing days missing when the master station
 is dry

---
 melodist/precipitation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 1ca61ba..f99387e 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -411,7 +411,7 @@ def precip_master_station(precip_daily, master_precip_hourly, zerodiv):
                 precip_h_rel = (1 / 24) * precip
 
             else:
-                precip_h_rel = 0
+                precip_h_rel = 0 * precip  # stays missing if the daily value is missing
 
         # write the disaggregated day to data
         precip_hourly[index] = precip_h_rel
-- 
2.43.0


From 1c8e270b9f878cc773031bbb33ee8a68145dd1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:44 +0000
Subject: [PATCH 24/33] fix: accept daily data when only part of the location
 is known

---
 melodist/station.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/melodist/station.py b/melodist/station.py
index 6a9c887..08a6830 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -102,8 +102,7 @@ class Station(object):
         df = pd.DataFrame(index=index, columns=Station._columns_hourly, dtype=float)
         self._data_disagg = df
 
-        if self.timezone is not None:
-            self.calc_sun_times()
+        self._update_sun_times()
 
     @property
     def lon(self):
-- 
2.43.0


From cbd30369aa730e7b1222381e5f3536bcf219d289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:39 +0000
Subject: [PATCH 25/33] fix: complete the calendar of data given every few days

---
 melodist/station.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/station.py b/melodist/station.py
index 08a6830..8fe83dc 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -86,7 +86,7 @@ class Station(object):
         assert df.index.resolution == 'day'
         assert df.index.is_monotonic_increasing
 
-        if df.index.freq is None:  # likely some days are missing
+        if df.index.freq != 'D':  # likely some days are missing
             df = df.reindex(pd.date_range(start=df.index[0], end=df.index[-1], freq='D'))
 
         for var in 'tmin', 'tmax', 'tmean':
-- 
2.43.0


From 5b4f9fa8238dcefa9cb6772c939907df9a6af1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:43 +0000
Subject: [PATCH 26/33] fix: drop the first record of a single incomplete day
 as well

---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index cbb5daf..eb9c8ca 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -331,7 +331,7 @@ def drop_incomplete_days(dataframe, shift=0):
             dropped += 1
 
     # drop tailing lines if required
-    for i in range(n - 1, 0, -1):
+    for i in range(n - 1, -1, -1):
         if dataframe.index.hour[i] == last and dataframe.index.minute[i] == 0:
             break
         else:
-- 
2.43.0


From ed1dd731e04bb0bf27fab19a00a94fabf32cd73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:20 +0000
Subject: [PATCH 27/33] fix: read_knmi_dataset read files beside the given
 directory

Without a trailing slash the name of the directory was used as a prefix
of the file names, and characters like brackets in it as a pattern.
---
 melodist/data_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index e6e047e..bdf87a7 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -20,6 +20,7 @@
 ################################################################################
 import collections
 import glob
+import os
 
 import pandas as pd
 
@@ -370,7 +371,7 @@ def read_knmi_dataset(directory):
     Returns:
         pandas data frame including time series
     """
-    filemask = '%s*.txt' % directory
+    filemask = os.path.join(glob.escape(directory), '*.txt')
     filelist = sorted(glob.glob(filemask))
 
     columns_hourly = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
-- 
2.43.0


From 5bb9fc47e1a7978d0df9a0f385f7519d46487513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:03:38 +0000
Subject: [PATCH 28/33] fix: precipitation statistics kept a reference to the
 list of months of the caller

---
 melodist/stationstatistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 714ed9b..a4c1b2a 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -18,6 +18,7 @@
 # You should have received a copy of the GNU General Public License along with #
 # this program.  If not, see <http://www.gnu.org/licenses/>.                   #
 ################################################################################
+import copy
 import io
 import json
 
@@ -88,7 +89,7 @@ class StationStatistics(object):
         if months is None:
             months = [np.arange(12) + 1]
 
-        self.precip.months = months
+        self.precip.months = copy.deepcopy(months)
         self.precip.stats = melodist.build_casc(
             self.data, months=months, avg_stats=avg_stats, percentile=percentile
         )
-- 
2.43.0


From 978261795859c344c8f8ea8973c8c0a84247218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:41 +0000
Subject: [PATCH 29/33] fix: padded missing values of DWD files were read as
 -999

The fields of DWD files are padded with blanks. In columns of whole numbers
the padded marker was not recognised, so -999 was returned as a measurement.
---
 melodist/data_io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index bdf87a7..b09f252 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -164,7 +164,8 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
                 filename,
                 sep=';',
                 na_values='-999',
-                index_col=' MESS_DATUM',
+                index_col='MESS_DATUM',
+                skipinitialspace=True,
                 parse_dates=True,
                 skiprows=skip_last,
             )
@@ -185,8 +186,9 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
                 filename,
                 sep=';',
                 na_values='-999',
-                index_col=' MESS_DATUM',
-                dtype={' MESS_DATUM': str},
+                index_col='MESS_DATUM',
+                skipinitialspace=True,
+                dtype={'MESS_DATUM': str},
                 skiprows=skip_last,
             )
             data.index = pd.DatetimeIndex([date_parser(d) for d in data.index])
-- 
2.43.0


From 7a2e9d914c0427a207280c6ed7bc0479b9fa573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:41 +0000
Subject: [PATCH 30/33] fix: SMET files with rounded marker of missing values

The marker was written with two decimals like the data. A marker with more
decimals did not agree with the header, and missing values were read back as
numbers.
---
 melodist/data_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index b09f252..291541f 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -307,9 +307,10 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
         # data
         f.write('[DATA]\n')
 
-        data_str = data.fillna(nodata_value).to_string(
+        data_str = data.to_string(
             header=False,
             index=False,
+            na_rep=str(nodata_value),
             float_format=lambda x: '{:.2f}'.format(x),
         )
 
-- 
2.43.0


From 2a095dbdb94fb934955946c4a9ad271e19667870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:41 +0000
Subject: [PATCH 31/33] fix: read_smet also took the truncated marker for a
 missing value

pandas adds the truncated whole number when the marker is passed as a float,
so that a marker of -0.5 turned zeros into missing values.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 291541f..670823b 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -85,7 +85,7 @@ def read_smet(filename, mode):
     data = pd.read_table(
         filename,
         sep=r'\s+',
-        na_values=[float(header.get('nodata', -999))],
+        na_values=[header.get('nodata', '-999')],
         skiprows=data_start,
         names=columns,
         index_col='timestamp',
-- 
2.43.0


From 9d8823260d1b263608bcbed01ad1e2924a6bd80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:28:41 +0000
Subject: [PATCH 32/33] fix: from_json failed for mean courses that do not
 cover all months

---
 melodist/stationstatistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index a4c1b2a..bef7421 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -264,8 +264,8 @@ class StationStatistics(object):
                     typ='frame',
                 )
                 .sort_index()
-            )[np.arange(1, 12 + 1)]
-            stats.temp.mean_course = mc.sort_index()[np.arange(1, 12 + 1)]
+            )
+            stats.temp.mean_course = mc.sort_index(axis=1)
 
         if stats.hum.month_hour_precip_mean is not None:
             mhpm = pd.read_json(
@@ -284,6 +284,6 @@ class StationStatistics(object):
                 ).sort_index()
 
         if stats.glob.mean_course is not None:
-            stats.glob.mean_course = stats.glob.mean_course[np.arange(1, 12 + 1)]
+            stats.glob.mean_course = stats.glob.mean_course.sort_index(axis=1)
 
         return stats
-- 
2.43.0


From 952abd1baa89cdedc167122d7e06c0c1494bcaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:48:56 +0000
Subject: [PATCH 33/33] fix: missing days were filled by interpolation during
 polar nights

---
 melodist/temperature.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 0b787c1..ee5af3a 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -236,6 +236,14 @@ def disaggregate_temperature(
 
             temp_interp = temp_polars.interpolate(method='linear', limit=23)
             temp_disagg[temp_interp.index] = temp_interp
+
+            # the interpolation must not fill days without observed values
+            if method == 'sine_mean':
+                no_data = data_daily[['tmin', 'tmax', 'temp']].isnull().any(axis=1)
+            else:
+                no_data = data_daily[['tmin', 'tmax']].isnull()
+                no_data = no_data.all(axis=1) | (polars & no_data.any(axis=1))
+            temp_disagg[no_data.loc[temp_disagg.index.normalize()].values] = np.nan
     elif method == 'mean_course_min_max':
         data_daily_as_hourly = data_daily.reindex(temp_disagg.index, method='ffill', limit=23)
 
-- 
2.43.0


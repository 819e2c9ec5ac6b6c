From b7ab6c2e72be399dd10739c43b97c24881ae5c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:18 +0000
Subject: [PATCH 01/38] fix: build hourly index for daily data with missing
 days

The hourly index of a gappy daily index was built with pandas functions
that no longer exist, so every caller crashed as soon as a day was missing,
e.g. cascade disaggregation with seasonal statistics.
---
 melodist/util/util.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 7550078..f8b0923 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -28,17 +28,7 @@ def hourly_index(daily_index, fill_gaps=False):
 
     # remove days that are not in the daily index:
     if not fill_gaps and len(index) > len(daily_index) * 24:
-        df = pd.DataFrame(index=index.date, data=dict(hour=index.hour, keep=True))
-        df.index = df.index.to_datetime()
-        dropdates = list(set(index.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        index = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h)
-                for y, m, d, h in zip(df.index.year, df.index.month, df.index.day, df.hour)
-            ]
-        )
+        index = index[index.normalize().isin(daily_index)]
 
     return index
 
-- 
2.43.0


From 2289e9489b26d072d4576233ed83ecc5a67e7297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:18 +0000
Subject: [PATCH 02/38] fix: support missing days in 5 minute cascade
 disaggregation

Disaggregating daily precipitation with missing days to 5 minute values
crashed on removed pandas functions. Days which are not part of the daily
data must also not show up as dry days in the result.
---
 melodist/precipitation.py | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index fb8295f..c72bc93 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -309,6 +309,8 @@ def disagg_prec_cascade(precip_daily, cascade_options, hourly=True, level=9, shi
             index=sub_level_index(precip_daily.index, level=level, fill_gaps=False), data=vdn_out
         )
         disagg_precip = precip_sn.resample('5min').sum()
+        # resampling also creates the days between gaps, keep only the days to disaggregate
+        disagg_precip = disagg_precip[disagg_precip.index.normalize().isin(precip_daily.index)]
 
     # set missing days to nan again:
     for date in missing_days:
@@ -712,27 +714,7 @@ def sub_level_index(daily_index, level=9, fill_gaps=False):
     # remove days that are not in the daily index:
     time_steps = 2**level
     if not fill_gaps and len(sublevel_index) > len(daily_index) * time_steps:
-        df = pd.DataFrame(
-            index=sublevel_index.date,
-            data=dict(
-                hour=sublevel_index.hour,
-                minute=sublevel_index.minute,
-                second=sublevel_index.second,
-                keep=True,
-            ),
-        )
-        df.index = pd.to_datetime(df.index)
-        dropdates = list(set(sublevel_index.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        sublevel_index = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h, minute, second)
-                for y, m, d, h, minute, second in zip(
-                    df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
-                )
-            ]
-        )
+        sublevel_index = sublevel_index[sublevel_index.normalize().isin(daily_index)]
 
     return sublevel_index
 
-- 
2.43.0


From aa2618d5b1f75159724393669912ff3d851f7c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:18 +0000
Subject: [PATCH 03/38] fix: repair creation of 5 minute index

The frequency alias and the pandas functions used by fmin_index() have been
removed from pandas.
---
 melodist/precipitation.py | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index c72bc93..b8be90f 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -723,27 +723,10 @@ def fmin_index(daily_index, fill_gaps=False):
     fminindex = pd.date_range(
         start=daily_index.min(),
         end=daily_index.max().replace(hour=23, minute=59, second=59),
-        freq='300000L',
+        freq='5min',
     )
     # remove days that are not in the daily index:
     if not fill_gaps and len(fminindex) > len(daily_index) * 288:
-        df = pd.DataFrame(
-            index=fminindex.date,
-            data=dict(
-                hour=fminindex.hour, minute=fminindex.minute, second=fminindex.second, keep=True
-            ),
-        )
-        df.index = pd.to_datetime(df.index)  # got a warning at firsr: "to_datetime"is depreciated
-        dropdates = list(set(fminindex.date) - set(daily_index.date))
-        df.loc[dropdates, 'keep'] = False
-        df = df[df.keep]
-        fminindex = pd.DatetimeIndex(
-            [
-                pd.datetime(y, m, d, h, minute, second)
-                for y, m, d, h, minute, second in zip(
-                    df.index.year, df.index.month, df.index.day, df.hour, df.minute, df.second
-                )
-            ]
-        )
+        fminindex = fminindex[fminindex.normalize().isin(daily_index)]
 
     return fminindex
-- 
2.43.0


From 8046e8c12d8ada995df18488a2ad4c1ec7b22acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:40 +0000
Subject: [PATCH 04/38] fix: repair precipitation disaggregation from a master
 station

Series.iteritems() has been removed from pandas.
---
 melodist/precipitation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index b8be90f..6e8f06e 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -388,10 +388,10 @@ def precip_master_station(precip_daily, master_precip_hourly, zerodiv):
         distribution
     """
 
-    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index))
+    precip_hourly = pd.Series(index=melodist.util.hourly_index(precip_daily.index), dtype=float)
 
     # set some parameters for cosine function
-    for index_d, precip in precip_daily.iteritems():
+    for index_d, precip in precip_daily.items():
         # get hourly data of the day
         index = index_d.date().isoformat()
         precip_h = master_precip_hourly[index]
-- 
2.43.0


From 3efb423c7488446c458d0a25867c26007a234664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:40 +0000
Subject: [PATCH 05/38] fix: repair interpolation of values measured at fixed
 hours

Series.append() has been removed from pandas.
---
 melodist/util/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index f8b0923..5597b24 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -346,16 +346,16 @@ def prepare_interpolation_data(data_daily, column_hours):
     start_date = data_daily.index[0]
     end_date = data_daily.index[-1]
 
-    data = pd.Series()
+    data = []
 
     for column, hour in column_hours.items():
         index = pd.date_range(
             start=start_date.replace(hour=hour), end=end_date.replace(hour=hour), freq='D'
         )
         s = pd.Series(index=index, data=data_daily[column].values)
-        data = data.append(s)
+        data.append(s)
 
-    data = data.sort_index()
+    data = pd.concat(data).sort_index()
     data = data.reindex(hourly_index(data_daily.index))
 
     return data
-- 
2.43.0


From 583227915c4abedf8283b752d0a9a766ecddb558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:40 +0000
Subject: [PATCH 06/38] fix: repair detection of gaps in time series

Timedelta.delta has been removed from pandas.
---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 5597b24..a9f0ec2 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -266,7 +266,7 @@ def detect_gaps(dataframe, timestep, print_all=False, print_max=5, verbose=True)
     for i in range(0, n):
         if i > 0:
             time_diff = dataframe.index[i] - dataframe.index[i - 1]
-            if time_diff.delta / 1e9 != timestep:
+            if time_diff.total_seconds() != timestep:
                 gcount += 1
                 if print_all or (msg_counter <= print_max - 1):
                     if verbose:
-- 
2.43.0


From a69329b7d0f6d17f190359d723cbef2081725c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:40 +0000
Subject: [PATCH 07/38] fix: drop incomplete day which starts at the first time
 step

A series which starts with the first hour of a day but does not contain any
complete day was truncated to its first row instead of being emptied.
---
 melodist/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index a9f0ec2..66f6708 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -331,7 +331,7 @@ def drop_incomplete_days(dataframe, shift=0):
             dropped += 1
 
     # drop tailing lines if required
-    for i in range(n - 1, 0, -1):
+    for i in range(n - 1, -1, -1):
         if dataframe.index.hour[i] == last and dataframe.index.minute[i] == 0:
             break
         else:
-- 
2.43.0


From c16a53803f026b9e176b79ead06aa5eddf20c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:56 +0000
Subject: [PATCH 08/38] fix: repair reading of SMET files

The name of an index can not be deleted in current pandas versions.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 0fe8ba3..70d53ae 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -93,7 +93,7 @@ def read_smet(filename, mode):
 
     data = data * multiplier
 
-    del data.index.name
+    data.index.name = None
 
     # rename columns
     if mode == "d":
-- 
2.43.0


From e2400f723421fe8b2ae89cf658caf00894f60381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:56 +0000
Subject: [PATCH 09/38] fix: do not swap minimum and maximum temperature in
 SMET files

Daily minimum temperatures were written as TMAX and vice versa, so they were
exchanged after reading the file again.
---
 melodist/data_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 70d53ae..41e72c4 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -244,8 +244,8 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
     # daily data
     dict_d = {
         'tmean': 'TA',
-        'tmin': 'TMAX',  # no spec
-        'tmax': 'TMIN',  # no spec
+        'tmin': 'TMIN',  # no spec
+        'tmax': 'TMAX',  # no spec
         'precip': 'PSUM',
         'glob': 'ISWR',  # no spec
         'hum': 'RH',
-- 
2.43.0


From 9afba61988ba7b80a507fef9cbfddbd02463c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:56 +0000
Subject: [PATCH 10/38] fix: omit columns without data from SMET files

The sum of a column containing only missing values is 0 in current pandas
versions, so such columns were not recognized.
---
 melodist/data_io.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 41e72c4..02172ef 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -262,12 +262,8 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
         data = data.rename(columns=dict_h)
 
     if check_nan:
-        # get all columns with data
-        datas_in = data.sum().dropna().to_frame().T
-        # get colums with no datas
-        drop = [data_nan for data_nan in data.columns if data_nan not in datas_in]
-        # delete columns
-        data = data.drop(drop, axis=1)
+        # delete columns with no data
+        data = data.dropna(axis=1, how='all')
 
     with open(filename, 'w') as f:
         # preparing data
-- 
2.43.0


From 602a70bc23b2ec89a27e564d5730c7d1930e40b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:41 +0000
Subject: [PATCH 11/38] fix: preserve missing values and metadata in SMET files

The nodata value used when writing was not part of the header and was
ignored when reading, so missing values came back as numbers for any other
value than -999. Header values containing an equals sign were truncated and
the metadata passed by the caller was modified.
---
 melodist/data_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 02172ef..ef6672e 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -72,7 +72,7 @@ def read_smet(filename, mode):
                 break
 
             if in_header:
-                line_split = line.split('=')
+                line_split = line.split('=', 1)
                 k = line_split[0].strip()
                 v = line_split[1].strip()
                 header[k] = v
@@ -84,7 +84,7 @@ def read_smet(filename, mode):
     data = pd.read_table(
         filename,
         sep=r'\s+',
-        na_values=[-999],
+        na_values=[float(header.get('nodata', -999))],
         skiprows=data_start,
         names=columns,
         index_col='timestamp',
@@ -280,6 +280,8 @@ def write_smet(filename, data, metadata, nodata_value=-999, mode='h', check_nan=
         data = data[cols]
 
         # metadatas update
+        metadata = dict(metadata)
+        metadata['nodata'] = nodata_value
         metadata['fields'] = ' '.join(data.columns)
         metadata["units_multiplier"] = len(metadata['fields'].split()) * "1 "
 
-- 
2.43.0


From 80f69627794cc9c5439130d88392f40347396cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:12 +0000
Subject: [PATCH 12/38] fix: repair reading of hourly DWD data

The date_parser argument has been removed from pandas.read_csv().
---
 melodist/data_io.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index ef6672e..e2d747b 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -167,24 +167,16 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
 
         # hourly data must be parsed by custom definition
         if mode == "h":
-
-            def date_parser(date_time):
-                hour = date_time[8:10]
-                day = date_time[6:8]
-                month = date_time[4:6]
-                year = date_time[0:4]
-                minute = '00'
-                sec = '00'
-                return pd.Timestamp('%s-%s-%s %s:%s:%s' % (year, month, day, hour, minute, sec))
-
             data = pd.read_csv(
                 filename,
                 sep=';',
                 na_values='-999',
                 index_col=' MESS_DATUM',
-                date_parser=date_parser,
                 skiprows=skip_last,
             )
+            data.index = pd.to_datetime(
+                data.index.astype(str).str.strip().str[:10], format='%Y%m%d%H'
+            )
 
         # remove whitespace from header columns
         data.rename(columns=lambda x: x.strip(), inplace=True)
-- 
2.43.0


From 9190ce54141f15480623095978ae6cf1ded8351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:12 +0000
Subject: [PATCH 13/38] fix: keep last line of DWD data if skip_last is False

The last record was dropped unless skip_last was None.
---
 melodist/data_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index e2d747b..d8d413a 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -150,9 +150,11 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
         }
 
         # ---read data------------------
-        if skip_last is not None:
+        if skip_last:
             num_lines = sum(1 for line in open(filename))
             skip_last = [num_lines - 1]
+        else:
+            skip_last = None
 
         # hourly data must be parsed by custom definition
         if mode == "d":
-- 
2.43.0


From 9af048010faf285055fd7e73116d059833bd932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:12 +0000
Subject: [PATCH 14/38] fix: repair reading of KNMI data

The date parsing arguments of pandas.read_csv() and pandas.datetime used for
reading KNMI files have been removed from pandas.
---
 melodist/data_io.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index d8d413a..9a2b048 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -312,18 +312,16 @@ def read_single_knmi_file(filename):
     """
     hourly_data_obs_raw = pd.read_csv(
         filename,
-        parse_dates=[['YYYYMMDD', 'HH']],
-        date_parser=lambda yyyymmdd, hh: pd.datetime(
-            int(str(yyyymmdd)[0:4]), int(str(yyyymmdd)[4:6]), int(str(yyyymmdd)[6:8]), int(hh) - 1
-        ),
         skiprows=31,
         skipinitialspace=True,
         na_values='',
-        keep_date_col=True,
     )
 
-    hourly_data_obs_raw.index = hourly_data_obs_raw['YYYYMMDD_HH']
-    hourly_data_obs_raw.index = hourly_data_obs_raw.index + pd.Timedelta(hours=1)
+    hourly_data_obs_raw.index = pd.DatetimeIndex(
+        pd.to_datetime(hourly_data_obs_raw['YYYYMMDD'].astype(str), format='%Y%m%d')
+        + pd.to_timedelta(hourly_data_obs_raw['HH'], unit='h'),
+        name='YYYYMMDD_HH',
+    )
 
     columns_hourly = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
 
-- 
2.43.0


From fdc40b41025bb48d82394c567590ccb89dff8ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:33 +0000
Subject: [PATCH 15/38] fix: return merged KNMI time series in chronological
 order

The order of the records depended on the arbitrary order in which the files
of the directory are listed.
---
 melodist/data_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 9a2b048..6016b10 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -370,4 +370,4 @@ def read_knmi_dataset(directory):
             first_call = False
         else:
             ts = pd.concat([ts, current])
-    return ts
+    return ts.sort_index()
-- 
2.43.0


From 889c734981064a256c742bcb5cf1f3a4e6d152dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:33 +0000
Subject: [PATCH 16/38] fix: repair temperature disaggregation during polar
 night

Selecting the days of transition between polar night and normal mode and
appending them to the polar night series relied on removed pandas features.
---
 melodist/temperature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index a5ad2b8..d30dc48 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -206,7 +206,7 @@ def disaggregate_temperature(
             temp_disagg[getting_colders_max_loc] = locdf_day.min_val_cur[getting_colders].values
 
             temp_polars = temp_disagg.loc[polars_index_hourly].copy()
-            transition_days = polars[polars.diff()].astype(
+            transition_days = polars[polars != polars.shift(1, fill_value=polars.iloc[0])].astype(
                 int
             )
             # (0 where transition from polar to "normal" mode, 1 where transition from normal to
@@ -219,8 +219,8 @@ def disaggregate_temperature(
                 )
                 add_days = polar_to_normal_days.union(normal_to_polar_days)
 
-                temp_polars = temp_polars.append(
-                    temp_disagg[melodist.util.hourly_index(add_days)]
+                temp_polars = pd.concat(
+                    [temp_polars, temp_disagg[melodist.util.hourly_index(add_days)]]
                 ).sort_index()
 
                 for day in polar_to_normal_days:
-- 
2.43.0


From 5d499ef87498ff08d235be289d7293e34d489739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:33 +0000
Subject: [PATCH 17/38] fix: do not require mean temperature for preserving
 tmin and tmax

Mean daily temperature is only needed for method sine_mean, but the sine
methods preserving minimum and maximum temperature failed without it.
---
 melodist/temperature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index d30dc48..4035dff 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -111,7 +111,8 @@ def disaggregate_temperature(
 
         locdf.min_val_cur = data_daily.tmin
         locdf.max_val_cur = data_daily.tmax
-        locdf.mean_val_cur = data_daily.temp
+        if 'temp' in data_daily:
+            locdf.mean_val_cur = data_daily.temp
         locdf.min_val_next = data_daily.tmin.shift(-1, 'D')
         locdf.max_val_next = data_daily.tmax.shift(-1, 'D')
         locdf.loc[locdf.index[-1], 'min_val_next'] = locdf.min_val_cur.iloc[-1]
-- 
2.43.0


From 94049524d855a03b29e01248392cc9faf3c3a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:33 +0000
Subject: [PATCH 18/38] fix: skip days without data in temperature statistics

pandas raises an error when looking for the maximum of a day which only
contains missing values.
---
 melodist/temperature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 4035dff..00141b6 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -278,9 +278,10 @@ def get_shift_by_data(temp_hourly, lon, lat, time_zone):
     daily_index = temp_hourly.resample('D').mean().index
     sun_times = melodist.util.get_sun_times(daily_index, lon, lat, time_zone)
 
+    temp_hourly = temp_hourly.dropna()
     idxmax = temp_hourly.groupby(temp_hourly.index.date).idxmax()
     idxmax.index = pd.to_datetime(idxmax.index)
-    max_temp_hour_obs = idxmax.dropna().apply(lambda d: d.hour)
+    max_temp_hour_obs = idxmax.apply(lambda d: d.hour)
     max_temp_hour_pot = sun_times.sunnoon
     max_delta = max_temp_hour_obs - max_temp_hour_pot
     mean_monthly_delta = max_delta.groupby(max_delta.index.month).mean()
-- 
2.43.0


From 09a75054d099de299c2fdaadb69db1b00e91f28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:13 +0000
Subject: [PATCH 19/38] fix: preserve maximum temperature if the sun rises
 before midnight

Close to the midnight sun the time of sunrise can be shortly before midnight,
e.g. 23.7 h. Assuming the minimum temperature at this hour of the current day
applied the maximum temperature of the previous day for the entire day.
---
 melodist/temperature.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 00141b6..bf8c9f9 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -84,19 +84,22 @@ def disaggregate_temperature(
             ],
         )
 
+        # close to the midnight sun, the sun may already rise before midnight
+        sunrise = sun_times.sunrise.where(sun_times.sunrise <= sun_times.sunnoon, 0)
+
         if min_max_time == 'fix':
             # take fixed location for minimum and maximum
             locdf.min_loc = 7
             locdf.max_loc = 14
         elif min_max_time == 'sun_loc':
             # take location for minimum and maximum by sunrise / sunnoon + 2h
-            locdf.min_loc = sun_times.sunrise.round()  # sun rise round to full hour
+            locdf.min_loc = sunrise.round()  # sun rise round to full hour
             locdf.max_loc = (
                 sun_times.sunnoon.round() + default_shift_hours
             )  # sun noon round to full hour + fix 2h
         elif min_max_time == 'sun_loc_shift':
             # take location for minimum and maximum by sunrise / sunnoon + monthly delta
-            locdf.min_loc = sun_times.sunrise.round()  # sun rise round to full hour
+            locdf.min_loc = sunrise.round()  # sun rise round to full hour
             locdf.max_loc = (
                 sun_times.sunnoon + max_delta[locdf.index.month].values
             ).round()  # sun noon + shift derived from observed hourly data, round to full hour
-- 
2.43.0


From 7f02b46d45ff33f3b2d7ef0ca7a4f214f62cccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:13 +0000
Subject: [PATCH 20/38] fix: calculate sun times for locations across the date
 line

For locations whose time zone belongs to the other side of the date line,
e.g. Tonga (lon=-175, timezone=13), the calculated times were off by 24 h.
---
 melodist/util/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/util/util.py b/melodist/util/util.py
index 66f6708..3d56faa 100644
--- a/melodist/util/util.py
+++ b/melodist/util/util.py
@@ -196,7 +196,8 @@ def get_sun_times(dates, lon, lat, time_zone):
 
     #
     standard_meridian = time_zone * 15.0
-    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
+    delta_lon = (lon - standard_meridian + 180.0) % 360.0 - 180.0  # shortest way around the globe
+    delta_lat_time = delta_lon * 24.0 / 360.0
 
     omega_nul_arg = -np.tan(np.deg2rad(lat)) * np.tan(declination)
     omega_nul = np.arccos(omega_nul_arg)
-- 
2.43.0


From 166c88fa8f01868efd126b1f4ada5ee9a8a7edd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:13 +0000
Subject: [PATCH 21/38] fix: calculate monthly Bristow-Campbell parameters

The iterator over the months was already exhausted by the calculation of the
Angstroem parameters if sunshine duration is available.
---
 melodist/stationstatistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 9e426c0..88e268b 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -150,7 +150,7 @@ class StationStatistics(object):
             elif how == 'seasonal':
                 month_ranges = [[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]]
             elif how == 'monthly':
-                month_ranges = zip(np.arange(12) + 1)
+                month_ranges = [[month] for month in np.arange(12) + 1]
 
             def myisin(s, v):
                 return pd.Series(s).isin(v).values
-- 
2.43.0


From ce48387945a53b6b9af5fe314fb66c6de64e2621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:13 +0000
Subject: [PATCH 22/38] fix: read statistics which do not cover all months from
 JSON

Statistics derived from less than one year of observations could be written
but not read.
---
 melodist/stationstatistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index 88e268b..a8c50a0 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -263,8 +263,8 @@ class StationStatistics(object):
                     typ='frame',
                 )
                 .sort_index()
-            )[np.arange(1, 12 + 1)]
-            stats.temp.mean_course = mc.sort_index()[np.arange(1, 12 + 1)]
+            )
+            stats.temp.mean_course = mc.sort_index(axis=1)
 
         if stats.hum.month_hour_precip_mean is not None:
             mhpm = pd.read_json(
@@ -283,6 +283,6 @@ class StationStatistics(object):
                 ).sort_index()
 
         if stats.glob.mean_course is not None:
-            stats.glob.mean_course = stats.glob.mean_course[np.arange(1, 12 + 1)]
+            stats.glob.mean_course = stats.glob.mean_course.sort_index(axis=1)
 
         return stats
-- 
2.43.0


From 8c70193436bcc6f82ebc9400120a450ae6fa57e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:01 +0000
Subject: [PATCH 23/38] fix: ignore missing values when building cascade
 statistics

Missing precipitation values were replaced by zero only after selecting the
data of the first season, so its statistics were derived from data with
missing values. The data frame of the caller was modified instead.
---
 melodist/precipitation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/melodist/precipitation.py b/melodist/precipitation.py
index 6e8f06e..3528683 100644
--- a/melodist/precipitation.py
+++ b/melodist/precipitation.py
@@ -661,8 +661,7 @@ def build_casc(ObsData, hourly=True, level=9, months=None, avg_stats=True, perce
 
     # Parameter estimation for each season
     for cur_months in months:
-        vdn = seasonal_subset(ObsData, cur_months)
-        ObsData['precip'] = ObsData['precip'].fillna(0)
+        vdn = seasonal_subset(ObsData[['precip']], cur_months).fillna(0)
 
         casc_opt = melodist.cascade.CascadeStatistics()
         casc_opt.percentile = percentile
-- 
2.43.0


From 1a959f7d087c5341e8c84c1e626e2970f58dc302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:01 +0000
Subject: [PATCH 24/38] fix: do not lose shifted precipitation between seasons

Using a shift along with seasonal cascade statistics, the precipitation was
shifted within each season, i.e. cut off at the end of the season instead of
being moved into the following one.
---
 melodist/station.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/melodist/station.py b/melodist/station.py
index 297bb9a..ca656e3 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -342,10 +342,12 @@ class Station(object):
                         precip_daily,
                         method=method,
                         cascade_options=stats,
-                        shift=shift,
                         zerodiv=zerodiv,
                     )
                     precip_disagg.loc[data.index] = data
+
+            # shift the complete series, otherwise precipitation is lost between the seasons
+            precip_disagg = precip_disagg.shift(shift)
         elif method == 'masterstation':
             precip_disagg = melodist.precip_master_station(
                 self.data_daily.precip, master_precip, zerodiv
-- 
2.43.0


From 3970ea7de74096b48ec2162232f8bb78e4cb0312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:01 +0000
Subject: [PATCH 25/38] fix: set radiation to zero during polar night

On days without any potential radiation the disaggregated radiation was
undefined due to a division by zero.
---
 melodist/radiation.py | 690 +++++++++++++++++++++---------------------
 1 file changed, 346 insertions(+), 344 deletions(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 325808c..6e5d194 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -1,344 +1,346 @@
-################################################################################
-# This file is part of MELODIST - MEteoroLOgical observation time series       #
-# DISaggregation Tool.                                                         #
-#                                                                              #
-# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
-# Thomas Marke                                                                 #
-#                                                                              #
-# MELODIST is free software: you can redistribute it and/or modify it under    #
-# the terms of the GNU General Public License as published by the Free         #
-# Software Foundation, either version 3 of the License, or (at your option)    #
-# any later version.                                                           #
-#                                                                              #
-# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
-# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
-# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
-# details.                                                                     #
-#                                                                              #
-# You should have received a copy of the GNU General Public License along with #
-# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
-################################################################################
-import numpy as np
-import pandas as pd
-import scipy.optimize
-
-import melodist.util
-
-"""
-This routine diaggregates daily values of global radiation data to hourly values
-"""
-
-
-def disaggregate_radiation(
-    data_daily,
-    sun_times=None,
-    pot_rad=None,
-    method='pot_rad',
-    angstr_a=0.25,
-    angstr_b=0.5,
-    bristcamp_a=0.75,
-    bristcamp_c=2.4,
-    mean_course=None,
-):
-    """general function for radiation disaggregation
-
-    Args:
-        daily_data: daily values
-        sun_times: daily dataframe including results of the util.sun_times function
-        pot_rad: hourly dataframe including potential radiation
-        method: keyword specifying the disaggregation method to be used
-        angstr_a: parameter a of the Angstrom model (intercept)
-        angstr_b: parameter b of the Angstrom model (slope)
-        mean_course: monthly values of the mean hourly radiation course
-
-    Returns:
-        Disaggregated hourly values of shortwave radiation.
-    """
-    # check if disaggregation method has a valid value
-    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
-        raise ValueError('Invalid option')
-
-    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
-
-    if method == 'mean_course':
-        assert mean_course is not None
-
-        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
-        pot_rad[:] = (
-            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
-        )
-    else:
-        assert pot_rad is not None
-
-    pot_rad_daily = pot_rad.resample('D').mean()
-
-    if method in ('pot_rad', 'mean_course'):
-        globalrad = data_daily.glob
-    elif method == 'pot_rad_via_ssd':
-        # in this case use the Angstrom model
-        globalrad = pd.Series(index=data_daily.index, data=0.0)
-        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
-        globalrad[dates] = angstroem(
-            data_daily.ssd[dates],
-            sun_times.daylength[dates],
-            pot_rad_daily[dates],
-            angstr_a,
-            angstr_b,
-        )
-    elif method == 'pot_rad_via_bc':
-        # using data from Bristow-Campbell model
-        globalrad = bristow_campbell(
-            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
-        )
-
-    globalrad_equal = globalrad.reindex(
-        pot_rad.index, method='ffill'
-    )  # hourly values (replicate daily mean value for each hour)
-    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
-    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
-    glob_disagg[glob_disagg < 1e-2] = 0.0
-
-    return glob_disagg
-
-
-def potential_radiation(
-    dates,
-    lon,
-    lat,
-    timezone,
-    terrain_slope=0,
-    terrain_slope_azimuth=0,
-    cloud_fraction=0,
-    split=False,
-):
-    """
-    Calculate potential shortwave radiation for a specific location and time.
-
-    This routine calculates global radiation as described in:
-    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
-    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
-
-    Corrections for eccentricity are carried out following:
-    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
-    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
-
-    Parameters
-    ----------
-    dates : DatetimeIndex or array-like
-        The dates for which potential radiation shall be calculated
-    lon : float
-        Longitude (degrees)
-    lat : float
-        Latitude (degrees)
-    timezone : float
-        Time zone
-    terrain_slope : float, default 0
-        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
-    terrain_slope_azimuth : float, default 0
-        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
-    cloud_fraction : float, default 0
-        Cloud fraction between 0 and 1
-    split : boolean, default False
-        If True, return a DataFrame containing direct and diffuse radiation,
-        otherwise return a Series containing total radiation
-    """
-    solar_constant = 1367.0
-    days_per_year = 365.25
-    tropic_of_cancer = np.deg2rad(23.43697)
-    solstice = 173.0
-
-    dates = pd.DatetimeIndex(dates)
-    dates_hour = np.array(dates.hour)
-    dates_minute = np.array(dates.minute)
-    day_of_year = np.array(dates.dayofyear)
-
-    # compute solar decline in rad
-    solar_decline = tropic_of_cancer * np.cos(
-        2.0 * np.pi * (day_of_year - solstice) / days_per_year
-    )
-
-    # compute the sun hour angle in rad
-    standard_meridian = timezone * 15.0
-    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
-    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
-
-    # get solar zenith angle
-    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
-        solar_decline
-    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
-    cos_solar_zenith = cos_solar_zenith.clip(min=0)
-    solar_zenith_angle = np.arccos(cos_solar_zenith)
-
-    # compute transmissivities for direct and diffus radiation using cloud fraction
-    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
-    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
-
-    # modify solar constant for eccentricity
-    beta = 2.0 * np.pi * (day_of_year / days_per_year)
-    radius_ratio = (
-        1.00011
-        + 0.034221 * np.cos(beta)
-        + 0.00128 * np.sin(beta)
-        + 0.000719 * np.cos(2.0 * beta)
-        + 0.000077 * np.sin(2 * beta)
-    )
-    solar_constant_times_radius_ratio = solar_constant * radius_ratio
-
-    mu = np.arcsin(np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle))
-    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
-        solar_zenith_angle
-    ) * np.cos(mu - terrain_slope_azimuth)
-
-    # get total shortwave radiation
-    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
-    diffuse_radiation = (
-        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
-    )
-    direct_radiation = direct_radiation.clip(min=0)
-
-    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
-
-    if split:
-        return df
-    else:
-        return df.direct + df.diffuse
-
-
-def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
-    """calculates potential shortwave radiation based on minimum and maximum temperature
-
-    This routine calculates global radiation as described in:
-    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
-    incoming solar radiation and daily maximum and minimum temperature.
-    Agricultural and forest meteorology 31.2 (1984): 159-166.
-
-    Args:
-        daily_data: time series (daily data) including at least minimum and maximum temeprature
-        pot_rad_daily: mean potential daily radiation
-        A: parameter A of the Bristow-Campbell model
-        C: parameter C of the Bristow-Campbell model
-    Returns:
-        series of potential shortwave radiation
-    """
-
-    assert tmin.index.equals(tmax.index)
-
-    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
-    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
-    temp['tmin_nextday'] = temp.tmin
-    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
-
-    temp = temp.loc[tmin.index]
-    pot_rad_daily = pot_rad_daily.loc[tmin.index]
-
-    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
-
-    dT_m_avg = dT.groupby(dT.index.month).mean()
-    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
-    B.index = temp.index
-
-    if isinstance(A, pd.Series):
-        months = temp.index.month
-        A = A.loc[months].values
-        C = C.loc[months].values
-
-    transmissivity = A * (1 - np.exp(-B * dT**C))
-    R0 = transmissivity * pot_rad_daily
-
-    return R0
-
-
-def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
-    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    tmin : Series
-        Observed daily minimum temperature.
-
-    tmax : Series
-        Observed daily maximum temperature.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-
-    def bc_absbias(ac):
-        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
-
-    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
-        how='any'
-    )
-    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
-
-    return res.x
-
-
-def angstroem(ssd, day_length, pot_rad_daily, a, b):
-    """
-    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    a : float
-        First parameter for the Angstroem model (originally 0.25).
-
-    b : float
-        Second parameter for the Angstroem model (originally 0.75).
-    """
-    if isinstance(a, pd.Series):
-        months = ssd.index.month
-        a = a.loc[months].values
-        b = b.loc[months].values
-
-    glob_day = (a + b * ssd / day_length) * pot_rad_daily
-
-    return glob_day
-
-
-def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the a and b parameters for the Angstroem (1924) model using observed daily
-    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-    df = pd.DataFrame(
-        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
-    ).dropna(how='any')
-
-    def angstroem_opt(x, a, b):
-        return angstroem(x[0], x[1], x[2], a, b)
-
-    x = np.array([df.ssd, df.day_length, df.pot])
-    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
-
-    return popt
+################################################################################
+# This file is part of MELODIST - MEteoroLOgical observation time series       #
+# DISaggregation Tool.                                                         #
+#                                                                              #
+# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
+# Thomas Marke                                                                 #
+#                                                                              #
+# MELODIST is free software: you can redistribute it and/or modify it under    #
+# the terms of the GNU General Public License as published by the Free         #
+# Software Foundation, either version 3 of the License, or (at your option)    #
+# any later version.                                                           #
+#                                                                              #
+# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
+# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
+# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
+# details.                                                                     #
+#                                                                              #
+# You should have received a copy of the GNU General Public License along with #
+# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
+################################################################################
+import numpy as np
+import pandas as pd
+import scipy.optimize
+
+import melodist.util
+
+"""
+This routine diaggregates daily values of global radiation data to hourly values
+"""
+
+
+def disaggregate_radiation(
+    data_daily,
+    sun_times=None,
+    pot_rad=None,
+    method='pot_rad',
+    angstr_a=0.25,
+    angstr_b=0.5,
+    bristcamp_a=0.75,
+    bristcamp_c=2.4,
+    mean_course=None,
+):
+    """general function for radiation disaggregation
+
+    Args:
+        daily_data: daily values
+        sun_times: daily dataframe including results of the util.sun_times function
+        pot_rad: hourly dataframe including potential radiation
+        method: keyword specifying the disaggregation method to be used
+        angstr_a: parameter a of the Angstrom model (intercept)
+        angstr_b: parameter b of the Angstrom model (slope)
+        mean_course: monthly values of the mean hourly radiation course
+
+    Returns:
+        Disaggregated hourly values of shortwave radiation.
+    """
+    # check if disaggregation method has a valid value
+    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
+        raise ValueError('Invalid option')
+
+    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
+
+    if method == 'mean_course':
+        assert mean_course is not None
+
+        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
+        pot_rad[:] = (
+            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
+        )
+    else:
+        assert pot_rad is not None
+
+    pot_rad_daily = pot_rad.resample('D').mean()
+
+    if method in ('pot_rad', 'mean_course'):
+        globalrad = data_daily.glob
+    elif method == 'pot_rad_via_ssd':
+        # in this case use the Angstrom model
+        globalrad = pd.Series(index=data_daily.index, data=0.0)
+        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
+        globalrad[dates] = angstroem(
+            data_daily.ssd[dates],
+            sun_times.daylength[dates],
+            pot_rad_daily[dates],
+            angstr_a,
+            angstr_b,
+        )
+    elif method == 'pot_rad_via_bc':
+        # using data from Bristow-Campbell model
+        globalrad = bristow_campbell(
+            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
+        )
+
+    globalrad_equal = globalrad.reindex(
+        pot_rad.index, method='ffill'
+    )  # hourly values (replicate daily mean value for each hour)
+    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
+    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
+    # no radiation during polar night (prevents division by zero)
+    glob_disagg[(pot_rad_daily_equal == 0) & globalrad_equal.notna()] = 0.0
+    glob_disagg[glob_disagg < 1e-2] = 0.0
+
+    return glob_disagg
+
+
+def potential_radiation(
+    dates,
+    lon,
+    lat,
+    timezone,
+    terrain_slope=0,
+    terrain_slope_azimuth=0,
+    cloud_fraction=0,
+    split=False,
+):
+    """
+    Calculate potential shortwave radiation for a specific location and time.
+
+    This routine calculates global radiation as described in:
+    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
+    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
+
+    Corrections for eccentricity are carried out following:
+    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
+    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
+
+    Parameters
+    ----------
+    dates : DatetimeIndex or array-like
+        The dates for which potential radiation shall be calculated
+    lon : float
+        Longitude (degrees)
+    lat : float
+        Latitude (degrees)
+    timezone : float
+        Time zone
+    terrain_slope : float, default 0
+        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
+    terrain_slope_azimuth : float, default 0
+        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
+    cloud_fraction : float, default 0
+        Cloud fraction between 0 and 1
+    split : boolean, default False
+        If True, return a DataFrame containing direct and diffuse radiation,
+        otherwise return a Series containing total radiation
+    """
+    solar_constant = 1367.0
+    days_per_year = 365.25
+    tropic_of_cancer = np.deg2rad(23.43697)
+    solstice = 173.0
+
+    dates = pd.DatetimeIndex(dates)
+    dates_hour = np.array(dates.hour)
+    dates_minute = np.array(dates.minute)
+    day_of_year = np.array(dates.dayofyear)
+
+    # compute solar decline in rad
+    solar_decline = tropic_of_cancer * np.cos(
+        2.0 * np.pi * (day_of_year - solstice) / days_per_year
+    )
+
+    # compute the sun hour angle in rad
+    standard_meridian = timezone * 15.0
+    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
+    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
+
+    # get solar zenith angle
+    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
+        solar_decline
+    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
+    cos_solar_zenith = cos_solar_zenith.clip(min=0)
+    solar_zenith_angle = np.arccos(cos_solar_zenith)
+
+    # compute transmissivities for direct and diffus radiation using cloud fraction
+    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
+    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
+
+    # modify solar constant for eccentricity
+    beta = 2.0 * np.pi * (day_of_year / days_per_year)
+    radius_ratio = (
+        1.00011
+        + 0.034221 * np.cos(beta)
+        + 0.00128 * np.sin(beta)
+        + 0.000719 * np.cos(2.0 * beta)
+        + 0.000077 * np.sin(2 * beta)
+    )
+    solar_constant_times_radius_ratio = solar_constant * radius_ratio
+
+    mu = np.arcsin(np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle))
+    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
+        solar_zenith_angle
+    ) * np.cos(mu - terrain_slope_azimuth)
+
+    # get total shortwave radiation
+    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
+    diffuse_radiation = (
+        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
+    )
+    direct_radiation = direct_radiation.clip(min=0)
+
+    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
+
+    if split:
+        return df
+    else:
+        return df.direct + df.diffuse
+
+
+def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
+    """calculates potential shortwave radiation based on minimum and maximum temperature
+
+    This routine calculates global radiation as described in:
+    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
+    incoming solar radiation and daily maximum and minimum temperature.
+    Agricultural and forest meteorology 31.2 (1984): 159-166.
+
+    Args:
+        daily_data: time series (daily data) including at least minimum and maximum temeprature
+        pot_rad_daily: mean potential daily radiation
+        A: parameter A of the Bristow-Campbell model
+        C: parameter C of the Bristow-Campbell model
+    Returns:
+        series of potential shortwave radiation
+    """
+
+    assert tmin.index.equals(tmax.index)
+
+    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
+    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
+    temp['tmin_nextday'] = temp.tmin
+    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
+
+    temp = temp.loc[tmin.index]
+    pot_rad_daily = pot_rad_daily.loc[tmin.index]
+
+    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
+
+    dT_m_avg = dT.groupby(dT.index.month).mean()
+    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
+    B.index = temp.index
+
+    if isinstance(A, pd.Series):
+        months = temp.index.month
+        A = A.loc[months].values
+        C = C.loc[months].values
+
+    transmissivity = A * (1 - np.exp(-B * dT**C))
+    R0 = transmissivity * pot_rad_daily
+
+    return R0
+
+
+def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
+    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    tmin : Series
+        Observed daily minimum temperature.
+
+    tmax : Series
+        Observed daily maximum temperature.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+
+    def bc_absbias(ac):
+        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
+
+    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
+        how='any'
+    )
+    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
+
+    return res.x
+
+
+def angstroem(ssd, day_length, pot_rad_daily, a, b):
+    """
+    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    a : float
+        First parameter for the Angstroem model (originally 0.25).
+
+    b : float
+        Second parameter for the Angstroem model (originally 0.75).
+    """
+    if isinstance(a, pd.Series):
+        months = ssd.index.month
+        a = a.loc[months].values
+        b = b.loc[months].values
+
+    glob_day = (a + b * ssd / day_length) * pot_rad_daily
+
+    return glob_day
+
+
+def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the a and b parameters for the Angstroem (1924) model using observed daily
+    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+    df = pd.DataFrame(
+        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
+    ).dropna(how='any')
+
+    def angstroem_opt(x, a, b):
+        return angstroem(x[0], x[1], x[2], a, b)
+
+    x = np.array([df.ssd, df.day_length, df.pot])
+    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
+
+    return popt
-- 
2.43.0


From a1ab3463c28cfe5219761f013b60ee3ea4470ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:01 +0000
Subject: [PATCH 26/38] fix: handle negative temperature range in
 Bristow-Campbell model

If the mean of the minimum temperatures of the current and the following day
exceeds the maximum temperature, the resulting radiation was undefined.
---
 melodist/radiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 6e5d194..a2053f5 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -244,7 +244,7 @@ def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
         A = A.loc[months].values
         C = C.loc[months].values
 
-    transmissivity = A * (1 - np.exp(-B * dT**C))
+    transmissivity = A * (1 - np.exp(-B * dT.clip(lower=0) ** C))
     R0 = transmissivity * pot_rad_daily
 
     return R0
-- 
2.43.0


From bb09950a0e314d0b4229e382fdf883db2f8da971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:01 +0000
Subject: [PATCH 27/38] fix: calculate potential radiation with the sun in the
 zenith

With the sun exactly in the zenith the azimuth is undefined and the
potential radiation was missing due to a division by zero.
---
 melodist/radiation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index a2053f5..13883f5 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -168,7 +168,7 @@ def potential_radiation(
     cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
         solar_decline
     ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
-    cos_solar_zenith = cos_solar_zenith.clip(min=0)
+    cos_solar_zenith = cos_solar_zenith.clip(min=0, max=1)
     solar_zenith_angle = np.arccos(cos_solar_zenith)
 
     # compute transmissivities for direct and diffus radiation using cloud fraction
@@ -186,7 +186,11 @@ def potential_radiation(
     )
     solar_constant_times_radius_ratio = solar_constant * radius_ratio
 
-    mu = np.arcsin(np.cos(solar_decline) * np.sin(hour_angle) / np.sin(solar_zenith_angle))
+    sin_solar_zenith = np.sin(solar_zenith_angle)
+    zenith = sin_solar_zenith == 0  # solar azimuth is undefined here
+    sin_solar_azimuth = np.cos(solar_decline) * np.sin(hour_angle)
+    sin_solar_azimuth = sin_solar_azimuth / np.where(zenith, 1.0, sin_solar_zenith)
+    mu = np.arcsin(sin_solar_azimuth.clip(min=-1, max=1))
     cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
         solar_zenith_angle
     ) * np.cos(mu - terrain_slope_azimuth)
-- 
2.43.0


From b8165c2fb65f5ecd4af12f003502a1967ee84c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:08:52 +0000
Subject: [PATCH 28/38] fix: update sun times if the location of a station
 changes

Changing longitude, latitude or time zone after assigning daily data kept
the sun times of the previous location, so that subsequent disaggregations
mixed both locations.
---
 melodist/station.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/melodist/station.py b/melodist/station.py
index ca656e3..b313e8e 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -116,6 +116,7 @@ class Station(object):
     def lon(self, lon):
         self._lon = lon
         self.statistics._lon = lon
+        self._update_sun_times()
 
     @property
     def lat(self):
@@ -128,6 +129,7 @@ class Station(object):
     def lat(self, lat):
         self._lat = lat
         self.statistics._lat = lat
+        self._update_sun_times()
 
     @property
     def timezone(self):
@@ -143,6 +145,7 @@ class Station(object):
     def timezone(self, timezone):
         self._timezone = timezone
         self.statistics._timezone = timezone
+        self._update_sun_times()
 
     @property
     def statistics(self):
@@ -169,6 +172,10 @@ class Station(object):
 
         return self._data_disagg
 
+    def _update_sun_times(self):
+        if self.data_daily is not None and None not in (self.lon, self.lat, self.timezone):
+            self.calc_sun_times()
+
     def calc_sun_times(self):
         """
         Computes the times of sunrise, solar noon, and sunset for each day.
-- 
2.43.0


From 6dc5014d7ac3ceb00f4aa9c3860ca7bf6c367cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:23 +0000
Subject: [PATCH 29/38] fix: no potential radiation on slopes during night

With the sun below the horizon, sloped terrain still received direct
radiation as the clipped zenith angle describes a sun at the horizon.
---
 melodist/radiation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 13883f5..435969f 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -194,6 +194,7 @@ def potential_radiation(
     cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
         solar_zenith_angle
     ) * np.cos(mu - terrain_slope_azimuth)
+    cosi[cos_solar_zenith == 0] = 0.0  # no direct radiation with the sun below the horizon
 
     # get total shortwave radiation
     direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
-- 
2.43.0


From e05a4d5f505e17265a54221e3303704cf7031f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:59 +0000
Subject: [PATCH 30/38] fix: temperature disaggregation if days are missing
 around polar night

---
 melodist/temperature.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index bf8c9f9..9a9e75c 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -210,9 +210,9 @@ def disaggregate_temperature(
             temp_disagg[getting_colders_max_loc] = locdf_day.min_val_cur[getting_colders].values
 
             temp_polars = temp_disagg.loc[polars_index_hourly].copy()
-            transition_days = polars[polars != polars.shift(1, fill_value=polars.iloc[0])].astype(
-                int
-            )
+            # only consecutive days are connected
+            polars_before = polars.astype(float).shift(1, 'D').reindex(polars.index)
+            transition_days = polars[polars_before.notna() & (polars != polars_before)].astype(int)
             # (0 where transition from polar to "normal" mode, 1 where transition from normal to
             # polar)
 
-- 
2.43.0


From be0f0fb02420b9d8063a313e979e1e9affbbd3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:46 +0000
Subject: [PATCH 31/38] fix: integer part of the SMET no-data value is not
 missing

---
 melodist/data_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 6016b10..6c90209 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -84,13 +84,14 @@ def read_smet(filename, mode):
     data = pd.read_table(
         filename,
         sep=r'\s+',
-        na_values=[float(header.get('nodata', -999))],
         skiprows=data_start,
         names=columns,
         index_col='timestamp',
         parse_dates=True,
     )
 
+    # (passing the value to read_table would also match its integer part)
+    data = data.mask(data == float(header.get('nodata', -999)))
     data = data * multiplier
 
     data.index.name = None
-- 
2.43.0


From e8db0b6b2c2688acc6f3e3fffb07c4d6bae46563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:53 +0000
Subject: [PATCH 32/38] fix: recognize padded missing values in DWD files

---
 melodist/data_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index 6c90209..e9fc033 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -191,6 +191,9 @@ def read_dwd(filename, metadata, mode="d", skip_last=True):
         # delete columns
         data = data.drop(drop, axis=1)
 
+        # values are padded with blanks, hence not always recognized as missing when reading
+        data = data.mask(data == -999)
+
         # convert temperatures to Kelvin (+273.15)
         if 'tmin' in data.columns:
             data["tmin"] = data["tmin"] + 273.15
-- 
2.43.0


From b7881bee03a74d06ed5eb648b2775104aed01b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:33 +0000
Subject: [PATCH 33/38] fix: failed precipitation calibration must not change
 the seasons

The months were replaced before the statistics were calculated. If the
calculation failed, the old statistics stayed in use for the new months.
---
 melodist/stationstatistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/melodist/stationstatistics.py b/melodist/stationstatistics.py
index a8c50a0..87044e3 100644
--- a/melodist/stationstatistics.py
+++ b/melodist/stationstatistics.py
@@ -88,10 +88,10 @@ class StationStatistics(object):
         if months is None:
             months = [np.arange(12) + 1]
 
-        self.precip.months = months
-        self.precip.stats = melodist.build_casc(
+        stats = melodist.build_casc(
             self.data, months=months, avg_stats=avg_stats, percentile=percentile
         )
+        self.precip.update(months=months, stats=stats)
 
     def calc_wind_stats(self):
         """
-- 
2.43.0


From ced072a266bdf11fc0794364c7f80a055f5852fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:33 +0000
Subject: [PATCH 34/38] fix: refuse cascade statistics that do not cover all
 seasons

Seasons without statistics were silently left without precipitation.
---
 melodist/station.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/melodist/station.py b/melodist/station.py
index b313e8e..cd33949 100644
--- a/melodist/station.py
+++ b/melodist/station.py
@@ -342,6 +342,9 @@ class Station(object):
         elif method == 'cascade':
             precip_disagg = pd.Series(index=self.data_disagg.index, dtype=float)
 
+            if len(self.statistics.precip.months) != len(self.statistics.precip.stats):
+                raise ValueError('Cascade statistics must be available for each season')
+
             for months, stats in zip(self.statistics.precip.months, self.statistics.precip.stats):
                 precip_daily = melodist.seasonal_subset(self.data_daily.precip, months=months)
                 if len(precip_daily) > 1:
-- 
2.43.0


From ab7d339d947011c3b2ace494539432d0804053b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:23 +0000
Subject: [PATCH 35/38] fix: bridge polar night also when the last maximum
 comes before 06:00

With a calibrated shift the hour of the maximum before a polar night can lie
early in the morning. The bridge to 06:00 of the next day is then longer than
23 hours and its last hours were left missing.
---
 melodist/temperature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/melodist/temperature.py b/melodist/temperature.py
index 9a9e75c..1a6e8cf 100644
--- a/melodist/temperature.py
+++ b/melodist/temperature.py
@@ -240,7 +240,7 @@ def disaggregate_temperature(
                         day.replace(hour=max_loc) + pd.Timedelta(hours=1) : day.replace(hour=23)
                     ] = np.nan
 
-            temp_interp = temp_polars.interpolate(method='linear', limit=23)
+            temp_interp = temp_polars.interpolate(method='linear', limit=28)
             temp_disagg[temp_interp.index] = temp_interp
     elif method == 'mean_course_min_max':
         data_daily_as_hourly = data_daily.reindex(temp_disagg.index, method='ffill', limit=23)
-- 
2.43.0


From e9d9c64b6a30c5c9342528fc08c5d829345d93fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:17 +0000
Subject: [PATCH 36/38] fix: restore the line endings of the radiation module

An earlier fix converted them by accident, which hid the actual changes.
---
 melodist/radiation.py | 702 +++++++++++++++++++++---------------------
 1 file changed, 351 insertions(+), 351 deletions(-)

diff --git a/melodist/radiation.py b/melodist/radiation.py
index 435969f..edea5ac 100644
--- a/melodist/radiation.py
+++ b/melodist/radiation.py
@@ -1,351 +1,351 @@
-################################################################################
-# This file is part of MELODIST - MEteoroLOgical observation time series       #
-# DISaggregation Tool.                                                         #
-#                                                                              #
-# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
-# Thomas Marke                                                                 #
-#                                                                              #
-# MELODIST is free software: you can redistribute it and/or modify it under    #
-# the terms of the GNU General Public License as published by the Free         #
-# Software Foundation, either version 3 of the License, or (at your option)    #
-# any later version.                                                           #
-#                                                                              #
-# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
-# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
-# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
-# details.                                                                     #
-#                                                                              #
-# You should have received a copy of the GNU General Public License along with #
-# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
-################################################################################
-import numpy as np
-import pandas as pd
-import scipy.optimize
-
-import melodist.util
-
-"""
-This routine diaggregates daily values of global radiation data to hourly values
-"""
-
-
-def disaggregate_radiation(
-    data_daily,
-    sun_times=None,
-    pot_rad=None,
-    method='pot_rad',
-    angstr_a=0.25,
-    angstr_b=0.5,
-    bristcamp_a=0.75,
-    bristcamp_c=2.4,
-    mean_course=None,
-):
-    """general function for radiation disaggregation
-
-    Args:
-        daily_data: daily values
-        sun_times: daily dataframe including results of the util.sun_times function
-        pot_rad: hourly dataframe including potential radiation
-        method: keyword specifying the disaggregation method to be used
-        angstr_a: parameter a of the Angstrom model (intercept)
-        angstr_b: parameter b of the Angstrom model (slope)
-        mean_course: monthly values of the mean hourly radiation course
-
-    Returns:
-        Disaggregated hourly values of shortwave radiation.
-    """
-    # check if disaggregation method has a valid value
-    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
-        raise ValueError('Invalid option')
-
-    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
-
-    if method == 'mean_course':
-        assert mean_course is not None
-
-        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
-        pot_rad[:] = (
-            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
-        )
-    else:
-        assert pot_rad is not None
-
-    pot_rad_daily = pot_rad.resample('D').mean()
-
-    if method in ('pot_rad', 'mean_course'):
-        globalrad = data_daily.glob
-    elif method == 'pot_rad_via_ssd':
-        # in this case use the Angstrom model
-        globalrad = pd.Series(index=data_daily.index, data=0.0)
-        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
-        globalrad[dates] = angstroem(
-            data_daily.ssd[dates],
-            sun_times.daylength[dates],
-            pot_rad_daily[dates],
-            angstr_a,
-            angstr_b,
-        )
-    elif method == 'pot_rad_via_bc':
-        # using data from Bristow-Campbell model
-        globalrad = bristow_campbell(
-            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
-        )
-
-    globalrad_equal = globalrad.reindex(
-        pot_rad.index, method='ffill'
-    )  # hourly values (replicate daily mean value for each hour)
-    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
-    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
-    # no radiation during polar night (prevents division by zero)
-    glob_disagg[(pot_rad_daily_equal == 0) & globalrad_equal.notna()] = 0.0
-    glob_disagg[glob_disagg < 1e-2] = 0.0
-
-    return glob_disagg
-
-
-def potential_radiation(
-    dates,
-    lon,
-    lat,
-    timezone,
-    terrain_slope=0,
-    terrain_slope_azimuth=0,
-    cloud_fraction=0,
-    split=False,
-):
-    """
-    Calculate potential shortwave radiation for a specific location and time.
-
-    This routine calculates global radiation as described in:
-    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
-    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
-
-    Corrections for eccentricity are carried out following:
-    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
-    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
-
-    Parameters
-    ----------
-    dates : DatetimeIndex or array-like
-        The dates for which potential radiation shall be calculated
-    lon : float
-        Longitude (degrees)
-    lat : float
-        Latitude (degrees)
-    timezone : float
-        Time zone
-    terrain_slope : float, default 0
-        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
-    terrain_slope_azimuth : float, default 0
-        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
-    cloud_fraction : float, default 0
-        Cloud fraction between 0 and 1
-    split : boolean, default False
-        If True, return a DataFrame containing direct and diffuse radiation,
-        otherwise return a Series containing total radiation
-    """
-    solar_constant = 1367.0
-    days_per_year = 365.25
-    tropic_of_cancer = np.deg2rad(23.43697)
-    solstice = 173.0
-
-    dates = pd.DatetimeIndex(dates)
-    dates_hour = np.array(dates.hour)
-    dates_minute = np.array(dates.minute)
-    day_of_year = np.array(dates.dayofyear)
-
-    # compute solar decline in rad
-    solar_decline = tropic_of_cancer * np.cos(
-        2.0 * np.pi * (day_of_year - solstice) / days_per_year
-    )
-
-    # compute the sun hour angle in rad
-    standard_meridian = timezone * 15.0
-    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
-    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
-
-    # get solar zenith angle
-    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
-        solar_decline
-    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
-    cos_solar_zenith = cos_solar_zenith.clip(min=0, max=1)
-    solar_zenith_angle = np.arccos(cos_solar_zenith)
-
-    # compute transmissivities for direct and diffus radiation using cloud fraction
-    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
-    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
-
-    # modify solar constant for eccentricity
-    beta = 2.0 * np.pi * (day_of_year / days_per_year)
-    radius_ratio = (
-        1.00011
-        + 0.034221 * np.cos(beta)
-        + 0.00128 * np.sin(beta)
-        + 0.000719 * np.cos(2.0 * beta)
-        + 0.000077 * np.sin(2 * beta)
-    )
-    solar_constant_times_radius_ratio = solar_constant * radius_ratio
-
-    sin_solar_zenith = np.sin(solar_zenith_angle)
-    zenith = sin_solar_zenith == 0  # solar azimuth is undefined here
-    sin_solar_azimuth = np.cos(solar_decline) * np.sin(hour_angle)
-    sin_solar_azimuth = sin_solar_azimuth / np.where(zenith, 1.0, sin_solar_zenith)
-    mu = np.arcsin(sin_solar_azimuth.clip(min=-1, max=1))
-    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
-        solar_zenith_angle
-    ) * np.cos(mu - terrain_slope_azimuth)
-    cosi[cos_solar_zenith == 0] = 0.0  # no direct radiation with the sun below the horizon
-
-    # get total shortwave radiation
-    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
-    diffuse_radiation = (
-        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
-    )
-    direct_radiation = direct_radiation.clip(min=0)
-
-    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
-
-    if split:
-        return df
-    else:
-        return df.direct + df.diffuse
-
-
-def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
-    """calculates potential shortwave radiation based on minimum and maximum temperature
-
-    This routine calculates global radiation as described in:
-    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
-    incoming solar radiation and daily maximum and minimum temperature.
-    Agricultural and forest meteorology 31.2 (1984): 159-166.
-
-    Args:
-        daily_data: time series (daily data) including at least minimum and maximum temeprature
-        pot_rad_daily: mean potential daily radiation
-        A: parameter A of the Bristow-Campbell model
-        C: parameter C of the Bristow-Campbell model
-    Returns:
-        series of potential shortwave radiation
-    """
-
-    assert tmin.index.equals(tmax.index)
-
-    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
-    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
-    temp['tmin_nextday'] = temp.tmin
-    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
-
-    temp = temp.loc[tmin.index]
-    pot_rad_daily = pot_rad_daily.loc[tmin.index]
-
-    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
-
-    dT_m_avg = dT.groupby(dT.index.month).mean()
-    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
-    B.index = temp.index
-
-    if isinstance(A, pd.Series):
-        months = temp.index.month
-        A = A.loc[months].values
-        C = C.loc[months].values
-
-    transmissivity = A * (1 - np.exp(-B * dT.clip(lower=0) ** C))
-    R0 = transmissivity * pot_rad_daily
-
-    return R0
-
-
-def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
-    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    tmin : Series
-        Observed daily minimum temperature.
-
-    tmax : Series
-        Observed daily maximum temperature.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-
-    def bc_absbias(ac):
-        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
-
-    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
-        how='any'
-    )
-    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
-
-    return res.x
-
-
-def angstroem(ssd, day_length, pot_rad_daily, a, b):
-    """
-    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    a : float
-        First parameter for the Angstroem model (originally 0.25).
-
-    b : float
-        Second parameter for the Angstroem model (originally 0.75).
-    """
-    if isinstance(a, pd.Series):
-        months = ssd.index.month
-        a = a.loc[months].values
-        b = b.loc[months].values
-
-    glob_day = (a + b * ssd / day_length) * pot_rad_daily
-
-    return glob_day
-
-
-def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
-    """
-    Fit the a and b parameters for the Angstroem (1924) model using observed daily
-    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
-    radiation.
-
-    Parameters
-    ----------
-    ssd : Series
-        Observed daily sunshine duration.
-
-    day_length : Series
-        Day lengths as calculated by ``calc_sun_times``.
-
-    pot_rad_daily : Series
-        Mean potential daily solar radiation.
-
-    obs_rad_daily : Series
-        Mean observed daily solar radiation.
-    """
-    df = pd.DataFrame(
-        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
-    ).dropna(how='any')
-
-    def angstroem_opt(x, a, b):
-        return angstroem(x[0], x[1], x[2], a, b)
-
-    x = np.array([df.ssd, df.day_length, df.pot])
-    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
-
-    return popt
+################################################################################
+# This file is part of MELODIST - MEteoroLOgical observation time series       #
+# DISaggregation Tool.                                                         #
+#                                                                              #
+# Copyright (C) 2016-2023 Florian Hanzer, Kristian Förster, Benjamin Winter,   #
+# Thomas Marke                                                                 #
+#                                                                              #
+# MELODIST is free software: you can redistribute it and/or modify it under    #
+# the terms of the GNU General Public License as published by the Free         #
+# Software Foundation, either version 3 of the License, or (at your option)    #
+# any later version.                                                           #
+#                                                                              #
+# MELODIST is distributed in the hope that it will be useful, but WITHOUT ANY  #
+# WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS    #
+# FOR A PARTICULAR PURPOSE. See the GNU General Public License for more        #
+# details.                                                                     #
+#                                                                              #
+# You should have received a copy of the GNU General Public License along with #
+# this program.  If not, see <http://www.gnu.org/licenses/>.                   #
+################################################################################
+import numpy as np
+import pandas as pd
+import scipy.optimize
+
+import melodist.util
+
+"""
+This routine diaggregates daily values of global radiation data to hourly values
+"""
+
+
+def disaggregate_radiation(
+    data_daily,
+    sun_times=None,
+    pot_rad=None,
+    method='pot_rad',
+    angstr_a=0.25,
+    angstr_b=0.5,
+    bristcamp_a=0.75,
+    bristcamp_c=2.4,
+    mean_course=None,
+):
+    """general function for radiation disaggregation
+
+    Args:
+        daily_data: daily values
+        sun_times: daily dataframe including results of the util.sun_times function
+        pot_rad: hourly dataframe including potential radiation
+        method: keyword specifying the disaggregation method to be used
+        angstr_a: parameter a of the Angstrom model (intercept)
+        angstr_b: parameter b of the Angstrom model (slope)
+        mean_course: monthly values of the mean hourly radiation course
+
+    Returns:
+        Disaggregated hourly values of shortwave radiation.
+    """
+    # check if disaggregation method has a valid value
+    if method not in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
+        raise ValueError('Invalid option')
+
+    glob_disagg = pd.Series(index=melodist.util.hourly_index(data_daily.index), dtype=float)
+
+    if method == 'mean_course':
+        assert mean_course is not None
+
+        pot_rad = pd.Series(index=glob_disagg.index, dtype=float)
+        pot_rad[:] = (
+            mean_course.unstack().loc[list(zip(pot_rad.index.month, pot_rad.index.hour))].values
+        )
+    else:
+        assert pot_rad is not None
+
+    pot_rad_daily = pot_rad.resample('D').mean()
+
+    if method in ('pot_rad', 'mean_course'):
+        globalrad = data_daily.glob
+    elif method == 'pot_rad_via_ssd':
+        # in this case use the Angstrom model
+        globalrad = pd.Series(index=data_daily.index, data=0.0)
+        dates = sun_times.index[sun_times.daylength > 0]  # account for polar nights
+        globalrad[dates] = angstroem(
+            data_daily.ssd[dates],
+            sun_times.daylength[dates],
+            pot_rad_daily[dates],
+            angstr_a,
+            angstr_b,
+        )
+    elif method == 'pot_rad_via_bc':
+        # using data from Bristow-Campbell model
+        globalrad = bristow_campbell(
+            data_daily.tmin, data_daily.tmax, pot_rad_daily, bristcamp_a, bristcamp_c
+        )
+
+    globalrad_equal = globalrad.reindex(
+        pot_rad.index, method='ffill'
+    )  # hourly values (replicate daily mean value for each hour)
+    pot_rad_daily_equal = pot_rad_daily.reindex(pot_rad.index, method='ffill')
+    glob_disagg = pot_rad / pot_rad_daily_equal * globalrad_equal
+    # no radiation during polar night (prevents division by zero)
+    glob_disagg[(pot_rad_daily_equal == 0) & globalrad_equal.notna()] = 0.0
+    glob_disagg[glob_disagg < 1e-2] = 0.0
+
+    return glob_disagg
+
+
+def potential_radiation(
+    dates,
+    lon,
+    lat,
+    timezone,
+    terrain_slope=0,
+    terrain_slope_azimuth=0,
+    cloud_fraction=0,
+    split=False,
+):
+    """
+    Calculate potential shortwave radiation for a specific location and time.
+
+    This routine calculates global radiation as described in:
+    Liston, G. E. and Elder, K. (2006): A Meteorological Distribution System for
+    High-Resolution Terrestrial Modeling (MicroMet), J. Hydrometeorol., 7, 217–234.
+
+    Corrections for eccentricity are carried out following:
+    Paltridge, G.W., Platt, C.M.R., 1976. Radiative processes in Meteorology and Climatology.
+    Elsevier Scientific Publishing Company, Amsterdam, Oxford, New York.
+
+    Parameters
+    ----------
+    dates : DatetimeIndex or array-like
+        The dates for which potential radiation shall be calculated
+    lon : float
+        Longitude (degrees)
+    lat : float
+        Latitude (degrees)
+    timezone : float
+        Time zone
+    terrain_slope : float, default 0
+        Terrain slope as defined in Liston & Elder (2006) (eq. 12)
+    terrain_slope_azimuth : float, default 0
+        Terrain slope azimuth as defined in Liston & Elder (2006) (eq. 13)
+    cloud_fraction : float, default 0
+        Cloud fraction between 0 and 1
+    split : boolean, default False
+        If True, return a DataFrame containing direct and diffuse radiation,
+        otherwise return a Series containing total radiation
+    """
+    solar_constant = 1367.0
+    days_per_year = 365.25
+    tropic_of_cancer = np.deg2rad(23.43697)
+    solstice = 173.0
+
+    dates = pd.DatetimeIndex(dates)
+    dates_hour = np.array(dates.hour)
+    dates_minute = np.array(dates.minute)
+    day_of_year = np.array(dates.dayofyear)
+
+    # compute solar decline in rad
+    solar_decline = tropic_of_cancer * np.cos(
+        2.0 * np.pi * (day_of_year - solstice) / days_per_year
+    )
+
+    # compute the sun hour angle in rad
+    standard_meridian = timezone * 15.0
+    delta_lat_time = (lon - standard_meridian) * 24.0 / 360.0
+    hour_angle = np.pi * (((dates_hour + dates_minute / 60.0 + delta_lat_time) / 12.0) - 1.0)
+
+    # get solar zenith angle
+    cos_solar_zenith = np.sin(solar_decline) * np.sin(np.deg2rad(lat)) + np.cos(
+        solar_decline
+    ) * np.cos(np.deg2rad(lat)) * np.cos(hour_angle)
+    cos_solar_zenith = cos_solar_zenith.clip(min=0, max=1)
+    solar_zenith_angle = np.arccos(cos_solar_zenith)
+
+    # compute transmissivities for direct and diffus radiation using cloud fraction
+    transmissivity_direct = (0.6 + 0.2 * cos_solar_zenith) * (1.0 - cloud_fraction)
+    transmissivity_diffuse = (0.3 + 0.1 * cos_solar_zenith) * cloud_fraction
+
+    # modify solar constant for eccentricity
+    beta = 2.0 * np.pi * (day_of_year / days_per_year)
+    radius_ratio = (
+        1.00011
+        + 0.034221 * np.cos(beta)
+        + 0.00128 * np.sin(beta)
+        + 0.000719 * np.cos(2.0 * beta)
+        + 0.000077 * np.sin(2 * beta)
+    )
+    solar_constant_times_radius_ratio = solar_constant * radius_ratio
+
+    sin_solar_zenith = np.sin(solar_zenith_angle)
+    zenith = sin_solar_zenith == 0  # solar azimuth is undefined here
+    sin_solar_azimuth = np.cos(solar_decline) * np.sin(hour_angle)
+    sin_solar_azimuth = sin_solar_azimuth / np.where(zenith, 1.0, sin_solar_zenith)
+    mu = np.arcsin(sin_solar_azimuth.clip(min=-1, max=1))
+    cosi = np.cos(terrain_slope) * cos_solar_zenith + np.sin(terrain_slope) * np.sin(
+        solar_zenith_angle
+    ) * np.cos(mu - terrain_slope_azimuth)
+    cosi[cos_solar_zenith == 0] = 0.0  # no direct radiation with the sun below the horizon
+
+    # get total shortwave radiation
+    direct_radiation = solar_constant_times_radius_ratio * transmissivity_direct * cosi
+    diffuse_radiation = (
+        solar_constant_times_radius_ratio * transmissivity_diffuse * cos_solar_zenith
+    )
+    direct_radiation = direct_radiation.clip(min=0)
+
+    df = pd.DataFrame(index=dates, data=dict(direct=direct_radiation, diffuse=diffuse_radiation))
+
+    if split:
+        return df
+    else:
+        return df.direct + df.diffuse
+
+
+def bristow_campbell(tmin, tmax, pot_rad_daily, A, C):
+    """calculates potential shortwave radiation based on minimum and maximum temperature
+
+    This routine calculates global radiation as described in:
+    Bristow, Keith L., and Gaylon S. Campbell: On the relationship between
+    incoming solar radiation and daily maximum and minimum temperature.
+    Agricultural and forest meteorology 31.2 (1984): 159-166.
+
+    Args:
+        daily_data: time series (daily data) including at least minimum and maximum temeprature
+        pot_rad_daily: mean potential daily radiation
+        A: parameter A of the Bristow-Campbell model
+        C: parameter C of the Bristow-Campbell model
+    Returns:
+        series of potential shortwave radiation
+    """
+
+    assert tmin.index.equals(tmax.index)
+
+    temp = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax))
+    temp = temp.reindex(pd.date_range(start=temp.index[0], end=temp.index[-1], freq='D'))
+    temp['tmin_nextday'] = temp.tmin
+    temp.loc[temp.index[:-1], 'tmin_nextday'] = temp['tmin'].iloc[1:].values
+
+    temp = temp.loc[tmin.index]
+    pot_rad_daily = pot_rad_daily.loc[tmin.index]
+
+    dT = temp.tmax - (temp.tmin + temp.tmin_nextday) / 2
+
+    dT_m_avg = dT.groupby(dT.index.month).mean()
+    B = 0.036 * np.exp(-0.154 * dT_m_avg[temp.index.month])
+    B.index = temp.index
+
+    if isinstance(A, pd.Series):
+        months = temp.index.month
+        A = A.loc[months].values
+        C = C.loc[months].values
+
+    transmissivity = A * (1 - np.exp(-B * dT.clip(lower=0) ** C))
+    R0 = transmissivity * pot_rad_daily
+
+    return R0
+
+
+def fit_bristow_campbell_params(tmin, tmax, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the A and C parameters for the Bristow & Campbell (1984) model using observed daily
+    minimum and maximum temperature and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    tmin : Series
+        Observed daily minimum temperature.
+
+    tmax : Series
+        Observed daily maximum temperature.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+
+    def bc_absbias(ac):
+        return np.abs(np.mean(bristow_campbell(df.tmin, df.tmax, df.pot, ac[0], ac[1]) - df.obs))
+
+    df = pd.DataFrame(data=dict(tmin=tmin, tmax=tmax, pot=pot_rad_daily, obs=obs_rad_daily)).dropna(
+        how='any'
+    )
+    res = scipy.optimize.minimize(bc_absbias, [0.75, 2.4])  # i.e. we minimize the absolute bias
+
+    return res.x
+
+
+def angstroem(ssd, day_length, pot_rad_daily, a, b):
+    """
+    Calculate mean daily radiation from observed sunshine duration according to Angstroem (1924).
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    a : float
+        First parameter for the Angstroem model (originally 0.25).
+
+    b : float
+        Second parameter for the Angstroem model (originally 0.75).
+    """
+    if isinstance(a, pd.Series):
+        months = ssd.index.month
+        a = a.loc[months].values
+        b = b.loc[months].values
+
+    glob_day = (a + b * ssd / day_length) * pot_rad_daily
+
+    return glob_day
+
+
+def fit_angstroem_params(ssd, day_length, pot_rad_daily, obs_rad_daily):
+    """
+    Fit the a and b parameters for the Angstroem (1924) model using observed daily
+    sunshine duration and mean daily (e.g. aggregated from hourly values) solar
+    radiation.
+
+    Parameters
+    ----------
+    ssd : Series
+        Observed daily sunshine duration.
+
+    day_length : Series
+        Day lengths as calculated by ``calc_sun_times``.
+
+    pot_rad_daily : Series
+        Mean potential daily solar radiation.
+
+    obs_rad_daily : Series
+        Mean observed daily solar radiation.
+    """
+    df = pd.DataFrame(
+        data=dict(ssd=ssd, day_length=day_length, pot=pot_rad_daily, obs=obs_rad_daily)
+    ).dropna(how='any')
+
+    def angstroem_opt(x, a, b):
+        return angstroem(x[0], x[1], x[2], a, b)
+
+    x = np.array([df.ssd, df.day_length, df.pot])
+    popt, pcov = scipy.optimize.curve_fit(angstroem_opt, x, df.obs, p0=[0.25, 0.75])
+
+    return popt
-- 
2.43.0


From ec235bcc9d68d703077798a8a59d9d059be59fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:17 +0000
Subject: [PATCH 37/38] fix: read marked traces of sunshine in KNMI files as
 zero

Sunshine below 0.05 hours is marked by -1, like precipitation below 0.05 mm,
and became a negative duration.
---
 melodist/data_io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/melodist/data_io.py b/melodist/data_io.py
index e9fc033..5aa7465 100644
--- a/melodist/data_io.py
+++ b/melodist/data_io.py
@@ -341,9 +341,10 @@ def read_single_knmi_file(filename):
             ssd=hourly_data_obs_raw['SQ'] * 6,
         ),
     )
-    # remove negative values
-    negative_values = hourly_data_obs['precip'] < 0.0
-    hourly_data_obs.loc[negative_values, 'precip'] = 0.0
+    # remove negative values (marks of traces)
+    for column in ('precip', 'ssd'):
+        negative_values = hourly_data_obs[column] < 0.0
+        hourly_data_obs.loc[negative_values, column] = 0.0
     return hourly_data_obs
 
 
-- 
2.43.0


From 0c0400aae827eb4cb9d57ff3cff14d28253f3062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:45 +0000
Subject: [PATCH 38/38] fix: restore attribute access of unpickled statistics

The parameter sets of the statistics offer their entries as keys and as attributes.
After unpickling both were stored separately.
A station restored from a pickle therefore ignored a new precipitation calibration.
---
 melodist/util/bunch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/melodist/util/bunch.py b/melodist/util/bunch.py
index 1205d4f..1a82388 100644
--- a/melodist/util/bunch.py
+++ b/melodist/util/bunch.py
@@ -14,5 +14,8 @@ class Bunch(dict):
     def __deepcopy__(self, memo):
         return Bunch(**copy.deepcopy(dict(self)))
 
+    def __setstate__(self, state):
+        self.__dict__ = self  # not set by __init__ when unpickling
+
     def copy(self):
         return self.__copy__()
-- 
2.43.0


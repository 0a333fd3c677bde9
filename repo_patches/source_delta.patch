From 7b37429b32c0e71c0517b63880be781d2f2065bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 01/59] fix: keep LPM telegram columns aligned when a row is
 damaged

---
 cloudnetpy/disdronator/lpm.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/disdronator/lpm.py b/cloudnetpy/disdronator/lpm.py
index e797900..1caa955 100644
--- a/cloudnetpy/disdronator/lpm.py
+++ b/cloudnetpy/disdronator/lpm.py
@@ -59,6 +59,7 @@ def _read_telegram(telegram: str, data: dict[int, list]) -> None:
     if len(values) not in (520, 524):
         msg = "Invalid telegram length"
         raise ValueError(msg)
+    row: dict[int, datetime.date | datetime.time | int | float | str] = {}
     for i, value in enumerate(values[:-1]):
         no = i + 2
         parsed: datetime.date | datetime.time | int | float | str
@@ -72,6 +73,10 @@ def _read_telegram(telegram: str, data: dict[int, list]) -> None:
             parsed = float(value)
         else:
             parsed = value
+        row[no] = parsed
+    # Store the row only after every value has been parsed so that all columns
+    # and the timestamps stay aligned.
+    for no, parsed in row.items():
         if no not in data:
             data[no] = []
         data[no].append(parsed)
@@ -85,10 +90,11 @@ def _read_pyatmoslogger(filename: str | PathLike) -> LpmOutput:
         for line in f:
             timestamp, telegram = line.split(";", maxsplit=1)
             try:
+                dt = datetime.datetime.strptime(timestamp, "%Y-%m-%d %H:%M:%S")
                 _read_telegram(telegram, data)
-                time.append(datetime.datetime.strptime(timestamp, "%Y-%m-%d %H:%M:%S"))
             except ValueError:
-                pass
+                continue
+            time.append(dt)
     return time, data
 
 
@@ -100,10 +106,11 @@ def _read_lampedusa(filename: str | PathLike) -> LpmOutput:
         for line in f:
             cols = [col.strip('"') for col in line.strip().split(",")]
             try:
+                dt = datetime.datetime.strptime(cols[0], "%Y-%m-%d %H:%M:%S")
                 _read_telegram(cols[2], data)
-                time.append(datetime.datetime.strptime(cols[0], "%Y-%m-%d %H:%M:%S"))
             except ValueError:
-                pass
+                continue
+            time.append(dt)
     return time, data
 
 
-- 
2.43.0


From d9719627af05b848ab5b9f9079d49a0dc3f420ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 02/59] fix: read non-zero spectra of ASDO Parsivel files

---
 cloudnetpy/disdronator/parsivel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/disdronator/parsivel.py b/cloudnetpy/disdronator/parsivel.py
index 3d6b2d2..7d0be07 100644
--- a/cloudnetpy/disdronator/parsivel.py
+++ b/cloudnetpy/disdronator/parsivel.py
@@ -294,7 +294,10 @@ def _read_lines(
 def _expand_spectrum(m: re.Match) -> bytes:
     if m[1] == b"ZERO":
         return b"0;" * 1024
-    return b";".join([x or b"0" for x in m[1].split(b";")])
+    values = m[1].split(b";")
+    if len(values) == 1025 and not values[-1]:
+        values.pop()  # separator before the closing tag
+    return b";".join([x or b"0" for x in values])
 
 
 def _read_typ_op4a(content: bytes) -> dict:
-- 
2.43.0


From eb56045e37d9d194fc860dfa95d1b328eebccf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 03/59] fix: screen all FD12P variables by the expected date

---
 cloudnetpy/instruments/fd12p.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/instruments/fd12p.py b/cloudnetpy/instruments/fd12p.py
index bce43f0..5d9e993 100644
--- a/cloudnetpy/instruments/fd12p.py
+++ b/cloudnetpy/instruments/fd12p.py
@@ -114,9 +114,14 @@ class FD12P(CSVFile):
             self._data[key] = ma.array(values, mask=mask)
         self._data["snowfall_amount"] = self._data["snowfall_amount"].astype(np.float32)
         if expected_date:
-            self._data["time"] = [
-                d for d in self._data["time"] if d.date() == expected_date
-            ]
+            is_valid = [d.date() == expected_date for d in self._data["time"]]
+            for key, values in self._data.items():
+                if isinstance(values, list):
+                    self._data[key] = [
+                        x for x, valid in zip(values, is_valid, strict=True) if valid
+                    ]
+                else:
+                    self._data[key] = values[np.array(is_valid, dtype=bool)]
         if not self._data["time"]:
             raise ValidTimeStampError
 
-- 
2.43.0


From 2b168d8cacb042436ef277d58a3131eaf7412a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 04/59] fix: keep the range axis when there are as many
 profiles as range gates

---
 cloudnetpy/instruments/cloudnet_instrument.py | 4 +++-
 cloudnetpy/instruments/galileo.py             | 4 ++--
 cloudnetpy/instruments/pollyxt.py             | 2 ++
 cloudnetpy/instruments/vaisala.py             | 2 ++
 cloudnetpy/utils.py                           | 3 ++-
 5 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index 40cabc2..6de7fb5 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -67,7 +67,9 @@ class CloudnetInstrument:
         ):
             msg = "All timestamps screened"
             raise ValidTimeStampError(msg)
-        for cloudnet_array in self.data.values():
+        for key, cloudnet_array in self.data.items():
+            if key in ("range", "height"):
+                continue
             array = cloudnet_array.data
             if not utils.isscalar(array) and array.shape[0] == n_time:
                 match array.ndim:
diff --git a/cloudnetpy/instruments/galileo.py b/cloudnetpy/instruments/galileo.py
index a91323b..f28ff9f 100644
--- a/cloudnetpy/instruments/galileo.py
+++ b/cloudnetpy/instruments/galileo.py
@@ -144,8 +144,8 @@ class Galileo(ChilboltonRadar):
             raise ValueError(msg)
         if valid_idx.size == range_var.shape[0]:
             return
-        for arr in self.data.values():
-            if utils.isscalar(arr.data):
+        for key, arr in self.data.items():
+            if utils.isscalar(arr.data) or (arr.data.ndim == 1 and key != "range"):
                 continue
             if arr[:].shape[-1] == range_var.shape[0]:
                 arr.data = arr[..., valid_idx]
diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index 51247e5..ec7f866 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -184,6 +184,8 @@ class PollyXt(Ceilometer):
     def screen_completely_masked_profiles(self) -> None:
         valid_ind = ~np.all(np.ma.getmaskarray(self.data["beta_raw"]), axis=1)
         for key, item in self.data.items():
+            if key == "range":
+                continue
             if isinstance(item, np.ndarray) and item.shape[0] == len(valid_ind):
                 self.data[key] = item[valid_ind]
 
diff --git a/cloudnetpy/instruments/vaisala.py b/cloudnetpy/instruments/vaisala.py
index 2c1f4bb..57fd911 100644
--- a/cloudnetpy/instruments/vaisala.py
+++ b/cloudnetpy/instruments/vaisala.py
@@ -73,6 +73,8 @@ class VaisalaCeilo(Ceilometer):
             msg = "All timestamps screened"
             raise ValidTimeStampError(msg)
         for key, array in self.data.items():
+            if key == "range":
+                continue
             if hasattr(array, "shape") and array.shape[:1] == (n_time,):
                 self.data[key] = self.data[key][valid_indices]
 
diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index c1a5dc6..d1abb87 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -971,7 +971,8 @@ def screen_by_time(
         if isinstance(array, list) and len(array) > 1:
             raise ValueError
         if (
-            isinstance(array, np.ndarray)
+            key != "range"
+            and isinstance(array, np.ndarray)
             and array.ndim > 0
             and array.shape[0] == n_time
         ):
-- 
2.43.0


From f0daebbf2cdca2e60364b6988a941efdb0467c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 05/59] fix: do not fold profiles of the following day onto the
 requested day

---
 cloudnetpy/instruments/basta.py    |  2 ++
 cloudnetpy/instruments/nc_radar.py | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/cloudnetpy/instruments/basta.py b/cloudnetpy/instruments/basta.py
index a3249de..a931e25 100644
--- a/cloudnetpy/instruments/basta.py
+++ b/cloudnetpy/instruments/basta.py
@@ -69,6 +69,8 @@ def basta2nc(
         basta.add_zenith_angle()
         basta.add_radar_specific_variables()
         basta.add_height()
+        if date is not None:
+            basta.screen_other_days()
         basta.sort_timestamps()
         basta.remove_duplicate_timestamps()
         basta.test_if_all_masked()
diff --git a/cloudnetpy/instruments/nc_radar.py b/cloudnetpy/instruments/nc_radar.py
index 25ff513..5d4fdce 100644
--- a/cloudnetpy/instruments/nc_radar.py
+++ b/cloudnetpy/instruments/nc_radar.py
@@ -10,6 +10,7 @@ from numpy import ma
 
 from cloudnetpy import utils
 from cloudnetpy.cloudnetarray import CloudnetArray
+from cloudnetpy.constants import SEC_IN_DAY
 from cloudnetpy.datasource import DataSource
 from cloudnetpy.exceptions import RadarDataError, ValidTimeStampError
 from cloudnetpy.instruments.cloudnet_instrument import CloudnetInstrument
@@ -171,6 +172,14 @@ class NcRadar(DataSource, CloudnetInstrument):
         except KeyError:
             logging.warning("Unable to find nyquist_velocity")
 
+    def screen_other_days(self) -> None:
+        """Removes profiles outside the day from which the seconds are counted."""
+        seconds = self.getvar("time")
+        is_valid = np.array((seconds >= 0) & (seconds < SEC_IN_DAY))
+        if not np.all(is_valid):
+            logging.warning("Filtering profiles from other days")
+            self.screen_time_indices(is_valid)
+
     def test_if_all_masked(self) -> None:
         """Tests if all data are masked."""
         v = self.data["v"][:]
@@ -195,6 +204,7 @@ class ChilboltonRadar(NcRadar):
     def check_date(self, date: datetime.date) -> None:
         if self.date != date:
             raise ValidTimeStampError
+        self.screen_other_days()
 
     def _init_date(self) -> datetime.date:
         return utils.get_epoch(self.dataset["time"].units).date()
-- 
2.43.0


From 13023f285e7ee5c3a9462169246883ce00c2c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 06/59] fix: convert MRR-PRO data that contains profiles from
 another date

---
 cloudnetpy/instruments/mrr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/mrr.py b/cloudnetpy/instruments/mrr.py
index 6c9894d..ee9e9b0 100644
--- a/cloudnetpy/instruments/mrr.py
+++ b/cloudnetpy/instruments/mrr.py
@@ -100,13 +100,13 @@ def mrr2nc(
         with MrrPro(input_file, site_meta) as mrr:
             mrr.init_data(keymap)
             mrr.fix_units()
+            mrr.add_zenith_angle()
             mrr.date = mrr.init_date()
             if date:
                 mrr.screen_by_date(date)
             mrr.add_time_and_range()
             mrr.fix_range()
             mrr.add_site_geolocation()
-            mrr.add_zenith_angle()
             mrr.add_radar_specific_variables()
             mrr.add_height()
             mrr.sort_timestamps()
-- 
2.43.0


From c99e205c5be4663b44f34053a35866ebe7877cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 07/59] fix: remove duplicate timestamps from MRR-PRO data

---
 cloudnetpy/instruments/mrr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudnetpy/instruments/mrr.py b/cloudnetpy/instruments/mrr.py
index ee9e9b0..30e6553 100644
--- a/cloudnetpy/instruments/mrr.py
+++ b/cloudnetpy/instruments/mrr.py
@@ -110,6 +110,7 @@ def mrr2nc(
             mrr.add_radar_specific_variables()
             mrr.add_height()
             mrr.sort_timestamps()
+            mrr.remove_duplicate_timestamps()
         attributes = output.add_time_attribute(ATTRIBUTES, mrr.date)
         output.update_attributes(mrr.data, attributes)
         output.save_level1b(mrr, output_file, uuid)
-- 
2.43.0


From 5d4393a511a14ed3f3cb8a54a2261c860084e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 08/59] fix: convert time when concatenating files with
 different reference times

---
 cloudnetpy/concat_lib.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index a047da6..cfe492c 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -240,6 +240,8 @@ class _Concat:
                     continue
 
                 array, dimensions = self._expand_array(file[key], n_points)
+                if key == "time":
+                    array = array + _get_time_offset(file[key], self.first_file[key])
 
                 # Nearest neighbour interpolation in the interp_dim dimension
                 # if the dimensions are not the same between the files
@@ -296,6 +298,17 @@ def _copy_attributes(
             setattr(target, attr, value)
 
 
+def _get_time_offset(source: netCDF4.Variable, target: netCDF4.Variable) -> float:
+    """Returns the difference of the reference times in the units of the source."""
+    units = [str(getattr(var, "units", "")) for var in (source, target)]
+    factors = {"seconds": 1, "minutes": 60, "hours": 3600, "days": 86400}
+    unit = units[0].split(" ")[0]
+    if units[0] == units[1] or unit not in factors or units[1].split(" ")[0] != unit:
+        return 0
+    diff = utils.get_epoch(units[0]) - utils.get_epoch(units[1])
+    return diff.total_seconds() / factors[unit]
+
+
 def _find_valid_time_indices(
     nc_old: netCDF4.Dataset,
     nc_new: netCDF4.Dataset,
-- 
2.43.0


From 2cddbb7e9341a00714f75def6aa0bd6e70f0600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 09/59] fix: remove duplicate timestamps from Radiometrics data

---
 cloudnetpy/instruments/radiometrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/radiometrics.py b/cloudnetpy/instruments/radiometrics.py
index ab1156b..74c3d5f 100644
--- a/cloudnetpy/instruments/radiometrics.py
+++ b/cloudnetpy/instruments/radiometrics.py
@@ -361,7 +361,8 @@ class RadiometricsCombined:
             self.data[key] = self.data[key][valid_mask]
 
     def sort_timestamps(self) -> None:
-        ind = np.argsort(self.data["time"])
+        """Sorts timestamps and removes duplicates."""
+        _, ind = np.unique(self.data["time"], return_index=True)
         for key in self.data:
             if key in ("range", "height"):
                 continue
-- 
2.43.0


From e6b4a09dd47a05a4427c6c86d45eb9608973a968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:29 +0000
Subject: [PATCH 10/59] fix: read HATPRO files that contain a single sample

---
 cloudnetpy/instruments/rpg_reader.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/rpg_reader.py b/cloudnetpy/instruments/rpg_reader.py
index 6594155..3bc9df8 100644
--- a/cloudnetpy/instruments/rpg_reader.py
+++ b/cloudnetpy/instruments/rpg_reader.py
@@ -226,7 +226,7 @@ class HatproBin:
 
     def _add_zenith_angle(self) -> None:
         ele, _azi = _decode_angles(self.data["_instrument_angles"], self.version)
-        self.data = rfn.append_fields(self.data, "zenith_angle", 90 - ele)
+        self.data = _append_field(self.data, "zenith_angle", 90 - ele)
 
 
 class HatproBinLwp(HatproBin):
@@ -319,7 +319,7 @@ class HatproBinCombined:
         elif len(files) == 2:
             f1, f2 = files
             arr = rfn.join_by("time", f1.data, f2.data, "outer")
-            arr = rfn.append_fields(
+            arr = _append_field(
                 arr,
                 "zenith_angle",
                 _combine_values(arr["zenith_angle1"], arr["zenith_angle2"]),
@@ -340,6 +340,20 @@ class HatproBinCombined:
         self.data = {field: arr[field] for field in arr.dtype.fields}
 
 
+def _append_field(
+    arr: ma.MaskedArray, name: str, values: npt.NDArray
+) -> ma.MaskedArray:
+    """Adds a field to a structured array.
+
+    Unlike `numpy.lib.recfunctions.append_fields`, works also with one row.
+    """
+    out = ma.zeros(arr.shape, dtype=[*arr.dtype.descr, (name, values.dtype.str)])
+    for field in arr.dtype.names:
+        out[field] = arr[field]
+    out[name] = values
+    return out
+
+
 def _combine_values(arr1: ma.MaskedArray, arr2: ma.MaskedArray) -> ma.MaskedArray:
     if not ma.allequal(arr1, arr2):
         msg = "Inconsistent values"
-- 
2.43.0


From da0efb8b12e3eefab5aeaeb0f7e98a815cf2ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:55 +0000
Subject: [PATCH 11/59] fix: use the expected date in MRR-PRO products

---
 cloudnetpy/instruments/mrr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cloudnetpy/instruments/mrr.py b/cloudnetpy/instruments/mrr.py
index 30e6553..3398a18 100644
--- a/cloudnetpy/instruments/mrr.py
+++ b/cloudnetpy/instruments/mrr.py
@@ -162,6 +162,7 @@ class MrrPro(NcRadar):
             if date == expected_date:
                 valid_indices.append(ind)
         self.screen_time_indices(valid_indices)
+        self.date = expected_date
 
     def fix_range(self) -> None:
         # It seems like the "range" variable in MRR-PRO raw files is actually
-- 
2.43.0


From 97d9ddcba5a096a87e1aca466c4a9157a159e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:55 +0000
Subject: [PATCH 12/59] fix: raise timestamp error if RD80 files have no data
 from the expected date

---
 cloudnetpy/instruments/disdrometer/rd80.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/disdrometer/rd80.py b/cloudnetpy/instruments/disdrometer/rd80.py
index a5dd5ce..fa5aca7 100644
--- a/cloudnetpy/instruments/disdrometer/rd80.py
+++ b/cloudnetpy/instruments/disdrometer/rd80.py
@@ -11,6 +11,7 @@ from cloudnetpy import output
 from cloudnetpy.cloudnetarray import CloudnetArray
 from cloudnetpy.constants import MM_TO_M, SEC_IN_HOUR
 from cloudnetpy.disdronator.rd80 import A, Dlow, Dmid, Dspr, Dupp, Vmid, read_rd80
+from cloudnetpy.exceptions import ValidTimeStampError
 from cloudnetpy.instruments import instruments
 from cloudnetpy.instruments.cloudnet_instrument import CloudnetInstrument
 from cloudnetpy.utils import get_uuid
@@ -92,9 +93,13 @@ class Rd80(CloudnetInstrument):
 
     def _screen_time(self, expected_date: datetime.date | None = None) -> None:
         if expected_date is None:
-            self.date = self.time[0].date()
+            if len(self.raw_time) == 0:
+                raise ValidTimeStampError
+            self.date = self.raw_time[0].date()
         else:
             is_valid = [dt.date() == expected_date for dt in self.raw_time]
+            if not any(is_valid):
+                raise ValidTimeStampError
             self.raw_time = self.raw_time[is_valid]
             for key in self.raw_data:
                 self.raw_data[key] = self.raw_data[key][is_valid]
-- 
2.43.0


From 293c1f9dbc5a6e2c5652155883fc42fcf71ef360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:55 +0000
Subject: [PATCH 13/59] fix: raise timestamp error if weather radar files have
 no data from the expected date

---
 cloudnetpy/instruments/weather_radar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/instruments/weather_radar.py b/cloudnetpy/instruments/weather_radar.py
index 059f78a..fa68c3e 100644
--- a/cloudnetpy/instruments/weather_radar.py
+++ b/cloudnetpy/instruments/weather_radar.py
@@ -106,6 +106,8 @@ class WeatherRadar(CloudnetInstrument):
             self.date = self.raw_time[0].date()
         else:
             is_valid = [dt.date() == expected_date for dt in self.raw_time]
+            if not any(is_valid):
+                raise ValidTimeStampError
             self.raw_time = self.raw_time[is_valid]
             for key in self.raw_data:
                 self.raw_data[key] = self.raw_data[key][is_valid]
-- 
2.43.0


From fa8a26b5a1eeae05fef718dcedbd430a8ba67476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 14/59] fix: skip corrupt netCDF files when concatenating files

---
 cloudnetpy/concat_lib.py | 48 ++++++++++++++++++++++++++++------------
 cloudnetpy/utils.py      | 17 +++++++++-----
 2 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index cfe492c..6c0aaed 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -149,10 +149,17 @@ class _Concat:
     def _is_valid_file(self, filename: str | PathLike) -> bool:
         # Added to handle strange .znc files with no time and huge range
         # dimension resulting in large memory usage (e.g. Jülich 2019-05-18).
-        with netCDF4.Dataset(filename) as nc:
-            return (
-                nc[self.concat_dimension].size > 0 and nc[self.interp_dim].size < 10_000
-            )
+        try:
+            with netCDF4.Dataset(filename) as nc:
+                return (
+                    nc[self.concat_dimension].size > 0
+                    and nc[self.interp_dim].size < 10_000
+                )
+        except (FileNotFoundError, PermissionError):
+            raise
+        except OSError:
+            logging.warning("Skipping invalid file: %s", filename)
+            return False
 
     def create_global_attributes(self, new_attributes: dict | None) -> None:
         """Copies global attributes from one of the source files."""
@@ -346,6 +353,26 @@ def concatenate_text_files(filenames: list, output_filename: str | PathLike) ->
                 shutil.copyfileobj(source, target)
 
 
+def _find_concat_dimension(
+    files: Sequence[str | PathLike], concat_dimensions: tuple[str, ...]
+) -> str:
+    for ind, file in enumerate(files):
+        try:
+            with netCDF4.Dataset(file) as nc:
+                for key in concat_dimensions:
+                    if key in nc.dimensions:
+                        return key
+        except (FileNotFoundError, PermissionError):
+            raise
+        except OSError:
+            if ind < len(files) - 1:
+                continue
+            raise
+        break
+    msg = f"Dimension '{concat_dimensions}' not found in the files."
+    raise KeyError(msg)
+
+
 def bundle_netcdf_files(
     files: Sequence[str | PathLike],
     date: datetime.date,
@@ -356,15 +383,7 @@ def bundle_netcdf_files(
     """Concatenates several netcdf files into daily file with
     some extra data manipulation.
     """
-    with netCDF4.Dataset(files[0]) as nc:
-        concat_dimension = None
-        for key in concat_dimensions:
-            if key in nc.dimensions:
-                concat_dimension = key
-                break
-        if concat_dimension is None:
-            msg = f"Dimension '{concat_dimensions}' not found in the files."
-            raise KeyError(msg)
+    concat_dimension = _find_concat_dimension(files, concat_dimensions)
     if len(files) == 1:
         shutil.copy(files[0], output_file)
         return list(files)
@@ -375,7 +394,8 @@ def bundle_netcdf_files(
                 time = nc.variables["time"]
                 time_array = time[:]
                 time_units = time.units
-        except OSError:
+        except (OSError, RuntimeError):
+            logging.warning("Skipping invalid file: %s", file)
             continue
         epoch = utils.get_epoch(time_units)
         for timestamp in time_array:
diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index d1abb87..669eb96 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -1058,12 +1058,17 @@ def get_files_with_variables(filenames: list, variables: list[str]) -> list:
     """Returns files where all variables exist."""
     valid_files = []
     for file in filenames:
-        with netCDF4.Dataset(file) as nc:
-            for variable in variables:
-                if variable not in nc.variables:
-                    break
-            else:
-                valid_files.append(file)
+        try:
+            with netCDF4.Dataset(file) as nc:
+                for variable in variables:
+                    if variable not in nc.variables:
+                        break
+                else:
+                    valid_files.append(file)
+        except (FileNotFoundError, PermissionError):
+            raise
+        except OSError:
+            logging.warning("Skipping invalid file: %s", file)
     return valid_files
 
 
-- 
2.43.0


From 16b2a84434a6a921fe8126c302112b40a0b9b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 15/59] fix: skip corrupt weather radar files

---
 cloudnetpy/instruments/weather_radar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudnetpy/instruments/weather_radar.py b/cloudnetpy/instruments/weather_radar.py
index fa68c3e..54ffbd5 100644
--- a/cloudnetpy/instruments/weather_radar.py
+++ b/cloudnetpy/instruments/weather_radar.py
@@ -1,4 +1,5 @@
 import datetime
+import logging
 from collections.abc import Iterable, Sequence
 from os import PathLike
 from uuid import UUID
@@ -78,6 +79,11 @@ class WeatherRadar(CloudnetInstrument):
                 )
             except InvalidRangeError:
                 continue
+            except (FileNotFoundError, PermissionError):
+                raise
+            except OSError:
+                logging.warning("Skipping invalid file: %s", filename)
+                continue
             times.append(file_time)
             ranges.append(file_range)
             data.append(file_data)
-- 
2.43.0


From a266d224dd48524b32063a76cf9a90d4f1afe853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 16/59] fix: skip corrupt PollyXT files

---
 cloudnetpy/instruments/pollyxt.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index ec7f866..31b9601 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -219,8 +219,14 @@ def _fetch_files_with_same_range(
     bsc_files: list[str], depol_files: list[str]
 ) -> tuple[list[str], list[str]]:
     def get_sum(file: str) -> float:
-        with netCDF4.Dataset(file, "r") as nc:
-            return np.sum(np.round(nc.variables["height"][:]))
+        try:
+            with netCDF4.Dataset(file, "r") as nc:
+                return np.sum(np.round(nc.variables["height"][:]))
+        except (FileNotFoundError, PermissionError):
+            raise
+        except OSError:
+            logging.warning("Skipping invalid file: %s", file)
+            return ma.masked
 
     bsc_sums = [get_sum(f) for f in bsc_files]
     depol_sums = [get_sum(f) for f in depol_files]
-- 
2.43.0


From e0447b0bd78a17af9fa4308182f6e307a044da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:48 +0000
Subject: [PATCH 17/59] fix: skip empty and truncated HATPRO files

---
 cloudnetpy/instruments/hatpro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/hatpro.py b/cloudnetpy/instruments/hatpro.py
index 3bf21c8..d958423 100644
--- a/cloudnetpy/instruments/hatpro.py
+++ b/cloudnetpy/instruments/hatpro.py
@@ -240,7 +240,7 @@ def _get_hatpro_objects(
             if expected_date is not None:
                 obj = _validate_date(obj, expected_date)
             objects[filename.stem].append(obj)
-        except (TypeError, ValueError, ValidTimeStampError) as err:
+        except (IndexError, TypeError, ValueError, ValidTimeStampError) as err:
             logging.warning("Ignoring file '%s': %s", filename, err)
             continue
 
-- 
2.43.0


From 48e8222bf8b540a4d6573a59caefdedc577e06d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:24 +0000
Subject: [PATCH 18/59] fix: leave nothing behind from a skipped file when
 concatenating files

---
 cloudnetpy/concat_lib.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 6c0aaed..56d9d79 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -241,6 +241,7 @@ class _Concat:
             ind0 = len(self.concatenated_file.variables[self.concat_dimension])
             ind1 = ind0 + len(file.variables[self.concat_dimension])
             n_points = ind1 - ind0
+            arrays = {}
 
             for key in self.concatenated_file.variables:
                 if key not in file.variables or key == self.interp_dim:
@@ -263,6 +264,11 @@ class _Concat:
                     fill_value = self.first_file.variables[key].get_fill_value()
                     array[:, out_of_bounds] = fill_value
 
+                arrays[key] = array
+
+            # Write only after everything has been read so that nothing is left
+            # behind from a file with unreadable data.
+            for key, array in arrays.items():
                 self.concatenated_file.variables[key][ind0:ind1, ...] = array
 
     def _init_output_file(self, output_file: str | PathLike) -> netCDF4.Dataset:
-- 
2.43.0


From 0354f549673e7d9f99a2ef1c600f2116b4bc74be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:29 +0000
Subject: [PATCH 19/59] fix: match range gates by height when concatenating
 files with different range axes

---
 cloudnetpy/concat_lib.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 56d9d79..2d0b6dd 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -253,16 +253,15 @@ class _Concat:
 
                 # Nearest neighbour interpolation in the interp_dim dimension
                 # if the dimensions are not the same between the files
-                if self.interp_dim in dimensions and (
-                    self.first_file[self.interp_dim].size != file[self.interp_dim].size
-                ):
+                if self.interp_dim in dimensions and not self._has_same_axis(file):
                     x = file.variables[self.interp_dim][:]
                     x_target = self.first_file.variables[self.interp_dim][:]
                     idx = np.abs(x[:, None] - x_target[None, :]).argmin(axis=0)
-                    array = array[:, idx]
+                    axis = dimensions.index(self.interp_dim)
+                    array = np.take(array, idx, axis=axis)
                     out_of_bounds = (x_target < x.min()) | (x_target > x.max())
                     fill_value = self.first_file.variables[key].get_fill_value()
-                    array[:, out_of_bounds] = fill_value
+                    array[(slice(None),) * axis + (out_of_bounds,)] = fill_value
 
                 arrays[key] = array
 
@@ -271,6 +270,11 @@ class _Concat:
             for key, array in arrays.items():
                 self.concatenated_file.variables[key][ind0:ind1, ...] = array
 
+    def _has_same_axis(self, file: netCDF4.Dataset) -> bool:
+        x = file.variables[self.interp_dim][:]
+        x_target = self.first_file.variables[self.interp_dim][:]
+        return x.shape == x_target.shape and bool(np.allclose(x, x_target))
+
     def _init_output_file(self, output_file: str | PathLike) -> netCDF4.Dataset:
         data_model: Literal["NETCDF4", "NETCDF4_CLASSIC"] = (
             "NETCDF4" if self.first_file.data_model == "NETCDF4" else "NETCDF4_CLASSIC"
-- 
2.43.0


From fd3167cf7187283cea8abc6cece954e080bba0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:29 +0000
Subject: [PATCH 20/59] fix: unpack data when concatenating files with
 different scale factors

---
 cloudnetpy/concat_lib.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 2d0b6dd..9b9af0b 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -248,6 +248,7 @@ class _Concat:
                     continue
 
                 array, dimensions = self._expand_array(file[key], n_points)
+                array = _repack(array, file[key], self.first_file[key])
                 if key == "time":
                     array = array + _get_time_offset(file[key], self.first_file[key])
 
@@ -326,6 +327,20 @@ def _get_time_offset(source: netCDF4.Variable, target: netCDF4.Variable) -> floa
     return diff.total_seconds() / factors[unit]
 
 
+def _repack(
+    array: npt.NDArray, source: netCDF4.Variable, target: netCDF4.Variable
+) -> npt.NDArray:
+    """Converts raw data of the source to the packing of the target."""
+    scale, scale_target = (getattr(v, "scale_factor", 1) for v in (source, target))
+    offset, offset_target = (getattr(v, "add_offset", 0) for v in (source, target))
+    if scale == scale_target and offset == offset_target:
+        return array
+    array = (array * scale + offset - offset_target) / scale_target
+    if np.issubdtype(target.dtype, np.integer):
+        array = np.round(array)
+    return array.astype(target.dtype)
+
+
 def _find_valid_time_indices(
     nc_old: netCDF4.Dataset,
     nc_new: netCDF4.Dataset,
-- 
2.43.0


From 45ab23f9c7c317073fd1e839a4a627c1321049df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:02 +0000
Subject: [PATCH 21/59] fix: keep missing values when concatenating files with
 different fill values

---
 cloudnetpy/concat_lib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 9b9af0b..6cbdcce 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -269,7 +269,9 @@ class _Concat:
             # Write only after everything has been read so that nothing is left
             # behind from a file with unreadable data.
             for key, array in arrays.items():
-                self.concatenated_file.variables[key][ind0:ind1, ...] = array
+                fill_value = self.first_file.variables[key].get_fill_value()
+                data = ma.filled(array, fill_value)
+                self.concatenated_file.variables[key][ind0:ind1, ...] = data
 
     def _has_same_axis(self, file: netCDF4.Dataset) -> bool:
         x = file.variables[self.interp_dim][:]
-- 
2.43.0


From 85ddebfd7df325b9ff53f2e0937a80cc11bc6536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:36 +0000
Subject: [PATCH 22/59] fix: do not mistake write errors for invalid input when
 concatenating files

---
 cloudnetpy/concat_lib.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 6cbdcce..c5f8851 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -179,13 +179,14 @@ class _Concat:
         if len(self.filenames) > 1:
             for filename in self.filenames[1:]:
                 try:
-                    self._append_data(filename)
+                    data = self._read_data(filename)
                 except RuntimeError as e:
                     if "NetCDF: HDF error" in str(e):
                         msg = f"Caught a NetCDF HDF error. Skipping file '{filename}'."
                         logging.exception(msg)
                         continue
                     raise
+                self._append_data(data)
                 output.append(filename)
         return output
 
@@ -234,13 +235,11 @@ class _Concat:
 
         return arr, dimensions
 
-    def _append_data(self, filename: str | PathLike) -> None:
+    def _read_data(self, filename: str | PathLike) -> dict[str, npt.NDArray]:
         with netCDF4.Dataset(filename) as file:
             auto_scale = False
             file.set_auto_scale(auto_scale)
-            ind0 = len(self.concatenated_file.variables[self.concat_dimension])
-            ind1 = ind0 + len(file.variables[self.concat_dimension])
-            n_points = ind1 - ind0
+            n_points = len(file.variables[self.concat_dimension])
             arrays = {}
 
             for key in self.concatenated_file.variables:
@@ -266,12 +265,15 @@ class _Concat:
 
                 arrays[key] = array
 
-            # Write only after everything has been read so that nothing is left
-            # behind from a file with unreadable data.
-            for key, array in arrays.items():
-                fill_value = self.first_file.variables[key].get_fill_value()
-                data = ma.filled(array, fill_value)
-                self.concatenated_file.variables[key][ind0:ind1, ...] = data
+            return arrays
+
+    def _append_data(self, arrays: dict[str, npt.NDArray]) -> None:
+        ind0 = len(self.concatenated_file.variables[self.concat_dimension])
+        ind1 = ind0 + len(arrays[self.concat_dimension])
+        for key, array in arrays.items():
+            fill_value = self.first_file.variables[key].get_fill_value()
+            data = ma.filled(array, fill_value)
+            self.concatenated_file.variables[key][ind0:ind1, ...] = data
 
     def _has_same_axis(self, file: netCDF4.Dataset) -> bool:
         x = file.variables[self.interp_dim][:]
-- 
2.43.0


From 14331de602d2db9fdf60b28d7f5eb1e5f8a290f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 23/59] fix: return only the concatenated files when bundling
 files

---
 cloudnetpy/concat_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index c5f8851..73c00ed 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -431,7 +431,7 @@ def bundle_netcdf_files(
             if utils.seconds2date(timestamp, epoch).date() == date:
                 valid_files.append(file)
                 break
-    concatenate_files(
+    concatenated_files = concatenate_files(
         valid_files,
         output_file,
         concat_dimension=concat_dimension,
@@ -444,4 +444,4 @@ def bundle_netcdf_files(
             "Max_LWP",
         ],
     )
-    return valid_files
+    return [file for file in valid_files if Path(file) in concatenated_files]
-- 
2.43.0


From af77f1c098e801e4b0e79ece99cb44bf42155f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:08 +0000
Subject: [PATCH 24/59] fix: leave no gap when updating a file with overlapping
 data

---
 cloudnetpy/concat_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 73c00ed..2f5f2f9 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -358,7 +358,7 @@ def _update_fields(
     valid_ind: npt.NDArray,
 ) -> None:
     ind0 = len(nc_old.variables["time"])
-    idx = [ind0 + x for x in valid_ind]
+    idx = [ind0 + x for x in range(len(valid_ind))]
     concat_dimension = nc_old.variables["time"].dimensions[0]
     for field in nc_new.variables:
         if field not in nc_old.variables:
-- 
2.43.0


From b2a61cbb2bce6de6ea3e2af28996e45bf840854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:08 +0000
Subject: [PATCH 25/59] fix: compare times in the same reference when updating
 a file

---
 cloudnetpy/concat_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 2f5f2f9..b57104b 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -349,7 +349,8 @@ def _find_valid_time_indices(
     nc_old: netCDF4.Dataset,
     nc_new: netCDF4.Dataset,
 ) -> npt.NDArray:
-    return np.where(nc_new.variables["time"][:] > nc_old.variables["time"][-1])[0]
+    time_old, time_new = nc_old.variables["time"], nc_new.variables["time"]
+    return np.where(time_new[:] + _get_time_offset(time_new, time_old) > time_old[-1])[0]
 
 
 def _update_fields(
-- 
2.43.0


From b4911290102498fbaed6a136a57b0520c147ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 26/59] fix: update files completely or not at all

---
 cloudnetpy/concat_lib.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index b57104b..98f93b4 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -361,18 +361,31 @@ def _update_fields(
     ind0 = len(nc_old.variables["time"])
     idx = [ind0 + x for x in range(len(valid_ind))]
     concat_dimension = nc_old.variables["time"].dimensions[0]
+    data = {}
     for field in nc_new.variables:
         if field not in nc_old.variables:
             continue
         dimensions = nc_new.variables[field].dimensions
         if concat_dimension in dimensions:
+            array = nc_new.variables[field][:]
+            if field == "time":
+                time_old = nc_old.variables["time"]
+                array = array + _get_time_offset(nc_new.variables["time"], time_old)
             concat_ind = dimensions.index(concat_dimension)
-            if len(dimensions) == 1:
-                nc_old.variables[field][idx] = nc_new.variables[field][valid_ind]
-            elif len(dimensions) == 2 and concat_ind == 0:
-                nc_old.variables[field][idx, :] = nc_new.variables[field][valid_ind, :]
-            elif len(dimensions) == 2 and concat_ind == 1:
-                nc_old.variables[field][:, idx] = nc_new.variables[field][:, valid_ind]
+            data[field] = concat_ind, np.take(array, valid_ind, axis=concat_ind)
+    # Write only after everything has been read so that nothing is left behind
+    # from a file with unreadable or incompatible data.
+    for field, (concat_ind, array) in data.items():
+        shape = nc_old.variables[field].shape
+        if (*array.shape[:concat_ind], *array.shape[concat_ind + 1 :]) != (
+            *shape[:concat_ind],
+            *shape[concat_ind + 1 :],
+        ):
+            msg = f"Incompatible shape in variable '{field}'"
+            raise ValueError(msg)
+    for field, (concat_ind, array) in data.items():
+        ind = (slice(None),) * concat_ind + (idx,)
+        nc_old.variables[field][ind] = array
 
 
 def concatenate_text_files(filenames: list, output_filename: str | PathLike) -> None:
-- 
2.43.0


From 59a139a71e298286abb929a4b27606aa0b880f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 27/59] fix: do not count rain twice after several gauge resets

---
 cloudnetpy/instruments/cloudnet_instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index 6de7fb5..8584c5b 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -125,7 +125,7 @@ class CSVFile(CloudnetInstrument):
             if amount[i] is ma.masked:
                 continue
             if amount[i] + offset < amount[last_valid]:
-                offset += amount[last_valid]
+                offset = amount[last_valid]
             amount[i] += offset
             last_valid = i
         amount -= amount[0]
-- 
2.43.0


From cb923ab064ac74128ffc399dd4306ec2be12f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 28/59] fix: keep cumulative amount if the first value is
 missing

---
 cloudnetpy/instruments/cloudnet_instrument.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index 8584c5b..7922b5a 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -119,14 +119,17 @@ class CSVFile(CloudnetInstrument):
         if key not in self.data:
             return
         amount = self.data[key][:]
+        valid_ind = np.where(~ma.getmaskarray(amount))[0]
+        if len(valid_ind) == 0:
+            return
         offset = 0
-        last_valid = 0
-        for i in range(1, len(amount)):
+        last_valid = first_valid = valid_ind[0]
+        for i in range(first_valid + 1, len(amount)):
             if amount[i] is ma.masked:
                 continue
             if amount[i] + offset < amount[last_valid]:
                 offset = amount[last_valid]
             amount[i] += offset
             last_valid = i
-        amount -= amount[0]
+        amount -= amount[first_valid]
         self.data[key].data = amount
-- 
2.43.0


From b9fbe99f5fb556a5a520893b2596fec76a951e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 29/59] fix: sort rain[e]H3 data before normalizing rainfall
 amount

---
 cloudnetpy/instruments/rain_e_h3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/rain_e_h3.py b/cloudnetpy/instruments/rain_e_h3.py
index a2339d4..e5f3284 100644
--- a/cloudnetpy/instruments/rain_e_h3.py
+++ b/cloudnetpy/instruments/rain_e_h3.py
@@ -43,10 +43,10 @@ def rain_e_h32nc(
     rain.add_data()
     rain.add_date()
     rain.convert_units()
-    rain.normalize_cumulative_amount("rainfall_amount")
     rain.add_site_geolocation()
     rain.sort_timestamps()
     rain.remove_duplicate_timestamps()
+    rain.normalize_cumulative_amount("rainfall_amount")
     attributes = output.add_time_attribute({}, rain.date)
     output.update_attributes(rain.data, attributes)
     output.save_level1b(rain, output_file, uuid)
-- 
2.43.0


From 1140094bb674d46efaba8842037330a4b24cba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:41 +0000
Subject: [PATCH 30/59] fix: handle profiles that are warm up to the top of the
 grid

The categorize file could not be created if some profile was above zero
degrees at every radar gate.
---
 cloudnetpy/categorize/droplet.py  | 5 ++++-
 cloudnetpy/categorize/freezing.py | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/categorize/droplet.py b/cloudnetpy/categorize/droplet.py
index d310967..e5ec20f 100644
--- a/cloudnetpy/categorize/droplet.py
+++ b/cloudnetpy/categorize/droplet.py
@@ -45,9 +45,12 @@ def correct_liquid_top(
 
 
 def _find_ind_above_top(is_freezing_from_peak: npt.NDArray, top_above: int) -> int:
+    uppermost = len(is_freezing_from_peak) - 1
+    if not np.any(is_freezing_from_peak):
+        return uppermost
     first_point_below_zero = np.where(is_freezing_from_peak)[0][0]
     ind = first_point_below_zero + top_above
-    return min(len(is_freezing_from_peak) - 1, ind)
+    return min(uppermost, ind)
 
 
 def find_liquid(
diff --git a/cloudnetpy/categorize/freezing.py b/cloudnetpy/categorize/freezing.py
index ed87d86..27c7c80 100644
--- a/cloudnetpy/categorize/freezing.py
+++ b/cloudnetpy/categorize/freezing.py
@@ -90,11 +90,16 @@ def find_t0_alt(temperature: npt.NDArray, height: npt.NDArray) -> npt.NDArray:
 
     Returns:
         1-D array denoting altitudes where the temperature drops below 0 deg C.
+        If the whole profile is warmer than that, one gate above the grid.
 
     """
     alt: npt.NDArray = np.array([])
     for prof in temperature:
-        ind = np.where(prof < T0)[0][0]
+        is_freezing = ma.filled(prof < T0, fill_value=False)
+        if not is_freezing.any():
+            alt = np.append(alt, 2 * height[-1] - height[-2])
+            continue
+        ind = np.argmax(is_freezing)
         if ind == 0:
             alt = np.append(alt, height[0])
         else:
-- 
2.43.0


From 5099cf0eb6b498993a1e18fc3e88771aba9834bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:41 +0000
Subject: [PATCH 31/59] fix: search melting layers up to the uppermost radar
 gate

The categorize file could not be created if the temperature range of the
melting layer reached the uppermost gate.
---
 cloudnetpy/categorize/melting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/categorize/melting.py b/cloudnetpy/categorize/melting.py
index 098723d..0d3cb0b 100644
--- a/cloudnetpy/categorize/melting.py
+++ b/cloudnetpy/categorize/melting.py
@@ -58,7 +58,8 @@ def find_melting_layer(obs: ClassData, *, smooth: bool = True) -> npt.NDArray:
     if hasattr(obs, "ldr"):
         # Required for peak detection
         diffu = ma.array(np.diff(obs.ldr, axis=1))
-        ldr_diff = diffu.filled(0)
+        # There is nothing above the uppermost gate
+        ldr_diff = np.pad(diffu.filled(0), ((0, 0), (0, 1)))
 
     t_range = _find_model_temperature_range(obs.model_type)
 
-- 
2.43.0


From 570440f1fa0886b04ac1d1f8a5ddf7579765cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:41 +0000
Subject: [PATCH 32/59] fix: raise timestamp error if lidar has no valid
 profiles in categorize

---
 cloudnetpy/categorize/lidar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/categorize/lidar.py b/cloudnetpy/categorize/lidar.py
index 4ad9066..b34150c 100644
--- a/cloudnetpy/categorize/lidar.py
+++ b/cloudnetpy/categorize/lidar.py
@@ -38,6 +38,9 @@ class Lidar(DataSource):
         # Interpolate beta to new grid but ignore profiles that are completely masked
         beta = self.data["beta"][:]
         indices = [ind for ind, b in enumerate(beta) if ma.all(b) is not ma.masked]
+        if not indices:
+            self.data["beta"].data = ma.masked_all((len(time_new), len(height_new)))
+            return list(range(len(time_new)))
         beta_interp = interpolate_2d_nearest(
             self.time[indices],
             self.height,
-- 
2.43.0


From 1c07fcf0ea0c6bc0f2656f6727f46d70f1f54a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:23 +0000
Subject: [PATCH 33/59] fix: do not turn missing values into zeros when
 rebinning

If all valid values of a time series were zero (or missing), time steps
without data were also set to zero.
---
 cloudnetpy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 669eb96..1b84167 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -184,10 +184,10 @@ def rebin_1d(
 
     """
     edges = binvec(x_new)
-    result = ma.zeros(len(x_new))
+    result = ma.masked_all(len(x_new))
     array_screened = ma.masked_invalid(array, copy=True)  # data may contain nan-values
     mask = ~array_screened.mask
-    if ma.any(array_screened[mask]):
+    if np.any(mask):
         result, _, _ = stats.binned_statistic(
             x_in[mask],
             array_screened[mask],
-- 
2.43.0


From 26953f38f3ea8c84bed867de0a302e21f0bc4059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:04 +0000
Subject: [PATCH 34/59] fix: interpolate model data over missing profiles in
 products

Missing model profiles, which the categorize file may contain, were
interpolated as if their fill values were data.
---
 cloudnetpy/products/product_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/products/product_tools.py b/cloudnetpy/products/product_tools.py
index 2d76ade..dbea8b6 100644
--- a/cloudnetpy/products/product_tools.py
+++ b/cloudnetpy/products/product_tools.py
@@ -313,11 +313,15 @@ def interpolate_model(
     """
 
     def _interp_field(var_name: str) -> npt.NDArray:
-        values = _read_nc_fields(
+        model_time, model_height, values, time, height = _read_nc_fields(
             cat_file,
             ["model_time", "model_height", var_name, "time", "height"],
         )
-        return utils.interpolate_2d(*values)
+        # Interpolate over model time steps without data
+        is_valid = ~ma.getmaskarray(values).all(axis=1)
+        return utils.interpolate_2d(
+            model_time[is_valid], model_height, values[is_valid], time, height
+        )
 
     names = [names] if isinstance(names, str) else names
     return {name: _interp_field(name) for name in names}
-- 
2.43.0


From 257b0929046ef72be8d1556655d1552f18277273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 35/59] fix: write output files completely or not at all

A run that failed while writing left an incomplete file in the place of the
output, also replacing a complete file from an earlier run. After a full disk,
the same process could not write that file any more.
---
 cloudnetpy/categorize/categorize.py         |  5 ++++-
 cloudnetpy/concat_lib.py                    | 13 ++++++++---
 cloudnetpy/model_evaluation/file_handler.py |  7 ++++--
 cloudnetpy/output.py                        | 10 +++++++--
 cloudnetpy/utils.py                         | 25 +++++++++++++++++++++
 5 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/cloudnetpy/categorize/categorize.py b/cloudnetpy/categorize/categorize.py
index 42cc394..35be210 100644
--- a/cloudnetpy/categorize/categorize.py
+++ b/cloudnetpy/categorize/categorize.py
@@ -237,7 +237,10 @@ def _save_cat(
     if "liquid_prob" in cloudnet_arrays:
         file_type += "-voodoo"
 
-    with output.init_file(full_path, dims, cloudnet_arrays, uuid) as nc:
+    with (
+        utils.replace_when_complete(full_path) as temp_file,
+        output.init_file(temp_file, dims, cloudnet_arrays, uuid) as nc,
+    ):
         nc.cloudnet_file_type = file_type
         output.copy_global(
             data_obs.radar.dataset,
diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 98f93b4..4918643 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -118,7 +118,10 @@ def concatenate_files(
         Groups, possibly present in a NETCDF4 formatted file, are ignored.
 
     """
-    with _Concat(filenames, output_file, concat_dimension, interp_dimension) as concat:
+    with (
+        utils.replace_when_complete(output_file) as temp_file,
+        _Concat(filenames, temp_file, concat_dimension, interp_dimension) as concat,
+    ):
         concat.create_global_attributes(new_attributes)
         return concat.concat_data(variables, ignore)
 
@@ -390,7 +393,10 @@ def _update_fields(
 
 def concatenate_text_files(filenames: list, output_filename: str | PathLike) -> None:
     """Concatenates text files."""
-    with open(output_filename, "wb") as target:
+    with (
+        utils.replace_when_complete(output_filename) as temp_file,
+        open(temp_file, "wb") as target,
+    ):
         for filename in filenames:
             with open(filename, "rb") as source:
                 shutil.copyfileobj(source, target)
@@ -428,7 +434,8 @@ def bundle_netcdf_files(
     """
     concat_dimension = _find_concat_dimension(files, concat_dimensions)
     if len(files) == 1:
-        shutil.copy(files[0], output_file)
+        with utils.replace_when_complete(output_file) as temp_file:
+            shutil.copy(files[0], temp_file)
         return list(files)
     valid_files = []
     for file in files:
diff --git a/cloudnetpy/model_evaluation/file_handler.py b/cloudnetpy/model_evaluation/file_handler.py
index e4e132a..908ff00 100644
--- a/cloudnetpy/model_evaluation/file_handler.py
+++ b/cloudnetpy/model_evaluation/file_handler.py
@@ -6,7 +6,7 @@ from uuid import UUID
 
 import netCDF4
 
-from cloudnetpy import output
+from cloudnetpy import output, utils
 from cloudnetpy.model_evaluation.model_metadata import MODEL_PREFIX, PRODUCT_NAMES
 
 from .metadata import (
@@ -78,7 +78,10 @@ def save_downsampled_file(
     n_levels = model_obj.data[model_obj.keys["height"]][:].shape[-1]
     dimensions = {"time": len(model_obj.time), "level": n_levels}
     location = site_name or model_obj.dataset.location
-    with output.init_file(file_name, dimensions, model_obj.data, uuid) as root_group:
+    with (
+        utils.replace_when_complete(file_name) as temp_file,
+        output.init_file(temp_file, dimensions, model_obj.data, uuid) as root_group,
+    ):
         _augment_global_attributes(root_group)
         root_group.cloudnet_file_type = "l3-" + product
         product_name = PRODUCT_NAMES.get(product, product)
diff --git a/cloudnetpy/output.py b/cloudnetpy/output.py
index 71669d6..2f23fab 100644
--- a/cloudnetpy/output.py
+++ b/cloudnetpy/output.py
@@ -24,7 +24,10 @@ def save_level1b(
 ) -> None:
     """Saves Cloudnet Level 1b file."""
     dimensions = _get_netcdf_dimensions(obj)
-    with init_file(output_file, dimensions, obj.data, uuid) as nc:
+    with (
+        utils.replace_when_complete(output_file) as temp_file,
+        init_file(temp_file, dimensions, obj.data, uuid) as nc,
+    ):
         fix_attribute_name(nc)
         location = obj.site_meta["name"]
         nc.cloudnet_file_type = obj.instrument.domain
@@ -96,7 +99,10 @@ def save_product_file(
         else len(obj.dataset.variables["height"])
     )
     dimensions = {"time": len(obj.time), "height": height_size}
-    with init_file(file_name, dimensions, obj.data, uuid) as nc:
+    with (
+        utils.replace_when_complete(file_name) as temp_file,
+        init_file(temp_file, dimensions, obj.data, uuid) as nc,
+    ):
         nc.cloudnet_file_type = short_id
         vars_from_source = (
             "altitude",
diff --git a/cloudnetpy/utils.py b/cloudnetpy/utils.py
index 1b84167..addd570 100644
--- a/cloudnetpy/utils.py
+++ b/cloudnetpy/utils.py
@@ -8,7 +8,9 @@ import textwrap
 import uuid
 import warnings
 from collections.abc import Callable, Iterator
+from contextlib import contextmanager
 from os import PathLike
+from pathlib import Path
 from typing import Literal, TypeVar
 
 import netCDF4
@@ -29,6 +31,29 @@ from cloudnetpy.constants import SEC_IN_DAY, SEC_IN_HOUR, SEC_IN_MINUTE, G
 from cloudnetpy.exceptions import ValidTimeStampError
 
 
+@contextmanager
+def replace_when_complete(file_name: str | PathLike) -> Iterator[str]:
+    """Writes a file completely or not at all.
+
+    Args:
+        file_name: Name of the file to be written.
+
+    Yields:
+        Name of a temporary file, in the same folder, to write to. It replaces
+        the actual file when the context exits. If there is an exception, the
+        temporary file is removed and the actual file is left as it was.
+
+    """
+    path = Path(file_name).resolve()
+    temp_path = path.with_name(f".{uuid.uuid4().hex}.tmp")
+    try:
+        yield str(temp_path)
+        temp_path.replace(path)
+    except BaseException:
+        temp_path.unlink(missing_ok=True)
+        raise
+
+
 def seconds2hours(time_in_seconds: npt.NDArray) -> npt.NDArray:
     """Converts seconds since some epoch to fraction hour.
 
-- 
2.43.0


From c72b1a57a967057f82af8456c0e630d99edd7599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:30 +0000
Subject: [PATCH 36/59] fix: leave no file behind from a failed microwave
 radiometer or epsilon product

The files were modified in place after they had been written, so an error, such
as all data being flagged, left an unfinished file behind.
---
 cloudnetpy/concat_lib.py             |  4 +++-
 cloudnetpy/instruments/hatpro.py     | 23 +++++++++---------
 cloudnetpy/products/epsilon_lidar.py | 16 ++++++++++---
 cloudnetpy/products/mwr_tools.py     | 35 +++++++++++++++-------------
 4 files changed, 47 insertions(+), 31 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 4918643..5969b71 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -353,7 +353,9 @@ def _find_valid_time_indices(
     nc_new: netCDF4.Dataset,
 ) -> npt.NDArray:
     time_old, time_new = nc_old.variables["time"], nc_new.variables["time"]
-    return np.where(time_new[:] + _get_time_offset(time_new, time_old) > time_old[-1])[0]
+    return np.where(time_new[:] + _get_time_offset(time_new, time_old) > time_old[-1])[
+        0
+    ]
 
 
 def _update_fields(
diff --git a/cloudnetpy/instruments/hatpro.py b/cloudnetpy/instruments/hatpro.py
index d958423..a6e0087 100644
--- a/cloudnetpy/instruments/hatpro.py
+++ b/cloudnetpy/instruments/hatpro.py
@@ -129,17 +129,18 @@ def hatpro2l1c(
     attrs_copy = ATTRIBUTES_1B01.copy()
     attributes = output.add_time_attribute(attrs_copy, hatpro.date)
     output.update_attributes(hatpro.data, attributes)
-    output.save_level1b(hatpro, output_file, uuid)
-    with netCDF4.Dataset(output_file, "a") as nc:
-        nc.cloudnet_file_type = "mwr-l1c"
-        nc.title = nc.title.replace("radiometer", "radiometer Level 1c")
-        nc.mwrpy_version = mwrpy_version
-        nc.mwrpy_coefficients = ", ".join(site_meta["coefficientLinks"])
-        nc.history = nc.history.replace("mwr", "mwr-l1c")
-        if lidar_file is not None:
-            with netCDF4.Dataset(lidar_file) as lidar_nc:
-                nc.source = f"{nc.source}\n{lidar_nc.source}"
-                nc.history = f"{nc.history}\n{lidar_nc.history}"
+    with utils.replace_when_complete(output_file) as temp_file:
+        output.save_level1b(hatpro, temp_file, uuid)
+        with netCDF4.Dataset(temp_file, "a") as nc:
+            nc.cloudnet_file_type = "mwr-l1c"
+            nc.title = nc.title.replace("radiometer", "radiometer Level 1c")
+            nc.mwrpy_version = mwrpy_version
+            nc.mwrpy_coefficients = ", ".join(site_meta["coefficientLinks"])
+            nc.history = nc.history.replace("mwr", "mwr-l1c")
+            if lidar_file is not None:
+                with netCDF4.Dataset(lidar_file) as lidar_nc:
+                    nc.source = f"{nc.source}\n{lidar_nc.source}"
+                    nc.history = f"{nc.history}\n{lidar_nc.history}"
     return uuid
 
 
diff --git a/cloudnetpy/products/epsilon_lidar.py b/cloudnetpy/products/epsilon_lidar.py
index b4c28f4..3c29830 100644
--- a/cloudnetpy/products/epsilon_lidar.py
+++ b/cloudnetpy/products/epsilon_lidar.py
@@ -14,7 +14,7 @@ from scipy.interpolate import LinearNDInterpolator, NearestNDInterpolator
 import cloudnetpy
 from cloudnetpy import output
 from cloudnetpy.exceptions import ValidTimeStampError
-from cloudnetpy.utils import get_time, get_uuid
+from cloudnetpy.utils import get_time, get_uuid, replace_when_complete
 
 
 def generate_epsilon_from_lidar(
@@ -23,8 +23,19 @@ def generate_epsilon_from_lidar(
     output_file: str | PathLike,
     uuid: str | UUID | None = None,
 ) -> UUID:
-    sliding_window_in_seconds = 3 * 60
     uuid = get_uuid(uuid)
+    with replace_when_complete(output_file) as temp_file:
+        _generate_file(doppler_lidar_file, doppler_lidar_wind_file, temp_file, uuid)
+    return uuid
+
+
+def _generate_file(
+    doppler_lidar_file: str | PathLike,
+    doppler_lidar_wind_file: str | PathLike,
+    output_file: str | PathLike,
+    uuid: UUID,
+) -> None:
+    sliding_window_in_seconds = 3 * 60
     opts = _get_options(doppler_lidar_file)
     opts.period = sliding_window_in_seconds
     vert = _vertical_wind_from_doppler_lidar_file(doppler_lidar_file)
@@ -112,7 +123,6 @@ def generate_epsilon_from_lidar(
         )
         nc_out.history = history
         nc_out.references = "https://doi.org/10.1175/2010JTECHA1455.1"
-    return uuid
 
 
 def copy_attributes_from_src(src: str | PathLike, trg: str | PathLike) -> None:
diff --git a/cloudnetpy/products/mwr_tools.py b/cloudnetpy/products/mwr_tools.py
index a772160..04bc387 100644
--- a/cloudnetpy/products/mwr_tools.py
+++ b/cloudnetpy/products/mwr_tools.py
@@ -93,30 +93,33 @@ def _generate_product(
     lwp_offset: tuple[float | None, float | None] = (None, None),
 ) -> UUID:
     uuid = utils.get_uuid(uuid)
-    with tempfile.TemporaryDirectory() as temp_dir:
+    with (
+        utils.replace_when_complete(output_file) as temp_file,
+        tempfile.TemporaryDirectory() as temp_dir,
+    ):
         coeffs = _read_mwrpy_coeffs(mwr_l1c_file, temp_dir)
         try:
             if product == "multi":
-                gen_multi(None, mwr_l1c_file, output_file, coeffs)
+                gen_multi(None, mwr_l1c_file, temp_file, coeffs)
             elif product == "single":
-                gen_single(None, mwr_l1c_file, output_file, lwp_offset, coeffs)
+                gen_single(None, mwr_l1c_file, temp_file, lwp_offset, coeffs)
             else:
-                gen_lhumpro(None, mwr_l1c_file, output_file, lwp_offset, coeffs)
+                gen_lhumpro(None, mwr_l1c_file, temp_file, lwp_offset, coeffs)
                 product = "single"
         except MissingInputData as err:
             raise ValidTimeStampError from err
-    with (
-        netCDF4.Dataset(mwr_l1c_file, "r") as nc_input,
-        netCDF4.Dataset(output_file, "r+") as nc_output,
-    ):
-        flag_variable = "lwp" if product == "single" else "temperature"
-        flag_name = f"{flag_variable}_quality_flag"
-        flags = nc_output.variables[flag_name][:]
-        if not np.any(flags == 0):
-            msg = f"All {flag_variable} data are flagged."
-            raise ValidTimeStampError(msg)
-        mwr = Mwr(nc_input, nc_output, uuid)
-        return mwr.harmonize(product)
+        with (
+            netCDF4.Dataset(mwr_l1c_file, "r") as nc_input,
+            netCDF4.Dataset(temp_file, "r+") as nc_output,
+        ):
+            flag_variable = "lwp" if product == "single" else "temperature"
+            flag_name = f"{flag_variable}_quality_flag"
+            flags = nc_output.variables[flag_name][:]
+            if not np.any(flags == 0):
+                msg = f"All {flag_variable} data are flagged."
+                raise ValidTimeStampError(msg)
+            mwr = Mwr(nc_input, nc_output, uuid)
+            return mwr.harmonize(product)
 
 
 class Mwr:
-- 
2.43.0


From e8a2eabd2a79da3b1eccc6dec60547fcf4e81f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 37/59] fix: process Copernicus and Galileo radar data in CLI

---
 cloudnetpy/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index db40214..f176b52 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -309,8 +309,10 @@ def _process_instrument_product(
             input_files = input_files[0]
         case ("radar", _id) if "copernicus" in _id:
             fun = instruments.copernicus2nc
+            input_files = input_folder
         case ("radar", _id) if "galileo" in _id:
             fun = instruments.galileo2nc
+            input_files = input_folder
         case ("disdrometer", _id) if "parsivel" in _id:
             fun = instruments.parsivel2nc
         case ("disdrometer", _id) if "thies" in _id:
-- 
2.43.0


From d85fc0ac17f3c0969ea2c607413b577fe39593ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 38/59] fix: keep output folder when its name contains
 categorize in CLI

---
 cloudnetpy/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index f176b52..174f246 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -720,7 +720,8 @@ def _plot_l3(
 
 
 def _process_cat_product(product: str, categorize_file: str) -> str:
-    output_file = categorize_file.replace("categorize", product)
+    path = Path(categorize_file)
+    output_file = str(path.with_name(path.name.replace("categorize", product)))
     module = importlib.import_module("cloudnetpy.products")
     getattr(module, f"generate_{product}")(categorize_file, output_file)
     logging.info("Processed %s: %s", product, output_file)
-- 
2.43.0


From 1d3a75b26a86fbdfcde86c5d4602a7028a4d848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 39/59] fix: use locally processed mwr file in categorize in
 CLI

---
 cloudnetpy/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 174f246..b455a5d 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -234,9 +234,10 @@ def _process_categorize(
 
     # MWR runs after other downloads because its fallback chain may
     # try to download the same radar file fetched above.
-    mwr_key, mwr_path = fetch_mwr()
-    if mwr_path:
-        input_files[mwr_key] = mwr_path
+    if "mwr" not in input_files:
+        mwr_key, mwr_path = fetch_mwr()
+        if mwr_path:
+            input_files[mwr_key] = mwr_path
 
     if "model" not in input_files:
         logging.info("No model data available for this date.")
-- 
2.43.0


From d8982971a49072b431e41803a6669e66d18c71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 40/59] fix: do not process any product with --dl in CLI

---
 cloudnetpy/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index b455a5d..29d9065 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -70,6 +70,9 @@ def run(args: argparse.Namespace, tmpdir: str, client: APIClient) -> None:
             _plot(output_filepath, product, args)
             cat_files[product] = output_filepath
 
+    if args.dl:
+        return
+
     prod_sources = _get_product_sources(args.products, client)
 
     # Categorize based products
-- 
2.43.0


From 2a919b95682b39f4ee8c0c809e4f4083c758cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 41/59] fix: keep existing files until forced download succeeds
 in CLI

---
 cloudnetpy/cli.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 29d9065..20d9a69 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -627,14 +627,21 @@ def _fetch_raw(
     instrument = f"{metadata[0].instrument.instrument_id}_{pid}"
     folder = _create_input_folder(instrument, args)
     if args.force_download:
-        for meta in metadata:
-            filepath = folder / meta.download_url.split("/")[-1]
-            if filepath.exists():
-                logging.info("Removing existing file: %s", filepath)
-                filepath.unlink()
+        return _download_anew(metadata, folder, client)
     return client.download(metadata, output_directory=folder)
 
 
+def _download_anew(
+    metadata: list[RawMetadata] | list[ProductMetadata],
+    folder: Path,
+    client: APIClient,
+) -> list[Path]:
+    """Downloads files and replaces existing ones only when download succeeds."""
+    with TemporaryDirectory(dir=folder.parent) as tmpdir:
+        files = client.download(metadata, output_directory=tmpdir)
+        return [file.replace(folder / file.name) for file in files]
+
+
 def _download_product_file(
     meta: list[ProductMetadata],
     folder: Path,
@@ -649,10 +656,9 @@ def _download_product_file(
     if filepath.exists() and not force:
         logging.info("Existing file found: %s", filepath)
         return str(filepath)
-    if filepath.exists():
-        logging.info("Removing existing file: %s", filepath)
-        filepath.unlink()
     logging.info("Downloading file: %s", filepath)
+    if filepath.exists():
+        return str(_download_anew(meta, folder, client)[0])
     return str(client.download(meta, output_directory=folder)[0])
 
 
-- 
2.43.0


From 24ca95c8ecf550192ec56589313a260b392783b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 42/59] fix: ignore raw files from earlier runs in CLI

---
 cloudnetpy/cli.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/cli.py b/cloudnetpy/cli.py
index 20d9a69..6ad2ab3 100644
--- a/cloudnetpy/cli.py
+++ b/cloudnetpy/cli.py
@@ -11,7 +11,7 @@ import re
 import shutil
 from os import PathLike
 from pathlib import Path
-from tempfile import TemporaryDirectory
+from tempfile import TemporaryDirectory, mkdtemp
 from typing import TYPE_CHECKING, Final, Literal, cast
 
 import requests
@@ -295,7 +295,7 @@ def _process_instrument_product(
     input_files = [_unzip_gz_file(f) for f in input_files]
     if args.dl:
         return None
-    input_folder = input_files[0].parent
+    input_folder = _create_file_selection(input_files, tmpdir)
     calibration = _get_calibration(instrument, args, client)
     fun: Callable
     match (product, instrument.instrument_id):
@@ -363,6 +363,17 @@ def _process_instrument_product(
     return output_filepath
 
 
+def _create_file_selection(input_files: list[Path], tmpdir: str) -> Path:
+    """Creates folder with the input files, and not other files downloaded earlier."""
+    folder = Path(mkdtemp(dir=tmpdir))
+    for file in input_files:
+        try:
+            (folder / file.name).symlink_to(file.resolve())
+        except OSError:
+            shutil.copy(file, folder)
+    return folder
+
+
 def _concatenate_(input_files: list[Path], tmpdir: str) -> Path:
     if len(input_files) > 1:
         concat_file = Path(tmpdir) / "tmp.nc"
-- 
2.43.0


From e37187503433212fb2df8b14185dcf33e0cd3550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 43/59] fix: compare appended profiles with the newest one in
 update_nc

---
 cloudnetpy/concat_lib.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 5969b71..6819e9d 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -353,9 +353,8 @@ def _find_valid_time_indices(
     nc_new: netCDF4.Dataset,
 ) -> npt.NDArray:
     time_old, time_new = nc_old.variables["time"], nc_new.variables["time"]
-    return np.where(time_new[:] + _get_time_offset(time_new, time_old) > time_old[-1])[
-        0
-    ]
+    newest = np.max(time_old[:])
+    return np.where(time_new[:] + _get_time_offset(time_new, time_old) > newest)[0]
 
 
 def _update_fields(
-- 
2.43.0


From b82e0145638321cc95a246ada3f569afb8c0baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:49 +0000
Subject: [PATCH 44/59] fix: skip netCDF files of foreign content when
 combining raw files

---
 cloudnetpy/concat_lib.py          | 5 ++---
 cloudnetpy/instruments/pollyxt.py | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/concat_lib.py b/cloudnetpy/concat_lib.py
index 6819e9d..2512b57 100644
--- a/cloudnetpy/concat_lib.py
+++ b/cloudnetpy/concat_lib.py
@@ -160,7 +160,7 @@ class _Concat:
                 )
         except (FileNotFoundError, PermissionError):
             raise
-        except OSError:
+        except (OSError, IndexError):
             logging.warning("Skipping invalid file: %s", filename)
             return False
 
@@ -418,7 +418,6 @@ def _find_concat_dimension(
             if ind < len(files) - 1:
                 continue
             raise
-        break
     msg = f"Dimension '{concat_dimensions}' not found in the files."
     raise KeyError(msg)
 
@@ -445,7 +444,7 @@ def bundle_netcdf_files(
                 time = nc.variables["time"]
                 time_array = time[:]
                 time_units = time.units
-        except (OSError, RuntimeError):
+        except (OSError, RuntimeError, KeyError):
             logging.warning("Skipping invalid file: %s", file)
             continue
         epoch = utils.get_epoch(time_units)
diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index 31b9601..6dad625 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -224,7 +224,7 @@ def _fetch_files_with_same_range(
                 return np.sum(np.round(nc.variables["height"][:]))
         except (FileNotFoundError, PermissionError):
             raise
-        except OSError:
+        except (OSError, KeyError):
             logging.warning("Skipping invalid file: %s", file)
             return ma.masked
 
-- 
2.43.0


From e9b6e128c7ec838b21f82ad91c2c996fd8b5ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 45/59] fix: keep size and velocity classes when screening
 disdrometer timestamps

---
 cloudnetpy/instruments/cloudnet_instrument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cloudnetpy/instruments/cloudnet_instrument.py b/cloudnetpy/instruments/cloudnet_instrument.py
index 7922b5a..8fb81d3 100644
--- a/cloudnetpy/instruments/cloudnet_instrument.py
+++ b/cloudnetpy/instruments/cloudnet_instrument.py
@@ -70,6 +70,8 @@ class CloudnetInstrument:
         for key, cloudnet_array in self.data.items():
             if key in ("range", "height"):
                 continue
+            if cloudnet_array.dimensions and "time" not in cloudnet_array.dimensions:
+                continue
             array = cloudnet_array.data
             if not utils.isscalar(array) and array.shape[0] == n_time:
                 match array.ndim:
-- 
2.43.0


From b74abb95a7348f2e17524f21eed87208ce0d708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 46/59] fix: reject Parsivel telegrams with a malformed
 timestamp

---
 cloudnetpy/instruments/disdrometer/parsivel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cloudnetpy/instruments/disdrometer/parsivel.py b/cloudnetpy/instruments/disdrometer/parsivel.py
index 5dcd6a3..ab9b816 100644
--- a/cloudnetpy/instruments/disdrometer/parsivel.py
+++ b/cloudnetpy/instruments/disdrometer/parsivel.py
@@ -346,6 +346,9 @@ def _parse_time(tokens: Iterator[str]) -> datetime.time:
 
 def _parse_datetime(tokens: Iterator[str]) -> datetime.datetime:
     token = next(tokens)
+    if len(token) != 14:
+        msg = f"Unsupported datetime: '{token}'"
+        raise ValueError(msg)
     year = int(token[:4])
     month = int(token[4:6])
     day = int(token[6:8])
-- 
2.43.0


From fbfc6c2026f30e29941a758354668b2575cc023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 47/59] fix: leave cloud fraction missing in model cells
 without observations

---
 cloudnetpy/model_evaluation/products/grid_methods.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cloudnetpy/model_evaluation/products/grid_methods.py b/cloudnetpy/model_evaluation/products/grid_methods.py
index 364209d..ac04897 100644
--- a/cloudnetpy/model_evaluation/products/grid_methods.py
+++ b/cloudnetpy/model_evaluation/products/grid_methods.py
@@ -91,12 +91,12 @@ class ProductGrid:
 
     def _cf_method_storage(self) -> tuple[dict, dict]:
         cf_dict = {
-            "cf_V": ma.zeros(self._model_height.shape),
-            "cf_A": ma.zeros(self._model_height.shape),
+            "cf_V": ma.masked_all(self._model_height.shape),
+            "cf_A": ma.masked_all(self._model_height.shape),
         }
         cf_adv_dict = {
-            "cf_V_adv": ma.zeros(self._model_height.shape),
-            "cf_A_adv": ma.zeros(self._model_height.shape),
+            "cf_V_adv": ma.masked_all(self._model_height.shape),
+            "cf_A_adv": ma.masked_all(self._model_height.shape),
         }
         return cf_dict, cf_adv_dict
 
-- 
2.43.0


From 285a77f250aabb6527cfd3a6621af9cb1e7add3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 48/59] fix: write time-dependent model resolution and location
 to L3 files

---
 cloudnetpy/model_evaluation/file_handler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cloudnetpy/model_evaluation/file_handler.py b/cloudnetpy/model_evaluation/file_handler.py
index 908ff00..5f60c22 100644
--- a/cloudnetpy/model_evaluation/file_handler.py
+++ b/cloudnetpy/model_evaluation/file_handler.py
@@ -5,6 +5,7 @@ from typing import TYPE_CHECKING
 from uuid import UUID
 
 import netCDF4
+import numpy as np
 
 from cloudnetpy import output, utils
 from cloudnetpy.model_evaluation.model_metadata import MODEL_PREFIX, PRODUCT_NAMES
@@ -46,6 +47,9 @@ def update_attributes(model_downsample_variables: dict, attributes: dict) -> Non
                 variable.set_attributes(CYCLE_ATTRIBUTES[base])
         elif key in REGRID_PRODUCT_ATTRIBUTES:
             variable.set_attributes(REGRID_PRODUCT_ATTRIBUTES[key])
+        if variable.dimensions is None and np.ndim(variable.data) == 1:
+            # Some models give location and resolution for each time step.
+            variable.dimensions = ("time",)
 
 
 def save_downsampled_file(
-- 
2.43.0


From f572380f1593748c168ee68bbb84df45d2a8e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 49/59] fix: pair L3 model steps with their own observations
 when steps are missing

---
 cloudnetpy/model_evaluation/products/grid_methods.py | 3 +--
 cloudnetpy/model_evaluation/products/tools.py        | 8 ++++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/model_evaluation/products/grid_methods.py b/cloudnetpy/model_evaluation/products/grid_methods.py
index ac04897..b30ce8f 100644
--- a/cloudnetpy/model_evaluation/products/grid_methods.py
+++ b/cloudnetpy/model_evaluation/products/grid_methods.py
@@ -2,7 +2,6 @@ import numpy as np
 import numpy.typing as npt
 from numpy import ma
 
-from cloudnetpy import utils
 from cloudnetpy.model_evaluation.products import tools as tl
 from cloudnetpy.model_evaluation.products.model_products import ModelManager
 from cloudnetpy.model_evaluation.products.observation_products import ObservationManager
@@ -34,7 +33,7 @@ class ProductGrid:
             ma.array(model_obj.wind),
             1,
         )
-        time_steps = utils.binvec(self._model_time)
+        time_steps = tl.time_edges(self._model_time)
         self._time_steps = tl.time2datetime(time_steps, self._date)
         self._generate_downsample_product()
 
diff --git a/cloudnetpy/model_evaluation/products/tools.py b/cloudnetpy/model_evaluation/products/tools.py
index 2aab2dc..ce45898 100644
--- a/cloudnetpy/model_evaluation/products/tools.py
+++ b/cloudnetpy/model_evaluation/products/tools.py
@@ -5,6 +5,7 @@ import numpy as np
 import numpy.typing as npt
 from numpy import ma
 
+from cloudnetpy import utils
 from cloudnetpy.model_evaluation.products.model_products import ModelManager
 from cloudnetpy.model_evaluation.products.observation_products import ObservationManager
 
@@ -13,6 +14,13 @@ def time2datetime(time: npt.NDArray, date: datetime.datetime) -> npt.NDArray:
     return np.asarray([date + timedelta(hours=float(t)) for t in time])
 
 
+def time_edges(time: npt.NDArray) -> npt.NDArray:
+    """Returns edges half-way between time steps, which may be unevenly spaced."""
+    edges = utils.binvec(time)
+    edges[1:-1] = (time[:-1] + time[1:]) / 2
+    return edges
+
+
 def rebin_edges(arr: npt.NDArray) -> npt.NDArray:
     """Rebins array bins by half and adds boundaries."""
     new_arr = [(arr[i] + arr[i + 1]) / 2 for i in range(len(arr) - 1)]
-- 
2.43.0


From 1023ab3e479ae32c65493c721896cde002e6742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 50/59] fix: compare L3 model levels with observations at the
 same altitude

---
 cloudnetpy/model_evaluation/products/advance_methods.py | 5 ++++-
 cloudnetpy/model_evaluation/products/grid_methods.py    | 2 +-
 cloudnetpy/model_evaluation/products/tools.py           | 9 +++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/model_evaluation/products/advance_methods.py b/cloudnetpy/model_evaluation/products/advance_methods.py
index 906a1cc..71a3f58 100644
--- a/cloudnetpy/model_evaluation/products/advance_methods.py
+++ b/cloudnetpy/model_evaluation/products/advance_methods.py
@@ -6,6 +6,7 @@ from numpy import ma
 
 import cloudnetpy.utils as cl_tools
 from cloudnetpy.model_evaluation.model_metadata import MODEL_PREFIX
+from cloudnetpy.model_evaluation.products import tools as tl
 from cloudnetpy.model_evaluation.products.model_products import ModelManager
 from cloudnetpy.model_evaluation.products.observation_products import ObservationManager
 from cloudnetpy.products.product_tools import (
@@ -52,7 +53,9 @@ class AdvanceProductMethods:
         t_screened = self.remove_extra_levels(temperature - 273.15)
         iwc, lwc = (self._model_obj.get_water_content(var) for var in ["iwc", "lwc"])
         coeffs = self.set_frequency_parameters()
-        z_sen = self.fit_z_sensitivity(h)
+        z_sen = self.fit_z_sensitivity(
+            tl.model_height_amsl(self._model_obj, self._obs_obj)
+        )
         cf_filtered = self.filter_high_iwc_low_cf(cf, iwc, lwc)
         cloud_iwc, ice_ind = self.find_ice_in_clouds(cf_filtered, iwc, lwc)
         variance_iwc = self.iwc_variance(h, ice_ind)
diff --git a/cloudnetpy/model_evaluation/products/grid_methods.py b/cloudnetpy/model_evaluation/products/grid_methods.py
index b30ce8f..103c415 100644
--- a/cloudnetpy/model_evaluation/products/grid_methods.py
+++ b/cloudnetpy/model_evaluation/products/grid_methods.py
@@ -27,7 +27,7 @@ class ProductGrid:
         self._obs_data = obs_obj.data[obs_obj.product][:]
         self.model_obj = model_obj
         self._model_time = model_obj.time
-        self._model_height = model_obj.data[model_obj.keys["height"]][:]
+        self._model_height = tl.model_height_amsl(model_obj, obs_obj)
         self._time_adv = tl.calculate_advection_time(
             model_obj.resolution_h,
             ma.array(model_obj.wind),
diff --git a/cloudnetpy/model_evaluation/products/tools.py b/cloudnetpy/model_evaluation/products/tools.py
index ce45898..3c22a36 100644
--- a/cloudnetpy/model_evaluation/products/tools.py
+++ b/cloudnetpy/model_evaluation/products/tools.py
@@ -29,6 +29,15 @@ def rebin_edges(arr: npt.NDArray) -> npt.NDArray:
     return np.array(new_arr)
 
 
+def model_height_amsl(
+    model_obj: ModelManager, obs_obj: ObservationManager
+) -> npt.NDArray:
+    """Returns model height above mean sea level, as in the observations."""
+    height = model_obj.data[model_obj.keys["height"]][:]
+    alt_site = obs_obj.altitude if obs_obj.altitude is not None else 0
+    return height + utils.get_model_surface_altitude(model_obj.dataset, alt_site)
+
+
 def calculate_advection_time(
     resolution: float,
     wind: ma.MaskedArray,
-- 
2.43.0


From d3ac7b90379ab3ff519d6ad6ad360b1bac54b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 51/59] fix: keep the history of the observations in L3 files

---
 cloudnetpy/model_evaluation/file_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/model_evaluation/file_handler.py b/cloudnetpy/model_evaluation/file_handler.py
index 5f60c22..8210f6a 100644
--- a/cloudnetpy/model_evaluation/file_handler.py
+++ b/cloudnetpy/model_evaluation/file_handler.py
@@ -97,7 +97,9 @@ def save_downsampled_file(
         root_group.location = location
         if not hasattr(model_obj.dataset, "day"):
             root_group.year, root_group.month, root_group.day = model_obj.date
-        output.merge_history(root_group, f"L3 {product_name}", model_obj)
+        output.merge_history(
+            root_group, f"L3 {product_name}", obs_obj, extra_sources=(model_obj,)
+        )
 
 
 def _augment_global_attributes(root_group: netCDF4.Dataset) -> None:
-- 
2.43.0


From 3ceae6caf637c94d241a1b539154092884205a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 52/59] fix: ignore missing model winds in the radar epsilon
 product

---
 cloudnetpy/products/epsilon_radar.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/products/epsilon_radar.py b/cloudnetpy/products/epsilon_radar.py
index f593cd6..2faa156 100644
--- a/cloudnetpy/products/epsilon_radar.py
+++ b/cloudnetpy/products/epsilon_radar.py
@@ -14,6 +14,7 @@ from scipy.interpolate import CubicSpline, RectBivariateSpline
 
 from cloudnetpy import output, utils
 from cloudnetpy.datasource import DataSource
+from cloudnetpy.exceptions import ModelDataError
 from cloudnetpy.metadata import COMMON_ATTRIBUTES, MetaData
 from cloudnetpy.utils import get_uuid
 
@@ -95,12 +96,20 @@ def _get_wind_interpolator(
     vwind = model.getvar("vwind")
     surface_altitude = utils.get_model_surface_altitude(model.dataset, alt_site)
     heights = model.to_m(model.dataset.variables["height"]) + surface_altitude
-    wind_speed = np.hypot(np.asarray(uwind), np.asarray(vwind))
+    wind_speed = ma.filled(ma.hypot(uwind, vwind).astype(float), np.nan)
     mean_height = np.asarray(ma.mean(heights, axis=0))
-    common = np.empty((wind_speed.shape[0], mean_height.size))
-    for i in range(wind_speed.shape[0]):
-        common[i] = np.interp(mean_height, np.asarray(heights[i]), wind_speed[i])
-    return RectBivariateSpline(model.time, mean_height, common, kx=1, ky=1)
+    heights = ma.filled(ma.array(heights, dtype=float), np.nan)
+    valid = np.isfinite(wind_speed) & np.isfinite(heights)
+    profiles = np.flatnonzero(valid.sum(axis=1) > 1)
+    if profiles.size < 2:
+        raise ModelDataError
+    common = np.empty((profiles.size, mean_height.size))
+    for i, profile in enumerate(profiles):
+        ind = valid[profile]
+        common[i] = np.interp(
+            mean_height, heights[profile, ind], wind_speed[profile, ind]
+        )
+    return RectBivariateSpline(model.time[profiles], mean_height, common, kx=1, ky=1)
 
 
 class EpsilonRadarSource(DataSource):
-- 
2.43.0


From 915bd4ebabe404c15a4e8fa22d605c6a03f45742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 53/59] fix: require five minutes of data in the radar epsilon
 product

---
 cloudnetpy/products/epsilon_radar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/products/epsilon_radar.py b/cloudnetpy/products/epsilon_radar.py
index 2faa156..6163281 100644
--- a/cloudnetpy/products/epsilon_radar.py
+++ b/cloudnetpy/products/epsilon_radar.py
@@ -126,7 +126,11 @@ class EpsilonRadarSource(DataSource):
         radar_time = np.asarray(self.getvar("time"))
         self._radar_time = radar_time
         height = self.height
-        radar_dt_sec = float(np.round(np.median(np.diff(radar_time)) * 3600.0))
+        radar_dt = np.median(np.diff(radar_time))
+        radar_dt_sec = float(np.round(radar_dt * 3600.0))
+        # Missing profiles are missing data, too
+        n_window = AVERAGING_TIME_HR / radar_dt
+        min_valid = max(2, np.floor(MIN_VALID_FRACTION * n_window))
 
         v = self.getvar("v")
         if isinstance(v, ma.MaskedArray):
@@ -153,7 +157,6 @@ class EpsilonRadarSource(DataSource):
         for time_idx in range(n_time):
             after, stop = int(starts[time_idx]), int(stops[time_idx])
             time_window = radar_time[after:stop]
-            min_valid = max(2, int(MIN_VALID_FRACTION * time_window.size))
 
             for height_idx in range(n_height):
                 vel = v[after:stop, height_idx]
-- 
2.43.0


From ebaf7c3bc446131ac8e087c51f968d6b9e1f3304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 54/59] fix: accept Doppler lidar files without missing values
 in the epsilon product

---
 cloudnetpy/products/epsilon_lidar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cloudnetpy/products/epsilon_lidar.py b/cloudnetpy/products/epsilon_lidar.py
index 3c29830..2a4d916 100644
--- a/cloudnetpy/products/epsilon_lidar.py
+++ b/cloudnetpy/products/epsilon_lidar.py
@@ -9,6 +9,7 @@ import numpy as np
 import numpy.typing as npt
 import scipy.constants
 from doppy.product.turbulence import HorizontalWind, Options, Turbulence, VerticalWind
+from numpy import ma
 from scipy.interpolate import LinearNDInterpolator, NearestNDInterpolator
 
 import cloudnetpy
@@ -139,8 +140,8 @@ def _horizontal_wind_from_doppler_lidar_file(
         height = np.array(nc["height"][:].data, dtype=np.float64)
         uwind = np.array(nc["uwind"][:].data, dtype=np.float64)
         vwind = np.array(nc["vwind"][:].data, dtype=np.float64)
-        umask = np.array(nc["uwind"][:].mask, dtype=np.bool_)
-        vmask = np.array(nc["vwind"][:].mask, dtype=np.bool_)
+        umask = ma.getmaskarray(nc["uwind"][:])
+        vmask = ma.getmaskarray(nc["vwind"][:])
         V = np.sqrt(uwind**2 + vwind**2)
         mask = umask | vmask
         if np.all(mask):
@@ -201,9 +202,8 @@ def _vertical_wind_from_doppler_lidar_file(
         time = _datetime64_from_nc_var(nc["time"])
         height = np.array(nc["height"][:].data, dtype=np.float64)
         w = np.array(nc["v"][:].data, dtype=np.float64)
-        mask = np.array(nc["v"][:].mask, dtype=np.bool_)
-    if isinstance(mask, np.ndarray) and mask.any():
-        w[mask] = np.nan
+        mask = ma.getmaskarray(nc["v"][:])
+    w[mask] = np.nan
 
     return VerticalWind(time=time, height=height, w=w, mask=mask)
 
-- 
2.43.0


From 8b8e329a2690dba1d8d53f22bf3cdc35f1e89603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 55/59] fix: write the sources of the lidar epsilon product in
 a fixed order

---
 cloudnetpy/products/epsilon_lidar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/epsilon_lidar.py b/cloudnetpy/products/epsilon_lidar.py
index 2a4d916..0cf6d09 100644
--- a/cloudnetpy/products/epsilon_lidar.py
+++ b/cloudnetpy/products/epsilon_lidar.py
@@ -111,7 +111,7 @@ def _generate_file(
             nc_src_stare, nc_out, ("latitude", "longitude", "altitude", "source")
         )
         nc_out.source_file_uuids = f"{nc_src_stare.file_uuid}, {nc_src_wind.file_uuid}"
-        sources = {nc_src_stare.source, nc_src_wind.source}
+        sources = dict.fromkeys((nc_src_stare.source, nc_src_wind.source))
         nc_out.source = ", ".join(sources)
         history = (
             f"{get_time()} - epsilon-lidar file created using doppy "
-- 
2.43.0


From 7bbe6994e3a81deca597dbc12b8261eec82d09e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 56/59] fix: do not read undefined cloud top heights in the
 classification product

---
 cloudnetpy/products/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cloudnetpy/products/classification.py b/cloudnetpy/products/classification.py
index 0b31cae..b5126ab 100644
--- a/cloudnetpy/products/classification.py
+++ b/cloudnetpy/products/classification.py
@@ -154,7 +154,7 @@ def _get_cloud_top_height_status(
     status[att_at_top == AttStatus.MODERATE] = TopStatus.MODERATE_ATT
     status[att_at_top == AttStatus.SEVERE] = TopStatus.SEVERE_ATT
     status[att_at_top == AttStatus.UNCORRECTED] = TopStatus.UNCORR_ATT
-    status[tops >= height[-1]] = TopStatus.ABOVE_RANGE
+    status[ma.filled(tops >= height[-1], fill_value=False)] = TopStatus.ABOVE_RANGE
     return status
 
 
-- 
2.43.0


From 4b88161ee43ac2295d089876d07295036016a3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 57/59] fix: do not change the PollyXT wavelength for later
 files of the process

The instrument table is shared by the whole process. Selecting another
backscatter channel wrote its wavelength into the table, so that products
made later from a working 1064 nm channel were labelled with it.
---
 cloudnetpy/instruments/pollyxt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cloudnetpy/instruments/pollyxt.py b/cloudnetpy/instruments/pollyxt.py
index 6dad625..40cf4f0 100644
--- a/cloudnetpy/instruments/pollyxt.py
+++ b/cloudnetpy/instruments/pollyxt.py
@@ -5,6 +5,7 @@ import glob
 import logging
 from collections import Counter
 from collections.abc import Sequence
+from dataclasses import replace
 from fnmatch import fnmatch
 from os import PathLike
 from uuid import UUID
@@ -204,7 +205,9 @@ class PollyXt(Ceilometer):
                             if self.instrument is None:
                                 msg = "No instrument defined"
                                 raise RuntimeError(msg)
-                            self.instrument.wavelength = float(channel)
+                            self.instrument = replace(
+                                self.instrument, wavelength=float(channel)
+                            )
                         return channel
         msg = "No functional pollyXT backscatter channels found"
         raise ValidTimeStampError(msg)
-- 
2.43.0


From 5770c95af0567604bc1312ef52f8acd3b8462584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 58/59] fix: use the measured winds in the lidar epsilon
 product

The wind was interpolated over time in microseconds since 1970 and height
in metres, which makes the triangulation degenerate: most measured winds
were replaced by those of other times and heights.
---
 cloudnetpy/products/epsilon_lidar.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cloudnetpy/products/epsilon_lidar.py b/cloudnetpy/products/epsilon_lidar.py
index 0cf6d09..ff3f261 100644
--- a/cloudnetpy/products/epsilon_lidar.py
+++ b/cloudnetpy/products/epsilon_lidar.py
@@ -146,16 +146,20 @@ def _horizontal_wind_from_doppler_lidar_file(
         mask = umask | vmask
         if np.all(mask):
             raise ValidTimeStampError
-        t = np.broadcast_to(time[:, None], mask.shape)[~mask]
+        # Time in microseconds since 1970 makes the triangulation degenerate.
+        hours = (time - time[0]) / np.timedelta64(1, "h")
+        t = np.broadcast_to(hours[:, None], mask.shape)[~mask]
         h = np.broadcast_to(height[None, :], mask.shape)[~mask]
 
         if len(np.unique(t)) < 3 or len(np.unique(h)) < 3:
             msg = "Not enough unique values for interpolation"
             raise ValidTimeStampError(msg)
 
-        interp_linear = LinearNDInterpolator(list(zip(t, h, strict=True)), V[~mask])
+        interp_linear = LinearNDInterpolator(
+            list(zip(t, h, strict=True)), V[~mask], rescale=True
+        )
         interp_nearest = NearestNDInterpolator(list(zip(t, h, strict=True)), V[~mask])
-        T, H = np.meshgrid(time, height, indexing="ij")
+        T, H = np.meshgrid(hours, height, indexing="ij")
         V_linear = interp_linear(T, H)
         V_nearest = interp_nearest(T, H)
         isnan = np.isnan(V_linear)
-- 
2.43.0


From 98d911b553005ade617e61202d512649d0fa678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:32 +0000
Subject: [PATCH 59/59] fix: ignore missing model levels in categorize

A single missing value of a model profile was used as the fill value 1e36 and
spread to the levels around it.
---
 cloudnetpy/categorize/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cloudnetpy/categorize/model.py b/cloudnetpy/categorize/model.py
index 0387f9f..efecd14 100644
--- a/cloudnetpy/categorize/model.py
+++ b/cloudnetpy/categorize/model.py
@@ -70,10 +70,13 @@ class Model(DataSource):
             for ind, (alt, prof) in enumerate(
                 zip(self.model_heights, data_in, strict=True),
             ):
-                if prof.mask.all():
+                is_valid = ~(ma.getmaskarray(prof) | ma.getmaskarray(alt))
+                if is_valid.sum() < 2:
                     datai[ind, :] = ma.masked
                 else:
-                    fun = interp1d(alt, prof, fill_value="extrapolate")
+                    fun = interp1d(
+                        alt[is_valid], prof[is_valid], fill_value="extrapolate"
+                    )
                     datai[ind, :] = fun(self.mean_height)
             return CloudnetArray(datai, key, units)
 
-- 
2.43.0


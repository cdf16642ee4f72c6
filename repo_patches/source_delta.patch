From cefd7f828e1abcfcc1c3abea09d1ad355c4dbabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 01/44] fix: netCDF output failed for clone maps without
 missing cells

---
 src/pyg2p/main/writers/netcdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 1702511..828f1ef 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -32,7 +32,8 @@ class NetCDFWriter(Writer):
         
         # add mask from clone map
         self.area = ma.masked_values(self.area, area.mv)
-        self._mask = ma.getmask(self.area)
+        # a clone without missing cells has no mask: getmask would return a scalar
+        self._mask = ma.getmaskarray(self.area)
         
         if lats_map.endswith('.nc'):
             if (lats_map!=lons_map):
-- 
2.43.0


From 264b5d36c09ae0fc67662e8042a04df21886fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 02/44] fix: closing an execution that had not started writing
 hid the real error

---
 src/pyg2p/main/__init__.py       | 3 ++-
 src/pyg2p/main/writers/netcdf.py | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 7febe4f..49d5817 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -51,7 +51,8 @@ def execute(exc_ctx):
         if not err.code == NO_MESSAGES:
             ret_value = 1
     finally:
-        ctrl.close()
+        if ctrl:
+            ctrl.close()
     return ret_value
 
 
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index 828f1ef..e5f91e6 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -184,5 +184,9 @@ class NetCDFWriter(Writer):
         return masked
 
     def close(self):
-        self.nf.close()
+        if self.nf is None:
+            # nothing was written
+            return
+        nf, self.nf = self.nf, None
+        nf.close()
         self._log(f'{self.filepath} written!', 'INFO')
-- 
2.43.0


From 86c2c8402784c15a00606a33b515fb100a4ff337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 03/44] fix: missing source values were turned into numbers by
 aggregation, cut off and scipy interpolation

---
 src/pyg2p/main/interpolation/__init__.py  |  3 ++-
 src/pyg2p/main/manipulation/aggregator.py | 10 +++++-----
 src/pyg2p/main/manipulation/conversion.py | 13 ++++++++++---
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 4e7b2f0..cdf914f 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -144,7 +144,8 @@ class Interpolator(Loggable):
         # It gives (last_index + 1) from original values when value can't be computed.
         # These "last_index + 1" indexes are stored in intertable so we artificially add a missing value
         # v[last_index + 1] = mv
-        v = np.append(v, self.mv_output)
+        # ma.append, if masked: np.append would lose the mask of missing source values
+        v = ma.append(v, self.mv_output) if isinstance(v, ma.core.MaskedArray) else np.append(v, self.mv_output)
         orig_mask = False if not isinstance(v, ma.core.MaskedArray) else v.mask
         if nnear == 1:
             if isinstance(orig_mask, np.ndarray):
diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 640bed6..770f1ad 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -139,8 +139,7 @@ class Aggregator(Loggable):
 
             # variables needed for numexpr evaluator namespace. DO NOT DELETE!!!
             # need to create the out array first as zero array, for issue in missing values for certain gribs
-            v_iter_ma = np.zeros(shape_iter)
-            v_iter_ma += v_ord[iter_]
+            v_iter_ma = np.zeros(shape_iter) + v_ord[iter_]
             _unit_time = self._unit_time
             _aggr_step = self._aggregation_step
             key = Step(iter_ - self._aggregation_step, iter_, resolution, self._aggregation_step, level)
@@ -229,7 +228,7 @@ class Aggregator(Loggable):
                 print("dividing sum by {}".format(sum_counter))
                 res = ne.evaluate('temp_sum/sum_counter')
                 # mask result with all maskes from GRIB original values used in average (if existing any)
-                out_values[key] = ma.masked_where(numeric.get_masks(v_ord.values()), res, copy=False)
+                out_values[key] = ma.masked_where(numeric.get_masks(*v_ord.values()), res, copy=False)
                 if self._logger.isEnabledFor(logging.DEBUG):
                     self._log(f'out[{key}] = temp_sum/{sum_counter}')
 
@@ -261,7 +260,8 @@ class Aggregator(Loggable):
                 if iter_ in v_ord_keys:
                     if self._logger.isEnabledFor(logging.DEBUG):
                         self._log(f'out[{key}] = grib[{iter_}]')
-                    res_inst += v_ord[iter_]
+                    # not in place: adding to a plain array would lose the mask
+                    res_inst = res_inst + v_ord[iter_]
                 else:
                     if iter_ == 0:
                         # left out as zero arrays if 0 step is not in the grib
@@ -273,7 +273,7 @@ class Aggregator(Loggable):
                         next_ = list(v_ord_keys)[ind_next_]
                         if self._logger.isEnabledFor(logging.DEBUG):
                             self._log(f'out[{key}] = grib[{next_}]')
-                        res_inst += v_ord[next_]
+                        res_inst = res_inst + v_ord[next_]
                 out_values[key] = res_inst
 
             return out_values
diff --git a/src/pyg2p/main/manipulation/conversion.py b/src/pyg2p/main/manipulation/conversion.py
index 2a3cdd6..d86ffc4 100644
--- a/src/pyg2p/main/manipulation/conversion.py
+++ b/src/pyg2p/main/manipulation/conversion.py
@@ -45,12 +45,19 @@ class Converter(Loggable):
         self._log('Cutting off negative values...')
         if isinstance(xs, dict):
             for timestep, values in xs.items():
-                xs[timestep] = ne.evaluate('where(values<0, 0, values)')
+                xs[timestep] = self._cut_off(values)
         else:
-            values = xs
-            xs = ne.evaluate('where(values<0, 0, values)')
+            xs = self._cut_off(xs)
         return xs
 
+    @staticmethod
+    def _cut_off(values):
+        res = ne.evaluate('where(values<0, 0, values)')
+        # preserve maskes as numexpr just ignores them
+        if isinstance(values, ma.core.MaskedArray):
+            res = ma.masked_where(values.mask, res, copy=False)
+        return res
+
     def __str__(self):
         log_mess = "\nConverting values from units {}. " \
                    "\nFunction: {}" \
-- 
2.43.0


From e8d157ee10975be2402ec26bacd90b4b8c8d9a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 04/44] fix: correction turned cells outside the source grid
 and missing dem cells into numbers

---
 src/pyg2p/main/manipulation/correction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 2d17d40..41155a7 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -78,7 +78,9 @@ class Corrector(Loggable):
             mv = default_fillvals[values.dtype.str[1:]] # take missing values from the default netCDF fillvals values
             values = ne.evaluate(self._numexpr_eval)
             # mask out values (here is already output values with destination shape)
-            values = ma.masked_where(pyg2p.util.numeric.get_masks(p), values)
+            # cells that can't be interpolated have the same missing value, both in values to correct and in gem
+            missing = (ma.getdata(p) == gem_mv) | (ma.getdata(gem) == gem_mv) | (dem == dem_mv)
+            values = ma.masked_where(missing | ma.getmaskarray(p) | ma.getmaskarray(gem), values)
         return values
 
     def _read_geo(self, grib_file, ctx):
@@ -105,7 +107,7 @@ class Corrector(Loggable):
             lats, lons = geopotential_gribs.latlons
             values_resampled = interpolator.interpolate_scipy(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
         reader.close()
-        return missing, values_resampled
+        return interpolator.mv_output, values_resampled
 
     @staticmethod
     def _read_dem(dem_map):
-- 
2.43.0


From a074a5dc0f1ae028e0c8f93587dc5853936a7459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 05/44] fix: array API could not create tables of grib
 interpolation methods

---
 src/pyg2p/main/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index aaf78de..5d4f9cd 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -290,6 +290,9 @@ class Pyg2pApi:
         values, self.messages, self.change_res_step = ctrl.execute(write_results=False)
         # need interpolation and correction
         self.interpolator = Interpolator(self.context, grib_info.mv)
+        if self.context.is_with_grib_interpolation:
+            # messages used to create interpolation tables, if missing
+            self.interpolator.aux_for_intertable_generation(*ctrl.grib_reader.get_gids_for_grib_intertable())
         is_second_res = False
         lats, longs = self.messages.latlons
         geodetic_info = self.messages.grid_details
-- 
2.43.0


From 1dd060db1d311bab3d24373fea7a5ad6f6af3a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 06/44] fix: missing cells became numbers in netCDF output of
 masked values and with netCDF target maps

---
 src/pyg2p/main/api.py              |  2 ++
 src/pyg2p/main/writers/__init__.py | 13 ++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 5d4f9cd..639e984 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -310,6 +310,8 @@ class Pyg2pApi:
             if self.context.must_do_correction:
                 corrector = Corrector.get_instance(self.context, grid_id)
                 out_v = corrector.correct(out_v)
+            # cells that could not be interpolated get the missing value of the clone map, like masked ones
+            out_v = ma.masked_where(ma.getmaskarray(out_v) | (ma.getdata(out_v) == self.interpolator.mv_output), ma.getdata(out_v))
             out_v = self._mask_values(out_v)
             out[timestep] = out_v
         out = collections.OrderedDict(sorted(out.items(), key=lambda item: int(item[0].end_step)))
diff --git a/src/pyg2p/main/writers/__init__.py b/src/pyg2p/main/writers/__init__.py
index 41c20f3..76574b1 100644
--- a/src/pyg2p/main/writers/__init__.py
+++ b/src/pyg2p/main/writers/__init__.py
@@ -3,6 +3,7 @@ import abc
 import collections
 
 import numpy as np
+import numpy.ma as ma
 
 from pyg2p import Loggable
 from pyg2p.main.interpolation import Interpolator
@@ -40,6 +41,13 @@ class OutputWriter(Loggable):
     def aux_for_intertable_generation(self, aux_g, aux_v, aux_g2, aux_v2):
         self.interpolator.aux_for_intertable_generation(aux_g, aux_v, aux_g2, aux_v2)
 
+    def _missing_to_nan(self, out_v):
+        # masked cells and cells that could not be interpolated. The missing value of the interpolator
+        # comes from the latitudes map and can differ from the one of the output.
+        out_v = ma.filled(out_v, self.interpolator.mv_output)
+        out_v[out_v == self.interpolator.mv_output] = np.nan
+        return out_v
+
     def _write_maps_netcdf(self, values, messages, change_res_step):
         """
         Prepare values for netCDF file writing (time and values)
@@ -65,8 +73,7 @@ class OutputWriter(Loggable):
             if self.ctx.must_do_correction:
                 corrector = Corrector.get_instance(self.ctx, grid_id)
                 out_v = corrector.correct(out_v)
-            out_v[out_v == self.interpolator.mv_output] = np.nan
-            out_values.append(out_v)
+            out_values.append(self._missing_to_nan(out_v))
             time_values.append(timestep.end_step)
         # prepare values for netcdf writing
         time_values = np.array(time_values, dtype=np.int32)
@@ -106,7 +113,7 @@ class OutputWriter(Loggable):
             if self.ctx.must_do_correction:
                 corrector = Corrector.get_instance(self.ctx, grid_id)
                 out_v = corrector.correct(out_v)
-            self.writer.write(self._name_pcr_map(i), out_v)
+            self.writer.write(self._name_pcr_map(i), self._missing_to_nan(out_v))
 
     def write_maps(self, values, messages, change_res_step=None):
         write_method = getattr(self, f"_write_maps_{self.ctx.get('outMaps.format')}")
-- 
2.43.0


From 31634963a0f5847133e03ba46a6360399d2ce87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 07/44] fix: user configuration was written in place and
 registrations of concurrent runs were lost

---
 src/pyg2p/main/config.py | 53 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index f7d4f81..97b01ad 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -1,6 +1,9 @@
+import fcntl
 import json
 import os
 import re
+import shutil
+from contextlib import contextmanager
 from copy import deepcopy
 from ftplib import FTP
 import itertools
@@ -101,6 +104,8 @@ class BaseConfiguration(pyg2p.Loggable):
 
         self.vars = self.load_global()
         self.user_vars = {}
+        self._saved_vars = {}  # user_vars as they are in the user file
+        self._is_locked = False
         self._log(f'Check configuration: [{self.__class__.__name__}]')
         if self.global_data_path_var:
             self.global_data_path = GlobalConf.get_instance(user_configuration).vars.get(self.global_data_path_var)
@@ -126,6 +131,7 @@ class BaseConfiguration(pyg2p.Loggable):
             self.dump()
         else:
             self.user_vars = self._load()
+            self._saved_vars = deepcopy(self.user_vars)
         self.vars.update(self.user_vars)
 
     def _load(self, config_file=None):
@@ -139,10 +145,51 @@ class BaseConfiguration(pyg2p.Loggable):
         finally:
             f.close()
 
+    @contextmanager
+    def locked(self):
+        """
+        One process at a time changes the user configuration file.
+        Changes written by others since the file was read are loaded first.
+        """
+        if self._is_locked:
+            yield
+            return
+        with open(f'{self.config_file}.lock', 'a') as lock_file:
+            fcntl.flock(lock_file, fcntl.LOCK_EX)
+            self._is_locked = True
+            try:
+                self._refresh()
+                yield
+            finally:
+                self._is_locked = False
+
+    def _refresh(self):
+        if not file_util.exists(self.config_file):
+            return
+        current = self._load()
+        user_vars = {k: v for k, v in current.items() if k in self.user_vars or k not in self._saved_vars}
+        user_vars.update({k: v for k, v in self.user_vars.items() if k not in self._saved_vars or self._saved_vars[k] != v})
+        self.user_vars = user_vars
+        self._saved_vars = deepcopy(current)
+        self.vars.update(self.user_vars)
+
     def dump(self):
-        with open(self.config_file, 'w') as f:
-            user_vars = self.user_vars or '{}'
-            f.write(json.dumps(user_vars, sort_keys=True, indent=4))
+        with self.locked():
+            # the file is replaced when the new content is complete, so it's never seen (or left) half written
+            try:
+                config_file = os.path.realpath(self.config_file, strict=True)
+            except FileNotFoundError:
+                config_file = os.path.realpath(self.config_file)
+            new_file = f'{config_file}.new'
+            with open(new_file, 'w') as f:
+                user_vars = self.user_vars or {}
+                f.write(json.dumps(user_vars, sort_keys=True, indent=4))
+                f.flush()
+                os.fsync(f.fileno())
+            if file_util.exists(config_file):
+                shutil.copymode(config_file, new_file)
+            os.replace(new_file, config_file)
+            self._saved_vars = deepcopy(self.user_vars)
 
     def check_write(self):
         if not self.data_path:
-- 
2.43.0


From 466d272f5d78be4c0061e7afb258b68c702b6fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 08/44] fix: interpolation tables were written in place and
 could replace or be taken for one of another grid

---
 src/pyg2p/main/interpolation/__init__.py | 59 +++++++++++++++---------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index cdf914f..c0a5c39 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -1,6 +1,7 @@
 import gzip
 import os
 import logging
+import uuid
 from functools import partial
 
 import numpy as np
@@ -75,7 +76,7 @@ class Interpolator(Loggable):
             filename = self.format_intertablename(prognum='')
             tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
             i = 1
-            while pyg2p.util.files.exists(tbl_fullpath):
+            while self._is_used(filename) or pyg2p.util.files.exists(tbl_fullpath):
                 filename = self.format_intertablename(prognum='_{}'.format(i))
                 tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
                 i += 1
@@ -100,6 +101,11 @@ class Interpolator(Loggable):
                 self._logger.warning(f'An entry in configuration was found for {filename} but intertable does not exist.')
         return intertable_id, tbl_fullpath
 
+    def _is_used(self, filename):
+        # the name can belong to another intertable, stored in another folder or whose file is missing
+        names = (t.get('filename') for t in self.intertables_config.vars.values() if isinstance(t, dict))
+        return filename in [f'{name}.gz' if not name.endswith('.gz') else name for name in names if name]
+
     def _read_intertable(self, tbl_fullpath):
 
         if tbl_fullpath not in self._LOADED_INTERTABLES:
@@ -250,13 +256,7 @@ class Interpolator(Loggable):
 
             # saving interpolation lookup table
             intertable = np.rec.fromarrays((indexes, weights), names=('indexes', 'coeffs'))
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
-            self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
+            intertable_name = self.save_intertable(intertable, intertable_id, intertable_name, v.shape, grid_id)
         else:
             raise ApplicationException.get_exc(NO_INTERTABLE_CREATED, details=intertable_name)
 
@@ -283,6 +283,7 @@ class Interpolator(Loggable):
             else:
                 self.grib_nearest(self._aux_val, self._aux_gid, grid_id,
                                   intertable_name=intertable_name, intertable_id=intertable_id)
+            intertable_id, intertable_name = self._intertable_filename(grid_id)
 
         if pyg2p.util.files.exists(intertable_name):
             # interpolation using intertables
@@ -295,13 +296,7 @@ class Interpolator(Loggable):
             self._log('\nInterpolating table not found\n Id: {}\nWill create file: {}'.format(intertable_id, intertable_name), 'WARN')
             xs, ys, idxs = getattr(grib_interpolation_lib, 'grib_nearest{}'.format('' if not self.parallel else '_parallel'))(gid, self._target_coords.lats, self._target_coords.lons, self._target_coords.mv)
             intertable = np.asarray([xs, ys, idxs])
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
-            self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
+            intertable_name = self.save_intertable(intertable, intertable_id, intertable_name, v.shape, grid_id)
         else:
             if intertable_id not in self.intertables_config.vars:
                 d = {'filename': pyg2p.util.files.filename(intertable_name),
@@ -331,6 +326,7 @@ class Interpolator(Loggable):
                 aux_val = self._aux_2nd_res_val
             self.grib_inverse_distance(aux_val, aux_gid, grid_id, intertable_name=intertable_name,
                                        intertable_id=intertable_id, is_second_res=is_second_res)
+            intertable_id, intertable_name = self._intertable_filename(grid_id)
 
         if pyg2p.util.files.exists(intertable_name):
             # interpolation using intertables
@@ -350,13 +346,7 @@ class Interpolator(Loggable):
             coeffs = np.asarray([coeffs1, coeffs2, coeffs3, coeffs4, np.zeros(coeffs1.shape), np.zeros(coeffs1.shape)])
             intertable = np.rec.fromarrays((indexes, coeffs), names=('indexes', 'coeffs'))
             # saving interpolation lookup table
-            if intertable_name.endswith('.gz'):
-                f = gzip.GzipFile(intertable_name, 'w')
-                np.save(f, intertable)
-                f.close()
-            else:
-                np.save(intertable_name, intertable)
-            self.update_intertable_conf(intertable, intertable_id, intertable_name, v.shape)
+            intertable_name = self.save_intertable(intertable, intertable_id, intertable_name, v.shape, grid_id)
 
         else:
             if intertable_id not in self.intertables_config.vars:
@@ -371,6 +361,31 @@ class Interpolator(Loggable):
         result[xs, ys] = pyg2p.util.numeric.result_masked(res, self.mv_output)
         return result
 
+    def save_intertable(self, intertable, intertable_id, intertable_name, source_shape, grid_id):
+        with self.intertables_config.locked():
+            if not (DEBUG_BILINEAR_INTERPOLATION or DEBUG_ADW_INTERPOLATION):
+                # another process can have used the same file name or created this intertable in the meantime
+                intertable_name = self._intertable_filename(grid_id)[1]
+            if not pyg2p.util.files.exists(intertable_name):
+                # the file gets its name when it's complete
+                new_file = os.path.join(os.path.dirname(intertable_name), f'{uuid.uuid4().hex}.new')
+                try:
+                    with open(new_file, 'wb') as out:
+                        if intertable_name.endswith('.gz'):
+                            with gzip.GzipFile(intertable_name, 'wb', fileobj=out) as f:
+                                np.save(f, intertable)
+                        else:
+                            np.save(out, intertable)
+                        out.flush()
+                        os.fsync(out.fileno())
+                    os.replace(new_file, intertable_name)
+                except BaseException:
+                    if pyg2p.util.files.exists(new_file):
+                        os.unlink(new_file)
+                    raise
+            self.update_intertable_conf(intertable, intertable_id, intertable_name, source_shape)
+        return intertable_name
+
     def update_intertable_conf(self, intertable, intertable_id, intertable_name, source_shape):
         self._LOADED_INTERTABLES[intertable_name] = intertable
         new_intertable_conf_item = {'filename': pyg2p.util.files.filename(intertable_name),
-- 
2.43.0


From 391524aa55d2a2ca257f03c9a3157711acde2046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 09/44] fix: a table file replaced by another one kept its old
 content in memory

---
 src/pyg2p/main/interpolation/__init__.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index c0a5c39..bfa5bf6 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -106,9 +106,20 @@ class Interpolator(Loggable):
         names = (t.get('filename') for t in self.intertables_config.vars.values() if isinstance(t, dict))
         return filename in [f'{name}.gz' if not name.endswith('.gz') else name for name in names if name]
 
+    @staticmethod
+    def _file_version(tbl_fullpath):
+        # a file that was replaced since it was loaded must be loaded again
+        if not pyg2p.util.files.exists(tbl_fullpath):
+            tbl_fullpath += '.gz'
+        if not pyg2p.util.files.exists(tbl_fullpath):
+            return 'missing'
+        stat = os.stat(tbl_fullpath)
+        return stat.st_ino, stat.st_size, stat.st_mtime_ns
+
     def _read_intertable(self, tbl_fullpath):
 
-        if tbl_fullpath not in self._LOADED_INTERTABLES:
+        version = self._file_version(tbl_fullpath)
+        if self._LOADED_INTERTABLES.get(tbl_fullpath, (None,))[0] != version:
             f = tbl_fullpath
             if tbl_fullpath.endswith('.gz'):
                 f = gzip.GzipFile(tbl_fullpath, 'r')
@@ -124,10 +135,10 @@ class Interpolator(Loggable):
                     f = gzip.GzipFile(f, 'r')
                     intertable = np.load(f)
                     f.close()
-            self._LOADED_INTERTABLES[tbl_fullpath] = intertable
+            self._LOADED_INTERTABLES[tbl_fullpath] = version, intertable
             self._log(f'Using interpolation table: {tbl_fullpath}', 'INFO')
         else:
-            intertable = self._LOADED_INTERTABLES[tbl_fullpath]
+            intertable = self._LOADED_INTERTABLES[tbl_fullpath][1]
 
         if self._mode == 'grib_nearest':
             # grib nearest neighbour table
@@ -387,7 +398,7 @@ class Interpolator(Loggable):
         return intertable_name
 
     def update_intertable_conf(self, intertable, intertable_id, intertable_name, source_shape):
-        self._LOADED_INTERTABLES[intertable_name] = intertable
+        self._LOADED_INTERTABLES[intertable_name] = self._file_version(intertable_name), intertable
         new_intertable_conf_item = {'filename': pyg2p.util.files.filename(intertable_name),
                                     'method': self._mode,
                                     'source_shape': source_shape,
-- 
2.43.0


From f12acb7e955f13fbfed688ae8b1e7fc1b527187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 10/44] fix: a corrector of another execution with different
 formulas, files or target was reused

---
 src/pyg2p/main/manipulation/correction.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 41155a7..6504754 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -1,4 +1,5 @@
 import logging
+import weakref
 
 import numexpr as ne
 import numpy as np
@@ -18,7 +19,8 @@ from ..interpolation.scipy_interpolation_lib import DEBUG_BILINEAR_INTERPOLATION
 
 class Corrector(Loggable):
 
-    instances = {}
+    # correctors depend on all parameters of an execution: they live as long as its context
+    instances = weakref.WeakKeyDictionary()
 
     def __repr__(self):
         return f'Corrector<{self.grid_id} {self.geo_file}>'
@@ -26,13 +28,12 @@ class Corrector(Loggable):
     @classmethod
     def get_instance(cls, ctx, grid_id):
         geo_file_ = ctx.geo_file(grid_id)
-        dem_map = ctx.get('correction.demMap')
-        key = f'{grid_id}{dem_map}'
-        if key in cls.instances:
-            return cls.instances[key]
+        instances = cls.instances.setdefault(ctx, {})
+        if grid_id in instances:
+            return instances[grid_id]
         else:
             instance = Corrector(ctx, grid_id, geo_file_)
-            cls.instances[key] = instance
+            instances[grid_id] = instance
             return instance
 
     def __init__(self, ctx, grid_id, geo_file):
-- 
2.43.0


From 92c7a1c3b42e7095abd319c6ff8e4ad7e7609def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:45 +0000
Subject: [PATCH 11/44] fix: write errors of PCRaster output maps were not
 reported

---
 src/pyg2p/exceptions.py       |  2 ++
 src/pyg2p/main/writers/pcr.py | 24 +++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/exceptions.py b/src/pyg2p/exceptions.py
index 707a77e..5796329 100644
--- a/src/pyg2p/exceptions.py
+++ b/src/pyg2p/exceptions.py
@@ -20,6 +20,7 @@ NO_WRITE_PERMISSIONS = 8500
 NO_READ_PERMISSIONS = 8600
 NOT_EXISTING_PATH = 8600
 MISSING_CONFIG_FILES = 8700
+OUTPUT_NOT_WRITTEN = 8800  # values could not be stored in output map
 WEIRD_STUFF = 9000
 WRONG_ARGS = 10000
 
@@ -66,6 +67,7 @@ class ApplicationException(Exception):
         NO_READ_PERMISSIONS: 'You cannot read from folder',
         NOT_EXISTING_PATH: 'Not existing paths',
         MISSING_CONFIG_FILES: 'Missing configuration. You may need to run setup.py install again.',
+        OUTPUT_NOT_WRITTEN: 'Output map could not be written.',
         WRONG_ARGS: 'Failed to parse input arguments.',
     }
 
diff --git a/src/pyg2p/main/writers/pcr.py b/src/pyg2p/main/writers/pcr.py
index ea55173..7fc2e63 100644
--- a/src/pyg2p/main/writers/pcr.py
+++ b/src/pyg2p/main/writers/pcr.py
@@ -2,6 +2,7 @@ from osgeo import gdal
 import numpy.ma as ma
 import numpy as np
 
+from pyg2p.exceptions import ApplicationException, OUTPUT_NOT_WRITTEN
 from pyg2p.main.writers import Writer
 
 
@@ -37,9 +38,30 @@ class PCRasterWriter(Writer):
         self._mem_ds.GetRasterBand(1).SetNoDataValue(self.mv)
         self._mem_ds.GetRasterBand(1).WriteArray(masked_values)
         out_ds = drv.CreateCopy(output_map_name.encode('utf-8'), self._mem_ds)
-        self._log(f'{output_map_name} written!', 'INFO')
+        is_created = out_ds is not None
         out_ds = None
         del out_ds
+        # gdal doesn't report all write errors (full disk, I/O errors): reading the map back does
+        if not is_created or not self._is_written(output_map_name):
+            raise ApplicationException.get_exc(OUTPUT_NOT_WRITTEN, output_map_name)
+        self._log(f'{output_map_name} written!', 'INFO')
+
+    def _is_written(self, output_map_name):
+        out_ds = gdal.Open(output_map_name.encode('utf-8'))
+        if out_ds is None:
+            return False
+        band = out_ds.GetRasterBand(1)
+        written = band.ReadAsArray()
+        expected = self._mem_ds.GetRasterBand(1).ReadAsArray()
+        if written is None or written.shape != expected.shape:
+            return False
+        if expected.dtype.kind != 'f':
+            # values of other scales (e.g. boolean) are adapted by the driver
+            return True
+        # the driver has its own missing value
+        is_missing = np.isnan(expected) | (expected == expected.dtype.type(self.mv))
+        is_same = written == expected.astype(written.dtype)
+        return bool(np.all(is_same | is_missing & ((written == band.GetNoDataValue()) | np.isnan(written))))
 
     def _mask_values(self, values):
         if isinstance(values, ma.core.MaskedArray):
-- 
2.43.0


From fc5e6a42d0bdaa63465ba4c7118bf1788288b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 12/44] fix: command line options -g, -W and -K failed

---
 src/pyg2p/main/__init__.py |  4 ++--
 src/pyg2p/main/config.py   | 19 +++++++++++++------
 src/pyg2p/main/context.py  |  5 +++--
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/main/__init__.py b/src/pyg2p/main/__init__.py
index 49d5817..df64b4e 100644
--- a/src/pyg2p/main/__init__.py
+++ b/src/pyg2p/main/__init__.py
@@ -62,7 +62,7 @@ def config_command(exc_ctx):
     if exc_ctx.to_download_conf:  # -W
         # download configuration
         dataset = exc_ctx.get('download_configuration')
-        conf.download_data(dataset, logger)
+        conf.download_data(dataset)
         logger.info('Configuration downloaded.')
 
     elif exc_ctx.to_add_geopotential:  # -g
@@ -73,4 +73,4 @@ def config_command(exc_ctx):
 
     elif exc_ctx.to_check_conf:  # -K
         # check unused intertables (intertables that are not in configuration and can be deleted
-        conf.to_check_conf()
+        conf.check_conf()
diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 97b01ad..36febe3 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -381,13 +381,14 @@ class Configuration(pyg2p.Loggable):
     def check_conf(self):
         # it logs all files in intertables and geopotentials paths that are not used in configuration
 
-        used_intertables = [i['filename'] for i in self.intertables.vars.values()]
+        used_intertables = [i['filename'] for i in self.intertables.vars.values() if isinstance(i, dict)]
+        used_intertables += [f'{i}.gz' for i in used_intertables]
         used_geopotentials = self.geopotentials.vars.values()
 
-        intertables_folder_content = file_util.ls(self.intertables.data_path, 'npy')
-        intertables_global_folder_content = file_util.ls(self.intertables.global_data_path, 'npy')
-        geopotentials_folder_content = file_util.ls(self.geopotentials.data_path, 'npy')
-        geopotentials_global_folder_content = file_util.ls(self.geopotentials.global_data_path, 'npy')
+        intertables_folder_content = self._ls(self.intertables.data_path, ('.npy', '.npy.gz'))
+        intertables_global_folder_content = self._ls(self.intertables.global_data_path, ('.npy', '.npy.gz'))
+        geopotentials_folder_content = self._ls(self.geopotentials.data_path)
+        geopotentials_global_folder_content = self._ls(self.geopotentials.global_data_path)
         for f in itertools.chain(intertables_folder_content, intertables_global_folder_content):
             if file_util.filename(f) not in used_intertables:
                 self._log(f'Intertable file is not in configuration: {f} - You could delete it')
@@ -398,8 +399,14 @@ class Configuration(pyg2p.Loggable):
 
         user_intertables = deepcopy(self.intertables.user_vars)
         for k, i in user_intertables.items():
+            if not isinstance(i, dict) or not self.intertables.data_path:
+                continue
             fullpath = os.path.join(self.intertables.data_path, i['filename'])
-            if not file_util.exists(fullpath):
+            if not file_util.exists(fullpath) and not file_util.exists(f'{fullpath}.gz'):
                 self._log(f'{fullpath} - Non existing. Removing item from intertables.json')
                 del self.intertables.user_vars[k]
         self.intertables.dump()
+
+    @staticmethod
+    def _ls(folder, extension=None):
+        return file_util.ls(folder, extension) if folder and file_util.exists(folder, is_folder=True) else []
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 92be2fc..7d46c94 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -190,7 +190,8 @@ class ExecutionContext(Context):
             self._define_exec_params()
 
         # check numbers, existing dirs and files, supported options, semantics etc.
-        self._check_exec_params()
+        if not self.is_config_command or self.to_add_geopotential:
+            self._check_exec_params()
 
     def _define_input_args(self, argv):
 
@@ -240,7 +241,7 @@ class ExecutionContext(Context):
         self._vars['input.file2'] = parsed_args['inputFile2']
         self._vars['input.two_resolution'] = bool(self._vars['input.file2'])
         self._vars['geopotential'] = parsed_args['addGeopotential']
-        self._to_add_geopotential = bool(self._vars['geopotential'])
+        self.to_add_geopotential = bool(self._vars['geopotential'])
         self._vars['download_configuration'] = parsed_args['downloadConf']
         self._vars['under_api'] = parsed_args['underApi']
         self._vars['check_conf'] = parsed_args['checkConf']
-- 
2.43.0


From 89bdbdc73ff35bbc5cf1c577d301d3575121ef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 13/44] fix: interrupted downloads left partial files that were
 never downloaded again

---
 src/pyg2p/main/config.py | 43 ++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 36febe3..5ba63db 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -3,6 +3,7 @@ import json
 import os
 import re
 import shutil
+import uuid
 from contextlib import contextmanager
 from copy import deepcopy
 from ftplib import FTP
@@ -360,23 +361,31 @@ class Configuration(pyg2p.Loggable):
         remote_path = dataset
         local_path = getattr(self.user, f'{dataset}_path')
 
-        client = FTP(*self.ftp.access)
-        self._log(f'=== Start downloading {remote_path} files to {local_path}', level='INFO')
-        client.cwd(os.path.join(self.ftp.folder, remote_path))
-        filenames = client.nlst()
-        numfiles = len(filenames)
-        for i, f in enumerate(filenames):
-            if f in ('.', '..', 'readme.txt'):
-                continue
-            local_filename = os.path.join(local_path, f)
-            if file_util.exists(local_filename):
-                self._log(f'[{i}/{numfiles}] Skipping existing file {f}', level='INFO')
-                continue
-            self._log(f'[{i}/{numfiles}] Downloading {f}')
-            with open(local_filename, 'wb') as local_file:
-                client.retrbinary(f'RETR {f}', local_file.write)
-        self._log(f'=== Download finished: {remote_path}')
-        client.quit()  # close FTP connection
+        with FTP(*self.ftp.access) as client:
+            self._log(f'=== Start downloading {remote_path} files to {local_path}', level='INFO')
+            client.cwd(os.path.join(self.ftp.folder, remote_path))
+            filenames = client.nlst()
+            numfiles = len(filenames)
+            for i, f in enumerate(filenames):
+                if f in ('.', '..', 'readme.txt'):
+                    continue
+                local_filename = os.path.join(local_path, f)
+                if file_util.exists(local_filename):
+                    self._log(f'[{i}/{numfiles}] Skipping existing file {f}', level='INFO')
+                    continue
+                self._log(f'[{i}/{numfiles}] Downloading {f}')
+                # the file gets its name when it's complete, otherwise next download would skip it
+                new_file = f'{local_filename}.{uuid.uuid4().hex}.new'
+                try:
+                    with open(new_file, 'wb') as local_file:
+                        client.retrbinary(f'RETR {f}', local_file.write)
+                        local_file.flush()
+                        os.fsync(local_file.fileno())
+                    os.replace(new_file, local_filename)
+                except BaseException:
+                    file_util.delete_file(new_file)
+                    raise
+            self._log(f'=== Download finished: {remote_path}')
 
     def check_conf(self):
         # it logs all files in intertables and geopotentials paths that are not used in configuration
-- 
2.43.0


From d82ec3d4e3bc6d5881b797224ccac45d058b9ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 14/44] fix: values of variables defined in more than one .conf
 file depended on directory order

---
 src/pyg2p/main/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 5ba63db..6aca5be 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -44,7 +44,7 @@ class UserConfiguration(pyg2p.Loggable):
         # create user folder .pyg2p always
         if not file_util.exists(self.config_dir, is_folder=True):
             file_util.create_dir(self.config_dir)
-        for f in os.listdir(self.config_dir):
+        for f in sorted(os.listdir(self.config_dir)):
             filepath = os.path.join(self.config_dir, f)
             # read all custom paths from ~/.pyg2p/*.conf files
             if file_util.is_conf(filepath):
-- 
2.43.0


From 8f0822b397de328be7850bd038f545087e8926f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 15/44] fix: interpolation of small targets failed with a
 division by zero

---
 src/pyg2p/util/generics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/util/generics.py b/src/pyg2p/util/generics.py
index ef0046a..eda5f87 100644
--- a/src/pyg2p/util/generics.py
+++ b/src/pyg2p/util/generics.py
@@ -20,7 +20,7 @@ def is_callable(v):
 
 
 def progress_step_and_backchar(num_cells):
-    progress_step = int(num_cells / 250)
+    progress_step = max(1, int(num_cells / 250))
     back_char = '\r'
     if not stdout.isatty():
         # out is being redirected
-- 
2.43.0


From 004f9b9d8b4b7809f15431b27ca47506e6305e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 16/44] fix: split interpolation failed with more splits than
 rows, nearest mode and CDD maps

---
 .../interpolation/scipy_interpolation_lib.py  | 46 +++++++++----------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 7760424..6683ecb 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -570,6 +570,10 @@ class ScipyInterpolation(object):
             self.min_upper_bound = np.max(distances) + np.max(distances) * 4 / self.geodetic_info.get('Nj')
 
     def interpolate(self, lonefas, latefas):        
+        self.target_lonsALL = lonefas
+        self.target_latsALL = latefas
+        self.target_rows = slice(None)  # rows of the target that are being interpolated
+        self.idxs_tri_neighbors_to_use = None  # triangles coupled by bilinear_delaunay, common to all splits
         if (self.num_of_splits is not None):
             ref_radius = None
             if self.mode == 'adw' and self.nnear == 11:
@@ -585,27 +589,19 @@ class ScipyInterpolation(object):
                 checktime = time.time()
                 stdout.write('KDtree find radius time (sec): {}\n'.format(checktime - start))
 
-            # Define the size of the subsets, only in lonm
-            subset_size = lonefas.shape[0]//self.num_of_splits
-
-            # Initialize empty arrays to store the results
-            weights = np.empty((lonefas.shape[0]*lonefas.shape[1],self.nnear),dtype=lonefas.dtype)
-            indexes = np.empty((lonefas.shape[0]*lonefas.shape[1],self.nnear),dtype=int)
-            result = np.empty((lonefas.shape[0]*lonefas.shape[1]),dtype=lonefas.dtype)
+            # Define the size of the subsets (at least one row each), only in lonm
+            subset_size = max(1, lonefas.shape[0]//self.num_of_splits)
 
             # Iterate over the subsets of the arrays
+            subsets = []
             for i in range(0, lonefas.shape[0], subset_size):
-                subset_lonefas = lonefas[i:i+subset_size, :]
-                subset_latefas = latefas[i:i+subset_size, :]
-
+                self.target_rows = slice(i, i+subset_size)
                 # Call the interpolate function for the subset
-                subset_result, subset_weights, subset_indexes = self.interpolate_split(subset_lonefas, subset_latefas, ref_radius)
+                subsets.append(self.interpolate_split(lonefas[self.target_rows, :], latefas[self.target_rows, :], ref_radius))
+
+            # Collect the results back into the weights and indexes arrays
+            result, weights, indexes = [np.concatenate(arrays) for arrays in zip(*subsets)]
 
-                # Collect the results back into the weights and indexes arrays
-                weights[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_weights
-                indexes[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1],:] = subset_indexes
-                result[i*lonefas.shape[1]:(i+subset_size)*lonefas.shape[1]] = subset_result
-        
         else:
             result, weights, indexes = self.interpolate_split(lonefas, latefas)
 
@@ -867,7 +863,7 @@ class ScipyInterpolation(object):
                 weights_mode = 'All'
                 #weights_mode = 'OnlyTOP10'
                 if (CDDmode == 'Hofstra'):
-                    CDD_map = CDD_map.ravel()
+                    CDD_map = CDD_map[self.target_rows].ravel()
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
@@ -878,7 +874,7 @@ class ScipyInterpolation(object):
                     s = np.zeros_like(distances)       
                     s = cdd_hofstra_compute_weights_from_cutoff_distances(distances, CDD_map, s)
                 elif CDDmode == 'MixHofstraShepard':
-                    CDD_map = CDD_map.ravel()
+                    CDD_map = CDD_map[self.target_rows].ravel()
                     try:
                         assert(len(CDD_map)==len(self.lat_inALL)) 
                     except AssertionError as e:
@@ -900,10 +896,10 @@ class ScipyInterpolation(object):
                     cdd_hofstra_shepard_compute_weights_from_cutoff_distances(distances, CDD_map, nnear, s, m_const, min_num_of_station, radius_ratio)
                 elif CDDmode == 'NewEtAl':
                     s = np.zeros_like(distances)  
-                    TargetLonRes=self.target_lonsOR[0,0]-self.target_lonsOR[0,1]
-                    TargetLatRes=self.target_latsOR[0,0]-self.target_latsOR[1,0]
-                    LonOrigin=self.target_lonsOR[0,0]
-                    LatOrigin=self.target_latsOR[0,0]
+                    TargetLonRes=self.target_lonsALL[0,0]-self.target_lonsALL[0,1]
+                    TargetLatRes=self.target_latsALL[0,0]-self.target_latsALL[1,0]
+                    LonOrigin=self.target_lonsALL[0,0]
+                    LatOrigin=self.target_latsALL[0,0]
                     s = cdd_newetal_compute_weights_from_cutoff_distances(distances, CDD_map, indexes, self.longrib, self.latgrib, 
                                                                         TargetLonRes, TargetLatRes, LonOrigin, LatOrigin, s)
                 else:
@@ -1148,7 +1144,7 @@ class ScipyInterpolation(object):
         not_in_quad = 0     # number of points falling outside quadrilaterals after max_retries
 
         # max number of retry equals to a full lenght of lon coordinates
-        max_retries = self.target_lonsOR.shape[0]        
+        max_retries = self.target_lonsALL.shape[0]        
         max_used_additional_points = 0
         nn_max_used_additional_points = -1
 
@@ -1437,7 +1433,9 @@ class ScipyInterpolation(object):
             # add the fourth point to each idxs[nn] from the near triangle on the longest side
             idxs = np.column_stack((idxs,empty(idxs.shape[0],-1,dtype=idxs.dtype)))
             idxs_tri_neighbors = tri.neighbors[idxs_tri]
-            idxs_tri_neighbors_to_use = empty(idxs_tri_neighbors.max()+1,-1,dtype=idxs_tri.dtype)
+            if self.idxs_tri_neighbors_to_use is None:
+                self.idxs_tri_neighbors_to_use = empty(tri.simplices.shape[0],-1,dtype=idxs_tri.dtype)
+            idxs_tri_neighbors_to_use = self.idxs_tri_neighbors_to_use
 
         for nn in range(len(idxs_tri)):
             if nn % progress_step == 0:
-- 
2.43.0


From ba33c1d95c286252859d14f3e19443dd75aada8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 17/44] fix: GRIB files that can't be indexed were read only
 once and always seemed to have a geopotential

---
 src/pyg2p/main/readers/grib.py | 57 ++++++++++++++--------------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index a4abd63..c6dcee1 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -81,27 +81,34 @@ class GRIBReader(Loggable):
             self._file_handler.close()
             self._file_handler = None
 
-    def has_geopotential(self):
-        has_geo = False
-        from pyg2p.main.config import GeopotentialsConfiguration
-        v_selected = GeopotentialsConfiguration.short_names
+    def _read_gids(self, short_names, perturbation_number=-1):
+        """Generator of handles of messages. They must be released by the caller."""
         if self._grbindx:
-            for v in v_selected:
+            for v in short_names:
                 codes_index_select(self._grbindx, 'shortName', str(v))
+                if perturbation_number != -1:
+                    codes_index_select(self._grbindx, 'perturbationNumber', int(perturbation_number))
                 while 1:
                     gid = codes_new_from_index(self._grbindx)
                     if gid is None:
                         break
-                    has_geo = True
-                    codes_release(gid)
-
+                    yield gid
         elif self._file_handler:
+            # messages are read from the beginning at each scan
+            self._file_handler.seek(0)
             while 1:
                 gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
                 if gid is None:
                     break
-                has_geo = True
-                codes_release(gid)
+                yield gid
+
+    def has_geopotential(self):
+        has_geo = False
+        from pyg2p.main.config import GeopotentialsConfiguration
+        v_selected = GeopotentialsConfiguration.short_names
+        for gid in self._read_gids(v_selected):
+            has_geo = has_geo or GRIBReader._find(gid, shortName=v_selected)
+            codes_release(gid)
         return has_geo
 
     def scan_grib(self, **kwargs):
@@ -110,30 +117,12 @@ class GRIBReader(Loggable):
         v_pert = kwargs.get('perturbationNumber', -1)
         if not utils.is_container(v_selected):
             v_selected = [v_selected]
-        if self._grbindx:
-            for v in v_selected:
-                codes_index_select(self._grbindx, 'shortName', str(v))
-                if v_pert != -1:
-                    codes_index_select(self._grbindx, 'perturbationNumber', int(v_pert))
-                while 1:
-                    gid = codes_new_from_index(self._grbindx)
-                    if gid is None:
-                        break
-                    if GRIBReader._find(gid, **kwargs):
-                        gribs.append(gid)
-                    else:
-                        # release unused grib
-                        codes_release(gid)
-        elif self._file_handler:
-            while 1:
-                gid = codes_new_from_file(self._file_handler, product_kind=CODES_PRODUCT_GRIB)
-                if gid is None:
-                    break
-                if GRIBReader._find(gid, **kwargs):
-                    gribs.append(gid)
-                else:
-                    # release unused grib
-                    codes_release(gid)
+        for gid in self._read_gids(v_selected, v_pert):
+            if GRIBReader._find(gid, **kwargs):
+                gribs.append(gid)
+            else:
+                # release unused grib
+                codes_release(gid)
         return gribs
 
     def _get_gids(self, **kwargs):
-- 
2.43.0


From 6b2d7882d6bc5068d446acaf4b8d6240e3e88111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 18/44] fix: messages and files were not released by failed
 executions and by the array API

---
 src/pyg2p/main/api.py                     | 16 ++++--
 src/pyg2p/main/manipulation/correction.py | 44 ++++++++--------
 src/pyg2p/main/readers/grib.py            | 61 +++++++++++++----------
 3 files changed, 71 insertions(+), 50 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 639e984..0d1335a 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -284,8 +284,20 @@ class Pyg2pApi:
         :return: dict of numpy values, keys are instances of  pyg2p.Step
         """
         grib_reader = GRIBReader(self.context.get('input.file'), w_perturb=self.context.has_perturbation_number)
-        grib_info = grib_reader.get_grib_info(self.context.create_select_cmd_for_aggregation_attrs())
+        try:
+            grib_info = grib_reader.get_grib_info(self.context.create_select_cmd_for_aggregation_attrs())
+        finally:
+            grib_reader.close()
         ctrl = Controller(self.context)
+        try:
+            out = self._execute(ctrl, grib_info)
+        finally:
+            ctrl.close()
+        out = collections.OrderedDict(sorted(out.items(), key=lambda item: int(item[0].end_step)))
+        self.values = out
+        return out
+
+    def _execute(self, ctrl, grib_info):
         ctrl.log_execution_context()
         values, self.messages, self.change_res_step = ctrl.execute(write_results=False)
         # need interpolation and correction
@@ -314,6 +326,4 @@ class Pyg2pApi:
             out_v = ma.masked_where(ma.getmaskarray(out_v) | (ma.getdata(out_v) == self.interpolator.mv_output), ma.getdata(out_v))
             out_v = self._mask_values(out_v)
             out[timestep] = out_v
-        out = collections.OrderedDict(sorted(out.items(), key=lambda item: int(item[0].end_step)))
-        self.values = out
         return out
diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 6504754..7b1ccb8 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -87,27 +87,29 @@ class Corrector(Loggable):
     def _read_geo(self, grib_file, ctx):
         is_grib_interpolation = ctx.is_with_grib_interpolation
         reader = GRIBReader(grib_file)
-        kwargs = {'shortName': GeopotentialsConfiguration.short_names}
-        geopotential_gribs = reader.select_messages(**kwargs)
-        missing = geopotential_gribs.missing_value
-        values = geopotential_gribs.first_resolution_values()[geopotential_gribs.first_step_range]
-        aux_g, aux_v, aux_g2, aux_v2 = reader.get_gids_for_grib_intertable()
-        interpolator = Interpolator(ctx, missing)
-        interpolator.aux_for_intertable_generation(aux_g, aux_v, aux_g2, aux_v2)
-
-        # get temp from geopotential. will be gem in the formula
-        # variables below are used by numexpr evaluation namespace: DO NOT DELETE!
-        mv = missing
-        z = values
-        ne.evaluate(self._numexpr_eval_gem, out=values)
-
-        if is_grib_interpolation:
-            values_resampled = interpolator.interpolate_grib(values, -1, self.grid_id)
-        else:
-            # FOR GEOPOTENTIALS, SOME GRIBS COME WITHOUT LAT/LON GRIDS!
-            lats, lons = geopotential_gribs.latlons
-            values_resampled = interpolator.interpolate_scipy(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
-        reader.close()
+        try:
+            kwargs = {'shortName': GeopotentialsConfiguration.short_names}
+            geopotential_gribs = reader.select_messages(**kwargs)
+            missing = geopotential_gribs.missing_value
+            values = geopotential_gribs.first_resolution_values()[geopotential_gribs.first_step_range]
+            aux_g, aux_v, aux_g2, aux_v2 = reader.get_gids_for_grib_intertable()
+            interpolator = Interpolator(ctx, missing)
+            interpolator.aux_for_intertable_generation(aux_g, aux_v, aux_g2, aux_v2)
+
+            # get temp from geopotential. will be gem in the formula
+            # variables below are used by numexpr evaluation namespace: DO NOT DELETE!
+            mv = missing
+            z = values
+            ne.evaluate(self._numexpr_eval_gem, out=values)
+
+            if is_grib_interpolation:
+                values_resampled = interpolator.interpolate_grib(values, -1, self.grid_id)
+            else:
+                # FOR GEOPOTENTIALS, SOME GRIBS COME WITHOUT LAT/LON GRIDS!
+                lats, lons = geopotential_gribs.latlons
+                values_resampled = interpolator.interpolate_scipy(lats, lons, values, self.grid_id, geopotential_gribs.grid_details)
+        finally:
+            reader.close()
         return interpolator.mv_output, values_resampled
 
     @staticmethod
diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index c6dcee1..5b14a4f 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -49,10 +49,12 @@ class GRIBReader(Loggable):
     @classmethod
     def get_id(cls, grib_file, reader_args):
         reader = GRIBReader(grib_file)
-        gribs_for_id = reader._get_gids(**reader_args)
-        grid = GribGridDetails(gribs_for_id[0])
-        reader.close()
-        return grid.grid_id
+        try:
+            # selected messages are released when the reader is closed
+            reader._selected_grbs = reader._get_gids(**reader_args)
+            return GribGridDetails(reader._selected_grbs[0]).grid_id
+        finally:
+            reader.close()
 
     @staticmethod
     def _find(gid, **kwargs):
@@ -117,12 +119,19 @@ class GRIBReader(Loggable):
         v_pert = kwargs.get('perturbationNumber', -1)
         if not utils.is_container(v_selected):
             v_selected = [v_selected]
-        for gid in self._read_gids(v_selected, v_pert):
-            if GRIBReader._find(gid, **kwargs):
-                gribs.append(gid)
-            else:
-                # release unused grib
-                codes_release(gid)
+        gid = None
+        try:
+            for gid in self._read_gids(v_selected, v_pert):
+                if GRIBReader._find(gid, **kwargs):
+                    gribs.append(gid)
+                else:
+                    # release unused grib
+                    codes_release(gid)
+                gid = None
+        except BaseException:
+            for g in gribs + [gid] if gid is not None else gribs:
+                codes_release(g)
+            raise
         return gribs
 
     def _get_gids(self, **kwargs):
@@ -231,24 +240,24 @@ class GRIBReader(Loggable):
 
     def get_grib_info(self, select_args):
         _gribs_for_utils = self._get_gids(**select_args)
-        if len(_gribs_for_utils) > 0:
-            # instant, avg, cumul. get last stepType available because first one is sometimes misleading
-            type_of_step = codes_get(_gribs_for_utils[-1], 'stepType')
-            self._mv = codes_get_double(_gribs_for_utils[0], 'missingValue')
-            start_grib, end_grib, self._step_grib, self._step_grib2, self._change_step_at = self._find_start_end_steps(_gribs_for_utils)
-            self._log("Grib input step %d [type of step: %s]" % (self._step_grib, type_of_step))
-            self._log('Gribs from %d to %d' % (start_grib, end_grib))
+        try:
+            if len(_gribs_for_utils) > 0:
+                # instant, avg, cumul. get last stepType available because first one is sometimes misleading
+                type_of_step = codes_get(_gribs_for_utils[-1], 'stepType')
+                self._mv = codes_get_double(_gribs_for_utils[0], 'missingValue')
+                start_grib, end_grib, self._step_grib, self._step_grib2, self._change_step_at = self._find_start_end_steps(_gribs_for_utils)
+                self._log("Grib input step %d [type of step: %s]" % (self._step_grib, type_of_step))
+                self._log('Gribs from %d to %d' % (start_grib, end_grib))
+                info = GRIBInfo(input_step=self._step_grib, input_step2=self._step_grib2,
+                                change_step_at=self._change_step_at, type_of_param=type_of_step,
+                                start=start_grib, end=end_grib, mv=self._mv)
+                return info
+            # no messages found
+            else:
+                raise ApplicationException.get_exc(NO_MESSAGES, details="using " + str(select_args))
+        finally:
             for g in _gribs_for_utils:
                 codes_release(g)
-            _gribs_for_utils = None
-            del _gribs_for_utils
-            info = GRIBInfo(input_step=self._step_grib, input_step2=self._step_grib2,
-                            change_step_at=self._change_step_at, type_of_param=type_of_step,
-                            start=start_grib, end=end_grib, mv=self._mv)
-            return info
-        # no messages found
-        else:
-            raise ApplicationException.get_exc(NO_MESSAGES, details="using " + str(select_args))
 
     def get_gids_for_grib_intertable(self):
         # returns gids of messages to use to create interpolation tables
-- 
2.43.0


From 421cb2900aafe22959aaa3319398bb9fa7455138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 19/44] fix: adding a geopotential could overwrite the file of
 another one or leave a partial copy

---
 src/pyg2p/main/config.py | 39 +++++++++++++++++++++++----------------
 src/pyg2p/util/files.py  | 16 ++++++++++++++++
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 6aca5be..ac8870a 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -279,24 +279,31 @@ class GeopotentialsConfiguration(BaseConfiguration):
     def add(self, filepath):
         args = {'shortName': self.short_names}
         id_ = GRIBReader.get_id(filepath, reader_args=args)
-        if id_ in self.vars:
-            raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
-                                               details=f'{id_} for file {self.vars[id_]}. '
-                                                       f'File was not added: {filepath}')
-
-        name = file_util.filename(filepath)
-        self.check_write()
-
-        file_util.copy(filepath, self.data_path)
-        self.user_vars[id_] = name
-        self.dump()
+        with self.locked():
+            if id_ in self.vars:
+                raise ApplicationException.get_exc(EXISTING_GEOPOTENTIAL,
+                                                   details=f'{id_} for file {self.vars[id_]}. '
+                                                           f'File was not added: {filepath}')
+
+            self.check_write()
+
+            name = file_util.filename(filepath)
+            i = 1
+            while name in self.vars.values():
+                # a geopotential of another grid has the same file name
+                name = f'{i}_{file_util.filename(filepath)}'
+                i += 1
+            file_util.copy_to(filepath, os.path.join(self.data_path, name))
+            self.user_vars[id_] = name
+            self.dump()
 
     def remove(self, filename):
-        for g in self.user_vars.keys():
-            if self.user_vars[g] == filename:
-                del self.user_vars[g]
-                self.dump()
-                break
+        with self.locked():
+            for g in self.user_vars.keys():
+                if self.user_vars[g] == filename:
+                    del self.user_vars[g]
+                    self.dump()
+                    break
 
     def get_filepath(self, grid_id, additional=None):
         filename = self.vars.get(grid_id)
diff --git a/src/pyg2p/util/files.py b/src/pyg2p/util/files.py
index 492f73a..18e2fce 100644
--- a/src/pyg2p/util/files.py
+++ b/src/pyg2p/util/files.py
@@ -1,6 +1,7 @@
 import re
 import shutil as sh
 import os
+import uuid
 from functools import partial
 
 
@@ -88,6 +89,21 @@ def copy(file_, to_dir, backup=False):
     sh.copy(file_, to_dir)
 
 
+def copy_to(file_, target_file):
+    # the file gets its name when it's complete
+    new_file = f'{target_file}.{uuid.uuid4().hex}.new'
+    try:
+        with open(file_, 'rb') as source, open(new_file, 'wb') as f:
+            sh.copyfileobj(source, f)
+            f.flush()
+            os.fsync(f.fileno())
+        sh.copymode(file_, new_file)
+        os.replace(new_file, target_file)
+    except BaseException:
+        delete_file(new_file)
+        raise
+
+
 def copy_dir(source_dir, target_dir, recreate=False):
     create_dir(target_dir, recreate=recreate)
     if is_dir(source_dir):
-- 
2.43.0


From be1560aaadcdf70c0fbbe96807676c86c8f311ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 20/44] fix: parallel interpolation with grib methods failed
 because workers had no access to the message

---
 src/pyg2p/main/interpolation/grib_interpolation_lib.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 6f4febb..6822773 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -11,7 +11,7 @@ from sys import stdout
 import eccodes
 import numexpr as ne
 import numpy as np
-from dask import bag
+from dask import bag, config as dask_config
 from dask.diagnostics import ProgressBar
 
 from ...util.generics import progress_step_and_backchar
@@ -168,7 +168,8 @@ def grib_nearest_parallel(gid, target_lats, target_lons, mv):
     apply_to_chunk_part = partial(apply_nearest_to_chunk, gid=gid, mv=mv)
     result = init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons)
     progress = ProgressBar(dt=10)
-    with progress:
+    # the GRIB message (gid) exists only in the memory of this process and in the one of its forks
+    with progress, dask_config.set({'multiprocessing.context': 'fork'}):
         result = result.compute()
     idxs, xs, ys = concatenate_nearest_result(nchunks, result)
     return xs, ys, idxs
@@ -214,7 +215,8 @@ def grib_invdist_parallel(gid, target_lats, target_lons, mv):
     result = init_parallel(apply_to_chunk_part, mv, nchunks, target_lats, target_lons)
 
     progress = ProgressBar(dt=10)
-    with progress:
+    # the GRIB message (gid) exists only in the memory of this process and in the one of its forks
+    with progress, dask_config.set({'multiprocessing.context': 'fork'}):
         result = result.compute()
     idxs1, idxs2, idxs3, idxs4, xs, ys, invs1, invs2, invs3, invs4 = concatenate_invdist_result(nchunks, result)
 
-- 
2.43.0


From 80bffb6ab1cd923189fa9e7e9dda75eac451f43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 21/44] fix: compressed tables registered without .gz were not
 found by grib interpolation methods

---
 src/pyg2p/main/interpolation/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index bfa5bf6..8f8231a 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -99,6 +99,9 @@ class Interpolator(Loggable):
                 tbl_fullpath = os.path.normpath(os.path.join(self._intertable_dirs['user'], filename))
                 tbl_fullpath = tbl_fullpath if tbl_fullpath.endswith('.gz') else tbl_fullpath + '.gz'
                 self._logger.warning(f'An entry in configuration was found for {filename} but intertable does not exist.')
+        if not pyg2p.util.files.exists(tbl_fullpath) and pyg2p.util.files.exists(tbl_fullpath + '.gz'):
+            # the file was compressed
+            tbl_fullpath += '.gz'
         return intertable_id, tbl_fullpath
 
     def _is_used(self, filename):
-- 
2.43.0


From a31e77d50628ce2b4a6840e0f139d25e09bb3bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:07 +0000
Subject: [PATCH 22/44] fix: write errors of netCDF output were not reported

---
 src/pyg2p/main/writers/netcdf.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index e5f91e6..b80fd33 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -7,7 +7,7 @@ from netCDF4 import Dataset, default_fillvals
 
 from pyg2p.main.readers.pcr import PCRasterReader
 from pyg2p.main.writers import Writer
-from pyg2p.exceptions import ApplicationException, INVALID_INTERPOL_METHOD
+from pyg2p.exceptions import ApplicationException, INVALID_INTERPOL_METHOD, OUTPUT_NOT_WRITTEN
 from pyg2p.main.readers.netcdf import NetCDFReader
 from netCDF4 import default_fillvals
 
@@ -183,10 +183,29 @@ class NetCDFWriter(Writer):
         masked = ma.filled(masked, mv)
         return masked
 
+    @staticmethod
+    def _stored_arrays(nf):
+        # arrays as they are stored (packed)
+        nf.set_auto_maskandscale(False)
+        return {name: variable[:] for name, variable in nf.variables.items()}
+
+    def _is_written(self, expected):
+        try:
+            with Dataset(self.filepath) as nf:
+                written = self._stored_arrays(nf)
+        except (OSError, RuntimeError):
+            return False
+        return written.keys() == expected.keys() and \
+            all(np.array_equal(written[name], array, equal_nan=array.dtype.kind == 'f') for name, array in expected.items())
+
     def close(self):
         if self.nf is None:
             # nothing was written
             return
         nf, self.nf = self.nf, None
+        expected = self._stored_arrays(nf)
         nf.close()
+        # not all write errors (full disk, I/O errors) are reported on closing: reading the file back does
+        if not self._is_written(expected):
+            raise ApplicationException.get_exc(OUTPUT_NOT_WRITTEN, self.filepath)
         self._log(f'{self.filepath} written!', 'INFO')
-- 
2.43.0


From 09c37544e49df08f7595b9841d37fe7f08cf4a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 23/44] fix: messages that could not be read through the index
 were silently left out

---
 src/pyg2p/main/readers/grib.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 5b14a4f..3035d0f 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -1,5 +1,6 @@
 import os
 import logging
+from collections import Counter
 
 from eccodes import (codes_is_defined,
                      codes_index_new_from_file, codes_new_from_index, codes_new_from_file, codes_index_select,
@@ -27,6 +28,7 @@ class GRIBReader(Loggable):
         self._grib_file = os.path.abspath(grib_file)
         self._file_handler = None
         self._grbindx = None
+        self._counts = None
         self._logger = logging.getLogger()
         self._log(f'Opening GRIBReader for {self._grib_file}')
 
@@ -90,11 +92,15 @@ class GRIBReader(Loggable):
                 codes_index_select(self._grbindx, 'shortName', str(v))
                 if perturbation_number != -1:
                     codes_index_select(self._grbindx, 'perturbationNumber', int(perturbation_number))
+                found = 0
                 while 1:
                     gid = codes_new_from_index(self._grbindx)
                     if gid is None:
                         break
+                    found += 1
                     yield gid
+                if found != self._count_messages(str(v), perturbation_number):
+                    raise IOError(f'Error reading messages of {v} from {self._grib_file}')
         elif self._file_handler:
             # messages are read from the beginning at each scan
             self._file_handler.seek(0)
@@ -104,6 +110,25 @@ class GRIBReader(Loggable):
                     break
                 yield gid
 
+    def _count_messages(self, short_name, perturbation_number=-1):
+        """Messages in file with given keys. codes_new_from_index returns None at the end of the index
+        but also when it can't read a message: what was read must be compared with this."""
+        if self._counts is None:
+            counts = Counter()
+            with open(self._grib_file, 'rb') as f:
+                while 1:
+                    gid = codes_new_from_file(f, product_kind=CODES_PRODUCT_GRIB, headers_only=True)
+                    if gid is None:
+                        break
+                    try:
+                        perturbation = codes_get(gid, 'perturbationNumber') if codes_is_defined(gid, 'perturbationNumber') else None
+                        counts[codes_get(gid, 'shortName'), perturbation] += 1
+                    finally:
+                        codes_release(gid)
+            self._counts = counts
+        return sum(n for (name, perturbation), n in self._counts.items()
+                   if name == short_name and perturbation_number in (-1, perturbation))
+
     def has_geopotential(self):
         has_geo = False
         from pyg2p.main.config import GeopotentialsConfiguration
-- 
2.43.0


From 44ed08c929ad2d416aa2e3d46d03bb0f86435fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 24/44] fix: user files that could not be accessed were taken
 for missing ones and replaced

---
 src/pyg2p/main/config.py | 13 +++++++------
 src/pyg2p/util/files.py  | 15 +++++++++++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index ac8870a..5091976 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -125,14 +125,14 @@ class BaseConfiguration(pyg2p.Loggable):
 
     def merge_with_user_conf(self):
         # it overwrites global config. If not config file for user is found, it creates an empty one.
-        if not file_util.exists(self.config_file):
+        try:
+            self.user_vars = self._load()
+            self._saved_vars = deepcopy(self.user_vars)
+        except FileNotFoundError:
             self.user_vars = {'description': self.description}
             if self.init_dict:
                 self.user_vars.update(self.init_dict)
             self.dump()
-        else:
-            self.user_vars = self._load()
-            self._saved_vars = deepcopy(self.user_vars)
         self.vars.update(self.user_vars)
 
     def _load(self, config_file=None):
@@ -165,9 +165,10 @@ class BaseConfiguration(pyg2p.Loggable):
                 self._is_locked = False
 
     def _refresh(self):
-        if not file_util.exists(self.config_file):
+        try:
+            current = self._load()
+        except FileNotFoundError:
             return
-        current = self._load()
         user_vars = {k: v for k, v in current.items() if k in self.user_vars or k not in self._saved_vars}
         user_vars.update({k: v for k, v in self.user_vars.items() if k not in self._saved_vars or self._saved_vars[k] != v})
         self.user_vars = user_vars
diff --git a/src/pyg2p/util/files.py b/src/pyg2p/util/files.py
index 18e2fce..3daf7ef 100644
--- a/src/pyg2p/util/files.py
+++ b/src/pyg2p/util/files.py
@@ -1,6 +1,8 @@
+import errno
 import re
 import shutil as sh
 import os
+import stat
 import uuid
 from functools import partial
 
@@ -26,7 +28,16 @@ def delete_files_from_dir(dir_path, prefix_=''):
 
 
 def exists(pathname, is_folder=False):
-    return os.path.exists(pathname) and (os.path.isdir(pathname) if is_folder else os.path.isfile(pathname))
+    try:
+        mode = os.stat(pathname).st_mode
+    except ValueError:
+        return False
+    except OSError as e:
+        if e.errno in (errno.ENOENT, errno.ENOTDIR, errno.EACCES, errno.ELOOP, errno.ENAMETOOLONG):
+            return False
+        # can't tell: saying that it doesn't exist could let others replace it
+        raise
+    return stat.S_ISDIR(mode) if is_folder else stat.S_ISREG(mode)
 
 
 def is_xml(pathname):
@@ -34,7 +45,7 @@ def is_xml(pathname):
 
 
 def is_conf(pathname):
-    return os.path.isfile(pathname) and pathname.endswith('.conf')
+    return pathname.endswith('.conf') and exists(pathname)
 
 
 def is_dir(pathname):
-- 
2.43.0


From 37eb082e6bec37c50cb06b648bd3882c3b62b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 25/44] fix: an interpolation table another run created in the
 meantime for other grids could be used

---
 src/pyg2p/main/interpolation/__init__.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/interpolation/__init__.py b/src/pyg2p/main/interpolation/__init__.py
index 8f8231a..9c5dcc1 100644
--- a/src/pyg2p/main/interpolation/__init__.py
+++ b/src/pyg2p/main/interpolation/__init__.py
@@ -109,6 +109,12 @@ class Interpolator(Loggable):
         names = (t.get('filename') for t in self.intertables_config.vars.values() if isinstance(t, dict))
         return filename in [f'{name}.gz' if not name.endswith('.gz') else name for name in names if name]
 
+    def _is_stored(self, intertable_id, tbl_fullpath):
+        # a file with the name chosen for a new intertable was created by another process in the meantime, for other grids
+        if not DEBUG_BILINEAR_INTERPOLATION and intertable_id not in self.intertables_config.vars:
+            return False
+        return pyg2p.util.files.exists(tbl_fullpath) or pyg2p.util.files.exists(tbl_fullpath + '.gz')
+
     @staticmethod
     def _file_version(tbl_fullpath):
         # a file that was replaced since it was loaded must be loaded again
@@ -239,8 +245,7 @@ class Interpolator(Loggable):
 
         nnear = self.scipy_modes_nnear[self._mode]
 
-        if (not DEBUG_ADW_INTERPOLATION) and \
-            (pyg2p.util.files.exists(intertable_name) or pyg2p.util.files.exists(intertable_name + '.gz')):
+        if (not DEBUG_ADW_INTERPOLATION) and self._is_stored(intertable_id, intertable_name):
                 indexes, weights = self._read_intertable(intertable_name)
                 result = self._interpolate_scipy_append_mv(v, weights, indexes, nnear)
 
@@ -287,7 +292,7 @@ class Interpolator(Loggable):
             intertable_id, intertable_name = self._intertable_filename(grid_id)
         result = np.empty(self._target_coords.lons.shape)
         result.fill(self.mv_out)
-        if gid == -1 and not pyg2p.util.files.exists(intertable_name):
+        if gid == -1 and not self._is_stored(intertable_id, intertable_name):
             # calling recursive grib_nearest
             # aux_gid and aux_values are only used to create the interlookuptable
             if is_second_res:
@@ -299,7 +304,7 @@ class Interpolator(Loggable):
                                   intertable_name=intertable_name, intertable_id=intertable_id)
             intertable_id, intertable_name = self._intertable_filename(grid_id)
 
-        if pyg2p.util.files.exists(intertable_name):
+        if self._is_stored(intertable_id, intertable_name):
             # interpolation using intertables
             xs, ys, idxs = self._read_intertable(intertable_name)
 
@@ -330,7 +335,7 @@ class Interpolator(Loggable):
         result.fill(self.mv_out)
 
         # check if gid is due to the recursive call
-        if gid == -1 and not pyg2p.util.files.exists(intertable_name):
+        if gid == -1 and not self._is_stored(intertable_id, intertable_name):
             # aux_gid and aux_values are only used to create the interlookuptable
             # since manipulated values messages don't have gid reference to grib file any longer
             aux_gid = self._aux_gid
@@ -342,7 +347,7 @@ class Interpolator(Loggable):
                                        intertable_id=intertable_id, is_second_res=is_second_res)
             intertable_id, intertable_name = self._intertable_filename(grid_id)
 
-        if pyg2p.util.files.exists(intertable_name):
+        if self._is_stored(intertable_id, intertable_name):
             # interpolation using intertables
             xs, ys, idxs1, idxs2, idxs3, idxs4, coeffs1, coeffs2, coeffs3, coeffs4 = self._read_intertable(intertable_name)
         elif self.create_if_missing:
-- 
2.43.0


From 21538712a2abe34419629a66106242442bbaeae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 26/44] fix: a global configuration that could not be read was
 taken for a missing one for the rest of the process

---
 src/pyg2p/main/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/config.py b/src/pyg2p/main/config.py
index 5091976..4419302 100644
--- a/src/pyg2p/main/config.py
+++ b/src/pyg2p/main/config.py
@@ -116,10 +116,10 @@ class BaseConfiguration(pyg2p.Loggable):
     def load_global(self):
         try:
             res = self._load(resource_stream(pyg2p.__name__, self.global_config_file))
-        except IOError:
+        except (FileNotFoundError, NotADirectoryError):
             try:
                 res = self._load(open(self.global_config_file_debug, 'r'))
-            except IOError:
+            except (FileNotFoundError, NotADirectoryError):
                 res = {}
         return res
 
-- 
2.43.0


From fbe2b2bdd6e2e990b24c59f443e7582197e784b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 27/44] fix: truncated PCRaster maps were read as if they were
 complete

---
 src/pyg2p/main/readers/pcr.py | 10 ++++++++++
 src/pyg2p/main/writers/pcr.py |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/pyg2p/main/readers/pcr.py b/src/pyg2p/main/readers/pcr.py
index 42c042a..4f50fca 100644
--- a/src/pyg2p/main/readers/pcr.py
+++ b/src/pyg2p/main/readers/pcr.py
@@ -1,3 +1,4 @@
+import os
 from pathlib import Path
 
 from osgeo import gdal
@@ -7,6 +8,7 @@ from pyg2p import Loggable
 
 
 class PCRasterReader(Loggable):
+    HEADER_SIZE = 256
 
     def __init__(self, pcr_map):
         super().__init__()
@@ -24,10 +26,18 @@ class PCRasterReader(Loggable):
         self._pxlH = self._geo_transform[5]
 
         self._band = self._dataset.GetRasterBand(1)
+        self.check_complete(pcr_map, self._dataset)
         self.min = self._band.GetMinimum()
         self.max = self._band.GetMaximum()
         self.mv = self._band.GetNoDataValue()
 
+    @classmethod
+    def check_complete(cls, pcr_map, dataset):
+        # GDAL doesn't report that cells are missing at the end of a truncated file
+        cell_size = gdal.GetDataTypeSize(dataset.GetRasterBand(1).DataType) // 8
+        if os.path.getsize(pcr_map) < cls.HEADER_SIZE + dataset.RasterXSize * dataset.RasterYSize * cell_size:
+            raise IOError(f'{pcr_map} is truncated')
+
     @property
     def values(self):
         data = self._band.ReadAsArray(0, 0, self._cols, self._rows)
diff --git a/src/pyg2p/main/writers/pcr.py b/src/pyg2p/main/writers/pcr.py
index 7fc2e63..c7b8466 100644
--- a/src/pyg2p/main/writers/pcr.py
+++ b/src/pyg2p/main/writers/pcr.py
@@ -3,6 +3,7 @@ import numpy.ma as ma
 import numpy as np
 
 from pyg2p.exceptions import ApplicationException, OUTPUT_NOT_WRITTEN
+from pyg2p.main.readers.pcr import PCRasterReader
 from pyg2p.main.writers import Writer
 
 
@@ -18,6 +19,7 @@ class PCRasterWriter(Writer):
         self._src_drv = gdal.GetDriverByName(self.FORMAT)
         self._src_drv.Register()
         self._src_ds = gdal.Open(self._clone_map.encode('utf-8'))
+        PCRasterReader.check_complete(self._clone_map, self._src_ds)
         self._src_band = self._src_ds.GetRasterBand(1)
 
         self._mem_ds = gdal.GetDriverByName('MEM').CreateCopy('mem', self._src_ds)
-- 
2.43.0


From 83428499a0492a165e91e2523f7301aac3869fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 28/44] fix: unit and type of step depended on the order of
 messages in the file

---
 src/pyg2p/main/readers/grib.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 3035d0f..bae651d 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -153,6 +153,8 @@ class GRIBReader(Loggable):
                     # release unused grib
                     codes_release(gid)
                 gid = None
+            # messages are used in order of steps, whatever their order in the file is
+            gribs.sort(key=lambda g: (codes_get(g, 'endStep'), codes_get(g, 'startStep')))
         except BaseException:
             for g in gribs + [gid] if gid is not None else gribs:
                 codes_release(g)
-- 
2.43.0


From 9e043bd683d6079cf288712641b760a2925e0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 29/44] fix: date of the first message was wrong or not
 readable for runs of 01:00 to 09:00

---
 src/pyg2p/main/readers/grib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index bae651d..2e32b9b 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -233,7 +233,7 @@ class GRIBReader(Loggable):
             if grid2:
                 key_2nd_spatial_res = min(all_values_second_res.keys())
                 grid.set_2nd_resolution(grid2, key_2nd_spatial_res)
-            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=str(data_time)[:2])
+            return Messages(all_values, missing_value, unit, type_of_level, type_of_step, step_units, grid, all_values_second_res, data_date=data_date, data_time=f'{data_time:04d}'[:2])
         # no messages found
         else:
             raise ApplicationException.get_exc(NO_MESSAGES, details=f'using {kwargs}')
-- 
2.43.0


From 7f83bb9c95b90b6d15f86f4a473c03aff3d554e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 30/44] fix: time step was not recognised in files having more
 levels or runs

---
 src/pyg2p/main/context.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 7d46c94..70d24d4 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -172,6 +172,10 @@ class Context:
         reader_arguments = {'shortName': str(self._vars['parameter.shortName'])}
         if self.has_perturbation_number:
             reader_arguments['perturbationNumber'] = self._vars['parameter.perturbationNumber']
+        # messages of other levels and runs would hide the time step of the selected ones
+        for key in ('level', 'dataTime', 'dataDate'):
+            if self._vars[f'parameter.{key}'] is not None:
+                reader_arguments[key] = self._vars[f'parameter.{key}']
         return reader_arguments
 
 
-- 
2.43.0


From 91090639c192276e30516c6c6fcbf66397548daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 31/44] fix: accumulation on steps finer than those of the
 messages failed or used the wrong messages

---
 src/pyg2p/main/manipulation/aggregator.py | 76 +++++++++--------------
 1 file changed, 28 insertions(+), 48 deletions(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 770f1ad..6720ee0 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -69,6 +69,31 @@ class Aggregator(Loggable):
         gc.collect()
         return res
 
+    def _accumulated_at(self, v_ord, step):
+        """
+        Values accumulated from step 0 to given step, interpolated between the nearest messages if there is none at that step.
+        :param v_ord: values by end step, in order of steps
+        """
+        if step in v_ord or step < 0:
+            return v_ord[step]
+        v_ord_keys = list(v_ord.keys())
+        ind_next_ts = bisect.bisect_left(v_ord_keys, step)
+        next_ts = v_ord_keys[ind_next_ts]
+        # variables needed for numexpr evaluator namespace. DO NOT DELETE!!!
+        v_nts_ma = v_ord[next_ts]
+        if ind_next_ts > 0:
+            originalts = v_ord_keys[ind_next_ts - 1]
+            v_ots_ma = v_ord[originalts]
+        else:
+            # message 0 not in dataset: nothing is accumulated yet
+            originalts = 0
+            v_ots_ma = np.zeros(v_nts_ma.shape)
+        if step == originalts:
+            return v_ots_ma
+        self._log(f'Creating message grib[{step}]=grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({step}-{originalts})/({next_ts}-{originalts}))')
+        v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((step - originalts)/(next_ts-originalts))')
+        return ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
+
     def _accumulation(self, values):
 
         out_values = {}
@@ -83,63 +108,18 @@ class Aggregator(Loggable):
             self._log('start 0: change to the first timestep {}'.format(self._aggregation_step))
             self._start = self._aggregation_step
 
-        created_zero_array = False
         for iter_ in range(self._start, self._end + 1, self._aggregation_step):
-            v_ord_keys = list(v_ord.keys())
-            if iter_ not in v_ord_keys:
-
-                ind_next_ts = bisect.bisect_left(v_ord_keys, iter_)
-                next_ts = v_ord_keys[ind_next_ts]
-                v_nts_ma = v_ord[next_ts]
-
-                ind_originalts = bisect.bisect_right(v_ord_keys, iter_)
-                if ind_originalts == ind_next_ts:
-                    ind_originalts -= 1
-                originalts = v_ord_keys[ind_originalts]
-                v_ots_ma = v_ord[originalts]
-
-                if self._logger.isEnabledFor(logging.DEBUG):
-                    self._log(f'Message {iter_} not in {v_ord_keys}.')
-                    self._log(f'Creating grib[{iter_}] as grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({iter_}-{originalts})/({next_ts}-{originalts}))')
-
-                v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((iter_ - originalts)/(next_ts-originalts))')
-                v_ord[iter_] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
-
-            if iter_ - self._aggregation_step >= 0 and iter_ - self._aggregation_step not in v_ord_keys and not created_zero_array:
-                ind_next_ts = bisect.bisect_left(v_ord_keys, iter_ - self._aggregation_step)
-                next_ts = v_ord_keys[ind_next_ts]
-
-                if iter_ - self._aggregation_step == 0:
-                    self._log('Message 0 not in dataset. Creating it as zero values array')
-                    v_ord[0] = np.zeros(shape_iter)
-                    originalts = 0  # do not delete: used by numexpr evaluation
-                    created_zero_array = True
-                else:
-                    v_nts_ma = v_ord[next_ts]
-                    ind_originalts = bisect.bisect_right(v_ord_keys, iter_ - self._aggregation_step)
-                    if ind_originalts == ind_next_ts:
-                        ind_originalts -= 1
-                    originalts = v_ord_keys[ind_originalts]
-                    # variables needed for numexpr evaluator namespace
-                    v_ots_ma = v_ord[originalts]
-
-                    if self._logger.isEnabledFor(logging.DEBUG):
-                        self._log(f'Creating message grib[{iter_ - self._aggregation_step}]=grib[{originalts}]+(grib[{next_ts}]-grib[{originalts}])*(({iter_}-{originalts})/({next_ts}-{originalts}))')
-                    v_out = ne.evaluate('v_ots_ma + (v_nts_ma-v_ots_ma)*((iter_ - originalts)/(next_ts-originalts))')
-                    v_ord[iter_ - self._aggregation_step] = ma.masked_where(numeric.get_masks(v_ots_ma, v_nts_ma), v_out, copy=False)
-
             if iter_ - self._aggregation_step == 0 and self._force_zero:
                 # forced ZERO array...instead of taking the grib
                 v_iter_1_ma = np.zeros(shape_iter)
             else:
                 # Take the 0 step grib.
-                # It could be created before as zero-array,
-                # if 0 step is not present in the grib dataset (see line 117)
-                v_iter_1_ma = v_ord[iter_ - self._aggregation_step]
+                # It is a zero-array, if 0 step is not present in the grib dataset
+                v_iter_1_ma = self._accumulated_at(v_ord, iter_ - self._aggregation_step)
 
             # variables needed for numexpr evaluator namespace. DO NOT DELETE!!!
             # need to create the out array first as zero array, for issue in missing values for certain gribs
-            v_iter_ma = np.zeros(shape_iter) + v_ord[iter_]
+            v_iter_ma = np.zeros(shape_iter) + self._accumulated_at(v_ord, iter_)
             _unit_time = self._unit_time
             _aggr_step = self._aggregation_step
             key = Step(iter_ - self._aggregation_step, iter_, resolution, self._aggregation_step, level)
-- 
2.43.0


From 4f06a0c0b2627184328009a2a11b844fc0be8d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 32/44] fix: grib_invdist cells on a grid point were missing
 when the first value of the grid was

---
 src/pyg2p/main/interpolation/grib_interpolation_lib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/interpolation/grib_interpolation_lib.py b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
index 6822773..e54234f 100644
--- a/src/pyg2p/main/interpolation/grib_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/grib_interpolation_lib.py
@@ -134,9 +134,10 @@ def _compute_coeffs_and_idxs(n_nearest):
     inv3 = (1 / n_nearest[2]['distance']) if not exact_position else 0
     inv4 = (1 / n_nearest[3]['distance']) if not exact_position else 0
     idx1 = n_nearest[0]['index'] if not exact_position else n_nearest[exact_position_idx]['index']
-    idx2 = n_nearest[1]['index'] if not exact_position else 0
-    idx3 = n_nearest[2]['index'] if not exact_position else 0
-    idx4 = n_nearest[3]['index'] if not exact_position else 0
+    # not to an unrelated point: if its value is missing, the result would be missing in spite of the weight 0
+    idx2 = n_nearest[1]['index'] if not exact_position else idx1
+    idx3 = n_nearest[2]['index'] if not exact_position else idx1
+    idx4 = n_nearest[3]['index'] if not exact_position else idx1
     return inv1, inv2, inv3, inv4, idx1, idx2, idx3, idx4
 
 
-- 
2.43.0


From 911a62a87d9adb3c58736651bc38ed46c52def6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 33/44] fix: maps were left out for files having two
 resolutions: accumulations at the first one, last period at the second one

---
 src/pyg2p/main/controller.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index c1325c4..56e4d9f 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -114,8 +114,9 @@ class Controller(Loggable):
         if self.ctx.must_do_aggregation:
             if messages.have_resolution_change():
                 change_res_step = messages.change_resolution_step()
-                # First resolution manipulation by setting end step as start step of the first message at 2nd resolution
-                aggregator.change_end_step(int(change_res_step.start_step))
+                # First resolution manipulation by setting end step as end step of the first message at 2nd resolution
+                # (start step of accumulated messages is always 0)
+                aggregator.change_end_step(int(change_res_step.end_step))
             values = aggregator.do_manipulation(values)
 
         change_res_step = None
@@ -123,7 +124,7 @@ class Controller(Loggable):
             change_res_step = messages.change_resolution_step()
             start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
             # we need GRIB lats and lons only for scipy interpolation
-            if self.ctx.must_do_aggregation and end_step > start_step2:
+            if self.ctx.must_do_aggregation and end_step >= start_step2:
                 # second resolution manipulation
                 change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
 
-- 
2.43.0


From 79e29aa3641fb64bbe91f0c9f74f06005a8b68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 34/44] fix: files having two resolutions failed without
 aggregation and gave the common step twice with instantaneous values

---
 src/pyg2p/main/controller.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 56e4d9f..88ff515 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -68,9 +68,16 @@ class Controller(Loggable):
                         end_step=end_step, unit_time=self.ctx.get('outMaps.unitTime'), mv_grib=mv_grib,
                         force_zero_array=self.ctx.get('aggregation.forceZeroArray'))
         values2 = m2.do_manipulation(messages.second_resolution_values())
-        values.update(values2)
         # overwrite change_step resolution because of manipulation
-        change_step = sorted(values2.keys(), key=lambda k: int(k.end_step))[0]
+        return self._add_2nd_res_values(values, values2, messages.change_resolution_step())
+
+    @staticmethod
+    def _add_2nd_res_values(values, values2, change_step):
+        # steps the two resolutions have in common are already there
+        steps = {int(k.end_step) for k in values}
+        values2 = {k: v for k, v in values2.items() if int(k.end_step) not in steps}
+        values.update(values2)
+        change_step = min(values2.keys(), key=lambda k: int(k.end_step), default=change_step)
         return change_step, values
 
     def read_2nd_res_messages(self, cmd_args, messages):
@@ -122,11 +129,14 @@ class Controller(Loggable):
         change_res_step = None
         if messages.have_resolution_change():
             change_res_step = messages.change_resolution_step()
-            start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
             # we need GRIB lats and lons only for scipy interpolation
-            if self.ctx.must_do_aggregation and end_step >= start_step2:
-                # second resolution manipulation
-                change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
+            if not self.ctx.must_do_aggregation:
+                change_res_step, values = self._add_2nd_res_values(values, messages.second_resolution_values(), change_res_step)
+            else:
+                start_step2 = int(change_res_step.end_step) + int(self.ctx.get('aggregation.step'))
+                if end_step >= start_step2:
+                    # second resolution manipulation
+                    change_res_step, values = self.second_res_manipulation(start_step2, end_step, input_step, messages, mv_grib, values)
 
         # cutoff after interpolation
         if converter and converter.must_cut_off:
-- 
2.43.0


From 19753101f5b105b6657951261120614eaa2fa506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 35/44] fix: messages of the second input file after the end of
 the first one were ignored, if no end step was given

---
 src/pyg2p/main/controller.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 88ff515..b8cf068 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -38,6 +38,11 @@ class Controller(Loggable):
         # read grib messages
         start_step = self.ctx.get('parameter.tstart') or 0
         end_step = self.ctx.get('parameter.tend') or grib_info.end
+        if self.ctx.is_2_input_files:
+            self.grib_reader2 = GRIBReader(self.ctx.get('input.file2'), w_perturb=self.ctx.has_perturbation_number)
+            if not self.ctx.get('parameter.tend'):
+                grib_info2 = self.grib_reader2.get_grib_info(self.ctx.create_select_cmd_for_aggregation_attrs())
+                end_step = max(end_step, grib_info2.end)
 
         if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
             self.ctx.set_input_file_with_geopotential()
@@ -82,7 +87,6 @@ class Controller(Loggable):
 
     def read_2nd_res_messages(self, cmd_args, messages):
         # append messages
-        self.grib_reader2 = GRIBReader(self.ctx.get('input.file2'), w_perturb=self.ctx.has_perturbation_number)
         # messages.change_resolution() returns True after Messages.append_2nd_res_messages()
         mess_2nd_res = self.grib_reader2.select_messages(**cmd_args)
         messages.append_2nd_res_messages(mess_2nd_res)
-- 
2.43.0


From 9dea1e12569be865172c9d7e572b8cedb9715d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 36/44] fix: no output at all, if no message of the second
 input file was requested

---
 src/pyg2p/main/controller.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index b8cf068..44638fb 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -4,6 +4,7 @@ from .. import Loggable
 from ..main.manipulation.aggregator import Aggregator
 from ..main.readers.grib import GRIBReader
 from ..main.writers import OutputWriter
+from ..exceptions import ApplicationException, NO_MESSAGES
 
 from ..main.manipulation.conversion import Converter
 
@@ -88,7 +89,13 @@ class Controller(Loggable):
     def read_2nd_res_messages(self, cmd_args, messages):
         # append messages
         # messages.change_resolution() returns True after Messages.append_2nd_res_messages()
-        mess_2nd_res = self.grib_reader2.select_messages(**cmd_args)
+        try:
+            mess_2nd_res = self.grib_reader2.select_messages(**cmd_args)
+        except ApplicationException as exc:
+            if exc.code != NO_MESSAGES:
+                raise
+            # all requested steps are in the first file
+            return
         messages.append_2nd_res_messages(mess_2nd_res)
 
     def execute(self, write_results=True):
-- 
2.43.0


From 2f6e28cfbfcf5e5732981ac85f48e49339a2026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 37/44] fix: halfweights of averages was ignored by the API

---
 src/pyg2p/main/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 0d1335a..8b33483 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -217,6 +217,7 @@ class ApiContext(Context):
         if self.api_conf.get('Aggregation'):
             self._vars['aggregation.step'] = self.api_conf['Aggregation'].get('step')
             self._vars['aggregation.type'] = self.api_conf['Aggregation'].get('type')
+            self._vars['aggregation.halfweights'] = bool(self.api_conf['Aggregation'].get('halfweights'))
 
             self._vars['execution.doAggregation'] = bool(self._vars.get('aggregation.step')) and bool(self._vars.get('aggregation.type'))
             self._vars['aggregation.forceZeroArray'] = self._vars.get('aggregation.type') == ACCUMULATION and self.api_conf['Aggregation'].get('forceZeroArray', 'False').lower() not in strings.FALSE_STRINGS
-- 
2.43.0


From 2a09401920211fa1bfee80aece3ca65a361d0134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 38/44] fix: cells without coordinates got values of an
 unrelated point with scipy interpolation

---
 src/pyg2p/main/interpolation/scipy_interpolation_lib.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 6683ecb..286d905 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -605,6 +605,13 @@ class ScipyInterpolation(object):
         else:
             result, weights, indexes = self.interpolate_split(lonefas, latefas)
 
+        # cells without coordinates can't be interpolated
+        no_coords = [(coords <= -1.0e+10) | (coords == self._mv_target) for coords in (lonefas, latefas)]
+        no_coords = np.ma.filled(no_coords[0] | no_coords[1], True).ravel()
+        result[no_coords] = self._mv_target
+        weights[no_coords] = np.nan
+        indexes[no_coords] = self.z.size
+
         return result, weights, indexes
 
 
-- 
2.43.0


From fdeacb66ccd26578a14fe26e14af498b0b301228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 39/44] fix: message of the first resolution at the common step
 was left out if it came after the one of the second resolution in the file

---
 src/pyg2p/main/readers/grib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 2e32b9b..848ff81 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -225,9 +225,9 @@ class GRIBReader(Loggable):
                     bitmap = codes_get_array(g, 'bitmap', int)
                     values = ma.masked_where(bitmap == 0, values, copy=False)
 
-                if not grid2:
+                if points_meridian == grid.num_points_along_meridian:
                     all_values[step_key] = values
-                elif points_meridian != grid.num_points_along_meridian:
+                else:
                     all_values_second_res[step_key] = values
 
             if grid2:
-- 
2.43.0


From e42e136f1716d707491da44611fee15e45fb386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 40/44] fix: netCDF maps are closed when they have been read

The datasets were left to the garbage collector (they refer to themselves), and HDF5
answers from a file that is still open: a target replaced between two executions of
one process was read as it was before.
---
 src/pyg2p/main/interpolation/latlong.py                | 10 ++++++++--
 .../main/interpolation/scipy_interpolation_lib.py      |  5 ++++-
 src/pyg2p/main/readers/netcdf.py                       |  2 ++
 src/pyg2p/main/writers/netcdf.py                       | 10 ++++++++--
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/pyg2p/main/interpolation/latlong.py b/src/pyg2p/main/interpolation/latlong.py
index dc91d16..3f89578 100644
--- a/src/pyg2p/main/interpolation/latlong.py
+++ b/src/pyg2p/main/interpolation/latlong.py
@@ -20,7 +20,10 @@ class LatLong(Loggable):
                     f"lat map and long map should coincide when using netCDF target map, used {self._lat_map} amd {self._long_map}")
 
             reader = NetCDFReader(self._lat_map)
-            self.lats, self.lons = reader.get_lat_lon_values()
+            try:
+                self.lats, self.lons = reader.get_lat_lon_values()
+            finally:
+                reader.close()
             self.mv = default_fillvals[self.lats.dtype.str[1:]] # take missing values from the default netCDF fillvals values
 
             self._id = reader.identifier()
@@ -54,4 +57,7 @@ class Dem(Loggable):
         else:
             reader = PCRasterReader(self._dem_map)
         self.mv = reader.mv
-        self.values = reader.values
+        try:
+            self.values = reader.values
+        finally:
+            reader.close()
diff --git a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
index 286d905..e6d4c61 100644
--- a/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
+++ b/src/pyg2p/main/interpolation/scipy_interpolation_lib.py
@@ -845,7 +845,10 @@ class ScipyInterpolation(object):
                 else:
                     reader = PCRasterReader(cdd_map)
                 # CDD map values are in km, so convert to meters to compare with distances
-                CDD_map = reader.values * 1000
+                try:
+                    CDD_map = reader.values * 1000
+                finally:
+                    reader.close()
 
                 if DEBUG_BILINEAR_INTERPOLATION:
                     # target_lats=target_lats[1800-(9*20):1800-(-16*20), 3600+(-15*20):3600+(16*20)]
diff --git a/src/pyg2p/main/readers/netcdf.py b/src/pyg2p/main/readers/netcdf.py
index e27b95c..69dd254 100644
--- a/src/pyg2p/main/readers/netcdf.py
+++ b/src/pyg2p/main/readers/netcdf.py
@@ -68,6 +68,8 @@ class NetCDFReader(Loggable):
         return self._dataset.variables[self.label_lon][:].data
 
     def close(self):
+        if self._dataset is not None:
+            self._dataset.close()
         self._dataset = None
 
     def identifier(self):
diff --git a/src/pyg2p/main/writers/netcdf.py b/src/pyg2p/main/writers/netcdf.py
index b80fd33..cb8d489 100644
--- a/src/pyg2p/main/writers/netcdf.py
+++ b/src/pyg2p/main/writers/netcdf.py
@@ -25,7 +25,10 @@ class NetCDFWriter(Writer):
         lats_map, lons_map = args[1], args[2]
         if self._clone_map.endswith('.nc'):
             area = NetCDFReader(self._clone_map)
-            self.area = area.values
+            try:
+                self.area = area.values
+            finally:
+                area.close()
         else:
             area = PCRasterReader(self._clone_map)
             self.area = area.values
@@ -41,7 +44,10 @@ class NetCDFWriter(Writer):
                     f"lat map and long map should coincide when using netCDF target map, used {lats_map} amd {lons_map}")
 
             self.lats_map = NetCDFReader(lats_map)
-            self.lats, self.lons = self.lats_map.get_lat_lon_values()
+            try:
+                self.lats, self.lons = self.lats_map.get_lat_lon_values()
+            finally:
+                self.lats_map.close()
         else:
             self.lats_map = PCRasterReader(lats_map)
             coordinates_mv = self.lats_map.mv
-- 
2.43.0


From 5306e05d4de1f3297387c97d9955e00713370e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:03 +0000
Subject: [PATCH 41/44] fix: geopotential of an ensemble file was found only if
 it belonged to the requested member

---
 src/pyg2p/main/readers/grib.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index 848ff81..fd31ad2 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -4,7 +4,7 @@ from collections import Counter
 
 from eccodes import (codes_is_defined,
                      codes_index_new_from_file, codes_new_from_index, codes_new_from_file, codes_index_select,
-                     codes_index_release, codes_release,
+                     codes_index_get, codes_index_release, codes_release,
                      codes_get, codes_get_double_array, codes_get_double,
                      GribInternalError, codes_get_array, CODES_PRODUCT_GRIB)
 from numpy import ma
@@ -28,6 +28,7 @@ class GRIBReader(Loggable):
         self._grib_file = os.path.abspath(grib_file)
         self._file_handler = None
         self._grbindx = None
+        self._w_perturb = w_perturb
         self._counts = None
         self._logger = logging.getLogger()
         self._log(f'Opening GRIBReader for {self._grib_file}')
@@ -90,15 +91,16 @@ class GRIBReader(Loggable):
         if self._grbindx:
             for v in short_names:
                 codes_index_select(self._grbindx, 'shortName', str(v))
-                if perturbation_number != -1:
-                    codes_index_select(self._grbindx, 'perturbationNumber', int(perturbation_number))
                 found = 0
-                while 1:
-                    gid = codes_new_from_index(self._grbindx)
-                    if gid is None:
-                        break
-                    found += 1
-                    yield gid
+                for perturbation in self._perturbations(perturbation_number):
+                    if perturbation is not None:
+                        codes_index_select(self._grbindx, 'perturbationNumber', perturbation)
+                    while 1:
+                        gid = codes_new_from_index(self._grbindx)
+                        if gid is None:
+                            break
+                        found += 1
+                        yield gid
                 if found != self._count_messages(str(v), perturbation_number):
                     raise IOError(f'Error reading messages of {v} from {self._grib_file}')
         elif self._file_handler:
@@ -110,6 +112,15 @@ class GRIBReader(Loggable):
                     break
                 yield gid
 
+    def _perturbations(self, perturbation_number):
+        """Values of perturbationNumber to select in the index. None if it's not a key of the index"""
+        if perturbation_number != -1:
+            return [int(perturbation_number)]
+        if self._w_perturb:
+            # messages of all members and messages without a member ('undef')
+            return codes_index_get(self._grbindx, 'perturbationNumber', str)
+        return [None]
+
     def _count_messages(self, short_name, perturbation_number=-1):
         """Messages in file with given keys. codes_new_from_index returns None at the end of the index
         but also when it can't read a message: what was read must be compared with this."""
-- 
2.43.0


From af44907200d9104cd190b2a35ea9559b6222e6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:53 +0000
Subject: [PATCH 42/44] fix: cells missing in one message were missing in the
 averages of all periods

---
 src/pyg2p/main/manipulation/aggregator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyg2p/main/manipulation/aggregator.py b/src/pyg2p/main/manipulation/aggregator.py
index 6720ee0..79969bc 100644
--- a/src/pyg2p/main/manipulation/aggregator.py
+++ b/src/pyg2p/main/manipulation/aggregator.py
@@ -159,6 +159,7 @@ class Aggregator(Loggable):
                     iter_from = iter_ + 1
                     iter_to = iter_ + self._aggregation_step + 1
                 temp_sum = np.zeros(shape_iter)
+                used = []
                 sum_counter = 0.0
                 v_ord_keys = list(v_ord.keys())
 
@@ -184,6 +185,7 @@ class Aggregator(Loggable):
                                     print("Iterator: {} weight: {}".format(iterator_avg,dt1))
                                     sum_counter += dt1
                                 ne.evaluate('temp_sum + v_ma', out=temp_sum)
+                                used.append(v_ma)
                 else:
                     for iterator_avg in range(iter_from, iter_to, 1):
                         if iterator_avg in v_ord_keys:
@@ -201,6 +203,7 @@ class Aggregator(Loggable):
                             sum_counter += 1
                             print("Iterator: {} weight: 1".format(next_))
                         ne.evaluate('temp_sum + v_ma', out=temp_sum)
+                        used.append(v_ma)
 
                 # mask result with all maskes from GRIB original values used in average (if existing any)
                 # temp_sum = ma.masked_where(pyg2p.util.numeric.get_masks(v_ord.values()), temp_sum, copy=False)
@@ -208,7 +211,7 @@ class Aggregator(Loggable):
                 print("dividing sum by {}".format(sum_counter))
                 res = ne.evaluate('temp_sum/sum_counter')
                 # mask result with all maskes from GRIB original values used in average (if existing any)
-                out_values[key] = ma.masked_where(numeric.get_masks(*v_ord.values()), res, copy=False)
+                out_values[key] = ma.masked_where(numeric.get_masks(*used), res, copy=False)
                 if self._logger.isEnabledFor(logging.DEBUG):
                     self._log(f'out[{key}] = temp_sum/{sum_counter}')
 
-- 
2.43.0


From 9f43d44b3144ea488e821534fc8389e8e6b34a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:54 +0000
Subject: [PATCH 43/44] fix: requests for step 0 or time 0 were taken for
 requests without end step or time

---
 src/pyg2p/main/api.py        | 6 +++---
 src/pyg2p/main/context.py    | 8 ++++----
 src/pyg2p/main/controller.py | 6 ++++--
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/pyg2p/main/api.py b/src/pyg2p/main/api.py
index 8b33483..e0273d1 100644
--- a/src/pyg2p/main/api.py
+++ b/src/pyg2p/main/api.py
@@ -203,11 +203,11 @@ class ApiContext(Context):
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
-        if self._vars['parameter.tstart'] is None and self.api_conf['Parameter'].get('tstart'):
+        if self._vars['parameter.tstart'] is None and self.api_conf['Parameter'].get('tstart') not in (None, ''):
             self._vars['parameter.tstart'] = int(self.api_conf['Parameter']['tstart'])
-        if self._vars['parameter.tend'] is None and self.api_conf['Parameter'].get('tend'):
+        if self._vars['parameter.tend'] is None and self.api_conf['Parameter'].get('tend') not in (None, ''):
             self._vars['parameter.tend'] = int(self.api_conf['Parameter']['tend'])
-        if self._vars['parameter.dataTime'] is None and self.api_conf['Parameter'].get('dataTime'):
+        if self._vars['parameter.dataTime'] is None and self.api_conf['Parameter'].get('dataTime') not in (None, ''):
             self._vars['parameter.dataTime'] = int(self.api_conf['Parameter']['dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and self.api_conf['Parameter'].get('dataDate'):
             self._vars['parameter.dataDate'] = int(self.api_conf['Parameter']['dataDate'])  # date
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 70d24d4..3838fa3 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -125,7 +125,7 @@ class Context:
             self._vars['outMaps.unitTime'] = int(self._vars['outMaps.unitTime']) if self._vars['outMaps.unitTime'] is not None else self.default_values['outMaps.unitTime']
 
             # check tstart<=tend
-            if self._vars['parameter.tstart'] and self._vars['parameter.tend'] and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
+            if self._vars['parameter.tstart'] and self._vars['parameter.tend'] is not None and not self._vars['parameter.tstart'] <= self._vars['parameter.tend']:
                 raise ApplicationException.get_exc(1500)
 
             # check both correction params are present
@@ -408,11 +408,11 @@ class ExecutionContext(Context):
 
         # if start, end and dataTime are defined via command line input args, these are ignored.
         # if missing, GribReader will read all timesteps for the parameter
-        if self._vars['parameter.tstart'] is None and exec_conf['Parameter'].get('@tstart'):
+        if self._vars['parameter.tstart'] is None and exec_conf['Parameter'].get('@tstart') not in (None, ''):
             self._vars['parameter.tstart'] = int(exec_conf['Parameter']['@tstart'])
-        if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend'):
+        if self._vars['parameter.tend'] is None and exec_conf['Parameter'].get('@tend') not in (None, ''):
             self._vars['parameter.tend'] = int(exec_conf['Parameter']['@tend'])
-        if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime'):
+        if self._vars['parameter.dataTime'] is None and exec_conf['Parameter'].get('@dataTime') not in (None, ''):
             self._vars['parameter.dataTime'] = int(exec_conf['Parameter']['@dataTime'])  # number
         if self._vars['parameter.dataDate'] is None and exec_conf['Parameter'].get('@dataDate'):
             self._vars['parameter.dataDate'] = int(exec_conf['Parameter']['@dataDate'])  # date
diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index 44638fb..c98e844 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -38,10 +38,12 @@ class Controller(Loggable):
 
         # read grib messages
         start_step = self.ctx.get('parameter.tstart') or 0
-        end_step = self.ctx.get('parameter.tend') or grib_info.end
+        end_step = self.ctx.get('parameter.tend')
+        if end_step is None:
+            end_step = grib_info.end
         if self.ctx.is_2_input_files:
             self.grib_reader2 = GRIBReader(self.ctx.get('input.file2'), w_perturb=self.ctx.has_perturbation_number)
-            if not self.ctx.get('parameter.tend'):
+            if self.ctx.get('parameter.tend') is None:
                 grib_info2 = self.grib_reader2.get_grib_info(self.ctx.create_select_cmd_for_aggregation_attrs())
                 end_step = max(end_step, grib_info2.end)
 
-- 
2.43.0


From 95cff65b5158e57cbdac9e3921264fd5064d7f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:54 +0000
Subject: [PATCH 44/44] fix: second resolution was corrected with the input's
 geopotential of the first one

---
 src/pyg2p/__init__.py                     |  6 ++++++
 src/pyg2p/main/context.py                 |  8 +++++---
 src/pyg2p/main/controller.py              |  4 ++--
 src/pyg2p/main/manipulation/correction.py |  3 +++
 src/pyg2p/main/readers/grib.py            | 14 +++++++++-----
 5 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/pyg2p/__init__.py b/src/pyg2p/__init__.py
index 463f295..e9e0aa3 100644
--- a/src/pyg2p/__init__.py
+++ b/src/pyg2p/__init__.py
@@ -110,6 +110,12 @@ class GribGridDetails(Loggable):
         grid_id = f'{long_first}${long_last}${ni}${nj}${num_of_values}${self._grid_type}'
         return grid_id
 
+    @staticmethod
+    def without_values(grid_id):
+        # the number of values depends on missing ones
+        ids = grid_id.split('$')
+        return '$'.join(ids[:4] + ids[5:])
+
     def set_2nd_resolution(self, grid2nd, step_range_):
         self._log(f'Grib resolution changes at key {step_range_}')
         self._grid_details_2nd = grid2nd
diff --git a/src/pyg2p/main/context.py b/src/pyg2p/main/context.py
index 3838fa3..350df81 100644
--- a/src/pyg2p/main/context.py
+++ b/src/pyg2p/main/context.py
@@ -3,7 +3,7 @@ import ujson as json
 import os
 
 from . import Configuration
-from .. import __version__
+from .. import __version__, GribGridDetails
 from ..util import files, strings
 from .manipulation.aggregator import ACCUMULATION
 from ..exceptions import (ApplicationException, INVALID_INTERPOL_METHOD,
@@ -27,6 +27,7 @@ class Context:
         # init vars
         self.to_add_geopotential = False
         self.input_file_with_geopotential = None
+        self.input_geopotential_grids = ()
         self._vars = {}
 
     def _define_exec_params(self):
@@ -39,8 +40,9 @@ class Context:
     def get(self, param, default=None):
         return self._vars.get(param, default)
 
-    def set_input_file_with_geopotential(self):
+    def set_input_file_with_geopotential(self, grids):
         self.input_file_with_geopotential = self.get('input.file')
+        self.input_geopotential_grids = grids
 
     @property
     def is_with_grib_interpolation(self):
@@ -138,7 +140,7 @@ class Context:
 
     def geo_file(self, grid_id):
         path = self.input_file_with_geopotential
-        if not path:
+        if GribGridDetails.without_values(grid_id) not in self.input_geopotential_grids:
             path = self.configuration.geopotentials.get_filepath(grid_id, additional=self._vars['geopotential.dirs'].get('user'))
         return path
 
diff --git a/src/pyg2p/main/controller.py b/src/pyg2p/main/controller.py
index c98e844..87f448d 100644
--- a/src/pyg2p/main/controller.py
+++ b/src/pyg2p/main/controller.py
@@ -47,8 +47,8 @@ class Controller(Loggable):
                 grib_info2 = self.grib_reader2.get_grib_info(self.ctx.create_select_cmd_for_aggregation_attrs())
                 end_step = max(end_step, grib_info2.end)
 
-        if self.ctx.must_do_correction and self.grib_reader.has_geopotential():
-            self.ctx.set_input_file_with_geopotential()
+        if self.ctx.must_do_correction:
+            self.ctx.set_input_file_with_geopotential(self.grib_reader.geopotential_grids())
 
         if self.ctx.must_do_aggregation:
             aggregator = Aggregator(aggr_step=self.ctx.get('aggregation.step'),
diff --git a/src/pyg2p/main/manipulation/correction.py b/src/pyg2p/main/manipulation/correction.py
index 7b1ccb8..9b6d319 100644
--- a/src/pyg2p/main/manipulation/correction.py
+++ b/src/pyg2p/main/manipulation/correction.py
@@ -88,7 +88,10 @@ class Corrector(Loggable):
         is_grib_interpolation = ctx.is_with_grib_interpolation
         reader = GRIBReader(grib_file)
         try:
+            ni, nj = self.grid_id.split('$')[2:4]
             kwargs = {'shortName': GeopotentialsConfiguration.short_names}
+            # files having two resolutions can have a geopotential for each one
+            kwargs.update({key: int(n) for key, n in (('Ni', ni), ('Nj', nj)) if n != 'M'})
             geopotential_gribs = reader.select_messages(**kwargs)
             missing = geopotential_gribs.missing_value
             values = geopotential_gribs.first_resolution_values()[geopotential_gribs.first_step_range]
diff --git a/src/pyg2p/main/readers/grib.py b/src/pyg2p/main/readers/grib.py
index fd31ad2..e3afdae 100644
--- a/src/pyg2p/main/readers/grib.py
+++ b/src/pyg2p/main/readers/grib.py
@@ -140,14 +140,18 @@ class GRIBReader(Loggable):
         return sum(n for (name, perturbation), n in self._counts.items()
                    if name == short_name and perturbation_number in (-1, perturbation))
 
-    def has_geopotential(self):
-        has_geo = False
+    def geopotential_grids(self):
+        """Grids (see GribGridDetails.without_values), which the file has a geopotential for"""
+        grids = set()
         from pyg2p.main.config import GeopotentialsConfiguration
         v_selected = GeopotentialsConfiguration.short_names
         for gid in self._read_gids(v_selected):
-            has_geo = has_geo or GRIBReader._find(gid, shortName=v_selected)
-            codes_release(gid)
-        return has_geo
+            try:
+                if GRIBReader._find(gid, shortName=v_selected):
+                    grids.add(GribGridDetails.without_values(GribGridDetails(gid).grid_id))
+            finally:
+                codes_release(gid)
+        return grids
 
     def scan_grib(self, **kwargs):
         gribs = []
-- 
2.43.0


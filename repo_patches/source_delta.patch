From a7883ac288866d55af561965e943cac2223a03b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 01/37] fix: use a SciPy interpolator that still exists for
 topography (interp2d was removed in 1.14)

---
 pyowc/calibration.py | 13 ++++---------
 pyowc/helper.py      | 30 +++++++++++++++++++++++-------
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 9aabe35..4760979 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -9,7 +9,6 @@ import gsw
 import numpy as np
 
 from scipy.io import loadmat, savemat
-from scipy import interpolate
 
 from .core.stats import signal_variance, noise_variance, build_cov, fit_cond
 from .core.finders import find_besthist, find_25boxes, find_10thetas
@@ -17,7 +16,7 @@ from .data.wrangling import interp_climatology, map_data_grid
 from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locations, frontal_constraint_saf
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
-    check_and_make_numpy_arry, selected_historical_points
+    check_and_make_numpy_arry, selected_historical_points, topo_interpolator
 
 
 # pylint: disable=too-many-lines
@@ -174,12 +173,9 @@ def update_salinity_mapping(float_dir, config, float_name):
                                                          float_data['float_lat'] + 1,
                                                          config)
 
-            float_interp = interpolate.interp2d(float_x[0, :],
-                                                float_y[:, 0],
-                                                float_elev,
-                                                kind='linear')
+            float_interp = topo_interpolator(float_x, float_y, float_elev)
 
-            float_data['float_z'] = -float_interp(float_long_tbase, float_data['float_lat'])[0]
+            float_data['float_z'] = -float_interp(float_long_tbase, float_data['float_lat'])
 
             # gather data from area surrounding the float location
             wmo_numbers = find_25boxes(float_data['float_long'], float_data['float_lat'], wmo_boxes)
@@ -437,8 +433,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         elev, x_grid, y_grid = get_topo_grid(np.nanmin(long_1) - 1, np.nanmax(long_1) + 1,
                                              np.nanmin(lat) - 1, np.nanmax(lat) + 1, system_config)
 
-        grid_interp = interpolate.interp2d(x_grid[0, :], y_grid[:, 0],
-                                           elev, kind='linear')
+        grid_interp = topo_interpolator(x_grid, y_grid, elev)
 
         z_grid = []
         for i in range(long_1[0].__len__()):
diff --git a/pyowc/helper.py b/pyowc/helper.py
index 9672e85..1067253 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -5,7 +5,7 @@ from copy import deepcopy
 from pathlib import Path
 
 import numpy as np
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 from scipy.io import loadmat
 
 from .data.fetchers import get_topo_grid
@@ -179,6 +179,24 @@ def process_profiles_la_variables(data, float_level_count, profile_index):
     return data
 
 
+def topo_interpolator(grid_x, grid_y, grid_elev):
+    """ Linear interpolation of the elevation over the grids given by get_topo_grid
+
+        (scipy.interpolate.interp2d, used before, was removed in SciPy 1.14)
+
+    Parameters
+    ----------
+    grid_x : longitudes of the grid
+    grid_y : latitudes of the grid (from north to south)
+    grid_elev : elevation over the grid
+
+    Returns
+    -------
+    a function giving the elevation at each pair of longitude and latitude
+    """
+    return RectBivariateSpline(grid_x[0, :], np.flip(grid_y[:, 0]), np.flip(grid_elev, axis=0).T, kx=1, ky=1).ev
+
+
 def process_profiles_grid_variables(grid_data, config):
     """
 
@@ -205,14 +223,12 @@ def process_profiles_grid_variables(grid_data, config):
                                               np.amax(grid_data['grid_lat']) + 1,
                                               config)
 
-    grid_interp = interp2d(grid_x[0], grid_y[:, 0],
-                           grid_elev, kind='linear')
+    grid_interp = topo_interpolator(grid_x, grid_y, grid_elev)
 
-    # As a note, the reason we vectorise the function here is because we do not
-    # want to compare every longitudinal value to ever latitude. Rather, we simply
-    # want to interpolate each pair of longitudes and latitudes.
+    # As a note, we do not want to compare every longitudinal value to ever latitude.
+    # Rather, we simply want to interpolate each pair of longitudes and latitudes.
 
-    grid_z = -1 * np.vectorize(grid_interp)(grid_long_tbase, grid_data['grid_lat'])
+    grid_z = -1 * grid_interp(grid_long_tbase, grid_data['grid_lat'])
 
     grid_data['grid_z'] = grid_z
     grid_data['grid_x'] = grid_x
-- 
2.43.0


From 190de21c4d2c6cfee1e3ef3543ffa6054593ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 02/37] fix: interpolate between two scalar levels (ragged
 interp1d input fails with NumPy >= 1.24)

---
 pyowc/core/finders.py | 4 ++--
 pyowc/plot/plots.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 1e67149..dd0e072 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -639,7 +639,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
                     if pos_diff.__len__() > 0:
                         min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[pos_diff]))
-                        k_index = interval[min_diff]
+                        k_index = interval[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
@@ -649,7 +649,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
                     if neg_diff.__len__() > 0:
                         min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))
-                        k_index = interval[min_diff]
+                        k_index = interval[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 7f9d62b..648c80c 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -451,7 +451,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
                     if pos_diff.__len__() > 0:
                         min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[pos_diff]))
-                        k_index = inter[min_diff]
+                        k_index = inter[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
@@ -461,7 +461,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
                     if neg_diff.__len__() > 0:
                         min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))
-                        k_index = inter[min_diff]
+                        k_index = inter[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
-- 
2.43.0


From 49afd02e0ec93df7d3a0db63b71145e44c9374d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 03/37] fix: allow new profiles to be added to an already
 mapped float

---
 pyowc/helper.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index 1067253..5dcc803 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -34,6 +34,10 @@ def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
             float_mapped_data['la_map_sal_errors'] = float_mapped_data['la_mapsalerrors']
             float_mapped_data.pop('la_mapsalerrors')
 
+        # Check to see if this is an older version run without the saf constraint
+        if not "use_saf" in float_mapped_data:
+            float_mapped_data["use_saf"] = np.zeros(float_mapped_data['use_pv'].shape)
+
         # flatten the data
         float_mapped_data["la_profile_no"] = float_mapped_data['la_profile_no'].flatten()
         float_mapped_data["scale_long_large"] = float_mapped_data['scale_long_large'].flatten()
@@ -49,9 +53,11 @@ def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
         float_mapped_data["p_delta"] = float_mapped_data['p_delta'].flatten()
         float_mapped_data["p_exclude"] = float_mapped_data['p_exclude'].flatten()
 
-        # Check to see if this is an older version run without the saf constraint
-        if not "use_saf" in float_mapped_data:
-            float_mapped_data["use_saf"] = np.zeros(float_mapped_data['use_pv'].shape)
+        # the settings of each profile are lists, so that new profiles can be appended to them
+        for setting in ["scale_long_large", "scale_lat_large", "scale_long_small", "scale_lat_small",
+                        "scale_phi_large", "scale_phi_small", "scale_age_large", "scale_age_small",
+                        "use_pv", "use_saf", "p_delta", "p_exclude"]:
+            float_mapped_data[setting] = float_mapped_data[setting].tolist()
 
         # Get mapped data shape
         float_mapped_data["profile_index"] = float_mapped_data["la_mapped_sal"].shape[1]
-- 
2.43.0


From e593421683051846a74bea07fcf7991ea8805ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 04/37] fix: do not sort the columns of the mapped matrices
 twice The second sort undid or scrambled the first one, so that columns no
 longer belonged to the profile number they were stored under.

---
 pyowc/calibration.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 4760979..57f1cbe 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -339,11 +339,7 @@ def update_salinity_mapping(float_dir, config, float_name):
     # sort the data by profile number
     sorted_profile_index = data['la_profile_no'].argsort()
 
-    # finalise the data sorted by profile number, make data type numpy arrays
-    data = sort_numpy_array(data, sorted_profile_index, ['la_ptmp', 'la_mapped_sal',
-                                                         'la_map_sal_errors', 'la_noise_sal',
-                                                         'la_signal_sal'])
-    # check is numpy array
+    # make data type numpy arrays (everything is sorted by profile number, once, below)
     data = check_and_make_numpy_arry(data)
 
     # remove problem element from dic before genral sort
-- 
2.43.0


From 1758c88b113cd501514262bca519fcac64a1b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 05/37] fix: save a mapping for which no historical point was
 selected

---
 pyowc/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 57f1cbe..56189bc 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -345,6 +345,7 @@ def update_salinity_mapping(float_dir, config, float_name):
     # remove problem element from dic before genral sort
     selected_hist = data.pop('selected_hist')
 
+    selected_hist_1 = np.array(selected_hist)
     if len(selected_hist) > 0:
         selected_hist_1 = np.array(sorted(selected_hist, key=lambda x: x[2]))
 
-- 
2.43.0


From c41de0ff3702fd9ce33591868feede27fc067d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 06/37] fix: save and plot the mapping of a float from where it
 is loaded (float_dir)

---
 pyowc/calibration.py    | 2 +-
 pyowc/plot/dashboard.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 56189bc..b93479e 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -355,7 +355,7 @@ def update_salinity_mapping(float_dir, config, float_name):
     data['selected_hist'] = selected_hist_1
 
     # define the saving location
-    save_location = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
+    save_location = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'], float_dir,
                                       config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
 
     # save the data
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 3dadf17..f0d2143 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -27,7 +27,7 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
         Nothing, but will save the plots as PDFs
     """
 
-    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
+    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'], float_dir,
                                       config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
     float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                        float_name + config['FLOAT_SOURCE_POSTFIX']])
-- 
2.43.0


From 23a09a011cfeede45cdf56a2c794d108d194cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 07/37] fix: replace saved results atomically, so a failed or
 killed run does not destroy them

---
 pyowc/calibration.py   |  3 ++-
 pyowc/configuration.py |  4 +++-
 pyowc/utilities.py     | 38 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index b93479e..a9cb7cf 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -8,12 +8,13 @@ import copy
 import gsw
 import numpy as np
 
-from scipy.io import loadmat, savemat
+from scipy.io import loadmat
 
 from .core.stats import signal_variance, noise_variance, build_cov, fit_cond
 from .core.finders import find_besthist, find_25boxes, find_10thetas
 from .data.wrangling import interp_climatology, map_data_grid
 from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locations, frontal_constraint_saf
+from .utilities import savemat
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
     check_and_make_numpy_arry, selected_historical_points, topo_interpolator
diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 474fc36..1913bb8 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -4,7 +4,9 @@ import collections
 import os
 
 import numpy as np
-from scipy.io import loadmat, savemat
+from scipy.io import loadmat
+
+from .utilities import savemat
 
 
 def print_cfg(config):
diff --git a/pyowc/utilities.py b/pyowc/utilities.py
index cf10c7b..47d7ab9 100644
--- a/pyowc/utilities.py
+++ b/pyowc/utilities.py
@@ -2,7 +2,45 @@
 """
 
 import math
+import os
+
 import numpy as np
+from scipy import io
+
+def savemat(filename, data):
+    """ Save variables in a .mat file as scipy.io.savemat does, but all of them or nothing
+
+        The file is written under a temporary name, beside its final place, and takes its
+        final name when it is complete and on disk. A run which is stopped, or runs out of disk
+        space, while it saves its results does not damage the results saved by a previous run.
+
+        Parameters
+        ----------
+        filename: path of the .mat file
+        data: dictionary of the variables to save
+
+        Returns
+        -------
+        Nothing, but does save values
+    """
+    if not filename.endswith('.mat'):
+        filename += '.mat'
+
+    temporary = f"{filename}.{os.getpid()}.tmp"
+
+    try:
+        with open(temporary, 'wb') as mat_file:
+            io.savemat(mat_file, data)
+            mat_file.flush()
+            os.fsync(mat_file.fileno())
+
+        os.replace(temporary, filename)
+
+    except BaseException:
+        if os.path.exists(temporary):
+            os.remove(temporary)
+        raise
+
 
 #pylint: disable=too-many-arguments
 def spatial_correlation(
-- 
2.43.0


From c79cb02c2bfe22df41f479ed71cdcd4ca990d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 08/37] fix: use historical boxes which hold a single station
 or a single level Their arrays are squeezed when they are read, and the
 resulting error was swallowed: the box was silently left out.

---
 pyowc/data/fetchers.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index dc8e8a8..4b8b0e9 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -19,19 +19,36 @@ from ..utilities import wrap_longitude, change_dates
 from ..configuration import print_cfg
 
 
+def _read_mat_box(filepath):
+    """Read a box of historical data from disk, with one column per station whatever their number.
+
+    Arrays of a single station, or of a single level, are squeezed when they are read.
+    """
+    data = read_mat(filepath)
+
+    for name in ['lat', 'long', 'dates']:
+        data[name] = np.ravel(data[name])
+
+    for name in ['pres', 'temp', 'ptmp', 'sal']:
+        if name in data and np.ndim(data[name]) < 2:
+            data[name] = np.reshape(data[name], (-1, data['lat'].size))
+
+    return data
+
+
 @lru_cache()
 def read_mat_ctd(filepath):
     """Cache the result of reading a ctd .mat file from disk."""
-    return read_mat(filepath)
+    return _read_mat_box(filepath)
 
 
 @lru_cache()
 def read_mat_bottle(filepath):
     """Load and transform a bottle .mat file."""
-    data = read_mat(filepath)
+    data = _read_mat_box(filepath)
 
     # if data dimensions don't match, transpose to avoid indexing issues
-    if (data['lat'].size == data['pres'].size and data['lat'].shape[1] == data['pres'].shape[1]):
+    if data['pres'].shape[1] != data['lat'].size and data['pres'].shape[0] == data['lat'].size:
         data['pres'] = data['pres'].T
         data['ptmp'] = data['ptmp'].T
         data['sal'] = data['sal'].T
@@ -43,11 +60,12 @@ def read_mat_bottle(filepath):
 @lru_cache()
 def read_mat_argo(filepath, pa_float_name):
     """Load and transform an Argo .mat file."""
-    data = read_mat(filepath)
+    data = _read_mat_box(filepath)
     # remove the argo float being analysed from the data
+    source = np.atleast_1d(data['source'])
     not_use = []
     for i in range(0, data['lat'].__len__()):
-        if str(data['source'][i]).find(pa_float_name) != -1:
+        if str(source[i]).find(pa_float_name) != -1:
             not_use.append(i)
 
     data['lat'] = np.array(np.delete(data['lat'], not_use))
@@ -332,7 +350,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
 
                 if data:
                     # Sometimes the data comes in wrapped in as a 3d array, so convert to 2d
-                    if data['pres'].__len__() == 1:
+                    if data['pres'].ndim == 3:
                         data['pres'] = data['pres'][0]
                         data['sal'] = data['sal'][0]
                         data['ptmp'] = data['ptmp'][0]
-- 
2.43.0


From b8c7b24106bb7bda22e76f894b0a2603daeda9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 09/37] fix: keep the rest of a box when its first selected
 station has no usable level

---
 pyowc/data/fetchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 4b8b0e9..56c3f87 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -390,7 +390,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
 
                             # if the new data we are adding is longer than our columns, we need to
                             # fill in NaNs in the other columns
-                            if new_depth > max_depth != 0:
+                            if new_depth > max_depth and how_many_cols > 0:
                                 grid_pres = np.append(grid_pres, np.ones(
                                     (how_many_cols, new_depth - max_depth)) * np.nan, axis=1
                                                       ).reshape((how_many_cols, how_many_rows))
-- 
2.43.0


From 89c76953ba87aca53abad4eb1130ddd883903ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 10/37] fix: only a missing file means that a box has no
 historical data Every other error (input/output error, out of memory,
 interrupt by the user) was swallowed too, and the mapping went on without the
 box, or paired the selected stations with the data of other ones.

---
 pyowc/data/fetchers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 56c3f87..627a84a 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -24,6 +24,8 @@ def _read_mat_box(filepath):
 
     Arrays of a single station, or of a single level, are squeezed when they are read.
     """
+    # raises FileNotFoundError, and only in this case, if there is no file for this box
+    os.stat(filepath)
     data = read_mat(filepath)
 
     for name in ['lat', 'long', 'dates']:
@@ -271,7 +273,8 @@ def get_region_hist_locations(pa_wmo_numbers, pa_float_name, config):
                     grid_dates = np.concatenate([grid_dates, data['dates']])
                     data = []
 
-            except:
+            # there is no file for this box
+            except FileNotFoundError:
                 pass
 
     if grid_lat.__len__() == 0:
@@ -436,7 +439,8 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
                             max_depth = grid_pres.shape[1]
                             how_many_cols = grid_pres.shape[0]
 
-            except:
+            # there is no file for this box
+            except FileNotFoundError:
                 pass
 
     # convert longitude to 0 to 360 degrees
-- 
2.43.0


From 41766c4149d2f44b11db5c92ded80d364f740786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 11/37] fix: give the selected historical casts their own depth
 The depths were in the order of the selection, the casts in the order of the
 boxes, and casts without data were removed from the latter only.

---
 pyowc/calibration.py |  5 +++--
 pyowc/helper.py      | 18 ++++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index a9cb7cf..84a93c7 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -17,7 +17,7 @@ from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locat
 from .utilities import savemat
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
-    check_and_make_numpy_arry, selected_historical_points, topo_interpolator
+    check_and_make_numpy_arry, selected_historical_points, topo_interpolator, depth_of_casts
 
 
 # pylint: disable=too-many-lines
@@ -210,7 +210,8 @@ def update_salinity_mapping(float_dir, config, float_name):
                 # we can get the rest of the data from these casts
                 best_hist_data = get_region_data(wmo_numbers, float_name, config, index, float_data['float_pres'])
 
-                best_hist_data['grid_z'] = grid_data['grid_z'][index]
+                # neither the order nor, maybe, the number of these casts is the one of the indices
+                best_hist_data['grid_z'] = depth_of_casts(best_hist_data, grid_data)
 
                 # If we are near the Subantarctic Front we need to figure out if
                 # the profile is north or south of it. Then we should remove data not on
diff --git a/pyowc/helper.py b/pyowc/helper.py
index 5dcc803..3bb5410 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -244,6 +244,24 @@ def process_profiles_grid_variables(grid_data, config):
     return grid_data
 
 
+def depth_of_casts(cast_data, grid_data):
+    """ Depth of the ocean at the location of some of the historical casts
+
+    Parameters
+    ----------
+    cast_data : location of these casts
+    grid_data : variables of all the historical casts, after process_profiles_grid_variables
+
+    Returns
+    -------
+    the depth for each of these casts, in their order
+    """
+    cast_long_tbase = np.where(cast_data['grid_long'] > 180, cast_data['grid_long'] - 360, cast_data['grid_long'])
+    grid_interp = topo_interpolator(grid_data['grid_x'], grid_data['grid_y'], grid_data['grid_elev'])
+
+    return -1 * grid_interp(cast_long_tbase, cast_data['grid_lat'])
+
+
 # pylint: disable=too-many-arguments
 def process_profile_hist_variables(grid_data, float_pres, hist_interp_sal, hist_interp_pres, n_level, map_p_delta):
     """
-- 
2.43.0


From 5b479cbb9c0cc2c99d8458fea023cdeabce81d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 12/37] fix: let set_calseries add new profiles to an existing
 calseries file

---
 pyowc/configuration.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 1913bb8..a9b308a 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -178,7 +178,7 @@ def set_calseries(float_dir, float_name, system_config):
         try:
             use_percent_gt = calseries_data['use_percent_gt']
 
-        except NameError:
+        except KeyError:
             use_percent_gt = 0.5
 
         print("Using parameters found in ", calseries_filename,
@@ -232,9 +232,10 @@ def set_calseries(float_dir, float_name, system_config):
     # Add the missing profiles to the data set
     for i in range(missing_profiles_index.__len__()):
         missing = missing_profiles_index[i]
-        calib_profile_no.append(profile_no[missing])
         # set flag as the same as previous entry
-        calseries = np.append(calseries, calseries(max(missing - 1, 1)))
+        previous = np.argwhere(calib_profile_no == profile_no[max(missing - 1, 0)])
+        calseries = np.append(calseries, calseries[previous[0, 0] if previous.__len__() > 0 else 0])
+        calib_profile_no = np.append(calib_profile_no, profile_no[missing])
 
     # sort the calseries file by profile number
 
-- 
2.43.0


From 2460af4fc5c8b56331518945fa181985eefcccf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 13/37] fix: accept profiles with repeated pressures in the SAF
 frontal constraint

---
 pyowc/data/fetchers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 627a84a..ff5a9da 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -569,7 +569,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
         # Calculations for Argo float
         isok = np.argwhere((~np.isnan(float_pres)) & (~np.isnan(float_tmp)))
 
-        if not np.argwhere(np.diff(float_pres[isok].T) == 0) and (isok.__len__() > 2) and (
+        if not np.any(np.diff(float_pres[isok].T) == 0) and (isok.__len__() > 2) and (
                 np.min(float_pres[isok].T) < 300 < np.max(float_pres[isok].T)):
 
             # SAF:
@@ -651,7 +651,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
                     np.argwhere(~np.isnan(grid_pres[:, i]) & ~np.isnan(grid_sal[:, i]) & ~np.isnan(grid_ptmp[:, i])),
                     np.argwhere((np.diff(grid_pres[:, i])) != 0))
 
-                if not np.argwhere(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
+                if not np.any(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
                         np.min(grid_pres[isok, i]) < 300 < np.max(grid_pres[isok, i])):
                     t300 = np.interp(300, grid_pres[isok, i], grid_tmp[isok, i], left=np.nan, right=np.nan)
 
-- 
2.43.0


From 67e98dbb8665251e6124475f4ec5244b9ac25933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:31 +0000
Subject: [PATCH 14/37] fix: draw each plot in a figure of its own Without an
 interactive display figures stay open, and curves were added to the figures
 of previous floats.

---
 pyowc/plot/plots.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 648c80c..37a66e7 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -52,6 +52,7 @@ def trajectory_plot(bath, reef, floats, climatology, float_name, config):
         Nothing
     """
 
+    plt.figure()
     axes = plt.gca()
     axes.set_aspect(1)
 
@@ -224,8 +225,7 @@ def t_s_profile_plot(sal, ptmp, pres, sal_var, theta_levels, tlevels, plevels, f
         Nothing
     """
 
-    #plt.figure(1)
-    plt.figure(1, figsize=(7, 9))
+    plt.figure(figsize=(7, 9))
     # plot t-s profile
     plt.subplot(222)
 
@@ -630,7 +630,6 @@ def cal_sal_curve_plot(sal, cal_sal, cal_sal_err, sta_sal, sta_sal_err, sta_mean
 
         # vertically averaged salinity plot
         plt.subplot(212)
-        plt.figure(1)
 
         plt.plot(profile_no[0], avg_sal_offset, color=(0, 1, 0), linestyle='-', linewidth=2)
         good = np.argwhere(np.isfinite(avg_sta_offset))
-- 
2.43.0


From 650af602799e708cb2adb2458d105ced07c58618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 15/37] fix: calibrate a series without any fitted level (NaN)
 instead of crashing

---
 pyowc/core/stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index ac39a12..f8d80db 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -164,10 +164,10 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
         condslope = np.nan
         condslope_err = np.nan
-        time_deriv = np.nan
-        time_deriv_err = np.nan
-        sta_mean = np.nan
-        sta_rms = np.nan
+        time_deriv = np.ones((nfit, 1)) * np.nan
+        time_deriv_err = np.ones((nfit, 1)) * np.nan
+        sta_mean = np.ones((1, nfit)) * np.nan
+        sta_rms = np.ones((1, nfit)) * np.nan
         NDF = []
         fit_coef = []
         fit_breaks = []
-- 
2.43.0


From 5408201eeda9a0ae69c5f619cc89b3dff580db44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 16/37] fix: estimate the errors of a fit with break points
 np.concatenate was called without a sequence of arrays, and the initial
 guesses of every Monte Carlo loop were appended to those of the previous
 ones.

---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index f8d80db..a6d2f9f 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -545,6 +545,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 # give an initial guess as the fitted break points to speed up calculation
                 nbr = real_breaks.__len__()
                 b_g = np.concatenate(([-1], real_breaks))
+                ubrk_g = []
 
                 for n in range(nbr):
                     ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[nbr])))
@@ -555,7 +556,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk = optim['x'][0]
                 residual = optim['fun']
 
-                btem = np.concatenate([xfit[0]], breaks)
+                btem = np.concatenate(([xfit[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
                 ixb = sorter(btem, xfit)
-- 
2.43.0


From 7826dec1d425bbec3d36d07af0a013bdd5890cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 17/37] fix: save the break points of series which do not have
 the same number of them

---
 pyowc/calibration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 84a93c7..2ee58f4 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -714,6 +714,10 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                 if fit_breaks.__len__() > 0:
                     fbreaks.append(fit_breaks)
 
+    # the series may have different numbers of break points
+    max_fbreaks = max((len(fbreak) for fbreak in fbreaks), default=0)
+    fbreaks = [np.append(fbreak, np.ones(max_fbreaks - len(fbreak)) * np.nan) for fbreak in fbreaks]
+
     # save calibration data
 
     float_calib_name = (os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,
-- 
2.43.0


From 7a51261b37ffcc2786c6313c64aedf2c08b3b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 18/37] fix: calibrate with the break points prescribed in the
 calseries file

The prescribed points were passed as a column, and the time derivatives were not stored along the series.
---
 pyowc/calibration.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 2ee58f4..f41822d 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -649,7 +649,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
             else:
                 breaks_in = breaks[i, :]
-                breaks_in = breaks_in[np.argwhere(np.isfinite(breaks_in))]
+                breaks_in = breaks_in[np.isfinite(breaks_in)]
 
                 if max_breaks[i]:
                     (xfit, condslope, condslope_err,
@@ -663,8 +663,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                                       max_breaks[i][0])
                     pcond_factor[0][calindex] = condslope
                     pcond_factor_err[0][calindex] = condslope_err
-                    time_deriv[calindex] = time_deriv_temp
-                    time_deriv_err[calindex] = time_deriv_err_temp
+                    time_deriv[0][calindex] = time_deriv_temp.flatten()
+                    time_deriv_err[0][calindex] = time_deriv_err_temp.flatten()
                     sta_mean[0][calindex], = sta_mean_temp
                     sta_rms[0][calindex] = sta_rms_temp
 
@@ -678,8 +678,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                                       breaks_in)
                     pcond_factor[0][calindex] = condslope
                     pcond_factor_err[0][calindex] = condslope_err
-                    time_deriv[calindex] = time_deriv_temp
-                    time_deriv_err[calindex] = time_deriv_err_temp
+                    time_deriv[0][calindex] = time_deriv_temp.flatten()
+                    time_deriv_err[0][calindex] = time_deriv_err_temp.flatten()
                     sta_mean[0][calindex], = sta_mean_temp
                     sta_rms[0][calindex] = sta_rms_temp
 
-- 
2.43.0


From 34f39e79ba910a9bae10111fe487af6c5dc7e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 19/37] fix: do not use the boxes next to a pole several times

Boxes beyond the pole were replaced by the nearest ones, so that their casts were in the mapping two or three times.
---
 pyowc/core/finders.py  | 5 +++++
 pyowc/data/fetchers.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index dd0e072..383b3d5 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -420,6 +420,11 @@ def find_25boxes(pn_float_long, pn_float_lat, pa_wmo_boxes):
         ln_i = []
         for i in range(0, 5):
             for j in range(0, 5):
+                # there are no boxes beyond the poles
+                if abs(ln_y[i]) > 90:
+                    ln_i.append(np.nan)
+                    continue
+
                 ln_i.append(
                     nearest_neighbour(la_lookup_x, la_lookup_y, la_lookup_no, ln_x[j], ln_y[i])
                 )
diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index ff5a9da..f03cb3f 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -208,6 +208,11 @@ def get_data(wmo_box, data_type, config, pa_float_name):
     # warnings.warn("pa_float_name: %s (%s)" % (str(pa_float_name), type(pa_float_name)))
 
     data = []
+
+    # there is no box here (beyond a pole)
+    if np.isnan(wmo_box[0]):
+        return data
+
     box_name = str(int(wmo_box[0]))
     # check if we should use this data. If so, get the data
     if wmo_box[data_type] == 1 and data_type == 1:
-- 
2.43.0


From f49058359f91ce48489d09cc519a4d3322e21d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 20/37] fix: map a float east of Greenwich whose casts are all
 west of it

Longitudes of casts are continued beyond 360 as soon as there is one above 320, the one of the float was
only if a cast had been continued, leaving float and casts 360 degrees apart.
---
 pyowc/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index f41822d..0323992 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -195,7 +195,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
                 # make sure that the grid and float longitudes match at the 0-360 mark
                 float_long_0 = float_data['float_long']
-                if np.argwhere(grid_long > 360).__len__() > 0:
+                if np.argwhere(grid_long >= 320).__len__() > 0:
                     if 0 <= float_data['float_long'] <= 20:
                         float_long_0 += 360
 
@@ -224,7 +224,7 @@ def update_salinity_mapping(float_dir, config, float_name):
                         best_hist_data.update(best_hist_data_2)
 
                 # make the float longitude wrap around the 0-360 mark if the historical data has
-                if np.argwhere(best_hist_data['grid_long'] > 360).__len__() > 0:
+                if np.argwhere(best_hist_data['grid_long'] >= 320).__len__() > 0:
                     if 0 <= float_data['float_long'] <= 20:
                         float_data['float_long'] += 360
 
-- 
2.43.0


From 9f8c0c2a0e24761be6b279de039ba1385c143ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 21/37] fix: rank the historical casts by their own potential
 vorticity

The scale and the two potential vorticities were passed to the correlation in the wrong order.
---
 pyowc/core/finders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 383b3d5..0113253 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -190,7 +190,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         correlation_large = spatial_correlation_vec(remain_hist_long, long, longitude_large,
                                                     remain_hist_lat, lat, latitude_large,
                                                     remain_hist_dates, date, age_large,
-                                                    pv_hist, pv_float, phi_large)
+                                                    phi_large, pv_hist, pv_float)
 
         correlation_large_sorted = correlation_large.argsort()
 
@@ -235,7 +235,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
                                                     lat, latitude_small,
                                                     s_remain_hist_dates,
                                                     date, age_small,
-                                                    pv_hist, pv_float, phi_small)
+                                                    phi_small, pv_hist, pv_float)
 
         correlation_small_sorted = correlation_small.argsort()
 
-- 
2.43.0


From 493393588a7383496239712af3d430adc02ce5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 22/37] fix: add profiles to a mapping which has more levels
 than the float source

---
 pyowc/helper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index 3bb5410..5a14071 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -162,6 +162,9 @@ def process_profiles_la_variables(data, float_level_count, profile_index):
     -------
 
     """
+    # the data mapped by previous runs may have more levels than the float source has now
+    float_level_count = max(float_level_count, data['la_ptmp'].shape[0])
+
     # if we are inserting changing a column in existing data
     if profile_index < data['la_ptmp'].shape[1]:
         data['la_ptmp'][:, profile_index] = np.nan * np.ones(float_level_count)
-- 
2.43.0


From ed46785c85e10c1e88b5efcd2a752a9b6ac6212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 23/37] fix: find no theta levels in a series without a valid
 theta range instead of crashing

---
 pyowc/core/finders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 0113253..1272bcf 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -555,6 +555,9 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
             sal[i[0], i[1]] = np.nan
             ptmp[i[0], i[1]] = np.nan
 
+    # there are no levels without a valid theta range
+    pres_levels = np.empty(0)
+
     # find minimum and maximum theta
     min_theta = np.ceil(np.nanmin(ptmp) * 10) / 10
     max_theta = np.floor(np.nanmax(ptmp) * 10) / 10
-- 
2.43.0


From 3b644867cccd8cc7dfeb3f0d9f76d63fe17b8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 24/37] fix: calibrate (NaN) a float without any mapped level
 instead of crashing

---
 pyowc/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 0323992..5d7d763 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -416,6 +416,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     selected_hist = float_mapped_data['selected_hist']
 
     # retrieve XYZ of float position used to build covariance
+    coord_float = np.ones((profile_no.size, 3)) * np.nan
     if selected_hist.__len__() > 0:
         if long.shape[0] > 1:
             long = long.flatten()
-- 
2.43.0


From b36e702e72b04a74132fa8e67c54efa1b3dee5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 25/37] fix: apply the fitted line where it was fitted if a
 series starts with profiles without data The line was shifted to the first
 profile of the series, so all factors of the series were wrong.

---
 pyowc/core/stats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index a6d2f9f..6601724 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -493,10 +493,11 @@ def fit_cond(x, y, n_err, lvcov, *args):
     P_2 = np.diag(P)
 
     # reduce matrix to have only one value per profile
-    btem = np.concatenate(([xfit[0]], breaks))
+    # (profiles before the first good point belong to the first segment)
+    btem = np.concatenate(([xf[0]], breaks))
     E = np.zeros((xfit.__len__(), best))
     E[:, 0] = np.ones((xfit.__len__(), 1)).T
-    ixb = sorter(btem, xfit)
+    ixb = np.maximum(sorter(btem, xfit), 0)
 
     if best >= 2:
         for j in range(best - 1):
@@ -556,10 +557,10 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk = optim['x'][0]
                 residual = optim['fun']
 
-                btem = np.concatenate(([xfit[0]], breaks))
+                btem = np.concatenate(([xf[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
-                ixb = sorter(btem, xfit)
+                ixb = np.maximum(sorter(btem, xfit), 0)
 
                 for j in range(best - 1):
                     # pointer to x values greater than break point j
-- 
2.43.0


From 67bc7618b0cf4f5edac66d993350d7e357460fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 26/37] fix: find theta levels in a layer thinner than 10 dbar
 instead of crashing

---
 pyowc/core/finders.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 1272bcf..2b389cd 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -574,7 +574,12 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
         # check we can get 10 theta levels. If not, alter pressure increment
         if pres_levels.__len__() < no_levels:
             increment = np.floor((max_pres - min_pres) / no_levels)
-            pres_levels = np.arange(min_pres, max_pres, increment)
+
+            # a layer can be too thin for levels in whole decibars
+            if increment == 0:
+                pres_levels = np.linspace(min_pres, max_pres, no_levels, endpoint=False)
+            else:
+                pres_levels = np.arange(min_pres, max_pres, increment)
 
     # interpolate levels onto pressure increments
 
-- 
2.43.0


From d6592d9959062d91bfd4bf81a669860662a0dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 27/37] fix: leave out only measurements outside the bounds in
 plots of salinity on theta levels

The bounds were applied with lists of row and column numbers used as row
numbers: whole levels of all profiles vanished, or the plot crashed if the
float has more profiles than levels.
---
 pyowc/plot/plots.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 37a66e7..c2d65a6 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -353,7 +353,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_theta_lt.__len__() == 0 and use_theta_gt.__len__() > 0:
-        good = np.argwhere(ptmp < use_theta_gt)
+        good = ptmp < use_theta_gt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -368,10 +368,10 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
         if use_theta_lt < use_theta_gt:
             # exclude middle band
-            good = np.argwhere(np.logical_and(theta_range_lt, theta_range_gt))
+            good = np.logical_and(theta_range_lt, theta_range_gt)
 
         else:
-            good = np.argwhere(np.logical_or(theta_range_gt, theta_range_lt))
+            good = np.logical_or(theta_range_gt, theta_range_lt)
 
         pres[good] = np.nan
         sal[good] = np.nan
@@ -382,7 +382,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_pres_lt.__len__() > 0 and use_pres_gt.__len__() == 0:
-        good = np.argwhere(pres > use_pres_lt)
+        good = pres > use_pres_lt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -392,7 +392,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_pres_lt.__len__() == 0 and use_pres_gt.__len__() > 0:
-        good = np.argwhere(pres < use_pres_gt)
+        good = pres < use_pres_gt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -407,10 +407,10 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
         if use_pres_lt < use_pres_gt:
             # exclude middle band
-            good = np.argwhere(np.logical_and(pres_range_lt, pres_range_gt))
+            good = np.logical_and(pres_range_lt, pres_range_gt)
 
         else:
-            good = np.argwhere(np.logical_or(pres_range_gt, pres_range_lt))
+            good = np.logical_or(pres_range_gt, pres_range_lt)
 
         pres[good] = np.nan
         sal[good] = np.nan
-- 
2.43.0


From fd629d4300a78882532e844e823590938c1d2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 28/37] fix: map a float west of Greenwich whose casts are all
 east of it

The longitudes of casts are continued beyond 360 only if there is one above 320.  If all casts, or all selected
ones, are east of Greenwich, a float west of it was left 360 degrees away from them: no data was found, or the
covariances were those of casts on the other side of the globe.
---
 pyowc/calibration.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 5d7d763..8652e38 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -199,6 +199,10 @@ def update_salinity_mapping(float_dir, config, float_name):
                     if 0 <= float_data['float_long'] <= 20:
                         float_long_0 += 360
 
+                # (also if the float is west of this mark and the historical data is not)
+                elif float_data['float_long'] >= 320 and np.all(grid_long < 180):
+                    float_long_0 -= 360
+
                 index = find_besthist(grid_data['grid_lat'], grid_data['grid_long'], grid_data['grid_dates'],
                                       grid_data['grid_z'], float_data['float_lat'], float_long_0,
                                       float_data['float_date'], float_data['float_z'],
@@ -228,6 +232,9 @@ def update_salinity_mapping(float_dir, config, float_name):
                     if 0 <= float_data['float_long'] <= 20:
                         float_data['float_long'] += 360
 
+                elif float_data['float_long'] >= 320 and np.all(best_hist_data['grid_long'] < 180):
+                    float_data['float_long'] -= 360
+
                 # interpolate historical data onto float theta levels
                 hist_interp_sal, hist_interp_pres = interp_climatology(best_hist_data['grid_sal'],
                                                                        best_hist_data['grid_ptmp'],
-- 
2.43.0


From 4e96867bbe63fc887f3daec7c4496fd1714db82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 29/37] fix: map a profile whose only pressure is the first one

The positions of the pressures were tested for being non-zero, not for being there.
---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 8652e38..4a19294 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -159,7 +159,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
         # if we have any good location data and pressure data from the float
         if not np.isnan(float_data['float_long']) and not np.isnan(float_data['float_lat']) \
-                and np.argwhere(np.isnan(float_data['float_pres']) == 0).any():
+                and not np.all(np.isnan(float_data['float_pres'])):
 
             # tbase.int file requires longitudes from 0 to +/-180
             float_long_tbase = copy.deepcopy(float_data['float_long'])
-- 
2.43.0


From f34a474213144795874ce818ec8f87115385033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 30/37] fix: exclude the profiles without data, whatever the
 order of the source

The settings are sorted by profile number and keep profiles that are no longer in the source, but were indexed by
the position in the source: with an unsorted source, or after a profile was withdrawn, another profile was
excluded, and the one without data was not.
---
 pyowc/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index a9b308a..08f4dd9 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -258,7 +258,7 @@ def set_calseries(float_dir, float_name, system_config):
         if sal_nan.__len__() == 0 or \
                 temp_nan.__len__() == 0 or \
                 pres_nan.__len__() == 0:
-            calseries[i] = 0
+            calseries[calib_profile_no == profile_no[i]] = 0
 
     savemat(calseries_filename, {'breaks': breaks,
                                  'max_breaks': max_breaks,
-- 
2.43.0


From 7cf24827523efad2388c76016c665e0a68828b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 31/37] fix: pair source, mapping and settings by profile
 number in the calibration

The columns were paired by position.  With a source that is not in ascending order, with a profile that arrived
late or was withdrawn and a mapping or settings made before, the salinities of a profile were compared with the
mapped values, and calibrated with the flag, of another one, without any message.
---
 pyowc/calibration.py | 20 +++++++++++++++-----
 pyowc/helper.py      | 45 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+), 5 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 4a19294..9afbb05 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -17,7 +17,8 @@ from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locat
 from .utilities import savemat
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
-    check_and_make_numpy_arry, selected_historical_points, topo_interpolator, depth_of_casts
+    check_and_make_numpy_arry, selected_historical_points, topo_interpolator, depth_of_casts, \
+    sort_profiles, columns_of_profiles
 
 
 # pylint: disable=too-many-lines
@@ -401,7 +402,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     # load in the source data
     float_source_data_path = os.path.sep.join([system_config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                                float_name + system_config['FLOAT_SOURCE_POSTFIX']])
-    float_source_data = loadmat(float_source_data_path)
+    float_source_data = sort_profiles(loadmat(float_source_data_path))
 
     lat = float_source_data['LAT']
     long = float_source_data['LONG']
@@ -417,9 +418,11 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                                float_name + system_config['FLOAT_MAPPED_POSTFIX']])
     float_mapped_data = loadmat(float_mapped_data_path)
 
-    mapped_sal = float_mapped_data['la_mapped_sal']
-    mapsalerror = float_mapped_data['la_mapsalerrors']
-    mapped_ptmp = float_mapped_data['la_ptmp']
+    # (profiles which are not mapped yet are undefined)
+    mapped_no, n_level = float_mapped_data['la_profile_no'], sal.shape[0]
+    mapped_sal = columns_of_profiles(float_mapped_data['la_mapped_sal'], mapped_no, profile_no, n_level)
+    mapsalerror = columns_of_profiles(float_mapped_data['la_mapsalerrors'], mapped_no, profile_no, n_level)
+    mapped_ptmp = columns_of_profiles(float_mapped_data['la_ptmp'], mapped_no, profile_no, n_level)
     selected_hist = float_mapped_data['selected_hist']
 
     # retrieve XYZ of float position used to build covariance
@@ -562,10 +565,17 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
     # loop through sequences of calseries
 
+    # (profiles which are not in the settings yet belong to no sequence)
+    calseries = columns_of_profiles(calseries.reshape(1, -1), float_calseries['calib_profile_no'], profile_no)
+
     for i in range(n_seq):
         calindex = np.argwhere(calseries == unique_cal[i])[:, 1]
         k = calindex.__len__()
 
+        # none of the profiles of the sequence is in the source
+        if k == 0:
+            continue
+
         # chose 10 float theta levels to use for the piecewise linear fit
         unique_coord_float = coord_float[calindex, :]
         unique_sal = sal[:, calindex]
diff --git a/pyowc/helper.py b/pyowc/helper.py
index 5a14071..28edf9b 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -374,6 +374,51 @@ def sort_numpy_array(data, index, keys=None):
     return data
 
 
+def sort_profiles(float_data):
+    """ Put the profiles of a float in ascending order of profile number, which is the order of
+        the mapped data and of the calibration settings
+
+        Parameters
+        ----------
+        float_data: float source data
+
+        Returns
+        -------
+        The float source data, with sorted profiles
+    """
+    order = np.argsort(float_data['PROFILE_NO'].flatten(), kind='stable')
+
+    for key in ('LAT', 'LONG', 'DATES', 'PRES', 'TEMP', 'PTMP', 'SAL', 'PROFILE_NO'):
+        if key in float_data and float_data[key].shape[-1] == order.size:
+            float_data[key] = float_data[key][..., order]
+
+    return float_data
+
+
+def columns_of_profiles(values, stored_no, profile_no, n_level=0):
+    """ Pick the columns which belong to the given profiles
+
+        Parameters
+        ----------
+        values: matrix with one column per stored profile
+        stored_no: numbers of the stored profiles
+        profile_no: numbers of the wanted profiles
+        n_level: number of levels wanted at least
+
+        Returns
+        -------
+        Matrix with one column per wanted profile, NaN for profiles and levels which are not stored
+    """
+    stored = {number: i for i, number in enumerate(stored_no.flatten())}
+    columns = np.ones((max(values.shape[0], n_level), profile_no.size)) * np.nan
+
+    for i, number in enumerate(profile_no.flatten()):
+        if number in stored:
+            columns[:values.shape[0], i] = values[:, stored[number]]
+
+    return columns
+
+
 def selected_historical_points(data, hist_data, profile_index):
     """
 
-- 
2.43.0


From 6941518e0525a8d4a112f27a94f62ed2644ea454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 32/37] fix: pair source, mapping and calibration by profile
 number in the plots

---
 pyowc/plot/dashboard.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index f0d2143..7a297bd 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -9,6 +9,7 @@ import numpy as np
 from pyowc.plot.plots import theta_sal_plot, cal_sal_curve_plot, sal_var_plot, t_s_profile_plot, trajectory_plot, sal_anom_plot
 from pyowc.plot.utils import create_dataframe
 from pyowc.core.finders import find_10thetas
+from pyowc.helper import sort_profiles, columns_of_profiles
 
 
 #pylint: disable=too-many-locals
@@ -37,10 +38,17 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
                                        config['FLOAT_CALSERIES_PREFIX'] + float_name + config['FLOAT_SOURCE_POSTFIX']])
 
     grid_data = loadmat(grid_data_loc)
-    float_data = loadmat(float_data_loc)
+    float_data = sort_profiles(loadmat(float_data_loc))
     cal_data = loadmat(cal_data_loc)
     cal_series = loadmat(cal_series_loc)
 
+    # mapped and calibrated data of the profiles of the source
+    for data, number, keys in ((grid_data, 'la_profile_no', ('la_mapped_sal', 'la_ptmp', 'la_mapsalerrors')),
+                               (cal_data, 'PROFILE_NO', ('cal_SAL', 'cal_SAL_err', 'sta_SAL', 'sta_SAL_err',
+                                                         'sta_mean', 'pcond_factor', 'pcond_factor_err'))):
+        for key in keys:
+            data[key] = columns_of_profiles(data[key], data[number], float_data['PROFILE_NO'])
+
     float_long = float_data['LONG']
     float_long[float_long > 180] -= 360
 
-- 
2.43.0


From c36f3796ba4ae7c4d62db518453d3ca9ef5f3f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 33/37] fix: covariance of profiles on both sides of the
 Greenwich meridian in the calibration

---
 pyowc/calibration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 9afbb05..09c036b 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -437,6 +437,10 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         if np.any(long > 180):
             long_1 = copy.deepcopy(long) - 360
 
+            # the float is on both sides of the Greenwich meridian
+            if np.nanmax(long_1) - np.nanmin(long_1) > 180:
+                long_1[long_1 < -180] += 360
+
         else:
             long_1 = copy.deepcopy(long)
 
@@ -450,7 +454,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
             z_grid.append(grid_interp(long_1[0][i], lat[0][i]))
 
         z_grid = -np.array(z_grid)
-        coord_float = np.column_stack((long.T, lat.T, z_grid))
+        coord_float = np.column_stack((long_1.T, lat.T, z_grid))
 
     # load the calibration settings
     float_calseries_path = os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,
-- 
2.43.0


From a32b48781734ddd3148d833aa35bfa83d96ce662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 34/37] fix: a search for break points which the profiles do
 not determine fails the calibration

brk_pt_fit reported parameters of another shape when the determinant is zero
(which fit_cond cannot store), and failed when only the solver notices that the
matrix is singular.  Such a trial has no fit; the others are still possible.
---
 pyowc/core/stats.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 6601724..9c6c494 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -1033,19 +1033,24 @@ def brk_pt_fit(x_obvs, y_obvs, w_i, breaks=None):
     else:
         ls_est = np.dot(trends.T, trends)
 
-    if np.linalg.det(ls_est) == 0:
-        fit_param = np.zeros((b_length + 2, 1))
+    # calculate fit parameters
+    try:
+        if np.linalg.det(ls_est) == 0:
+            raise linalg.LinAlgError("DET(A) == 0")
+
+        if w_i.__len__() > 0:
+            fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)
+
+        else:
+            fit_param = linalg.solve(ls_est, np.dot(trends.T, y_obvs))
+
+    # the observations do not determine the parameters
+    except linalg.LinAlgError:
+        fit_param = np.zeros(b_length + 2)
         residual = y_obvs
         print("ERROR in brk_pt_fit: DET(A) == 0")
         return fit_param, residual
 
-    # calculate fit parameters
-    if w_i.__len__() > 0:
-        fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)
-
-    else:
-        fit_param = linalg.solve(ls_est, np.dot(trends.T, y_obvs))
-
 
     # calculate fit estimate
     residual = y_obvs - np.dot(trends, fit_param)
-- 
2.43.0


From 4fb51d86c9f1e0d260add23bb8d9430b06354789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:56 +0000
Subject: [PATCH 35/37] fix: the fit reported with searched break points is
 that of the last trial

least_squares does not end with an evaluation of its optimum: the criterion
was computed for the optimum, but the break points and parameters reported
were those of the trial evaluated last.
---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 9c6c494..58876bb 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -407,7 +407,8 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 optim = least_squares(nlbpfun, ubrk_g,
                                       method='lm', ftol=tol, max_nfev=max_fun_evals)
                 ubrk = optim['x'][0]
-                residual = optim['fun']
+                # break points and parameters of the optimum, not of the last trial
+                residual = nlbpfun(optim['x'])
 
             if breaks.__len__() > 0:
                 b_pts[0:nbr, nbr] = breaks.T
-- 
2.43.0


From 8d06d299f50801908e3ccdb10cc482a6e9005156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:07 +0000
Subject: [PATCH 36/37] fix: stages which know different levels are not cut to
 the levels of the source

A mapping (or calibration) of a source with more levels made the calibration
fail with an IndexError, one with fewer levels let levels which are not mapped
take part in the choice of theta levels of the plots.
---
 pyowc/helper.py         |  7 ++++---
 pyowc/plot/dashboard.py | 11 ++++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index 28edf9b..d7e6c38 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -403,18 +403,19 @@ def columns_of_profiles(values, stored_no, profile_no, n_level=0):
         values: matrix with one column per stored profile
         stored_no: numbers of the stored profiles
         profile_no: numbers of the wanted profiles
-        n_level: number of levels wanted at least
+        n_level: number of levels wanted (0: those which are stored)
 
         Returns
         -------
         Matrix with one column per wanted profile, NaN for profiles and levels which are not stored
     """
     stored = {number: i for i, number in enumerate(stored_no.flatten())}
-    columns = np.ones((max(values.shape[0], n_level), profile_no.size)) * np.nan
+    columns = np.ones((n_level or values.shape[0], profile_no.size)) * np.nan
+    common = min(columns.shape[0], values.shape[0])
 
     for i, number in enumerate(profile_no.flatten()):
         if number in stored:
-            columns[:values.shape[0], i] = values[:, stored[number]]
+            columns[:common, i] = values[:common, stored[number]]
 
     return columns
 
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 7a297bd..efaaff1 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -42,12 +42,13 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     cal_data = loadmat(cal_data_loc)
     cal_series = loadmat(cal_series_loc)
 
-    # mapped and calibrated data of the profiles of the source
-    for data, number, keys in ((grid_data, 'la_profile_no', ('la_mapped_sal', 'la_ptmp', 'la_mapsalerrors')),
-                               (cal_data, 'PROFILE_NO', ('cal_SAL', 'cal_SAL_err', 'sta_SAL', 'sta_SAL_err',
-                                                         'sta_mean', 'pcond_factor', 'pcond_factor_err'))):
+    # mapped and calibrated data of the profiles and levels of the source
+    n_level = float_data['PRES'].shape[0]
+    for data, number, keys, rows in ((grid_data, 'la_profile_no', ('la_mapped_sal', 'la_ptmp', 'la_mapsalerrors'), n_level),
+                                     (cal_data, 'PROFILE_NO', ('cal_SAL', 'cal_SAL_err', 'sta_SAL', 'sta_SAL_err'), n_level),
+                                     (cal_data, 'PROFILE_NO', ('sta_mean', 'pcond_factor', 'pcond_factor_err'), 1)):
         for key in keys:
-            data[key] = columns_of_profiles(data[key], data[number], float_data['PROFILE_NO'])
+            data[key] = columns_of_profiles(data[key], data[number], float_data['PROFILE_NO'], rows)
 
     float_long = float_data['LONG']
     float_long[float_long > 180] -= 360
-- 
2.43.0


From f322b6341310fc1d37f1b9000279da9b20989f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:45 +0000
Subject: [PATCH 37/37] fix: the starting script fails on a machine with one
 processor

---
 start_with_pycharm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/start_with_pycharm.py b/start_with_pycharm.py
index 38a33a7..d7464d2 100644
--- a/start_with_pycharm.py
+++ b/start_with_pycharm.py
@@ -16,7 +16,7 @@ if __name__ == '__main__':
 
     start = time.time()
 
-    pool = multiprocessing.Pool(multiprocessing.cpu_count() - 1)
+    pool = multiprocessing.Pool(max(1, multiprocessing.cpu_count() - 1))
     func = partial(owc.calibration.update_salinity_mapping, "/", USER_CONFIG)
     pool.map(func, FLOAT_NAMES)
     pool.close()
-- 
2.43.0


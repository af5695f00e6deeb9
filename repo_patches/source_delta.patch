From 6bc174a57780b161fea6d8838a715c863d92140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 01/50] fix: return masked data without overwriting the stored
 values

---
 GridProperty.py |  2 ++
 Shallot.py      | 14 +++++++-------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index c07972e..b6b968c 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -162,7 +162,9 @@ class GridProperty:
         masked = validate.boolean(masked, "masked")
         data = self.data
 
+        # mask a copy so that the stored data is not lost
         if masked and self.mask is not None:
+            data = np.copy(data)
             data[self.mask] = np.nan
         
         return data
diff --git a/Shallot.py b/Shallot.py
index d1a05a9..0949df5 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1031,7 +1031,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
-            disk_radius[combined_mask] = np.nan
+            disk_radius = np.where(combined_mask, np.nan, disk_radius)
         
         return disk_radius
 
@@ -1063,7 +1063,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
-            inclination[combined_mask] = np.nan
+            inclination = np.where(combined_mask, np.nan, inclination)
         
         return inclination
 
@@ -1094,7 +1094,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
-            tilt[combined_mask] = np.nan
+            tilt = np.where(combined_mask, np.nan, tilt)
 
         return tilt
 
@@ -1126,7 +1126,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
-            fx_map[combined_mask] = np.nan
+            fx_map = np.where(combined_mask, np.nan, fx_map)
 
         return fx_map
     
@@ -1158,7 +1158,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
-            fy_map[combined_mask] = np.nan
+            fy_map = np.where(combined_mask, np.nan, fy_map)
 
         return fy_map
 
@@ -1216,7 +1216,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
-            diagnostic_map[combined_mask] = np.nan
+            diagnostic_map = np.where(combined_mask, np.nan, diagnostic_map)
 
         return diagnostic_map
 
@@ -1796,7 +1796,7 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         if masked:
             combined_mask = self.get_combined_mask()
-            gradient_fit[combined_mask] = np.nan
+            gradient_fit = np.where(combined_mask, np.nan, gradient_fit)
 
         return gradient_fit
 
-- 
2.43.0


From d5fa0cc1dada4151802ad2f3ad2d913fb76cd563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 02/50] fix: save the grid diagnostics with the grid

---
 Shallot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 0949df5..3c3301e 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -209,7 +209,7 @@ class ShallotGrid:
                 gradient.save_gradient(directory)
 
         if self.diagnostics is not None:
-            self.diagnostics.save()
+            self.diagnostics.save(directory)
 
  
     def _load_grid_attributes(self, directory: str) -> None:
-- 
2.43.0


From 79e9012bf60b41d2ef6a83006c0b28ac8b126058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 03/50] fix: save and load every gradient of a grid in order

---
 GridProperty.py | 11 +++++++++--
 Shallot.py      | 29 ++++++++++++++---------------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index b6b968c..de952e4 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -521,7 +521,7 @@ class GridGradient(GridProperty):
         self.mask = mask.astype(bool)
 
  
-    def save_gradient(self, directory: str) -> None:
+    def save_gradient(self, directory: str, label: str = None) -> None:
         """
         This method saves all the information of this object to a specified
         directory.
@@ -530,9 +530,16 @@ class GridGradient(GridProperty):
         ----------
         directory : str
             File path for the saved information.
+        label : str
+            Distinguishes the gradients saved in the same directory
+            [default = None -> the position of the gradient].
         """
+        if label is None:
+            label = f"{self.position:.4f}"
+        label = validate.string(label, "label")
+
         # change the directory as there can be multiple gradients
-        gradient_directory = f"{directory}/gradient_{self.position:.4f}"
+        gradient_directory = f"{directory}/gradient_{label}"
         if not os.path.exists(gradient_directory):
             os.mkdir(gradient_directory)
 
diff --git a/Shallot.py b/Shallot.py
index 3c3301e..4122c65 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -205,8 +205,8 @@ class ShallotGrid:
         self.fy_map.save(directory)
 
         if self.gradients is not None:
-            for gradient in self.gradients:
-                gradient.save_gradient(directory)
+            for k, gradient in enumerate(self.gradients):
+                gradient.save_gradient(directory, f"{k:04d}")
 
         if self.diagnostics is not None:
             self.diagnostics.save(directory)
@@ -242,19 +242,18 @@ class ShallotGrid:
         except LoadError:
             self.logger.debug("no diagnostics found")
         
-        try:
-            self.gradients = []
-            files = os.listdir(directory)
-            
-            for f in files:
-                if os.path.splitext(f)[1] == "":
-                    gradient = GridGradient.load_gradient(f"{directory}/{f}")
-                    self.gradients.append(gradient)
-            
-            if len(self.gradients) == 0:
-                self.gradients = None
-        
-        except LoadError:
+        # sorted on the label to restore the order of the gradients
+        prefix = "gradient_"
+        names = [name for name in os.listdir(directory) 
+            if name.startswith(prefix) and 
+            os.path.isdir(f"{directory}/{name}")]
+        names.sort(key=lambda name: float(name[len(prefix):]))
+
+        self.gradients = None
+        if len(names) > 0:
+            self.gradients = [GridGradient.load(f"{directory}/{name}") 
+                for name in names]
+        else:
             self.logger.debug("no gradients found")
 
 
-- 
2.43.0


From 95a8c69adbf47c7571f9c7cd1ada0f9ea84cc9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 04/50] fix: do not ignore damaged diagnostics when loading a
 grid

---
 Shallot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 4122c65..5dde424 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -16,7 +16,6 @@ from GridDiagnostics import GridDiagnostics
 from GridPropertyName import GridPropertyName
 from GridPropertyUnit import GridPropertyUnit
 from GridProperty import GridProperty, GridGradient
-from errors import LoadError
 
 TEMP_SAVE_DIR = "./.temp_shallot"
 
@@ -237,9 +236,12 @@ class ShallotGrid:
         self.fy_map = GridProperty.load(directory, 
             GridPropertyName.FY_MAP, GridPropertyUnit.NONE)
         
-        try:
+        # only ignore the diagnostics if they were never saved
+        self.diagnostics = None
+        names = ["fy_dict", "disk_radius_dict", "max_yx"]
+        if any(os.path.exists(f"{directory}/{name}.npy") for name in names):
             self.diagnostics = GridDiagnostics.load(directory)
-        except LoadError:
+        else:
             self.logger.debug("no diagnostics found")
         
         # sorted on the label to restore the order of the gradients
-- 
2.43.0


From e24d80dfc5ff23a8fd3d96ffc4b55e5bfc19d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 05/50] fix: restore the eclipse parameters, gradient fit and
 colour maps of a saved grid

---
 Shallot.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index 5dde424..c01e55a 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -210,6 +210,14 @@ class ShallotGrid:
         if self.diagnostics is not None:
             self.diagnostics.save(directory)
 
+        if self.gradient_fit is not None:
+            self.gradient_fit.save(directory)
+
+        if self._eclipse_duration is not None:
+            np.save(f"{directory}/eclipse_parameters", 
+                np.array([self._eclipse_duration, self._transverse_velocity, 
+                self._limb_darkening]))
+
  
     def _load_grid_attributes(self, directory: str) -> None:
         """
@@ -258,6 +266,17 @@ class ShallotGrid:
         else:
             self.logger.debug("no gradients found")
 
+        self.gradient_fit = None
+        name = GridPropertyName.GRADIENT_FIT
+        unit = GridPropertyUnit.NONE
+        if os.path.exists(f"{directory}/{name.name}_{unit.name}.npy"):
+            self.gradient_fit = GridProperty.load(directory, name, unit)
+
+        if os.path.exists(f"{directory}/eclipse_parameters.npy"):
+            (self._eclipse_duration, self._transverse_velocity, 
+                self._limb_darkening) = np.load(
+                    f"{directory}/eclipse_parameters.npy").tolist()
+
 
     @classmethod
     def load(cls, 
@@ -294,6 +313,7 @@ class ShallotGrid:
 
         grid._extend_grid()
         grid.diagnose_fxfy_resolution()
+        grid._set_grid_property_contrast_parameters()
 
         return grid
 
-- 
2.43.0


From 72d598ffd169b62ae20b443657969a39bbb931b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 06/50] fix: remember on loading that saved diagnostics were
 extended

---
 GridDiagnostics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/GridDiagnostics.py b/GridDiagnostics.py
index 5f34617..2a5765b 100644
--- a/GridDiagnostics.py
+++ b/GridDiagnostics.py
@@ -190,7 +190,8 @@ class GridDiagnostics:
         np.save(f"{directory}/fy_dict", self._fy_dict)
         np.save(f"{directory}/disk_radius_dict", self._disk_radius_dict)
 
-        np.save(f"{directory}/max_yx", np.array([self._max_y, self._max_x]))
+        np.save(f"{directory}/max_yx", np.array([self._max_y, self._max_x,
+            self._extended]))
 
 
     @classmethod
@@ -220,9 +221,11 @@ class GridDiagnostics:
             grid_diagnostics._disk_radius_dict = np.load(
                 f"{directory}/disk_radius_dict.npy", allow_pickle=True).item()
             
-            max_y, max_x = np.load(f"{directory}/max_yx.npy")
+            # the extended flag is missing in older save files
+            max_y, max_x, *extended = np.load(f"{directory}/max_yx.npy")
             grid_diagnostics._max_x = max_x
             grid_diagnostics._max_y = max_y
+            grid_diagnostics._extended = any(extended)
         
         except Exception:
             raise LoadError("grid diagnostics", directory) 
-- 
2.43.0


From ebc54d79ba9bd570941928e89c8ffe8679a807bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 07/50] fix: keep the checkpoint of an intermittent build until
 it is completed

---
 Shallot.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index c01e55a..81fa2cf 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -309,7 +309,8 @@ class ShallotGrid:
         
         if os.path.exists(f"{directory}/y_value.npy"):
             y_value = np.load(f"{directory}/y_value.npy")[0]
-            grid._build_grid(intermittent_saving=True, start_y=y_value)
+            grid._build_grid(intermittent_saving=True, start_y=y_value, 
+                resume=True)
 
         grid._extend_grid()
         grid.diagnose_fxfy_resolution()
@@ -945,7 +946,8 @@ class ShallotGrid:
  
     def _build_grid(self, 
             intermittent_saving: bool, 
-            start_y: int = 0
+            start_y: int = 0,
+            resume: bool = False
         ) -> None:
         """
         This method is used to build the shallot grid. It does this grid point
@@ -962,6 +964,10 @@ class ShallotGrid:
         start_y : int
             This is the integer to start the y building of the grid at 
             [default = 0 --> new grid].
+        resume : bool
+            This is used to determine whether the build continues from a
+            checkpoint, which must be kept until the build is completed
+            [default = False].
         """
         # validate
         intermittent_saving = validate.boolean(intermittent_saving, 
@@ -973,7 +979,7 @@ class ShallotGrid:
         if start_y == 0:
             self._initialise_grid_properties()
 
-        if intermittent_saving:
+        if intermittent_saving and not resume:
             self._create_temp_save_dir()
 
         # extract parameters
@@ -1022,7 +1028,8 @@ class ShallotGrid:
                 self.save(TEMP_SAVE_DIR, y_value=y)
 
         self._set_grid_property_contrast_parameters()
-        self._delete_temp_save_dir()
+        if intermittent_saving:
+            self._delete_temp_save_dir()
 
  
     def get_disk_radius(self, 
-- 
2.43.0


From f78d402f3102e8962eb7ae45cb7a74b5c35937d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 08/50] fix: write saved arrays atomically so that
 interruptions never damage them

---
 GridDiagnostics.py | 10 ++++++----
 GridParameters.py  |  9 +++++----
 GridProperty.py    | 10 ++++++----
 Shallot.py         | 12 +++++++-----
 storage.py         | 28 ++++++++++++++++++++++++++++
 5 files changed, 52 insertions(+), 17 deletions(-)
 create mode 100644 storage.py

diff --git a/GridDiagnostics.py b/GridDiagnostics.py
index 2a5765b..accc879 100644
--- a/GridDiagnostics.py
+++ b/GridDiagnostics.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import os
 import numpy as np
 
+import storage
 import validate
 from errors import LoadError
 from GridParameters import GridParameters
@@ -187,11 +188,12 @@ class GridDiagnostics:
         if not os.path.exists(directory):
             os.mkdir(directory)
 
-        np.save(f"{directory}/fy_dict", self._fy_dict)
-        np.save(f"{directory}/disk_radius_dict", self._disk_radius_dict)
+        storage.save_array(f"{directory}/fy_dict", self._fy_dict)
+        storage.save_array(f"{directory}/disk_radius_dict", 
+            self._disk_radius_dict)
 
-        np.save(f"{directory}/max_yx", np.array([self._max_y, self._max_x,
-            self._extended]))
+        max_yx = np.array([self._max_y, self._max_x, self._extended])
+        storage.save_array(f"{directory}/max_yx", max_yx)
 
 
     @classmethod
diff --git a/GridParameters.py b/GridParameters.py
index 19dde72..0559922 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import os
 import numpy as np
 
+import storage
 import validate
 from errors import LoadError
 
@@ -263,10 +264,10 @@ class GridParameters:
         if not os.path.exists(directory):
             os.mkdir(directory)
 
-        np.save(f"{directory}/dx", self.dx)
-        np.save(f"{directory}/dy", self.dy)
-        np.save(f"{directory}/rf", self.rf)
-        np.save(f"{directory}/rf_array", self.rf_array)
+        storage.save_array(f"{directory}/dx", self.dx)
+        storage.save_array(f"{directory}/dy", self.dy)
+        storage.save_array(f"{directory}/rf", self.rf)
+        storage.save_array(f"{directory}/rf_array", self.rf_array)
 
 
     @classmethod
diff --git a/GridProperty.py b/GridProperty.py
index de952e4..8e4f15a 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -9,6 +9,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 
 # beyonce modules
+import storage
 import validate
 from errors import LoadError
 from GridParameters import GridParameters
@@ -301,11 +302,11 @@ class GridProperty:
             os.mkdir(directory)
 
         filename_data = f"{self.name.name}_{self.unit.name}"
-        np.save(f"{directory}/{filename_data}", self.data)
+        storage.save_array(f"{directory}/{filename_data}", self.data)
         
         if self.mask is not None:
             filename_mask = f"{filename_data}_mask"
-            np.save(f"{directory}/{filename_mask}", self.mask)
+            storage.save_array(f"{directory}/{filename_mask}", self.mask)
 
         self.grid_parameters.save(directory)
 
@@ -546,13 +547,14 @@ class GridGradient(GridProperty):
         self.save(gradient_directory)
 
         # save additional gradient information
-        np.save(f"{gradient_directory}/position", np.array([self.position]))
+        storage.save_array(f"{gradient_directory}/position", 
+            np.array([self.position]))
 
         if self.measured_gradient is not None:
             mask_values = np.array([self.measured_gradient, 
                 self.orbital_scale, self.transmission_change, 
                 self.measured_error])
-            np.save(f"{gradient_directory}/mask_values", mask_values)
+            storage.save_array(f"{gradient_directory}/mask_values", mask_values)
         
         self.grid_parameters.save(directory)
 
diff --git a/Shallot.py b/Shallot.py
index 81fa2cf..3e7c3c5 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -10,6 +10,7 @@ import numpy as np
 from tqdm import tqdm
 
 # beyonce modules
+import storage
 import validate
 from GridParameters import GridParameters
 from GridDiagnostics import GridDiagnostics
@@ -193,9 +194,9 @@ class ShallotGrid:
             y_upper_bound = len(self.parameters.dy.flatten())
             y_value = validate.number(y_value, "y_value", check_integer=True,
                 lower_bound=0, upper_bound=y_upper_bound)
-            np.save(f"{directory}/y_value", np.array([y_value]))
+            storage.save_array(f"{directory}/y_value", np.array([y_value]))
 
-        np.save(f"{directory}/num_fxfy", np.array([self.num_fxfy]))
+        storage.save_array(f"{directory}/num_fxfy", np.array([self.num_fxfy]))
         self.parameters.save(directory)
         self.disk_radius.save(directory)
         self.inclination.save(directory)
@@ -214,9 +215,10 @@ class ShallotGrid:
             self.gradient_fit.save(directory)
 
         if self._eclipse_duration is not None:
-            np.save(f"{directory}/eclipse_parameters", 
-                np.array([self._eclipse_duration, self._transverse_velocity, 
-                self._limb_darkening]))
+            eclipse_parameters = np.array([self._eclipse_duration, 
+                self._transverse_velocity, self._limb_darkening])
+            storage.save_array(f"{directory}/eclipse_parameters", 
+                eclipse_parameters)
 
  
     def _load_grid_attributes(self, directory: str) -> None:
diff --git a/storage.py b/storage.py
new file mode 100644
index 0000000..367bd0d
--- /dev/null
+++ b/storage.py
@@ -0,0 +1,28 @@
+"""
+This module is used to write arrays to disk such that an interrupted write
+never leaves a damaged file behind.
+"""
+
+import os
+import numpy as np
+
+
+def save_array(filepath: str, array: np.ndarray) -> None:
+    """
+    This function saves an array to {filepath}.npy. The array is written to a
+    temporary file first, which then replaces the proper file in one go. The
+    proper file is thus either the previous version or the complete new one.
+
+    Parameters
+    ----------
+    filepath : str
+        File path of the saved array excluding the extension.
+    array : np.ndarray
+        Array (or object) to be saved.
+    """
+    temporary_filepath = f"{filepath}.tmp"
+    
+    with open(temporary_filepath, "wb") as file:
+        np.save(file, array)
+
+    os.replace(temporary_filepath, f"{filepath}.npy")
-- 
2.43.0


From fd7c2318948e5bd9a25f6e7d6933efa52246497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 09/50] fix: use the actual dy of the grid points to determine
 the closest one

---
 Shallot.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 3e7c3c5..64bc95b 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -2009,26 +2009,16 @@ class ShallotGrid:
         grid_tilt = self.get_tilt(masked)
         
         # get grid parameters
-        dx = self.parameters.dx.flatten()
-        x_min, x_max = dx[0], dx[-1]
-        x_num = len(dx)
-        
-        dy = self.parameters.dy.flatten()
-        y_min, y_max = dy[0], dy[-1]
-        y_num = len(dy)
-
-        rf_array = self.parameters.rf_array
+        dy, dx, rf_array = self.parameters.get_vectors()
         
         # construct position grid
-        yy, xx = np.mgrid[:y_num, :x_num]
-        xx = xx / x_num * (x_max - x_min) + x_min
-        yy = yy / y_num * (y_max - y_min) + y_min
+        yy = np.repeat(dy[:, None], len(dx), 1)
 
         # ensure selecting the right portion of the grid
         if impact_parameter < 0:
-            yy[yy>0] = 1e7
+            yy[yy>0] = np.nan
         elif impact_parameter > 0:
-            yy[yy<0] = -1e7
+            yy[yy<0] = np.nan
 
         # determine the distance
         distance = np.sqrt(
-- 
2.43.0


From 247733eb76f04cdf366955d9b609966d74617bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 10/50] fix: treat tilts that differ by 180 degrees as equal
 for the closest grid point

---
 Shallot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 64bc95b..44f9562 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -2020,11 +2020,15 @@ class ShallotGrid:
         elif impact_parameter > 0:
             yy[yy<0] = np.nan
 
+        # a disk with its tilt changed by 180 degrees is the same disk
+        tilt_distance = np.mod(grid_tilt - tilt, 180)
+        tilt_distance = np.minimum(tilt_distance, 180 - tilt_distance)
+
         # determine the distance
         distance = np.sqrt(
             (grid_disk_radius - disk_radius)**2 + 
             (grid_inclination - inclination)**2 + 
-            (grid_tilt - tilt)**2 + 
+            tilt_distance**2 + 
             (yy[:, :, None] - impact_parameter)**2
         )
         
-- 
2.43.0


From 097164410bfe6d64710a1d021a2738c39105f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 11/50] fix: apply no mask at all to unmasked grid point
 queries

---
 Shallot.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 44f9562..6afbb86 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -2004,9 +2004,9 @@ class ShallotGrid:
         masked = validate.boolean(masked, "masked")
         
         # get sjalot parameters
-        grid_disk_radius = self.get_disk_radius(masked)
-        grid_inclination = self.get_inclination(masked)
-        grid_tilt = self.get_tilt(masked)
+        grid_disk_radius = self.get_disk_radius(masked, masked)
+        grid_inclination = self.get_inclination(masked, masked)
+        grid_tilt = self.get_tilt(masked, masked)
         
         # get grid parameters
         dy, dx, rf_array = self.parameters.get_vectors()
@@ -2112,18 +2112,21 @@ class ShallotGrid:
             lower_bound=0, upper_bound=max_rf)
 
         # disk information
-        disk_radius = self.get_disk_radius(masked)[y_index, x_index, rf_index]
-        inclination = self.get_inclination(masked)[y_index, x_index, rf_index]
-        tilt = self.get_tilt(masked)[y_index, x_index, rf_index]
+        disk_radius = self.get_disk_radius(masked, masked)[y_index, x_index, 
+            rf_index]
+        inclination = self.get_inclination(masked, masked)[y_index, x_index, 
+            rf_index]
+        tilt = self.get_tilt(masked, masked)[y_index, x_index, 
+            rf_index]
         dx = self.parameters.dx.flatten()[x_index]
         dy = self.parameters.dy.flatten()[y_index]
         disk_data = (disk_radius, inclination, tilt, dx, dy)
 
         # grid information
         rf = self.parameters.rf_array[rf_index]
-        fx = self.get_fx_map(masked)[y_index, x_index, rf_index]
-        fy = self.get_fy_map(masked)[y_index, x_index, rf_index]
-        diagnostic = self.get_diagnostic_map(masked)[y_index, x_index, 
+        fx = self.get_fx_map(masked, masked)[y_index, x_index, rf_index]
+        fy = self.get_fy_map(masked, masked)[y_index, x_index, rf_index]
+        diagnostic = self.get_diagnostic_map(masked, masked)[y_index, x_index, 
             rf_index]
         grid_data = (rf, fx, fy, diagnostic)
 
-- 
2.43.0


From c5c27d7647a39af9386ecf6d62fefa89f5a7b3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 12/50] fix: reject grid point indices just outside the grid

---
 Shallot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 6afbb86..4b8334e 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -2105,11 +2105,11 @@ class ShallotGrid:
         # validations
         max_y, max_x, max_rf = self.parameters.grid_shape
         y_index = validate.number(y_index, "y_index", check_integer=True, 
-            lower_bound=0, upper_bound=max_y)
+            lower_bound=0, upper_bound=max_y - 1)
         x_index = validate.number(x_index, "x_index", check_integer=True,
-            lower_bound=0, upper_bound=max_x)
+            lower_bound=0, upper_bound=max_x - 1)
         rf_index = validate.number(rf_index, "rf_index", check_integer=True,
-            lower_bound=0, upper_bound=max_rf)
+            lower_bound=0, upper_bound=max_rf - 1)
 
         # disk information
         disk_radius = self.get_disk_radius(masked, masked)[y_index, x_index, 
-- 
2.43.0


From 03afdbe4992492c0b99d68dad1fdce36c231804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 13/50] fix: use the y shift for the upper y limit of the ring
 system plot

---
 RingSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RingSystem.py b/RingSystem.py
index 645cb8c..cca8ab3 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -697,7 +697,7 @@ class RingSystem:
         # determine and set limits
         disk_radius = self.get_outer_radii()[-1]
         xlim = (x_shift - disk_radius - 2, x_shift + disk_radius + 2)
-        ylim = (y_shift - disk_radius - 2, x_shift + disk_radius + 2)
+        ylim = (y_shift - disk_radius - 2, y_shift + disk_radius + 2)
         ax.set_xlim(xlim)
         ax.set_ylim(ylim)
         
-- 
2.43.0


From 93e466ad7ddcdd41ea152cf233ae95059caade8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 14/50] fix: fit the plot limits of systems without rings or
 with a large planet

---
 RingSystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RingSystem.py b/RingSystem.py
index cca8ab3..bb06503 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -695,7 +695,8 @@ class RingSystem:
         ax.set_ylabel("$y [R_*]$")
 
         # determine and set limits
-        disk_radius = self.get_outer_radii()[-1]
+        radii = np.append(self.get_outer_radii(), self.planet_radius)
+        disk_radius = np.max(radii)
         xlim = (x_shift - disk_radius - 2, x_shift + disk_radius + 2)
         ylim = (y_shift - disk_radius - 2, y_shift + disk_radius + 2)
         ax.set_xlim(xlim)
-- 
2.43.0


From 522413326a0397bda7960266300a43e0508cabcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 15/50] fix: merge systems without rings and rings that touch
 exactly

---
 RingSystem.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/RingSystem.py b/RingSystem.py
index bb06503..78c5f10 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -570,17 +570,23 @@ class RingSystem:
             can vary from the outer radius of previous ring. This value is
             necessary due to e.g. floating point representations.
         """
+        tolerance = validate.number(tolerance, "tolerance", lower_bound=0.)
+
+        if self.get_num_rings() == 0:
+            self.logger.info("no rings to merge")
+            return
+
         # set up new initial conditions and rings array
         merged_rings = np.array([]).astype(Ring)
 
         inner_radius = self.rings[0].inner_radius
-        outer_radius = self.rings[0].inner_radius
+        outer_radius = self.rings[0].outer_radius
         transmission = self.rings[0].transmission
 
         debug_before = self._print_changes("merge_rings()", before=True)
 
-        for ring_index, ring in enumerate(self.rings):
-            adjacent = np.abs(ring.inner_radius - outer_radius) < tolerance
+        for ring in self.rings[1:]:
+            adjacent = np.abs(ring.inner_radius - outer_radius) <= tolerance
             
             if adjacent and ring.transmission == transmission:
                 # grow the ring
@@ -601,11 +607,12 @@ class RingSystem:
         merged_rings = np.append(merged_rings, merged_ring)
 
         # scrap the first ring
+        num_rings = self.get_num_rings()
         self.rings = merged_rings
         
         debug_after = self._print_changes("merge_rings()", before=False)
         self.logger.debug(debug_before + debug_after)
-        self.logger.info(f"merged rings from {ring_index+1} to {len(self.rings)}")
+        self.logger.info(f"merged rings from {num_rings} to {len(self.rings)}")
 
     def _get_patches(self, 
             x_shift: float = 0, 
-- 
2.43.0


From 90f2152a2977e7b2c7e0e19a283a21793e9558d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 16/50] fix: prevent ringlets from overlapping due to rounding

---
 RingSystem.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/RingSystem.py b/RingSystem.py
index 78c5f10..5eaac29 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -539,14 +539,13 @@ class RingSystem:
             # for type hints
             ring: Ring
             
-            delta_radius = (ring.outer_radius - ring.inner_radius) / division
+            # neighbouring ringlets share their edge exactly
+            edges = np.linspace(ring.inner_radius, ring.outer_radius, 
+                division + 1)
 
             for i in range(division):
-                ringlet_inner_radius = ring.inner_radius + i * delta_radius
-                ringlet_outer_radius = ringlet_inner_radius + delta_radius
-                
-                ringlet = Ring(ringlet_inner_radius, ringlet_outer_radius, 
-                    ring.transmission, self.inclination, self.tilt)
+                ringlet = Ring(edges[i], edges[i + 1], ring.transmission, 
+                    self.inclination, self.tilt)
                 
                 divided_rings[index] = ringlet
                 index += 1
-- 
2.43.0


From 4f974743897359489c2d5e93843cb778f5c8d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 17/50] fix: copy rings that are added to a ring system

---
 RingSystem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RingSystem.py b/RingSystem.py
index 5eaac29..f666e59 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -1,4 +1,5 @@
 # generic modules
+import copy
 import logging
 import numpy as np
 import matplotlib.pyplot as plt
@@ -430,6 +431,8 @@ class RingSystem:
             self.logger.info(f"ring tilt overridden from {ring.tilt:.2f} to "
                 f"{self.tilt:.2f}")
 
+        # copy to prevent changing (or sharing) the ring of the user
+        ring = copy.copy(ring)
         ring.inclination = self.inclination
         ring.tilt = self.tilt
         
-- 
2.43.0


From 616acb0be4c3167f2804eaa3a63387fead246b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 18/50] fix: only show the coordinates on the visible slice in
 the grid property viewer

---
 GridProperty.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 8e4f15a..8cbc424 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -658,6 +658,7 @@ class GridPropertyViewer:
                     raise ValueError("all input coordinates must be tuples "
                         "with three values")
         self.coordinates = coordinates
+        self.markers = []
         self.tolerance = np.abs(self.slice_values[1] - self.slice_values[0]) / 3
 
         self.slice_name = ["$y$", "$x$", "$R_f$"][axis]
@@ -852,7 +853,10 @@ class GridPropertyViewer:
         if self.coordinates is None:
             return
 
-        plotted = False
+        # remove the points of the previous slice
+        for marker in self.markers:
+            marker.remove()
+        self.markers = []
 
         for coordinate in self.coordinates:
             distance = np.abs(self.slice_values[self.index] - 
@@ -860,8 +864,4 @@ class GridPropertyViewer:
 
             if self.tolerance > distance:
                 y, x = np.delete(coordinate, self.axis)
-                self.ax.plot(x, y, "ro")
-                plotted = True
-        
-        if not plotted:
-            self.ax.lines = []
\ No newline at end of file
+                self.markers.extend(self.ax.plot(x, y, "ro"))
-- 
2.43.0


From da6902f40c0583bd88de613b08ce2649017c7993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 19/50] fix: plot coordinates at the displayed rf position

---
 GridProperty.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/GridProperty.py b/GridProperty.py
index 8cbc424..f5beadb 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -659,6 +659,8 @@ class GridPropertyViewer:
                         "with three values")
         self.coordinates = coordinates
         self.markers = []
+        rf = grid_property.grid_parameters.rf
+        self.rf_range = rf[-1] - rf[0]
         self.tolerance = np.abs(self.slice_values[1] - self.slice_values[0]) / 3
 
         self.slice_name = ["$y$", "$x$", "$R_f$"][axis]
@@ -864,4 +866,12 @@ class GridPropertyViewer:
 
             if self.tolerance > distance:
                 y, x = np.delete(coordinate, self.axis)
+
+                # rf runs from rf_max to 1 (at rf_range) and back to rf_max
+                if self.axis != 2:
+                    offset = x - 1
+                    x = np.unique([self.rf_range - offset, 
+                        self.rf_range + offset])
+                    y = np.full(len(x), y)
+
                 self.markers.extend(self.ax.plot(x, y, "ro"))
-- 
2.43.0


From 8a3158d62277883fc8beb7d35210b1ab67519ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 20/50] fix: view properties with a single slice along an axis

---
 GridProperty.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index f5beadb..1d3defb 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -661,7 +661,12 @@ class GridPropertyViewer:
         self.markers = []
         rf = grid_property.grid_parameters.rf
         self.rf_range = rf[-1] - rf[0]
-        self.tolerance = np.abs(self.slice_values[1] - self.slice_values[0]) / 3
+
+        # a single slice has no spacing
+        self.tolerance = 1e-6
+        if len(self.slice_values) > 1:
+            self.tolerance = np.abs(self.slice_values[1] - 
+                self.slice_values[0]) / 3
 
         self.slice_name = ["$y$", "$x$", "$R_f$"][axis]
         
-- 
2.43.0


From e207f74eaa9e61bd8847d7a6557eb248ab0e1f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 21/50] fix: leave the gradient unchanged if its measurement is
 rejected

---
 GridProperty.py | 52 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 1d3defb..4a58907 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -461,10 +461,38 @@ class GridGradient(GridProperty):
         if self.measured_gradient is None:
             return
 
-        transmission_scale = 1 / self.transmission_change
-        total_scale = self.orbital_scale * transmission_scale
+        return self._scale_gradient(self.measured_gradient, 
+            self.orbital_scale, self.transmission_change)
+
+ 
+    def _scale_gradient(self, 
+            measured_gradient: float,
+            orbital_scale: float,
+            transmission_change: float
+        ) -> float:
+        """
+        This method scales a measured gradient by the orbital scale and the 
+        transmission scale.
+
+        Parameters
+        ----------
+        measured_gradient : float
+            The measured light curve gradient.
+        orbital_scale : float
+            Scale due to the transverse velocity and limb darkening.
+        transmission_change : float
+            The change in transmission over the gradient.
+        
+        Returns
+        -------
+        scaled_gradient : float
+            This is the measured gradient that has been scaled by the orbital
+            scale and the transmission scale.
+        """
+        transmission_scale = 1 / transmission_change
+        total_scale = orbital_scale * transmission_scale
         
-        scaled_gradient = self.measured_gradient * total_scale
+        scaled_gradient = measured_gradient * total_scale
 
         if scaled_gradient > 1:
             raise ValueError("scaled gradient is greater than one, check the"
@@ -500,23 +528,31 @@ class GridGradient(GridProperty):
             This is the error on the measurement of the measured gradient 
             [default = None].
         """
-        self.measured_gradient = validate.number(measured_gradient, 
+        measured_gradient = validate.number(measured_gradient, 
             "measured_gradient", lower_bound=0)
         
-        self.orbital_scale = validate.number(orbital_scale, 
+        orbital_scale = validate.number(orbital_scale, 
             "orbital_scale", lower_bound=0)
         
         if transmission_change is None:
             transmission_change = 1
-        self.transmission_change = validate.number(transmission_change, 
+        transmission_change = validate.number(transmission_change, 
             "transmission_change", lower_bound=0, upper_bound=1)
 
         if measured_error is None:
             measured_error = 1
-        self.measured_error = validate.number(measured_error, "measured_error",
+        measured_error = validate.number(measured_error, "measured_error",
             lower_bound=0.)
 
-        scaled_gradient = self.get_scaled_gradient()
+        # nothing is set until the measurement is known to be valid
+        scaled_gradient = self._scale_gradient(measured_gradient, 
+            orbital_scale, transmission_change)
+
+        self.measured_gradient = measured_gradient
+        self.orbital_scale = orbital_scale
+        self.transmission_change = transmission_change
+        self.measured_error = measured_error
+
         mask = (scaled_gradient > self.data).astype(float)
         mask += np.isnan(self.data).astype(float)
         self.mask = mask.astype(bool)
-- 
2.43.0


From fa9e292c43513a428b0f36cf5f14ac737d4b308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 22/50] fix: set all eclipse parameters or none

---
 Shallot.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 4b8334e..2d259f1 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1602,12 +1602,16 @@ class ShallotGrid:
             This is the parameter that defines the limb darkening according to
             the linear limb darkening law [-].
         """
-        self._eclipse_duration = validate.number(eclipse_duration, 
+        eclipse_duration = validate.number(eclipse_duration, 
             "eclipse_duration", lower_bound=0.)
-        self._transverse_velocity = validate.number(transverse_velocity, 
+        transverse_velocity = validate.number(transverse_velocity, 
             "transverse_velocity", lower_bound=0.)
-        self._limb_darkening = validate.number(limb_darkening, 
+        limb_darkening = validate.number(limb_darkening, 
             "limb_darkening", lower_bound=0., upper_bound=1.)
+
+        self._eclipse_duration = eclipse_duration
+        self._transverse_velocity = transverse_velocity
+        self._limb_darkening = limb_darkening
         
         # gradients and gradient fit reset due to eclipse duration dependency
         if self.gradients is not None:
-- 
2.43.0


From e382d8e2f690a486403ee7310e37bf7016c85e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 23/50] fix: add all gradients or none

---
 Shallot.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 2d259f1..8843e77 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1343,7 +1343,9 @@ class ShallotGrid:
             self.diagnostics.extend()
 
  
-    def _determine_disk_gradients(self, positions: np.ndarray) -> None:
+    def _determine_disk_gradients(self, 
+            positions: np.ndarray
+        ) -> list[GridGradient]:
         """
         This method finds the local tangent of a scaled-down version of the 
         ellipse that is centred at (dx, dy) and passes through the points 
@@ -1355,6 +1357,11 @@ class ShallotGrid:
         ----------
         positions : np.ndarray (float 1-D)
             Position values at which to determine the local tangents [t_ecl].
+
+        Returns
+        -------
+        gradients : list[GridGradient]
+            The disk gradient at each of the positions.
         """
         positions = validate.array(positions, "positions", num_dimensions=1, 
             dtype="float64")
@@ -1364,8 +1371,7 @@ class ShallotGrid:
         fy_map = self.fy_map.data
 
         # instantiate list of gradients
-        if self.gradients is None:
-            self.gradients: list[GridGradient] = []
+        gradients: list[GridGradient] = []
 
         # loop through positions
         for position in tqdm(positions):
@@ -1386,8 +1392,10 @@ class ShallotGrid:
             # set tangent
             disk_gradient = np.abs(np.sin(np.arctan2(tangent, 1)))
             
-            self.gradients.append(GridGradient(disk_gradient, 
-                self.parameters, position))
+            gradients.append(GridGradient(disk_gradient, self.parameters, 
+                position))
+
+        return gradients
 
  
     def _determine_orbital_scale(self) -> float:
@@ -1413,6 +1421,7 @@ class ShallotGrid:
 
  
     def _set_measured_gradients_and_masks(self, 
+            gradients: list[GridGradient],
             light_curve_gradients: np.ndarray,
             light_curve_gradient_errors: np.ndarray = None,
             transmission_changes: np.ndarray = None
@@ -1425,6 +1434,8 @@ class ShallotGrid:
 
         Parameters
         ----------
+        gradients : list[GridGradient]
+            Disk gradients that correspond to the measured gradients.
         light_curve_gradients : np.ndarray (float 1-D)
             Gradients measured from the light curve [L*/day].
         light_curve_gradient_errors : np.ndarray (float 1-D)
@@ -1467,10 +1478,9 @@ class ShallotGrid:
             "transmission_changes"]
         validate.same_shape_arrays(arrays_list, names_list)
 
-        num_new_gradients = len(light_curve_gradients)
         orbital_scale = self._determine_orbital_scale()
         measured_gradients = np.abs(light_curve_gradients)
-        zip_params = (self.gradients[-num_new_gradients:], measured_gradients,
+        zip_params = (gradients, measured_gradients,
             light_curve_gradient_errors, transmission_changes)
 
         for gradient, measured_gradient, measured_error, transmission_change \
@@ -1550,10 +1560,15 @@ class ShallotGrid:
 
         # convert gradients
         positions = -times / self._eclipse_duration
-        self._determine_disk_gradients(positions)
+        gradients = self._determine_disk_gradients(positions)
 
-        self._set_measured_gradients_and_masks(light_curve_gradients, 
-            light_curve_gradient_errors, transmission_changes)
+        self._set_measured_gradients_and_masks(gradients, 
+            light_curve_gradients, light_curve_gradient_errors, 
+            transmission_changes)
+
+        # only keep the gradients once all of them are valid
+        if len(gradients) > 0:
+            self.gradients = (self.gradients or []) + gradients
         
         self._reset_gradient_fit()
 
-- 
2.43.0


From 78df3a08adbae44048bfc7c3db59aff0d29ad37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 24/50] fix: remove each requested gradient once and fully
 clear the last one

---
 Shallot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 8843e77..bb65857 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1589,11 +1589,14 @@ class ShallotGrid:
 
         indices = validate.array(indices, "indices", num_dimensions=1, 
             lower_bound=0, upper_bound=len(self.gradients) - 1, dtype="int64")
-        sorted_indices = np.flip(np.sort(indices))
+        sorted_indices = np.flip(np.unique(indices))
         
         for index in sorted_indices:
             del self.gradients[index]
 
+        if len(self.gradients) == 0:
+            self.gradients = None
+
         self._reset_gradient_fit()
 
  
-- 
2.43.0


From f2064e477c775cbd7294a3748309386e30f89fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 25/50] fix: update the gradient scaling of all gradients or
 none

---
 Shallot.py | 53 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index bb65857..76b6f07 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -4,6 +4,7 @@ from enum import Enum
 
 # generic modules
 import os
+import copy
 import shutil
 import logging
 import numpy as np
@@ -1398,12 +1399,22 @@ class ShallotGrid:
         return gradients
 
  
-    def _determine_orbital_scale(self) -> float:
+    def _determine_orbital_scale(self, 
+            transverse_velocity: float, 
+            limb_darkening: float
+        ) -> float:
         """
         This method is used to set a light curve gradient scale factor that is
         dependent on the transverse velocity of the occulting object and the
         limb darkening parameter of the star.
 
+        Parameters
+        ----------
+        transverse_velocity : float
+            This is the velocity of the disk [R*/day].
+        limb_darkening : float
+            This is the parameter of the linear limb darkening law [-].
+
         Return
         ------
         orbital_scale : float
@@ -1411,10 +1422,10 @@ class ShallotGrid:
             transverse velocity of the occulter and the limb darkening of the
             star.
         """
-        u = self._limb_darkening
+        u = limb_darkening
 
         limb_darkening_scale = ((6 - 2 * u) / (12 - 12 * u + 3 * np.pi * u))
-        velocity_scale = np.pi / self._transverse_velocity
+        velocity_scale = np.pi / transverse_velocity
 
         orbital_scale = limb_darkening_scale * velocity_scale
         return orbital_scale
@@ -1478,7 +1489,8 @@ class ShallotGrid:
             "transmission_changes"]
         validate.same_shape_arrays(arrays_list, names_list)
 
-        orbital_scale = self._determine_orbital_scale()
+        orbital_scale = self._determine_orbital_scale(
+            self._transverse_velocity, self._limb_darkening)
         measured_gradients = np.abs(light_curve_gradients)
         zip_params = (gradients, measured_gradients,
             light_curve_gradient_errors, transmission_changes)
@@ -1682,19 +1694,30 @@ class ShallotGrid:
         update_orbital_scale = False
         
         if transverse_velocity is not None:
-            self._transverse_velocity = transverse_velocity
+            transverse_velocity = validate.number(transverse_velocity, 
+                "transverse_velocity", lower_bound=0.)
             update_orbital_scale = True
+        else:
+            transverse_velocity = self._transverse_velocity
         
         if limb_darkening is not None:
-            self._limb_darkening = limb_darkening
+            limb_darkening = validate.number(limb_darkening, 
+                "limb_darkening", lower_bound=0., upper_bound=1.)
             update_orbital_scale = True
+        else:
+            limb_darkening = self._limb_darkening
+
+        if update_orbital_scale and self._eclipse_duration is None:
+            self.logger.info("eclipse parameters missing, "
+                "use .set_eclipse_parameters()")
+            return
 
         # update transmission change scale
         update_transmission_change = False
         if transmission_changes is not None:
             transmission_changes = validate.array(transmission_changes, 
                 "transmission_changes", dtype="float64", num_dimensions=1, 
-                lower_bound=-1, upper_bound=1)
+                lower_bound=0, upper_bound=1)
 
             arrays_list = [transmission_changes, np.array(self.gradients)]
             names_list = ["transmission_changes", "gradients"]
@@ -1706,10 +1729,17 @@ class ShallotGrid:
             self.logger.info("no changes passed")
             return
         
-        for k, gradient in enumerate(self.gradients):
+        if update_orbital_scale:
+            new_orbital_scale = self._determine_orbital_scale(
+                transverse_velocity, limb_darkening)
+
+        # update copies such that nothing changes if any update is invalid
+        gradients = [copy.copy(gradient) for gradient in self.gradients or []]
+
+        for k, gradient in enumerate(gradients):
             # select orbital scale
             if update_orbital_scale:
-                orbital_scale = self._determine_orbital_scale()
+                orbital_scale = new_orbital_scale
             else:
                 orbital_scale = gradient.orbital_scale
 
@@ -1722,6 +1752,11 @@ class ShallotGrid:
             # update mask
             gradient.determine_mask(gradient.measured_gradient, orbital_scale, 
                 transmission_change, gradient.measured_error)
+
+        self._transverse_velocity = transverse_velocity
+        self._limb_darkening = limb_darkening
+        if len(gradients) > 0:
+            self.gradients = gradients
         
         self._reset_gradient_fit()
         
-- 
2.43.0


From 9b612edb0b4ca1af15aca4ef4a2dc05144555d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 26/50] fix: find the smallest disk of grids that are narrower
 than one eclipse

---
 Shallot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 76b6f07..9225f17 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -768,7 +768,7 @@ class ShallotGrid:
         # extracting parameters
         circular_radius_value = self.circular_radius[y, 0, 0]
         shear_value = self.shear[y, x, 0]
-        max_value = self.parameters.dx.max()
+        max_value = max(1, np.abs(self.parameters.dx).max())
         max_rf = self.parameters.rf[-1]
         
         # loop parameters
@@ -840,7 +840,7 @@ class ShallotGrid:
         # extracting parameters
         circular_radius_value = self.circular_radius[y, 0, 0]
         shear_value = self.shear[y, x, 0]
-        max_value = self.parameters.dy.max()
+        max_value = max(1, np.abs(self.parameters.dy).max())
         max_rf = self.parameters.rf[-1]
         
         # loop parameters
-- 
2.43.0


From e3a102d19899e4c9ddd7875a60c323424fad9ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 27/50] fix: set the disk gradient of vertical tangents to one

---
 Shallot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 9225f17..2141be8 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1385,11 +1385,15 @@ class ShallotGrid:
             denominator = ((self.shear**2 * fy_map**2 + fx_map**2) 
                 * y + self.shear * fy_map**2 * x)
             
-            # prevent divide by 0 error
+            # prevent divide by 0 error (0/0 has no tangent)
             tangent = np.nan * np.ones(self.parameters.grid_shape)
             mask = (denominator != 0)
             tangent[mask] = (numerator[mask] / denominator[mask])
 
+            # vertical tangent
+            mask = (denominator == 0) & (numerator != 0)
+            tangent[mask & ~np.isnan(numerator)] = np.inf
+
             # set tangent
             disk_gradient = np.abs(np.sin(np.arctan2(tangent, 1)))
             
-- 
2.43.0


From df8422b46c5ab5001e7a619e8cfd33dcbbf5872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 28/50] fix: keep the exact grid values when extending the grid
 parameters

---
 GridParameters.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/GridParameters.py b/GridParameters.py
index 0559922..27e25d8 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -223,12 +223,9 @@ class GridParameters:
         if not self.extendable:
             raise AttributeError("This grid parameter object can not be "
                 "extended. That is only possible when dx[0] = dy[0] = 0.")
-        num_y, num_x = self.slice_shape
-        max_y = self.dy[-1, 0, 0]
-        max_x = self.dx[0, -1, 0]
-        
-        self.dx = self._determine_dx(-max_x, max_x, 2 * num_x - 1)
-        self.dy = self._determine_dy(-max_y, max_y, 2 * num_y - 1)
+        # mirrored to keep the existing values (and the zeros) exactly
+        self.dx = np.concatenate((-np.flip(self.dx[:, 1:], 1), self.dx), 1)
+        self.dy = np.concatenate((-np.flip(self.dy[1:], 0), self.dy), 0)
         self._set_grid_and_slice_shape()
         self._set_extendable()
 
-- 
2.43.0


From c46f64489c3f6c4a5b71d6eafa889fe5fd9c790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 29/50] fix: remove masks of an earlier save that no longer
 apply

---
 GridProperty.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 4a58907..665a4a2 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -304,9 +304,11 @@ class GridProperty:
         filename_data = f"{self.name.name}_{self.unit.name}"
         storage.save_array(f"{directory}/{filename_data}", self.data)
         
+        filename_mask = f"{filename_data}_mask"
         if self.mask is not None:
-            filename_mask = f"{filename_data}_mask"
             storage.save_array(f"{directory}/{filename_mask}", self.mask)
+        elif os.path.exists(f"{directory}/{filename_mask}.npy"):
+            os.remove(f"{directory}/{filename_mask}.npy")
 
         self.grid_parameters.save(directory)
 
@@ -586,11 +588,14 @@ class GridGradient(GridProperty):
         storage.save_array(f"{gradient_directory}/position", 
             np.array([self.position]))
 
+        filepath_mask_values = f"{gradient_directory}/mask_values"
         if self.measured_gradient is not None:
             mask_values = np.array([self.measured_gradient, 
                 self.orbital_scale, self.transmission_change, 
                 self.measured_error])
-            storage.save_array(f"{gradient_directory}/mask_values", mask_values)
+            storage.save_array(filepath_mask_values, mask_values)
+        elif os.path.exists(f"{filepath_mask_values}.npy"):
+            os.remove(f"{filepath_mask_values}.npy")
         
         self.grid_parameters.save(directory)
 
-- 
2.43.0


From 781146c223347de8135877571ef103c63a21f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 30/50] fix: load the mask of a gradient and verify the shape
 of loaded masks

---
 GridProperty.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index 665a4a2..e2795b3 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -349,7 +349,7 @@ class GridProperty:
             filepath_mask = f"{directory}/{name.name}_{unit.name}_mask.npy"
             if os.path.exists(f"{filepath_mask}"):
                 mask = np.load(f"{filepath_mask}")
-                grid_property.mask = mask
+                grid_property.set_mask(mask)
             
             grid_property.set_contrast_parameters()
 
@@ -633,6 +633,10 @@ class GridGradient(GridProperty):
                 mask_values = np.load(filepath_mask_values)
                 grid_gradient.determine_mask(*mask_values)
 
+            filepath_mask = f"{directory}/{name.name}_{unit.name}_mask.npy"
+            if os.path.exists(filepath_mask):
+                grid_gradient.set_mask(np.load(filepath_mask))
+
         except Exception:
             type_string = f"{name.get_name()} [{unit.__str__()}]"
             raise LoadError(type_string, directory)
-- 
2.43.0


From a1f29953e8c5706d2907f881385f13af3180d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 31/50] fix: print properties without data and gradients
 without measurement

---
 GridProperty.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index e2795b3..5094c94 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -109,8 +109,12 @@ class GridProperty:
 
         lines.append(parameter)
         lines.append(28 * "-")
-        min_value_string = f"{self.vmin:.4f}".rjust(13)
-        max_value_string = f"{self.vmax:.4f}".rjust(13)
+        
+        # there are no contrast parameters if there is no data
+        vmin = np.nan if self.vmin is None else self.vmin
+        vmax = np.nan if self.vmax is None else self.vmax
+        min_value_string = f"{vmin:.4f}".rjust(13)
+        max_value_string = f"{vmax:.4f}".rjust(13)
         mean_value_string = f"{np.nanmean(self.data):.4f}".rjust(13)
         median_value_string = f"{np.nanmedian(self.data):.4f}".rjust(13)
         lines.append(f"min value:    {min_value_string}")
@@ -422,7 +426,7 @@ class GridGradient(GridProperty):
         
         position = f"{self.position:.4f}".rjust(7)
         lines[1] = lines[1] + f" @ pos = {position}"
-        if self.mask is not None:
+        if self.measured_gradient is not None:
             measured_gradient = f"{self.measured_gradient:.4f}".rjust(6)
             lines.append(f"measured gradient:   {measured_gradient}")
             measured_error = f"{self.measured_error:.4f}".rjust(6)
-- 
2.43.0


From cb62d23a23af634eaa140f303349ce6387a8805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 32/50] fix: reject values that are not a number when
 validating bounds

---
 validate.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/validate.py b/validate.py
index 782e3fb..96dd170 100644
--- a/validate.py
+++ b/validate.py
@@ -158,6 +158,11 @@ def _number_bounds(
         upper = np.greater_equal
         message_addition = "than"
 
+    # not a number is never inside bounds
+    bounded = lower_bound != -np.inf or upper_bound != np.inf
+    if bounded and number != number:
+        raise ValueError(f"The {name} argument must be a number")
+
     # try lower bound
     if lower(number, lower_bound):
         raise_error = True
@@ -298,6 +303,11 @@ def _array_bounds(
         upper = np.greater_equal
         message_addition = "than"
 
+    # not a number is never inside bounds
+    if np.any(array != array):
+        raise ValueError(f"The {array_name} argument must contain solely "
+            "numbers")
+
     # try lower bound
     if np.any(lower(array, lower_bound)):
         raise_error = True
-- 
2.43.0


From ccda6f0ff71d7730344425af6eca17c0068dd199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 33/50] fix: reject grid ranges that are not a number

---
 GridParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GridParameters.py b/GridParameters.py
index 27e25d8..09a26d3 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -125,7 +125,7 @@ class GridParameters:
         """
         min_x = validate.number(min_x, "min_x")
         max_x = validate.number(max_x, "max_x")
-        if min_x >= max_x:
+        if not min_x < max_x:
             raise ValueError("max_x must be greater than min_x")
         num_x = validate.number(num_x, "num_x", check_integer=True, 
             lower_bound=1)
@@ -158,7 +158,7 @@ class GridParameters:
         """
         min_y = validate.number(min_y, "min_y")
         max_y = validate.number(max_y, "max_y")
-        if min_y >= max_y:
+        if not min_y < max_y:
             raise ValueError("max_y must be greater than min_y")
         num_y = validate.number(num_y, "num_y", check_integer=True, 
             lower_bound=1)
-- 
2.43.0


From 94b2c76fbc84488052fd400e2656af3c3119f1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 34/50] fix: leave the stretch factors undefined where no disk
 exists

---
 Shallot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Shallot.py b/Shallot.py
index 2141be8..df13b63 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -913,6 +913,9 @@ class ShallotGrid:
         fy_x = np.flip(fy_full[:min_arg + 1])
         fy_interp_x = np.flip(np.interp(rf, disk_radius_fraction_x, fy_x))
 
+        # horizontally stretched disks do not exist at the centre of the grid
+        if self.parameters.dy[y, 0, 0] == 0:
+            fy_interp_x[:-1] = np.nan
         # vertical (y) stretch
         disk_radius_fraction_y = disk_radius_fraction[min_arg:]
         fy_y = fy_full[min_arg:]
-- 
2.43.0


From a967f9dec2212de62e9d1ee2e81a4449947863eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:56 +0000
Subject: [PATCH 35/50] fix: search beyond the smallest disk found for grids
 with only rf = 1

---
 Shallot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index df13b63..a4312bd 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -791,7 +791,8 @@ class ShallotGrid:
 
             # continue?
             disk_radius_fraction = disk_radius / np.nanmin(disk_radius_full)
-            if disk_radius_fraction[0] < max_rf:
+            if (disk_radius_fraction[0] < max_rf or
+                    disk_radius_fraction[0] == 1):
                 shift += 1
             else: 
                 repeat = False
@@ -863,7 +864,8 @@ class ShallotGrid:
 
             # continue?
             disk_radius_fraction = disk_radius / np.nanmin(disk_radius_full)
-            if disk_radius_fraction[-1] < max_rf:
+            if (disk_radius_fraction[-1] < max_rf or
+                    disk_radius_fraction[-1] == 1):
                 shift += 1
             else: 
                 repeat = False
-- 
2.43.0


From 31393e8570035c487e219b715d8cf41f2538d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 36/50] fix: set all contrast parameters or none

---
 GridProperty.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 5094c94..863c761 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -203,26 +203,32 @@ class GridProperty:
         all_nans = np.sum(np.isnan(self.data)) == np.prod(self.data.shape)
         
         if all_nans:
-            self.vmin = None
-            self.vmax = None
+            vmin = None
+            vmax = None
         else:
             if vmin is None:
                 vmin = np.nanmin(self.data)
-            self.vmin = validate.number(vmin, "vmin")       
+            vmin = validate.number(vmin, "vmin")       
         
             if vmax is None:
                 vmax = np.nanmax(self.data)
-            self.vmax = validate.number(vmax, "vmax")
+            vmax = validate.number(vmax, "vmax")
         
         if color_map is None:
             color_map = "viridis"
-        self.color_map = validate.string(color_map, "color_map")
+        color_map = validate.string(color_map, "color_map")
         
         if num_colors is None:
             num_colors = 11
-        self.num_colors = validate.number(num_colors, "num_colors", 
+        num_colors = validate.number(num_colors, "num_colors", 
             check_integer=True, lower_bound=2)
 
+        # only set once all parameters are valid
+        self.vmin = vmin
+        self.vmax = vmax
+        self.color_map = color_map
+        self.num_colors = num_colors
+
  
     def plot_cube(self, 
             axis: int = 2, 
-- 
2.43.0


From 655ca93c87f29b9885304532ed3524edd0a7eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 37/50] fix: never leave an incomplete checkpoint behind when
 removing it

---
 Shallot.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index a4312bd..bdc0cbc 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -713,20 +713,25 @@ class ShallotGrid:
         This method is used to create the temporary save folder used for
         intermittent saving during the building of the grid.
         """
-        if os.path.exists(TEMP_SAVE_DIR):
-            shutil.rmtree(TEMP_SAVE_DIR)
-            self.logger.debug("cleared temp folder")
-        
+        self._delete_temp_save_dir()
         os.mkdir(TEMP_SAVE_DIR)
 
  
     def _delete_temp_save_dir(self) -> None:
         """
         This method is used to delete the temporary save folder used for
-        intermittent saving during the building of the grid.
+        intermittent saving during the building of the grid. It is renamed
+        first so that an interruption never leaves an incomplete temporary
+        save folder behind.
         """
+        discarded_directory = f"{TEMP_SAVE_DIR}_discarded"
+        
+        if os.path.exists(discarded_directory):
+            shutil.rmtree(discarded_directory)
+
         if os.path.exists(TEMP_SAVE_DIR):
-            shutil.rmtree(TEMP_SAVE_DIR)
+            os.rename(TEMP_SAVE_DIR, discarded_directory)
+            shutil.rmtree(discarded_directory)
             self.logger.debug("deleted temp folder")
 
  
-- 
2.43.0


From 91a45857e667b3884c4ad793f69457a2538c1ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 38/50] fix: save the diagnostics before the files every
 checkpoint requires

---
 Shallot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index bdc0cbc..55d5204 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -197,6 +197,11 @@ class ShallotGrid:
                 lower_bound=0, upper_bound=y_upper_bound)
             storage.save_array(f"{directory}/y_value", np.array([y_value]))
 
+        # saved before the required files, as an interrupted first checkpoint
+        # would otherwise load as a grid without diagnostics
+        if self.diagnostics is not None:
+            self.diagnostics.save(directory)
+
         storage.save_array(f"{directory}/num_fxfy", np.array([self.num_fxfy]))
         self.parameters.save(directory)
         self.disk_radius.save(directory)
@@ -209,9 +214,6 @@ class ShallotGrid:
             for k, gradient in enumerate(self.gradients):
                 gradient.save_gradient(directory, f"{k:04d}")
 
-        if self.diagnostics is not None:
-            self.diagnostics.save(directory)
-
         if self.gradient_fit is not None:
             self.gradient_fit.save(directory)
 
-- 
2.43.0


From 16bd67e8682d010ff128d4623ac28e518a02677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 39/50] fix: reject infinite grid ranges

---
 GridParameters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/GridParameters.py b/GridParameters.py
index 09a26d3..8d325e8 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -127,6 +127,8 @@ class GridParameters:
         max_x = validate.number(max_x, "max_x")
         if not min_x < max_x:
             raise ValueError("max_x must be greater than min_x")
+        if not np.isfinite(max_x - min_x):
+            raise ValueError("min_x and max_x must be finite")
         num_x = validate.number(num_x, "num_x", check_integer=True, 
             lower_bound=1)
         
@@ -160,6 +162,8 @@ class GridParameters:
         max_y = validate.number(max_y, "max_y")
         if not min_y < max_y:
             raise ValueError("max_y must be greater than min_y")
+        if not np.isfinite(max_y - min_y):
+            raise ValueError("min_y and max_y must be finite")
         num_y = validate.number(num_y, "num_y", check_integer=True, 
             lower_bound=1)
         
@@ -189,6 +193,8 @@ class GridParameters:
             Grid rf dimension vector.
         """
         max_rf = validate.number(max_rf, "max_rf", lower_bound=1)
+        if not np.isfinite(max_rf):
+            raise ValueError("max_rf must be finite")
         num_rf = validate.number(num_rf, "num_rf", check_integer=True,
             lower_bound=1)
         
-- 
2.43.0


From 69e8d8c8ce043c78c7f44bad428d412663880621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 40/50] fix: reject gradients whose scaling is not a number

---
 GridProperty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GridProperty.py b/GridProperty.py
index 863c761..5290882 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -506,7 +506,8 @@ class GridGradient(GridProperty):
         
         scaled_gradient = measured_gradient * total_scale
 
-        if scaled_gradient > 1:
+        # also rejects 0/0, which is not a number
+        if not scaled_gradient <= 1:
             raise ValueError("scaled gradient is greater than one, check the"
                 " measured gradient, orbital scale and transmission change")
 
-- 
2.43.0


From 1c2a5827b8e11be2ecaed6dfb2803217f9c02496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 41/50] fix: do not extend the parameters object passed to a
 grid

---
 Shallot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Shallot.py b/Shallot.py
index 55d5204..498ecee 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -97,7 +97,8 @@ class ShallotGrid:
         # set user values
         parameters = validate.class_object(parameters, "parameters", 
             GridParameters, "GridParameters")
-        self.parameters = parameters
+        # extending the grid must not change the parameters of the user
+        self.parameters = copy.deepcopy(parameters)
         self.num_fxfy = validate.number(num_fxfy, "num_fxfy",
             check_integer=True, lower_bound=1)
 
-- 
2.43.0


From 6d52c5ae13a20db601a312da836ae8820548c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 42/50] fix: give every grid and ring system a logger of its
 own

---
 RingSystem.py | 5 +++--
 Shallot.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/RingSystem.py b/RingSystem.py
index f666e59..9c48923 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -1,5 +1,6 @@
 # generic modules
 import copy
+import uuid
 import logging
 import numpy as np
 import matplotlib.pyplot as plt
@@ -166,8 +167,8 @@ class RingSystem:
         logging_level = validate.number(logging_level, "logging_level", 
             check_integer=True, lower_bound=10, upper_bound=50)
 
-        # define logger
-        logger = logging.getLogger(str(np.random.normal(0, 1)))
+        # define logger (not shared with any other object)
+        logger = logging.getLogger(str(uuid.uuid4()))
         logger.setLevel(logging_level)
 
         # define formatter
diff --git a/Shallot.py b/Shallot.py
index 498ecee..352300d 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -6,6 +6,7 @@ from enum import Enum
 import os
 import copy
 import shutil
+import uuid
 import logging
 import numpy as np
 from tqdm import tqdm
@@ -358,8 +359,8 @@ class ShallotGrid:
         logging_level = validate.number(logging_level, "logging_level", 
             check_integer=True, lower_bound=10, upper_bound=50)
 
-        # define logger
-        logger = logging.getLogger(str(np.random.normal(0, 1)))
+        # define logger (not shared with any other object)
+        logger = logging.getLogger(str(uuid.uuid4()))
         logger.setLevel(logging_level)
 
         # define formatter
-- 
2.43.0


From 88820d8df8619f814091fbe62a14ebff68afb15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 43/50] fix: describe the extremes of the data and not the
 contrast limits

---
 GridProperty.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 5290882..aed59b2 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -110,11 +110,9 @@ class GridProperty:
         lines.append(parameter)
         lines.append(28 * "-")
         
-        # there are no contrast parameters if there is no data
-        vmin = np.nan if self.vmin is None else self.vmin
-        vmax = np.nan if self.vmax is None else self.vmax
-        min_value_string = f"{vmin:.4f}".rjust(13)
-        max_value_string = f"{vmax:.4f}".rjust(13)
+        # the contrast parameters need not be the extremes of the data
+        min_value_string = f"{np.nanmin(self.data):.4f}".rjust(13)
+        max_value_string = f"{np.nanmax(self.data):.4f}".rjust(13)
         mean_value_string = f"{np.nanmean(self.data):.4f}".rjust(13)
         median_value_string = f"{np.nanmedian(self.data):.4f}".rjust(13)
         lines.append(f"min value:    {min_value_string}")
-- 
2.43.0


From d0856c0581aebc7de4783cb2bc5969a3d596d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 44/50] fix: refuse to construct a ring system from overlapping
 rings

---
 RingSystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RingSystem.py b/RingSystem.py
index 9c48923..945b8e8 100644
--- a/RingSystem.py
+++ b/RingSystem.py
@@ -262,8 +262,9 @@ class RingSystem:
         # add rings
         rings_data = (inner_radii, outer_radii, transmissions)
 
-        for ring_data in zip(*rings_data):
+        for index, ring_data in enumerate(zip(*rings_data)):
             new_ring = Ring(*ring_data, self.inclination, self.tilt)
+            self._prevent_ring_overlap(index, new_ring)
             self.rings = np.append(self.rings, new_ring)
 
     def get_inner_radii(self) -> np.ndarray:
-- 
2.43.0


From 0ac365280965534676fbdbad1b0cb140ed26d139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 45/50] fix: refuse a directory that is not a string before
 saving a property

---
 GridProperty.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GridProperty.py b/GridProperty.py
index aed59b2..0c6c582 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -306,6 +306,7 @@ class GridProperty:
         directory : str
             File path for the saved information.
         """
+        directory = validate.string(directory, "directory")
         if not os.path.exists(directory):
             os.mkdir(directory)
 
@@ -582,6 +583,7 @@ class GridGradient(GridProperty):
             Distinguishes the gradients saved in the same directory
             [default = None -> the position of the gradient].
         """
+        directory = validate.string(directory, "directory")
         if label is None:
             label = f"{self.position:.4f}"
         label = validate.string(label, "label")
-- 
2.43.0


From f89ff38f159daae505dd17f2b30baba9e7e3c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 46/50] fix: validate y_value before creating the directory

---
 Shallot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index 352300d..d02a0c1 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -186,6 +186,11 @@ class ShallotGrid:
             File path for the saved information.
         """
         directory = validate.string(directory, "directory")
+        if y_value is not None:
+            y_upper_bound = len(self.parameters.dy.flatten())
+            y_value = validate.number(y_value, "y_value", check_integer=True,
+                lower_bound=0, upper_bound=y_upper_bound)
+
         # allow saving into the existing temporary save folder
         if directory == TEMP_SAVE_DIR:
             if not os.path.exists(directory):
@@ -194,9 +199,6 @@ class ShallotGrid:
             os.mkdir(directory)
 
         if y_value is not None:
-            y_upper_bound = len(self.parameters.dy.flatten())
-            y_value = validate.number(y_value, "y_value", check_integer=True,
-                lower_bound=0, upper_bound=y_upper_bound)
             storage.save_array(f"{directory}/y_value", np.array([y_value]))
 
         # saved before the required files, as an interrupted first checkpoint
-- 
2.43.0


From 2adbe0be097410b7c41adc2097e5f0d2aed6cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:37 +0000
Subject: [PATCH 47/50] fix: a save that is interrupted no longer loads without
 its optional parts

---
 GridProperty.py | 20 +++++++++++---------
 Shallot.py      | 20 ++++++++++----------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index 0c6c582..ec5f9ea 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -310,15 +310,17 @@ class GridProperty:
         if not os.path.exists(directory):
             os.mkdir(directory)
 
+        # saved before the required files, as an interrupted save would 
+        # otherwise load as a property without a mask
         filename_data = f"{self.name.name}_{self.unit.name}"
-        storage.save_array(f"{directory}/{filename_data}", self.data)
-        
         filename_mask = f"{filename_data}_mask"
         if self.mask is not None:
             storage.save_array(f"{directory}/{filename_mask}", self.mask)
         elif os.path.exists(f"{directory}/{filename_mask}.npy"):
             os.remove(f"{directory}/{filename_mask}.npy")
 
+        storage.save_array(f"{directory}/{filename_data}", self.data)
+
         self.grid_parameters.save(directory)
 
 
@@ -593,12 +595,8 @@ class GridGradient(GridProperty):
         if not os.path.exists(gradient_directory):
             os.mkdir(gradient_directory)
 
-        self.save(gradient_directory)
-
-        # save additional gradient information
-        storage.save_array(f"{gradient_directory}/position", 
-            np.array([self.position]))
-
+        # save additional gradient information (before the required files, as
+        # an interrupted save would otherwise load as an unmeasured gradient)
         filepath_mask_values = f"{gradient_directory}/mask_values"
         if self.measured_gradient is not None:
             mask_values = np.array([self.measured_gradient, 
@@ -607,7 +605,11 @@ class GridGradient(GridProperty):
             storage.save_array(filepath_mask_values, mask_values)
         elif os.path.exists(f"{filepath_mask_values}.npy"):
             os.remove(f"{filepath_mask_values}.npy")
-        
+
+        storage.save_array(f"{gradient_directory}/position", 
+            np.array([self.position]))
+
+        self.save(gradient_directory)
         self.grid_parameters.save(directory)
 
     
diff --git a/Shallot.py b/Shallot.py
index d02a0c1..edae5d7 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -201,19 +201,11 @@ class ShallotGrid:
         if y_value is not None:
             storage.save_array(f"{directory}/y_value", np.array([y_value]))
 
-        # saved before the required files, as an interrupted first checkpoint
-        # would otherwise load as a grid without diagnostics
+        # saved before the required files, as an interrupted save (or first
+        # checkpoint) would otherwise load as a grid without these
         if self.diagnostics is not None:
             self.diagnostics.save(directory)
 
-        storage.save_array(f"{directory}/num_fxfy", np.array([self.num_fxfy]))
-        self.parameters.save(directory)
-        self.disk_radius.save(directory)
-        self.inclination.save(directory)
-        self.tilt.save(directory)
-        self.fx_map.save(directory)
-        self.fy_map.save(directory)
-
         if self.gradients is not None:
             for k, gradient in enumerate(self.gradients):
                 gradient.save_gradient(directory, f"{k:04d}")
@@ -227,6 +219,14 @@ class ShallotGrid:
             storage.save_array(f"{directory}/eclipse_parameters", 
                 eclipse_parameters)
 
+        storage.save_array(f"{directory}/num_fxfy", np.array([self.num_fxfy]))
+        self.parameters.save(directory)
+        self.disk_radius.save(directory)
+        self.inclination.save(directory)
+        self.tilt.save(directory)
+        self.fx_map.save(directory)
+        self.fy_map.save(directory)
+
  
     def _load_grid_attributes(self, directory: str) -> None:
         """
-- 
2.43.0


From 65116f77b3f77ccec8c6102c8b3bca4f5a26ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:25 +0000
Subject: [PATCH 48/50] fix: a measurement that is cut short no longer keeps
 the mask of the previous one

---
 GridProperty.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/GridProperty.py b/GridProperty.py
index ec5f9ea..300d4fa 100644
--- a/GridProperty.py
+++ b/GridProperty.py
@@ -562,14 +562,15 @@ class GridGradient(GridProperty):
         scaled_gradient = self._scale_gradient(measured_gradient, 
             orbital_scale, transmission_change)
 
+        mask = (scaled_gradient > self.data).astype(float)
+        mask += np.isnan(self.data).astype(float)
+        mask = mask.astype(bool)
+
         self.measured_gradient = measured_gradient
         self.orbital_scale = orbital_scale
         self.transmission_change = transmission_change
         self.measured_error = measured_error
-
-        mask = (scaled_gradient > self.data).astype(float)
-        mask += np.isnan(self.data).astype(float)
-        self.mask = mask.astype(bool)
+        self.mask = mask
 
  
     def save_gradient(self, directory: str, label: str = None) -> None:
-- 
2.43.0


From affc94c5ba9297049c69492cac170108f4814fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:25 +0000
Subject: [PATCH 49/50] fix: extending grid parameters that is cut short no
 longer leaves them extended halfway

---
 GridParameters.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/GridParameters.py b/GridParameters.py
index 8d325e8..2a40190 100644
--- a/GridParameters.py
+++ b/GridParameters.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import os
 import numpy as np
 
@@ -229,11 +230,14 @@ class GridParameters:
         if not self.extendable:
             raise AttributeError("This grid parameter object can not be "
                 "extended. That is only possible when dx[0] = dy[0] = 0.")
-        # mirrored to keep the existing values (and the zeros) exactly
-        self.dx = np.concatenate((-np.flip(self.dx[:, 1:], 1), self.dx), 1)
-        self.dy = np.concatenate((-np.flip(self.dy[1:], 0), self.dy), 0)
-        self._set_grid_and_slice_shape()
-        self._set_extendable()
+        # mirrored to keep the existing values (and the zeros) exactly, and
+        # on a copy such that nothing is left extended halfway
+        extended = copy.copy(self)
+        extended.dx = np.concatenate((-np.flip(self.dx[:, 1:], 1), self.dx), 1)
+        extended.dy = np.concatenate((-np.flip(self.dy[1:], 0), self.dy), 0)
+        extended._set_grid_and_slice_shape()
+        extended._set_extendable()
+        self.__dict__.update(vars(extended))
 
  
     def get_vectors(self) -> tuple[np.ndarray, np.ndarray, np.ndarray]:
-- 
2.43.0


From 7b9081cf195a74fc765cb4d66ae56136a9ec1b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:25 +0000
Subject: [PATCH 50/50] fix: changing gradients that is cut short no longer
 leaves a fit or scaling of others

---
 Shallot.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/Shallot.py b/Shallot.py
index edae5d7..e3cec3d 100644
--- a/Shallot.py
+++ b/Shallot.py
@@ -1598,11 +1598,12 @@ class ShallotGrid:
             light_curve_gradients, light_curve_gradient_errors, 
             transmission_changes)
 
-        # only keep the gradients once all of them are valid
+        # only keep the gradients once all of them are valid, and without a
+        # fit that does not include them
+        self._reset_gradient_fit()
+
         if len(gradients) > 0:
             self.gradients = (self.gradients or []) + gradients
-        
-        self._reset_gradient_fit()
 
  
     def remove_gradients(self, indices: np.ndarray) -> None:
@@ -1621,16 +1622,15 @@ class ShallotGrid:
 
         indices = validate.array(indices, "indices", num_dimensions=1, 
             lower_bound=0, upper_bound=len(self.gradients) - 1, dtype="int64")
-        sorted_indices = np.flip(np.unique(indices))
-        
-        for index in sorted_indices:
-            del self.gradients[index]
 
-        if len(self.gradients) == 0:
-            self.gradients = None
+        gradients = [gradient for index, gradient in enumerate(self.gradients)
+            if index not in indices]
 
+        # without a fit that includes gradients that are no longer there
         self._reset_gradient_fit()
 
+        self.gradients = gradients if len(gradients) > 0 else None
+
  
     def set_eclipse_parameters(self,
             eclipse_duration: float,
@@ -1659,16 +1659,19 @@ class ShallotGrid:
         limb_darkening = validate.number(limb_darkening, 
             "limb_darkening", lower_bound=0., upper_bound=1.)
 
+        # gradients and gradient fit reset due to eclipse duration dependency
+        reset_gradients = self.gradients is not None
+        if reset_gradients:
+            self._reset_gradient_fit()
+
         self._eclipse_duration = eclipse_duration
         self._transverse_velocity = transverse_velocity
         self._limb_darkening = limb_darkening
-        
-        # gradients and gradient fit reset due to eclipse duration dependency
-        if self.gradients is not None:
-            self.gradients = None
+        self.gradients = None
+
+        if reset_gradients:
             self.logger.info("gradients set to None due to dependency on "
                 "eclipse duration")
-            self._reset_gradient_fit()
 
  
     def update_gradient_scaling(self, 
@@ -1773,13 +1776,14 @@ class ShallotGrid:
             gradient.determine_mask(gradient.measured_gradient, orbital_scale, 
                 transmission_change, gradient.measured_error)
 
+        # without a fit for the previous scaling
+        self._reset_gradient_fit()
+
         self._transverse_velocity = transverse_velocity
         self._limb_darkening = limb_darkening
         if len(gradients) > 0:
             self.gradients = gradients
         
-        self._reset_gradient_fit()
-        
  
     def get_gradients(self,
             masked: bool = False,
-- 
2.43.0


From 5ce04ff6c4a8bf6ceea4ba7e747734f8a3207099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 01/20] fix: raise a Python exception if a native kernel gets
 invalid or missing data

---
 src/lib/pytornado/aero/c_vlm.cpp | 62 ++++++++++++++++----------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/src/lib/pytornado/aero/c_vlm.cpp b/src/lib/pytornado/aero/c_vlm.cpp
index 1975e10..21babd3 100644
--- a/src/lib/pytornado/aero/c_vlm.cpp
+++ b/src/lib/pytornado/aero/c_vlm.cpp
@@ -92,6 +92,17 @@ double* get_freestream_direction(double* freestream_dir, double alpha, double be
     return freestream_dir;
 }
 
+// Raise a Python exception if input data is invalid (details are printed where the error is detected)
+static PyObject* data_error( const char* what )
+{
+    if (!PyErr_Occurred())
+    {
+        PyErr_Format(PyExc_ValueError, "Invalid or missing data in '%s'", what);
+    }
+
+    return NULL;
+}
+
 // ===== LATTICE GENERATION =====
 static PyObject* py2c_lattice( PyObject *self, PyObject *args )
 {
@@ -114,22 +125,19 @@ static PyObject* py2c_lattice( PyObject *self, PyObject *args )
     latticestruct lattice;
     if (get_latticestruct(py_lattice, &lattice) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("lattice");
     }
 
     infostruct info;
     if (get_infostruct(py_lattice, &info) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("lattice.info");
     }
 
     statestruct state;
     if (get_statestruct(py_state, &state) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("state.aero");
     }
 
     /* GET SEGMENT VERTICES AND PANEL COUNTS *********************************/
@@ -138,6 +146,7 @@ static PyObject* py2c_lattice( PyObject *self, PyObject *args )
     if (!PyArray_ISFLOAT(py_pts))
     {
         std::cout << "ERROR: array_segments must have FLOAT data type" << std::endl;
+        return data_error("array argument");
     }
     double* pts = (double*)PyArray_DATA(py_pts);
 
@@ -145,6 +154,7 @@ static PyObject* py2c_lattice( PyObject *self, PyObject *args )
     if (!PyArray_ISINTEGER(py_sym))
     {
         std::cout << "ERROR: array_symmetry must have INTEGER data type" << std::endl;
+        return data_error("array argument");
     }
     long int* sym = (long int*)PyArray_DATA(py_sym);
 
@@ -152,6 +162,7 @@ static PyObject* py2c_lattice( PyObject *self, PyObject *args )
     if (!PyArray_ISINTEGER(py_pan))
     {
         std::cout << "ERROR: array_panels must have INTEGER data type" << std::endl;
+        return data_error("array argument");
     }
     long int* pan = (long int*)PyArray_DATA(py_pan);
 
@@ -165,8 +176,7 @@ static PyObject* py2c_lattice( PyObject *self, PyObject *args )
     // SET LATTICE QUALITY CONTROLS IN PYDICT
     if (set_infostruct(py_lattice, &info) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("lattice.info");
     }
 
     // Clean up reference counts before leaving C
@@ -192,15 +202,13 @@ static PyObject* py2c_downwash( PyObject *self, PyObject *args )
     latticestruct lattice;
     if (get_latticestruct(py_lattice, &lattice) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("lattice");
     }
 
     infostruct info;
     if (get_infostruct(py_lattice, &info) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("lattice.info");
     }
 
     // Send to actual C CODE
@@ -231,29 +239,25 @@ static PyObject* py2c_boundary( PyObject *self, PyObject *args )
     latticestruct lattice;
     if (get_latticestruct(py_lattice, &lattice) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("lattice");
     }
 
     infostruct info;
     if (get_infostruct(py_lattice, &info) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("lattice.info");
     }
 
     statestruct state;
     if (get_statestruct(py_state, &state) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("state.aero");
     }
 
     refstruct refs;
     if (get_refstruct(py_state, &refs) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("state.refs");
     }
 
     // Send to actual C CODE (no more magic required in the rest of the code)
@@ -282,36 +286,31 @@ static PyObject* py2c_results( PyObject *self, PyObject *args )
     latticestruct lattice;
     if (get_latticestruct(py_lattice, &lattice) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("lattice");
     }
 
     infostruct info;
     if (get_infostruct(py_lattice, &info) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("lattice.info");
     }
 
     statestruct state;
     if (get_statestruct(py_state, &state) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("state.aero");
     }
 
     refstruct refs;
     if (get_refstruct(py_state, &refs) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("state.refs");
     }
 
     resultstruct results;
     if (get_resultstruct(py_results, &results) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("vlmdata");
     }
 
     // Send to actual C CODE (no more magic required in the rest of the code)
@@ -319,8 +318,7 @@ static PyObject* py2c_results( PyObject *self, PyObject *args )
 
     if (set_resultstruct(py_results, &results) != ERR_SUCCESS)
     {
-        Py_INCREF(Py_None);
-        return Py_None;
+        return data_error("vlmdata");
     }
 
     // Clean up reference counts before leaving C
-- 
2.43.0


From cbdbe802751b873907aa489fda1fbce727f098d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:01 +0000
Subject: [PATCH 02/20] fix: use a long integer for indices into the downwash
 matrix

---
 src/lib/pytornado/aero/c_downwash.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/aero/c_downwash.cpp b/src/lib/pytornado/aero/c_downwash.cpp
index af1f676..f6e155e 100644
--- a/src/lib/pytornado/aero/c_downwash.cpp
+++ b/src/lib/pytornado/aero/c_downwash.cpp
@@ -37,7 +37,7 @@ void vlm_downwash(latticestruct* lattice, double* dw, long int num_pan)
         {
             // Index of downwash factor A_ij
             // 0, 1, 2, ..., N, N+1, N+2, ..., 2N, 2N+1, 2N+2, ... (N: number of panels)
-            int index_ij = i*num_pan + j;
+            long int index_ij = i*num_pan + j;
 
             // Induced velocity ("downwash")
             double dw_x = 0.0;
-- 
2.43.0


From 063a0dbca9e497541203addae1f07237ace8d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 03/20] fix: avoid division by zero dynamic pressure in
 panelwise pressure coefficients

---
 src/lib/pytornado/aero/c_results.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/pytornado/aero/c_results.cpp b/src/lib/pytornado/aero/c_results.cpp
index 43822af..401443b 100644
--- a/src/lib/pytornado/aero/c_results.cpp
+++ b/src/lib/pytornado/aero/c_results.cpp
@@ -194,6 +194,12 @@ void vlm_results(latticestruct* lattice, statestruct* state,
         // Dynamic pressure
         double q = 0.5*state->rho*(state->airspeed*state->airspeed);
 
+        // Avoid division by zero as for the global coefficients
+        if (q == 0)
+        {
+            q = 1;
+        }
+
         results->cp[i] = fpan_n/(q*lattice->A[i]);
     }
 
-- 
2.43.0


From 5b96d9e9d24580d2645e271c5d6586097a34a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 04/20] fix: reject angles of attack and side slip angles
 outside of [-90, 90] degrees

---
 src/lib/pytornado/objects/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index 7629576..d0d1f79 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -219,7 +219,7 @@ class FlightState:
 
         # Check that angles are in correct range
         for angle in [ALPHA, BETA]:
-            range_is_not_ok = (self.aero[angle] < -90) & (self.aero[angle] > 90)
+            range_is_not_ok = (self.aero[angle] < -90) | (self.aero[angle] > 90)
             if any(range_is_not_ok):
                 raise ValueError(f"Angle '{angle}' must be in range [-90, 90] degrees")
 
-- 
2.43.0


From ef93d41f8e2ff052af4d6d3c8da5b3f97e01f6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 05/20] fix: allow 'None' entries in flight states with more
 than one value

---
 src/lib/pytornado/objects/state.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/pytornado/objects/state.py b/src/lib/pytornado/objects/state.py
index d0d1f79..04920f9 100644
--- a/src/lib/pytornado/objects/state.py
+++ b/src/lib/pytornado/objects/state.py
@@ -159,6 +159,11 @@ class FlightState:
         # ----- Make everything into lists -----
         array_lenghts = set()
         for key, value in aero.items():
+            # Entries set to 'None' are treated as not given
+            if value is None:
+                self.aero[key] = None
+                continue
+
             if not isinstance(value, list):
                 value = [value]
 
-- 
2.43.0


From c6516247d02510422a1c7f4428c082e5c64c9add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 06/20] fix: saving settings does not remove entries from the
 settings object

---
 src/lib/pytornado/fileio/native/settings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/fileio/native/settings.py b/src/lib/pytornado/fileio/native/settings.py
index 342814b..846d551 100644
--- a/src/lib/pytornado/fileio/native/settings.py
+++ b/src/lib/pytornado/fileio/native/settings.py
@@ -28,6 +28,7 @@ Developed at Airinnova AB, Stockholm, Sweden.
 """
 
 import logging
+from copy import deepcopy
 import json
 from pathlib import Path
 
@@ -78,10 +79,11 @@ def save(settings):
     set_file = settings.paths('f_settings')
     logger.info(f"Saving settings to file '{truncate_filepath(set_file)}'...")
 
-    clean_dict(settings.settings)
+    # Never modify the settings themselves
+    settings_dict = clean_dict(deepcopy(settings.settings))
 
     with open(set_file, 'w') as fp:
-        dump_pretty_json(settings.settings, fp)
+        dump_pretty_json(settings_dict, fp)
 
 
 def clean_dict(dictionary, to_del='_'):
-- 
2.43.0


From 5e997b082c077f3806512f804bf33802a114a1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 07/20] fix: never share mutable default settings between
 settings objects

---
 src/lib/pytornado/objects/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/utils.py b/src/lib/pytornado/objects/utils.py
index 18dc8e7..c068034 100644
--- a/src/lib/pytornado/objects/utils.py
+++ b/src/lib/pytornado/objects/utils.py
@@ -29,6 +29,7 @@ Developed for Airinnova AB, Stockholm, Sweden.
 
 
 from collections import OrderedDict
+from copy import deepcopy
 from collections.abc import MutableMapping
 
 
@@ -124,5 +125,5 @@ def get_default_dict(template_dict):
         # Treat non-empty dictionary recursively
         if isinstance(value, dict) and value:
             value = get_default_dict(template_dict=value)
-        default_dict[key] = value
+        default_dict[key] = deepcopy(value)
     return default_dict
-- 
2.43.0


From 01716904e605272aafce89a88597ffb34a40e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 08/20] fix: plotting does not add entries to the user settings

---
 src/lib/pytornado/plot/makeplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/plot/makeplots.py b/src/lib/pytornado/plot/makeplots.py
index 6546635..4a8ad4d 100644
--- a/src/lib/pytornado/plot/makeplots.py
+++ b/src/lib/pytornado/plot/makeplots.py
@@ -50,7 +50,7 @@ def make_all(settings, aircraft, cur_state, vlmdata, lattice):
     def get_plot_settings(plot_name):
         """Return a 'plot_settings' dictionary"""
 
-        plot_settings = settings.settings['plot'][plot_name]
+        plot_settings = dict(settings.settings['plot'][plot_name])
         plot_settings['plot_dir'] = settings.paths('d_plots')
         return plot_settings
 
-- 
2.43.0


From ac66e3ac86c85a69a72cc3258aba055b91de5260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 09/20] fix: only strip the mirror suffix from wing names in
 deformation files

---
 src/lib/pytornado/fileio/native/deformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/deformation.py b/src/lib/pytornado/fileio/native/deformation.py
index 9228737..4f2fbb2 100644
--- a/src/lib/pytornado/fileio/native/deformation.py
+++ b/src/lib/pytornado/fileio/native/deformation.py
@@ -64,7 +64,7 @@ def load(aircraft, settings):
 
         # Convention: Deformation fields ending with '_m' belongs to a 'mirrored' component
         if wing_uid.endswith('_m'):
-            aircraft.wings[wing_uid.replace('_m', '')].def_field_mirror = def_field
+            aircraft.wings[wing_uid[:-len('_m')]].def_field_mirror = def_field
             continue
 
         aircraft.wings[wing_uid].def_field = def_field
-- 
2.43.0


From 43d666053737cedd305619a313befb7607f46630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 10/20] fix: skip subareas without control when searching
 subareas of a control

---
 src/lib/pytornado/objects/objecttools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/objects/objecttools.py b/src/lib/pytornado/objects/objecttools.py
index 24f850b..fcc779c 100644
--- a/src/lib/pytornado/objects/objecttools.py
+++ b/src/lib/pytornado/objects/objecttools.py
@@ -131,7 +131,8 @@ def all_subareas_of_control(aircraft, control_uid):
     """
 
     for this_subarea, _, _, _ in all_subareas(aircraft):
-        if this_subarea[2].parent_control.uid == control_uid:
+        parent_control = this_subarea[2].parent_control
+        if parent_control is not None and parent_control.uid == control_uid:
             yield this_subarea
 
 
-- 
2.43.0


From e41ddcf2ff03c8bc1aebfb2bad7b8b681e7fd711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 11/20] fix: report an error if the linear system cannot be
 solved

---
 src/lib/pytornado/aero/vlm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/aero/vlm.py b/src/lib/pytornado/aero/vlm.py
index 5381fdd..a10467c 100644
--- a/src/lib/pytornado/aero/vlm.py
+++ b/src/lib/pytornado/aero/vlm.py
@@ -472,9 +472,12 @@ def solver(vlmdata):
     """
 
     logger.info("Solving linear system...")
-    vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.panelwise['gamma'], _ \
+    vlmdata.matrix_lu, vlmdata.array_pivots, vlmdata.panelwise['gamma'], info \
         = lapack.dgesv(vlmdata.matrix_downwash, vlmdata.array_rhs)
 
+    if info != 0:
+        raise RuntimeError(f"Linear system could not be solved (LAPACK 'dgesv' info: {info})")
+
 ########
 ########
 ########
-- 
2.43.0


From f981eb60104a9599222c5574f9176a2c059775b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 12/20] fix: keep leading and trailing edges apart on wings
 mirrored at the yz-plane

---
 src/lib/pytornado/objects/aircraft.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 86b5a87..01f8931 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1870,6 +1870,10 @@ class StripSubdivision:
         if mirror:
             xsi_a, xsi_b, xsi_c, xsi_d = order_mirrored_vertex_points((xsi_a, xsi_b, xsi_c, xsi_d), self.symmetry)
 
+            # In case of type 3 symmetry, leading and trailing edges of the subdivision are swapped
+            if self.symmetry == 3:
+                xsi_a, xsi_b, xsi_c, xsi_d = 1 - xsi_a, 1 - xsi_b, 1 - xsi_c, 1 - xsi_d
+
         a_abs = a_sd + xsi_a*(d_sd - a_sd)
         b_abs = b_sd + xsi_b*(c_sd - b_sd)
         c_abs = b_sd + xsi_c*(c_sd - b_sd)
@@ -1903,6 +1907,9 @@ class StripSubdivision:
         # Only in case of type 2 symmetry, the xsi coordinates should be swapped
         if mirror and self.symmetry == 2:
             xsi_h1, xsi_h2 = xsi_h2, xsi_h1
+        # In case of type 3 symmetry, leading and trailing edges of the subdivision are swapped
+        elif mirror and self.symmetry == 3:
+            xsi_h1, xsi_h2 = 1 - xsi_h1, 1 - xsi_h2
 
         p_inner = a_sd + xsi_h1*(d_sd - a_sd)
         p_outer = b_sd + xsi_h2*(c_sd - b_sd)
-- 
2.43.0


From 3a0bd6505754bf2be5a5e91a43d4842dd57c8a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 13/20] fix: accept wing segments given by some vertices and
 geometric properties

Vertices that were not provided were turned into arrays of NaN, so all four
of them seemed to be given and the documented combinations of vertices and
geometric properties ended in an IndexError. Zero angles counted as missing,
the edge BC was computed from A and B being given, and computed vertices were
lists where arrays are needed.
---
 src/lib/pytornado/objects/aircraft.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 01f8931..255f5ed 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1017,16 +1017,16 @@ class WingSegment:
 
         # ----- Check provided geometric properties -----
         # All geometric properties provided
-        if all(v for v in self.geometry.values()):
+        if all(v is not None for v in self.geometry.values()):
             required = ['a', 'b', 'c', 'd', 'ad', 'bc', 'abcd']
         # All geometric properties provided except for inner edge
-        elif all(v for k, v in self.geometry.items() if 'inner_' not in k):
+        elif all(v is not None for k, v in self.geometry.items() if 'inner_' not in k):
             required = ['ad', 'abcd']
         # All geometric properties provided except for outer edge
-        elif all(v for k, v in self.geometry.items() if 'outer_' not in k):
+        elif all(v is not None for k, v in self.geometry.items() if 'outer_' not in k):
             required = ['bc', 'abcd']
         # Some geometric properties provided, but not enough
-        elif any(v for v in self.geometry.values()):
+        elif any(v is not None for v in self.geometry.values()):
             required = ['abcd']
         # No geometric properties provided
         else:
@@ -1100,7 +1100,7 @@ class WingSegment:
             logger.debug(f"--> Inner_beta = {self.geometry['inner_beta']}")
 
         # ----- Generate edge B, C -----
-        if not ('a' in provided and 'b' in provided):
+        if not ('b' in provided and 'c' in provided):
             logger.debug("Computing chord BC...")
 
             tan_ao = tan(radians(self.geometry['outer_alpha']))
@@ -1291,10 +1291,10 @@ class WingSegment:
                 a_y, b_y, c_y, d_y = a_y, c_y, b_y, d_y
                 a_z, b_z, c_z, d_z = a_z, c_z, b_z, d_z
 
-            self.vertices['a'] = [a_x, a_y, a_z]
-            self.vertices['b'] = [b_x, b_y, b_z]
-            self.vertices['c'] = [c_x, c_y, c_z]
-            self.vertices['d'] = [d_x, d_y, d_z]
+            self.vertices['a'] = np.array([a_x, a_y, a_z])
+            self.vertices['b'] = np.array([b_x, b_y, b_z])
+            self.vertices['c'] = np.array([c_x, c_y, c_z])
+            self.vertices['d'] = np.array([d_x, d_y, d_z])
 
         logger.debug(f"--> Vertex a = {self.vertices['a']}")
         logger.debug(f"--> Vertex b = {self.vertices['b']}")
@@ -1313,7 +1313,8 @@ class WingSegment:
 
         # Convert to NUMPY array
         for key in ['a', 'b', 'c', 'd']:
-            self.vertices[key] = np.array(self.vertices[key], dtype=float, order='C')
+            if self.vertices[key] is not None:
+                self.vertices[key] = np.array(self.vertices[key], dtype=float, order='C')
 
     def check_geometry(self):
         """Check type and value of geometry dictionary"""
-- 
2.43.0


From 9e44d5c52df4000b28252cff3d941601d9ab7267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 14/20] fix: sign of the yaw angles computed from the vertices
 of a wing segment

A segment generated from these angles was the mirror image (in y) of the edge
they were computed from.
---
 src/lib/pytornado/objects/aircraft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 255f5ed..6178d97 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -1090,7 +1090,7 @@ class WingSegment:
             sin_bi = +d_y/r_i
 
             # atan2() handles singularity
-            self.geometry['inner_beta'] = -degrees(asin(sin_bi))
+            self.geometry['inner_beta'] = +degrees(asin(sin_bi))
             self.geometry['inner_alpha'] = -degrees(atan2(d_z, r_i*cos_bi))
 
             tan_ai = tan(radians(self.geometry['inner_alpha']))
@@ -1138,7 +1138,7 @@ class WingSegment:
             cos_bo = +c_x/r_o
             sin_bo = +c_y/r_o
 
-            self.geometry['outer_beta'] = -degrees(asin(sin_bo))
+            self.geometry['outer_beta'] = +degrees(asin(sin_bo))
             self.geometry['outer_alpha'] = -degrees(atan2(c_z, r_o*cos_bo))
 
             tan_ao = tan(radians(self.geometry['outer_alpha']))
-- 
2.43.0


From 2305c312f14d496cdd7a49c027cfaddaa4ca6239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 15/20] fix: aircraft files whose controls have no panels entry
 can be loaded

---
 src/lib/pytornado/fileio/native/aircraft.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/pytornado/fileio/native/aircraft.py b/src/lib/pytornado/fileio/native/aircraft.py
index 54dbb8e..938e1e7 100644
--- a/src/lib/pytornado/fileio/native/aircraft.py
+++ b/src/lib/pytornado/fileio/native/aircraft.py
@@ -111,7 +111,10 @@ def load(settings):
             for key, value in control_entry['rel_hinge_vertices'].items():
                 control.rel_hinge_vertices[key] = value
 
-            control.panels['num_c'] = control_entry['panels']['num_c']
+            if control_entry.get('panels', None):
+                for key, value in control_entry['panels'].items():
+                    control.panels[key] = value
+
             control.check()
 
     aircraft.generate()
-- 
2.43.0


From 473abac4301389eab31f1bf078823c0e3ccdf373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 16/20] fix: close CPACS files also after a failure, and save
 them only if editing succeeded

---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 23 ++++++++++++----------
 src/lib/pytornado/fileio/cpacs/state.py    |  5 ++++-
 src/lib/pytornado/fileio/cpacs/utils.py    | 12 ++++++++---
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index c484e3d..199ab23 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -438,17 +438,20 @@ def load(settings):
         raise FileNotFoundError(err_msg)
 
     tixi = open_tixi(cpacs_file)
-    tigl = open_tigl(tixi)
+    try:
+        tigl = open_tigl(tixi)
+
+        # Reset the aircraft model
+        aircraft = Aircraft()
 
-    # Reset the aircraft model
-    aircraft = Aircraft()
+        # Extract CPACS data and add to aircraft model
+        get_aircraft_name(aircraft, tixi)
+        get_aircraft_wings(aircraft, settings, tixi, tigl)
+        write_airfoil_files(settings, tixi)
+        get_aircraft_refs(aircraft, tixi)
 
-    # Extract CPACS data and add to aircraft model
-    get_aircraft_name(aircraft, tixi)
-    get_aircraft_wings(aircraft, settings, tixi, tigl)
-    write_airfoil_files(settings, tixi)
-    get_aircraft_refs(aircraft, tixi)
+        aircraft.generate()
+    finally:
+        tixi.close()
 
-    aircraft.generate()
-    tixi.close()
     return aircraft
diff --git a/src/lib/pytornado/fileio/cpacs/state.py b/src/lib/pytornado/fileio/cpacs/state.py
index 5ff4bc6..a6b9117 100644
--- a/src/lib/pytornado/fileio/cpacs/state.py
+++ b/src/lib/pytornado/fileio/cpacs/state.py
@@ -48,8 +48,11 @@ def load(settings):
         raise FileNotFoundError(err_msg)
 
     tixi = open_tixi(cpacs_file)
+    try:
+        state_dict = _get_aero_dict_from_APM(tixi)
+    finally:
+        tixi.close()
 
-    state_dict = _get_aero_dict_from_APM(tixi)
     state = FlightState()
     state.update_from_dict(**state_dict)
     return state
diff --git a/src/lib/pytornado/fileio/cpacs/utils.py b/src/lib/pytornado/fileio/cpacs/utils.py
index 87ba77b..9ac65a2 100644
--- a/src/lib/pytornado/fileio/cpacs/utils.py
+++ b/src/lib/pytornado/fileio/cpacs/utils.py
@@ -150,8 +150,10 @@ def close_tixi(tixi, cpacs_file):
         :cpacs_file: CPACS file path
     """
 
-    tixi.saveDocument(str(cpacs_file))
-    tixi.close()
+    try:
+        tixi.saveDocument(str(cpacs_file))
+    finally:
+        tixi.close()
 
 
 def open_tigl(tixi):
@@ -242,5 +244,9 @@ def modify_cpacs(cpacs_file):
     tixi = open_tixi(cpacs_file)
     try:
         yield tixi
-    finally:
+    except BaseException:
+        # Do not save a file which has only been modified in part
+        tixi.close()
+        raise
+    else:
         close_tixi(tixi, cpacs_file)
-- 
2.43.0


From 136eec197f120098953d229040e122c4dabce6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 17/20] fix: close figures also if drawing or saving them fails

---
 src/lib/pytornado/plot/downwash.py  | 22 ++++++++++++----------
 src/lib/pytornado/plot/plottools.py | 22 +++++++++++-----------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/lib/pytornado/plot/downwash.py b/src/lib/pytornado/plot/downwash.py
index 1a3c633..afe1703 100644
--- a/src/lib/pytornado/plot/downwash.py
+++ b/src/lib/pytornado/plot/downwash.py
@@ -54,13 +54,15 @@ def view_downwash(vlmdata, plt_settings):
         logger.error(err_msg)
         raise TypeError(err_msg)
 
-    figure = plt.figure(figsize=(9, 9))
-    axes = figure.add_subplot(111)
-    axes.set_aspect('equal')
-    axes.matshow(vlmdata.matrix_downwash, cmap=pt.C.COLORMAP)
-    axes.set_xlabel('i')
-    axes.set_ylabel('j')
-    axes.set_title("Downwash factor matrix")
-
-    pt.show_and_save(plt_settings, (figure, 'downwash'))
-    plt.close('all')
+    try:
+        figure = plt.figure(figsize=(9, 9))
+        axes = figure.add_subplot(111)
+        axes.set_aspect('equal')
+        axes.matshow(vlmdata.matrix_downwash, cmap=pt.C.COLORMAP)
+        axes.set_xlabel('i')
+        axes.set_ylabel('j')
+        axes.set_title("Downwash factor matrix")
+
+        pt.show_and_save(plt_settings, (figure, 'downwash'))
+    finally:
+        plt.close('all')
diff --git a/src/lib/pytornado/plot/plottools.py b/src/lib/pytornado/plot/plottools.py
index d935b7b..af155ec 100644
--- a/src/lib/pytornado/plot/plottools.py
+++ b/src/lib/pytornado/plot/plottools.py
@@ -232,21 +232,21 @@ def plot2d3d(aircraft, plot_name, plot_settings):
           A suffix '2D' or '3D' is added to 'plot_name'
     """
 
-    # ----- 3D plot -----
-    figure_3d, axes_3d = _init_plot3d(title=aircraft.uid)
-    _add_info_plot3d(axes_3d, aircraft)
+    try:
+        # ----- 3D plot -----
+        figure_3d, axes_3d = _init_plot3d(title=aircraft.uid)
+        _add_info_plot3d(axes_3d, aircraft)
 
-    # ----- 2D plot -----
-    figure_2d, axes_2d = _init_plot2d(title=aircraft.uid)
+        # ----- 2D plot -----
+        figure_2d, axes_2d = _init_plot2d(title=aircraft.uid)
 
-    _scale_plots(axes_2d, axes_3d, aircraft)
+        _scale_plots(axes_2d, axes_3d, aircraft)
 
-    try:
-        yield (figure_2d, axes_2d, figure_3d, axes_3d)
-    # except:
-    #     plt.close('all')
+        try:
+            yield (figure_2d, axes_2d, figure_3d, axes_3d)
+        finally:
+            show_and_save(plot_settings, (figure_3d, plot_name + '3D'), (figure_2d, plot_name + '2D'))
     finally:
-        show_and_save(plot_settings, (figure_3d, plot_name + '3D'), (figure_2d, plot_name + '2D'))
         plt.close('all')
 
 
-- 
2.43.0


From 7beeca85ff9f9aa9cbf721b6f023e30f1ea1cf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:13 +0000
Subject: [PATCH 18/20] fix: set control deflections from CPACS after all wings
 have been read

The deflections were set after each wing, so that a control on a wing read later
was reported as 'not found' and the file could not be loaded.
---
 src/lib/pytornado/fileio/cpacs/aircraft.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib/pytornado/fileio/cpacs/aircraft.py b/src/lib/pytornado/fileio/cpacs/aircraft.py
index 199ab23..16d79bd 100644
--- a/src/lib/pytornado/fileio/cpacs/aircraft.py
+++ b/src/lib/pytornado/fileio/cpacs/aircraft.py
@@ -113,6 +113,9 @@ def get_aircraft_wings(aircraft, settings, tixi, tigl):
         get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl)
         get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl)
 
+    # The controls of all wings must be known before deflections are set
+    get_aircraft_control_deflections(aircraft, tixi)
+
 
 def get_aircraft_wing_segments(aircraft, settings, xpath_wing, wing_uid, idx_wing, tixi, tigl):
     """
@@ -285,6 +288,16 @@ def get_aircraft_controls(aircraft, wing_uid, idx_wing, tixi, tigl):
                 control.segment_uid['inner'] = segment_uid_inner
                 control.segment_uid['outer'] = segment_uid_outer
 
+
+def get_aircraft_control_deflections(aircraft, tixi):
+    """
+    Set the deflections of the control surfaces of all wings
+
+    Args:
+        :aircraft: Aircraft model
+        :tixi: Tixi handle
+    """
+
     # ----- CONTROL SURFACE DEFLECTION -----
     try:
         n_control_dev = tixi.getNamedChildrenCount(XPATHS.TOOLSPEC_CONTROL, 'controlDevice')
-- 
2.43.0


From 926c70f30d54cad3e9d8f2925da2ab4cf8d01030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:24 +0000
Subject: [PATCH 19/20] fix: no strip is made just below an existing division

A position less than MIN_ETA_LIMIT below an existing division (0.3 and 0.1*3) made a strip of (almost) zero width, and the results were not a number. The existing division is used, as it is for positions just above it.
---
 src/lib/pytornado/objects/aircraft.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 6178d97..7147852 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -764,6 +764,13 @@ class WingSegment:
                          "(Delta eta_a = {:.3f})".format(eta_a - prev_subdivision.rel_vertices['eta_a']))
             return self.subdivision[idx_prev]
 
+        eta_b_prev = prev_subdivision.rel_vertices['eta_b']
+
+        if eta_b_prev < 1 and (eta_b_prev - eta_a) < MIN_ETA_LIMIT:
+            logger.debug("Refusing to create a subdivision close to existing division "
+                         "(Delta eta_a = {:.3f})".format(eta_b_prev - eta_a))
+            return self._get_outer_neighbour_subdiv(eta_b_prev)
+
         # Relative vertices of new subdivision
         subdivision_rel_vertices = {}
         subdivision_rel_vertices['eta_a'] = eta_a
-- 
2.43.0


From ca2166464c429d22f33bd25b51773b62640880bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:24 +0000
Subject: [PATCH 20/20] fix: a control which ends just beyond an existing
 division ends there

No strip is made less than MIN_ETA_LIMIT beyond an existing division, so the control occupied the whole next strip (a slat from 0 to 0.505 next to a flap from 0 to 0.5 reached the tip). A control which is narrower than that is refused.
---
 src/lib/pytornado/objects/aircraft.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/pytornado/objects/aircraft.py b/src/lib/pytornado/objects/aircraft.py
index 7147852..2cb660b 100644
--- a/src/lib/pytornado/objects/aircraft.py
+++ b/src/lib/pytornado/objects/aircraft.py
@@ -908,6 +908,9 @@ class WingSegment:
 
         # CASE 2: There is no more subdivisions before eta_b
         elif eta_b < eta_b_sd1:
+            # No subdivision can be made very close to the start of sd1
+            if (eta_b - sd1.rel_vertices['eta_a']) < MIN_ETA_LIMIT:
+                raise ValueError(f"Control is too narrow (eta = {eta_a:.3f} to {eta_b:.3f})")
             self.add_subdivision(eta_b, eta_b)
 
         # CASE 3: The newly created subdivision ends before desired line
@@ -952,6 +955,11 @@ class WingSegment:
         # Add subarea for all subdivisions
         for row in sd_list:
             subdivision, xsi1, xsi2, xsi_h1, xsi_h2 = row
+
+            # No subdivision can be made very close to an existing one (the control ends there)
+            if (eta_b - subdivision.rel_vertices['eta_a']) < MIN_ETA_LIMIT:
+                continue
+
             subdivision._add_subarea(parent_control, xsi1, xsi2, xsi_h1, xsi_h2)
 
         return sd_list[:][0]
-- 
2.43.0


From da93d7058bd30c00c4c2354b70206f1036dad507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:29 +0000
Subject: [PATCH 01/51] fix: continue a symmetric axis from its own first value

When an axis with a period does not start at zero, every rebuilt period was
shifted by the first axis value, so the step between two periods was wrong.
---
 SciDataTool/Functions/symmetries.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/symmetries.py b/SciDataTool/Functions/symmetries.py
index 068be3a..c8e8c47 100644
--- a/SciDataTool/Functions/symmetries.py
+++ b/SciDataTool/Functions/symmetries.py
@@ -54,7 +54,10 @@ def rebuild_symmetries_axis(values, symmetries):
                 values_new = concatenate(
                     (
                         values_new,
-                        values + (values_new[-1] - values_new[-2]) + values_new[-1],
+                        values
+                        - values[0]
+                        + (values_new[-1] - values_new[-2])
+                        + values_new[-1],
                     )
                 )
     elif "antiperiod" in symmetries.keys():
@@ -70,7 +73,10 @@ def rebuild_symmetries_axis(values, symmetries):
                 values_new = concatenate(
                     (
                         values_new,
-                        values + (values_new[-1] - values_new[-2]) + values_new[-1],
+                        values
+                        - values[0]
+                        + (values_new[-1] - values_new[-2])
+                        + values_new[-1],
                     )
                 )
     return values_new
-- 
2.43.0


From b903e23d12f7535ff828bfd1eb57c6a48ecf9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:42 +0000
Subject: [PATCH 02/51] fix: round the sample count of a linspace axis given by
 its step

The count was truncated, so an axis such as 0 to 0.7 by 0.1 lost its last
value and no longer had the length reported by get_length.
---
 SciDataTool/Methods/DataLinspace/get_values.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index ab49789..0c62694 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -59,7 +59,7 @@ def get_values(
     else:
         number = self.number
         final = self.final
-    values = linspace(initial, final, int(number), endpoint=self.include_endpoint)
+    values = linspace(initial, final, round(number), endpoint=self.include_endpoint)
 
     norm_vector = None
 
-- 
2.43.0


From d34e511f14d45e78bacaf623cb6320bd350c215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:46 +0000
Subject: [PATCH 03/51] fix: check a field against the real length of a
 linspace axis given by its step

The check counted one sample less than the axis has, so a matching field was
refused and a field with one sample missing was accepted.
---
 SciDataTool/Classes/_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Classes/_check.py b/SciDataTool/Classes/_check.py
index 1e9389f..288f435 100644
--- a/SciDataTool/Classes/_check.py
+++ b/SciDataTool/Classes/_check.py
@@ -355,7 +355,7 @@ def check_dimensions(values, axes):
                 try:
                     axes_shape.append(int(axis.number))
                 except:
-                    axes_shape.append(round((axis.final - axis.initial) / axis.step))
+                    axes_shape.append(axis.get_length(is_smallestperiod=True))
 
         if values_shape != tuple(axes_shape):
             for i, s in enumerate(axes_shape):
-- 
2.43.0


From 50aacfb2f2cc3b0f3a2ec3691adde1dd1c37e4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:10 +0000
Subject: [PATCH 04/51] fix: keep the symmetries of an axis untouched while one
 period is rebuilt

The number of anti-periods was replaced by 2 in the axis itself and only put
back when the rebuild succeeded. An error left the axis with 2 anti-periods.
---
 SciDataTool/Methods/Data1D/get_values.py          | 7 +++----
 SciDataTool/Methods/DataLinspace/get_values.py    | 7 +++----
 SciDataTool/Methods/DataND/_get_field.py          | 7 +++----
 SciDataTool/Methods/DataND/_rebuild_symmetries.py | 7 +++----
 4 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index d691c22..03608b5 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -66,10 +66,9 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            nper = self.symmetries["antiperiod"]
-            self.symmetries["antiperiod"] = 2
-            values = rebuild_symmetries_axis(values, self.symmetries)
-            self.symmetries["antiperiod"] = nper
+            values = rebuild_symmetries_axis(
+                values, {**self.symmetries, "antiperiod": 2}
+            )
             pass
         elif "period" in self.symmetries:
             pass
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index 0c62694..9944919 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -77,10 +77,9 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            nper = self.symmetries["antiperiod"]
-            self.symmetries["antiperiod"] = 2
-            values = rebuild_symmetries_axis(values, self.symmetries)
-            self.symmetries["antiperiod"] = nper
+            values = rebuild_symmetries_axis(
+                values, {**self.symmetries, "antiperiod": 2}
+            )
             pass
         elif "period" in self.symmetries:
             pass
diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 95c5969..d45ee5a 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -43,10 +43,9 @@ def _get_field(self, axes_list):
             values = take(values, axis_requested.rebuild_indices, axis_requested.index)
         elif axis_requested.transform == "fft" and "antiperiod" in axis_symmetries:
             # FFT case if axis is anti-periodic
-            nper = axis_symmetries["antiperiod"]
-            axis_symmetries["antiperiod"] = 2
-            values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
-            axis_symmetries["antiperiod"] = nper
+            values = rebuild_symmetries(
+                values, axis_requested.index, {**axis_symmetries, "antiperiod": 2}
+            )
         elif (
             axis_requested.indices is not None
             and max(axis_requested.indices) > values.shape[axis_requested.index]
diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index 4a16f4f..1261277 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -88,10 +88,9 @@ def _rebuild_symmetries(
             axis_symmetries = self.axes[axis.index].symmetries
             if is_oneperiod:
                 if "antiperiod" in axis_symmetries:
-                    nper = axis_symmetries["antiperiod"]
-                    axis_symmetries["antiperiod"] = 2
-                    values = rebuild_symmetries_fct(values, axis.index, axis_symmetries)
-                    axis_symmetries["antiperiod"] = nper
+                    values = rebuild_symmetries_fct(
+                        values, axis.index, {**axis_symmetries, "antiperiod": 2}
+                    )
             elif not is_smallestperiod and not is_antiperiod:
                 values = rebuild_symmetries_fct(values, axis.index, axis_symmetries)
     return values
-- 
2.43.0


From 40684c63ab67971300f33fb62d6534047f648ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:44 +0000
Subject: [PATCH 05/51] fix: keep a vector normalization unchanged when an axis
 is read

The stored vector was replaced by its rebuilt version while the axis values
were computed, and stayed so when the normalization or the unit was refused.
---
 SciDataTool/Methods/Data1D/get_values.py       | 16 +++++++---------
 SciDataTool/Methods/DataLinspace/get_values.py | 16 +++++++---------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index 03608b5..8e85c54 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -50,7 +50,7 @@ def get_values(
             unit = "SI"
 
     values = self.values
-    norm_vector = None
+    norm = None
 
     # Ignore symmetries if fft axis
     if self.name == "freqs" or self.name == "wavenumber":
@@ -81,10 +81,9 @@ def get_values(
             and normalization in self.normalizations
             and isinstance(self.normalizations[normalization], Norm_vector)
         ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
-            )
+            # Rebuild a copy so that the stored vector is not modified
+            norm = self.normalizations[normalization].copy()
+            norm.vector = rebuild_symmetries_axis(norm.vector, self.symmetries)
 
     # fft/ifft
     if operation is not None:
@@ -107,7 +106,9 @@ def get_values(
                 or self.normalizations[normalization].unit == self.unit
             ):
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                if norm is None:
+                    norm = self.normalizations[normalization]
+                values = norm.normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -120,7 +121,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index 9944919..2ae316e 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -61,7 +61,7 @@ def get_values(
         final = self.final
     values = linspace(initial, final, round(number), endpoint=self.include_endpoint)
 
-    norm_vector = None
+    norm = None
 
     # Ignore symmetries if fft axis
     if self.name == "freqs" or self.name == "wavenumber":
@@ -92,10 +92,9 @@ def get_values(
             and normalization in self.normalizations
             and isinstance(self.normalizations[normalization], Norm_vector)
         ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
-            )
+            # Rebuild a copy so that the stored vector is not modified
+            norm = self.normalizations[normalization].copy()
+            norm.vector = rebuild_symmetries_axis(norm.vector, self.symmetries)
 
     # fft/ifft
     if operation is not None:
@@ -118,7 +117,9 @@ def get_values(
                 or self.normalizations[normalization].unit == self.unit
             ):
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                if norm is None:
+                    norm = self.normalizations[normalization]
+                values = norm.normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -131,7 +132,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
-- 
2.43.0


From 62ff02f238b14fea09e4b846127f282a7a37ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:44 +0000
Subject: [PATCH 06/51] fix: reduce a copy of the normalization vectors of a
 periodic axis

Asking for the periodic version of an axis shortened the vectors of the axis
it was asked of.
---
 SciDataTool/Methods/Data1D/get_axis_periodic.py       | 9 ++++++---
 SciDataTool/Methods/DataLinspace/get_axis_periodic.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_axis_periodic.py b/SciDataTool/Methods/Data1D/get_axis_periodic.py
index f5fb4ee..bbdf999 100644
--- a/SciDataTool/Methods/Data1D/get_axis_periodic.py
+++ b/SciDataTool/Methods/Data1D/get_axis_periodic.py
@@ -33,9 +33,12 @@ def get_axis_periodic(self, Nper, is_aper=False):
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
         values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        normalizations = self.normalizations.copy()
+        for key, norm in normalizations.items():
             if isinstance(norm, Norm_vector):
-                norm.vector = norm.vector[: int(N / Nper)]
+                # Reduce a copy so that the original axis is not modified
+                normalizations[key] = norm.copy()
+                normalizations[key].vector = norm.vector[: int(N / Nper)]
 
         if is_aper:
             sym = "antiperiod"
@@ -52,7 +55,7 @@ def get_axis_periodic(self, Nper, is_aper=False):
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations,
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
diff --git a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
index 15e6887..e92e9e3 100644
--- a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
+++ b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
@@ -33,9 +33,12 @@ def get_axis_periodic(self, Nper, is_aper=False):
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
         values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        normalizations = self.normalizations.copy()
+        for key, norm in normalizations.items():
             if isinstance(norm, Norm_vector):
-                norm.vector = norm.vector[: int(N / Nper)]
+                # Reduce a copy so that the original axis is not modified
+                normalizations[key] = norm.copy()
+                normalizations[key].vector = norm.vector[: int(N / Nper)]
 
         if is_aper:
             sym = "antiperiod"
@@ -55,7 +58,7 @@ def get_axis_periodic(self, Nper, is_aper=False):
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations.copy(),
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
-- 
2.43.0


From 968d88f0c65043c8aec96dfdb2a063c34c6eaa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:47 +0000
Subject: [PATCH 07/51] fix: read slices of a symmetric axis without touching
 the axis

An interval inside the stored period was repeated after it was cut out, the
first sample of the second period could not be requested, and reading a slice
beyond the first period removed the symmetries of the axis for good.
---
 SciDataTool/Methods/DataND/_get_field.py      |  3 +--
 .../Methods/DataND/_rebuild_symmetries.py     | 19 ++++++++++++-------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index d45ee5a..dfc1854 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -48,10 +48,9 @@ def _get_field(self, axes_list):
             )
         elif (
             axis_requested.indices is not None
-            and max(axis_requested.indices) > values.shape[axis_requested.index]
+            and max(axis_requested.indices) >= values.shape[axis_requested.index]
         ):
             # Slicing case where requested indices are among other periods
             values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
-            self.axes[axis_requested.index].symmetries = dict()
 
     return values
diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index 1261277..bda847e 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -46,13 +46,18 @@ def _rebuild_symmetries(
             )
         ):
             values = take(values, axis.rebuild_indices, axis.index)
-        elif axis.transform != "fft" and axis.extension in [
-            "whole",
-            "interval",
-            "oneperiod",
-            "antiperiod",
-            "smallestperiod",
-        ]:
+        elif (
+            axis.transform != "fft"
+            and axis.indices is None  # otherwise slices were already extracted
+            and axis.extension
+            in [
+                "whole",
+                "interval",
+                "oneperiod",
+                "antiperiod",
+                "smallestperiod",
+            ]
+        ):
             if axis.extension == "smallestperiod":
                 is_smallestperiod = True
                 is_oneperiod = False
-- 
2.43.0


From 848dfa554812a4915acea88749c1752e6c3cb6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:00 +0000
Subject: [PATCH 08/51] fix: continue a vector normalization over one full
 period

Asking an anti-periodic axis for one period with a vector normalization was
refused because only the axis was continued.
---
 SciDataTool/Methods/Data1D/get_values.py       | 13 +++++++------
 SciDataTool/Methods/DataLinspace/get_values.py | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index 8e85c54..0153d39 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -57,6 +57,7 @@ def get_values(
         is_smallestperiod = True
 
     # Rebuild symmetries
+    symmetries = dict()
     if is_smallestperiod:
         pass
     elif is_antiperiod:
@@ -66,16 +67,16 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            values = rebuild_symmetries_axis(
-                values, {**self.symmetries, "antiperiod": 2}
-            )
-            pass
+            symmetries = {**self.symmetries, "antiperiod": 2}
         elif "period" in self.symmetries:
             pass
         else:
             pass
     else:
-        values = rebuild_symmetries_axis(values, self.symmetries)
+        symmetries = self.symmetries
+
+    if symmetries:
+        values = rebuild_symmetries_axis(values, symmetries)
         if (
             normalization is not None
             and normalization in self.normalizations
@@ -83,7 +84,7 @@ def get_values(
         ):
             # Rebuild a copy so that the stored vector is not modified
             norm = self.normalizations[normalization].copy()
-            norm.vector = rebuild_symmetries_axis(norm.vector, self.symmetries)
+            norm.vector = rebuild_symmetries_axis(norm.vector, symmetries)
 
     # fft/ifft
     if operation is not None:
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index 2ae316e..ab41939 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -68,6 +68,7 @@ def get_values(
         is_smallestperiod = True
 
     # Rebuild symmetries
+    symmetries = dict()
     if is_smallestperiod:
         pass
     elif is_antiperiod:
@@ -77,16 +78,16 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            values = rebuild_symmetries_axis(
-                values, {**self.symmetries, "antiperiod": 2}
-            )
-            pass
+            symmetries = {**self.symmetries, "antiperiod": 2}
         elif "period" in self.symmetries:
             pass
         else:
             pass
     else:
-        values = rebuild_symmetries_axis(values, self.symmetries)
+        symmetries = self.symmetries
+
+    if symmetries:
+        values = rebuild_symmetries_axis(values, symmetries)
         if (
             normalization is not None
             and normalization in self.normalizations
@@ -94,7 +95,7 @@ def get_values(
         ):
             # Rebuild a copy so that the stored vector is not modified
             norm = self.normalizations[normalization].copy()
-            norm.vector = rebuild_symmetries_axis(norm.vector, self.symmetries)
+            norm.vector = rebuild_symmetries_axis(norm.vector, symmetries)
 
     # fft/ifft
     if operation is not None:
-- 
2.43.0


From ca19fb575f87d042104238ed0e17a38ea73e0b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:21 +0000
Subject: [PATCH 09/51] fix: reduce a symmetric Data1D axis from its full
 values

The number of values to keep was computed from the full length of the axis but
the values were cut out of the stored period only.
---
 SciDataTool/Methods/Data1D/get_axis_periodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/Data1D/get_axis_periodic.py b/SciDataTool/Methods/Data1D/get_axis_periodic.py
index bbdf999..d7e5e10 100644
--- a/SciDataTool/Methods/Data1D/get_axis_periodic.py
+++ b/SciDataTool/Methods/Data1D/get_axis_periodic.py
@@ -27,7 +27,7 @@ def get_axis_periodic(self, Nper, is_aper=False):
     try:
         # Reduce axis to the given periodicity
         Nper = Nper * 2 if is_aper else Nper
-        values = self.values
+        values = self.get_values()
         N = self.get_length()
 
         if N % Nper != 0:
-- 
2.43.0


From d6aa996f8339edde1fb0521713427dc378d0c162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:26 +0000
Subject: [PATCH 10/51] fix: give the length of a frequency axis as the number
 of its values

The values of freqs and wavenumber axes are returned without symmetries, the
length counted them.
---
 SciDataTool/Methods/Data1D/get_length.py       | 4 ++++
 SciDataTool/Methods/DataLinspace/get_length.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/SciDataTool/Methods/Data1D/get_length.py b/SciDataTool/Methods/Data1D/get_length.py
index 549d243..6354629 100644
--- a/SciDataTool/Methods/Data1D/get_length.py
+++ b/SciDataTool/Methods/Data1D/get_length.py
@@ -16,6 +16,10 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     Length of axis
     """
     N = len(self.values)
+    # Ignore symmetries if fft axis
+    if self.name == "freqs" or self.name == "wavenumber":
+        is_smallestperiod = True
+
     # Rebuild symmetries
     if is_smallestperiod:
         return N
diff --git a/SciDataTool/Methods/DataLinspace/get_length.py b/SciDataTool/Methods/DataLinspace/get_length.py
index 7c59dfd..ea569c2 100644
--- a/SciDataTool/Methods/DataLinspace/get_length.py
+++ b/SciDataTool/Methods/DataLinspace/get_length.py
@@ -21,6 +21,10 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     else:
         N = self.number
 
+    # Ignore symmetries if fft axis
+    if self.name == "freqs" or self.name == "wavenumber":
+        is_smallestperiod = True
+
     # Rebuild symmetries
     if is_smallestperiod:
         return N
-- 
2.43.0


From 780c49de6e2fdc987366b73adf74ee05baa340a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:31 +0000
Subject: [PATCH 11/51] fix: give a converted linspace axis its own symmetries

The new axis shared the symmetry dictionary of the original.
---
 SciDataTool/Methods/Data1D/to_linspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/Data1D/to_linspace.py b/SciDataTool/Methods/Data1D/to_linspace.py
index 025de20..04726aa 100644
--- a/SciDataTool/Methods/Data1D/to_linspace.py
+++ b/SciDataTool/Methods/Data1D/to_linspace.py
@@ -37,7 +37,7 @@ def to_linspace(self):
             include_endpoint=True,
             name=self.name,
             unit=self.unit,
-            symmetries=self.symmetries,
+            symmetries=self.symmetries.copy(),
             normalizations=self.normalizations.copy(),
             is_components=self.is_components,
             symbol=self.symbol,
-- 
2.43.0


From 82437d1f2a0418d71137009e109b5038d03f99cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:55 +0000
Subject: [PATCH 12/51] fix: keep the reduced axis in place until all axes are
 reduced

Maximum, minimum, non-physical mean and the zero results of anti-periodic axes
dropped the reduced dimension, so that a second axis was reduced along the
wrong dimension or refused.
---
 SciDataTool/Functions/derivation_integration.py | 2 +-
 SciDataTool/Functions/sum_mean.py               | 6 +++---
 SciDataTool/Methods/DataND/_apply_operations.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index b8c4f39..4e23d13 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -223,7 +223,7 @@ def integrate(values, ax_val, index, Nper, is_aper, is_phys, is_mean=False):
         shape = list(values.shape)
         if is_aper:
             # Integration of anti-periodic signal yields zero
-            shape0 = [s for ii, s in enumerate(shape) if ii != index]
+            shape0 = [s if ii != index else 1 for ii, s in enumerate(shape)]
             values = np.zeros(shape0, dtype=values.dtype)
         else:
             # Swap axis to always have integration axis on 1st position
diff --git a/SciDataTool/Functions/sum_mean.py b/SciDataTool/Functions/sum_mean.py
index f84c518..8e75624 100644
--- a/SciDataTool/Functions/sum_mean.py
+++ b/SciDataTool/Functions/sum_mean.py
@@ -27,7 +27,7 @@ def my_sum(values, index, Nper, is_aper, unit, is_fft, corr_unit="SI"):
     if is_aper:
         # Sum of anti-periodic signal yields zero
         shape = list(values.shape)
-        shape0 = [s for ii, s in enumerate(shape) if ii != index]
+        shape0 = [s if ii != index else 1 for ii, s in enumerate(shape)]
         values = np.zeros(shape0, dtype=values.dtype)
     else:
         # To sum dB or dBA
@@ -86,7 +86,7 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
         if is_aper:
             # Average of anti-periodic signal yields zero
             shape = list(values.shape)
-            shape0 = [s for ii, s in enumerate(shape) if ii != index]
+            shape0 = [s if ii != index else 1 for ii, s in enumerate(shape)]
             values = np.zeros(shape0, dtype=values.dtype)
         else:
             if is_fft:  # No need to multiply by Nper in fft case
@@ -95,7 +95,7 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
             if Nper is None:
                 # Set Nper to 1 in case of non-periodic axis
                 Nper = 1
-            values = Nper * np.nanmean(values, axis=index)
+            values = Nper * np.nanmean(values, axis=index, keepdims=True)
 
     return values
 
diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 672dfd5..10f2c51 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -58,10 +58,10 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             is_fft = False
         # max over max axes
         if extension in "max":
-            values = nanmax(values, axis=index)
+            values = nanmax(values, axis=index, keepdims=True)
         # min over max axes
         elif extension in "min":
-            values = nanmin(values, axis=index)
+            values = nanmin(values, axis=index, keepdims=True)
         # sum over sum axes
         elif extension in "sum":
             values = my_sum(
-- 
2.43.0


From a7f3d18be884df7c9f015446ef90013181cb546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:00 +0000
Subject: [PATCH 13/51] fix: do not multiply the mean of a periodic axis by its
 number of periods

The mean over all periods is the mean over one period. The rms, computed from
the mean of the squares, was wrong in the same way.
---
 SciDataTool/Functions/sum_mean.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Functions/sum_mean.py b/SciDataTool/Functions/sum_mean.py
index 8e75624..cfec047 100644
--- a/SciDataTool/Functions/sum_mean.py
+++ b/SciDataTool/Functions/sum_mean.py
@@ -89,13 +89,8 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
             shape0 = [s if ii != index else 1 for ii, s in enumerate(shape)]
             values = np.zeros(shape0, dtype=values.dtype)
         else:
-            if is_fft:  # No need to multiply by Nper in fft case
-                Nper = 1
-            # Take mean value multiplied by periodicity
-            if Nper is None:
-                # Set Nper to 1 in case of non-periodic axis
-                Nper = 1
-            values = Nper * np.nanmean(values, axis=index, keepdims=True)
+            # Mean value over one period is the mean value over all periods
+            values = np.nanmean(values, axis=index, keepdims=True)
 
     return values
 
-- 
2.43.0


From cb64561a8a0b2557bd3f0aa5a833c2acf79fd480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:05 +0000
Subject: [PATCH 14/51] fix: take the opposite anti-period into account in
 maximum and minimum

---
 SciDataTool/Methods/DataND/_apply_operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 10f2c51..925ea07 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -7,6 +7,7 @@ from SciDataTool.Functions.derivation_integration import (
     integrate_local_pattern,
     antiderivate,
 )
+from SciDataTool.Functions.symmetries import rebuild_symmetries
 from SciDataTool.Functions.sum_mean import (
     my_sum,
     my_mean,
@@ -56,6 +57,9 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             is_fft = True
         else:
             is_fft = False
+        if extension in ["max", "min"] and is_aper:
+            # Opposite values are reached on the other anti-period
+            values = rebuild_symmetries(values, index, {"antiperiod": 2})
         # max over max axes
         if extension in "max":
             values = nanmax(values, axis=index, keepdims=True)
-- 
2.43.0


From 7c4e6e4ae0eb65f7e07f476eea0538724a4cb541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:26 +0000
Subject: [PATCH 15/51] fix: do not treat spectra and magnitudes as
 anti-periodic in reductions

The sum over the frequencies of an anti-periodic signal, and the sum or mean
of its magnitude, were returned as zero.
---
 SciDataTool/Methods/DataND/_apply_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 925ea07..9baf3d6 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -57,6 +57,9 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             is_fft = True
         else:
             is_fft = False
+        if is_aper and (is_fft or is_magnitude and "dB" not in unit):
+            # Spectra and magnitudes do not change sign on the other anti-period
+            is_aper = False
         if extension in ["max", "min"] and is_aper:
             # Opposite values are reached on the other anti-period
             values = rebuild_symmetries(values, index, {"antiperiod": 2})
-- 
2.43.0


From 14b19322f92eaad47619916b75339ed5a47307e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:51 +0000
Subject: [PATCH 16/51] fix: place the sample before the first one of a
 derivated axis one step back

---
 SciDataTool/Functions/derivation_integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index 4e23d13..bda82e5 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -311,7 +311,7 @@ def derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # Create the full vector of axis values
                 ax_full = np.concatenate(
                     (
-                        np.array([ax_val[0] - ax_val[1]]),
+                        np.array([2 * ax_val[0] - ax_val[1]]),
                         ax_val,
                         np.array([ax_val[-1] + ax_val[1] - ax_val[0]]),
                     )
-- 
2.43.0


From 92aff16e5bc1066b6bbd0a0608ecd1c4133c51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:57 +0000
Subject: [PATCH 17/51] fix: keep the first and last samples when a non
 periodic axis is derivated

---
 SciDataTool/Functions/derivation_integration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index bda82e5..6e87b36 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -328,8 +328,11 @@ def derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 values_full[0, ...] = (-1) ** int(is_aper) * values[-1, ...]
             # Derivate along axis
             values = np.gradient(values_full, ax_full, axis=0)
-            # Get N first values and swap axes back to origin
-            values = np.swapaxes(values[1:-1, ...], 0, index)
+            if values_full.shape[0] > ax_val.size:
+                # Remove the two added samples
+                values = values[1:-1, ...]
+            # Swap axes back to origin
+            values = np.swapaxes(values, 0, index)
 
         else:
             raise Exception("Cannot derivate along axis if axis size is 1")
-- 
2.43.0


From 20a411968da799983cb10c1f4f7d38af63b7e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:05 +0000
Subject: [PATCH 18/51] fix: start a primitive at its first sample and centre
 it over the full period

---
 .../Functions/derivation_integration.py        | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index 6e87b36..d18e2b5 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -63,15 +63,19 @@ def antiderivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # Last value is the same as (respectively the opposite of) the first value
                 # in case of periodicity (respectively anti-periodicity)
                 values_full[-1, ...] = (-1) ** int(is_aper) * values[0, ...]
-            # Anti-derivate along axis
-            values = np.roll(
-                scp_int.cumulative_trapezoid(values_full, x=ax_full, axis=0),
-                shift=1,
-                axis=0,
+            # Anti-derivate along axis, starting from zero on first sample
+            values = scp_int.cumulative_trapezoid(
+                values_full, x=ax_full, axis=0, initial=0
             )
             # Integration constant is given by removing average value
-            values = values - np.mean(values, axis=0)
-            # Get N first values and swap axes back to origin
+            if Nper is not None and is_aper:
+                # Average of an anti-periodic primitive and of its opposite
+                values = values[:-1, ...] - values[-1, ...] / 2
+            else:
+                # Get N first values
+                values = values[: ax_val.size, ...]
+                values = values - np.mean(values, axis=0)
+            # Swap axes back to origin
             values = np.swapaxes(values, 0, index)
 
         else:
-- 
2.43.0


From eacae17c178e89c6aa871a4cacee661f7dc5a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:55 +0000
Subject: [PATCH 19/51] fix: give metre, gram and henry their physical
 dimensions

---
 SciDataTool/Functions/conversions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 25c3cad..eef4882 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -44,7 +44,7 @@ unit_symbols = [
     ("Mx", 1.0e-8, (1, 2, -2, 0, 0, -1)),  # Maxwell
     ("Hz", 1.0, (0, 0, -1, 0, 0, 0)),  # Herz
     ("Pa", 1.0, (1, -1, -2, 0, 0, 0)),  # Pascal
-    ("g", 1.0e-3, (0, 1, 0, 0, 0, 0)),  # gram
+    ("g", 1.0e-3, (1, 0, 0, 0, 0, 0)),  # gram
     ("s", 1.0, (0, 0, 1, 0, 0, 0)),  # second
     ("h", 3600.0, (0, 0, 1, 0, 0, 0)),  # hour
     #    ("K",       1.0, (0,0,0,1,0,0)),   # Kelvin
@@ -57,8 +57,8 @@ unit_symbols = [
     ("G", 1.0e-4, (1, 0, -2, 0, 0, -1)),  # Gauss
     ("V", 1.0, (1, 2, -3, 0, 0, -1)),  # Volt
     ("F", 1.0, (-1, -2, 4, 0, 0, 2)),  # Farrad
-    ("H", 1.0, (1, -2, -2, 0, 0, -2)),  # Henry
-    ("m", 1.0, (1, 0, 0, 0, 0, 0)),  # meter
+    ("H", 1.0, (1, 2, -2, 0, 0, -2)),  # Henry
+    ("m", 1.0, (0, 1, 0, 0, 0, 0)),  # meter
 ]
 # Dictionnary of the prefixes and their values
 unit_prefixes = {
-- 
2.43.0


From 3a738f955d826cb5ea9d746544337b15cf48997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:13 +0000
Subject: [PATCH 20/51] fix: read the unit symbol that leaves a known prefix
 and a power

---
 SciDataTool/Functions/conversions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index eef4882..b8b1c6c 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -93,7 +93,14 @@ def get_dim_prefix(unit_str):
         unit_str = "dimless"
     p = 1  # power of the unit
     dim = None
-    for key in unit_symbols:
+    # Take the symbol that leaves a known prefix and a power, otherwise the first one found
+    symbols = [key for key in unit_symbols if key[0] in unit_str]
+    for key in symbols:
+        prefix_str, power_str = unit_str.rsplit(key[0], 1)
+        if prefix_str in unit_prefixes and (power_str == "" or power_str.isdigit()):
+            symbols = [key]
+            break
+    for key in symbols:
         if key[0] in unit_str:
             if unit_str.rsplit(key[0], 1)[1].isdigit():
                 p = int(unit_str.rsplit(key[0], 1)[1])
-- 
2.43.0


From 217967fb1e6d979c23bdc50f44501f860c13af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:02 +0000
Subject: [PATCH 21/51] fix: accept numpy integers of any size where int32 ones
 are accepted

---
 SciDataTool/Classes/_check.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Classes/_check.py b/SciDataTool/Classes/_check.py
index 288f435..9677a19 100644
--- a/SciDataTool/Classes/_check.py
+++ b/SciDataTool/Classes/_check.py
@@ -1,4 +1,4 @@
-from numpy import array, empty, int32, squeeze, expand_dims
+from numpy import array, empty, integer, squeeze, expand_dims
 
 
 def set_array(obj, prop, value):
@@ -108,7 +108,7 @@ def check_type(var_name, value, expect_type, type_value):
     """
     if expect_type == "float":  # float variable can take int value
         if not (
-            (isinstance(value, int32) and not isinstance(value, bool))
+            isinstance(value, integer)
             or (isinstance(value, int) and not isinstance(value, bool))
             or isinstance(value, float)
         ):
@@ -140,7 +140,7 @@ def check_type(var_name, value, expect_type, type_value):
             raise CheckTypeError(
                 "For " + var_name + " : Integer expected, " + type_value + " given"
             )
-    elif expect_type == "int" and type_value == "int32":
+    elif expect_type == "int" and isinstance(value, integer):
         if value % 1 != 0:  # If not an Integer
             raise CheckTypeError(
                 "For " + var_name + " : Integer expected, " + type_value + " given"
@@ -262,9 +262,9 @@ def check_min(var_name, value, type_value, Vmin):
     """
     # Work only for number and matrix
     msg = "Check : You can't specify the min of variable of type " + type_value
-    assert type_value in ["ndarray", "int", "long", "float", "int32"], msg
+    assert type_value in ["ndarray", "int", "long", "float", "int32", "int64"], msg
     # For number
-    if (isinstance(value, int) or isinstance(value, float)) and value < Vmin:
+    if isinstance(value, (int, float, integer)) and value < Vmin:
         raise CheckMinError(
             var_name + " must be >= " + str(Vmin) + ", " + str(value) + " given"
         )
@@ -302,9 +302,9 @@ def check_max(var_name, value, type_value, Vmax):
     """
     # Work only for number and matrix
     msg = "Check : You can't specify the max of variable of type " + type_value
-    assert type_value in ["ndarray", "int", "long", "float", "int32"], msg
+    assert type_value in ["ndarray", "int", "long", "float", "int32", "int64"], msg
     # For number
-    if (isinstance(value, int) or isinstance(value, float)) and value > Vmax:
+    if isinstance(value, (int, float, integer)) and value > Vmax:
         raise CheckMaxError(
             var_name + " must be <= " + str(Vmax) + ", " + str(value) + " given"
         )
-- 
2.43.0


From 859a27b0263c995e23357dddbce54c927334c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:47 +0000
Subject: [PATCH 22/51] fix: do not double the constant component of a time
 signal that starts before 0

---
 SciDataTool/Functions/fft_functions.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 32239cf..777237f 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -289,17 +289,12 @@ def comp_fftn(values, axes_list, is_real=True):
         if is_onereal:
             values_FT = rfftn(values, axes=axes)
             # Do not multiply constant component by 2 (f=0)
-            if axes_list[axes[-1]].corr_values is not None:
-                freqs = axes_list[axes[-1]].corr_values
-            else:
-                freqs = axes_list[axes[-1]].values
-            if freqs[0] == 0:
-                slice_0 = take(values_FT, 0, axis=axes[-1])
+            slice_0 = take(values_FT, 0, axis=axes[-1])
+            slice_0 *= 0.5
+            if is_twice:
                 slice_0 *= 0.5
-                if is_twice:
-                    slice_0 *= 0.5
-                other_values = delete(values_FT, 0, axis=axes[-1])
-                values_FT = insert(other_values, 0, slice_0, axis=axes[-1])
+            other_values = delete(values_FT, 0, axis=axes[-1])
+            values_FT = insert(other_values, 0, slice_0, axis=axes[-1])
             values_FT2 = 2.0 * fftshift(values_FT, axes=axes[:-1]) / size
             if is_twice:
                 values_FT2 *= 2.0
-- 
2.43.0


From 8298ec130a28e702d530b4060c9a25c6adc4e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:52 +0000
Subject: [PATCH 23/51] fix: transform a non uniform axis on its own
 frequencies when none are requested

---
 SciDataTool/Functions/fft_functions.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 777237f..76d226d 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -223,9 +223,19 @@ def comp_fftn(values, axes_list, is_real=True):
             if axis.corr_values is not None and len(axis.corr_values) > 1:  # Timesteps
                 if not is_uniform(axis.corr_values):
                     is_non_uniform = True
+                    if axis.input_data is None:
+                        # Transform on the frequencies of the axis (already sliced)
+                        axis.input_data = axis.values
+                        axis.indices = None
+                    # Convert wavenumbers to frequencies if needed
+                    frequencies = (
+                        axis.input_data
+                        if axis.name == "freqs"
+                        else axis.input_data / (2 * pi)
+                    )
                     axes_dict_non_uniform[axis.index] = [
                         axis.corr_values,
-                        axis.input_data,
+                        frequencies,
                     ]
                     # Keep only interpolation data
                     axis.values = axis.input_data
-- 
2.43.0


From e7b29e28106ee3da79192e76fb63940eb6a0bd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:20 +0000
Subject: [PATCH 24/51] fix: give the time or angle axis of an odd number of
 harmonics its right step

---
 SciDataTool/Functions/fft_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 76d226d..cb993cd 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -79,7 +79,7 @@ def comp_fft_time(freqs, is_angle, is_real):
             fs = freqs[-1] / (N_tot)
         else:
             N_tot = len(freqs)  # Number of samples
-            fs = freqs[-1] / (N_tot - 2)
+            fs = (freqs[-1] - freqs[0]) / (2 * (N_tot - 1))
         tf = 1 / (fs * 2)
         time = linspace(0, tf, N_tot, endpoint=False)
         # fsampt = freqs[-1] * 2.0
-- 
2.43.0


From 268c76aa3e76a53523bc8edf45d202acfe776eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:42 +0000
Subject: [PATCH 25/51] fix: invert the two-sided spectrum of a field that
 depends on angle only

---
 SciDataTool/Functions/fft_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index cb993cd..3fc4920 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -456,7 +456,12 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                 axes.append(axis.index)
                 shape.append(2 * (values.shape[axis.index] - 1))
                 is_onereal = True
-            elif is_real and axis.name == "angle" and "time" not in axis_names:
+            elif (
+                is_real
+                and axis.name == "angle"
+                and "time" not in axis_names
+                and min(axis.corr_values) >= 0
+            ):
                 axes.append(axis.index)
                 shape.append(values.shape[axis.index])
                 is_half = True
-- 
2.43.0


From ee3a2d7ab6d298cdbd4df037bb2e626c43971987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:57 +0000
Subject: [PATCH 26/51] fix: return interpolated samples in the order of the
 requested values

---
 SciDataTool/Functions/interpolations.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 2ef5e8d..80ee9df 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -10,7 +10,6 @@ from numpy import (
     abs as np_abs,
     where,
     zeros,
-    unique,
 )
 from scipy.interpolate import interp1d
 
@@ -99,7 +98,9 @@ def get_interpolation(values, axis_values, new_axis_values, index):
     elif isin(
         new_axis_values, axis_values
     ).all():  # New axis is subset -> no interpolation
-        indice_take = where(isin(axis_values, new_axis_values))[0]
+        indice_take = [
+            where(array(axis_values) == value)[0][0] for value in new_axis_values
+        ]
 
         return take(
             values,
@@ -139,16 +140,11 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
         new_axis_values, axis_values
     ).all():  # New axis is subset -> no interpolation
         values_slices = []
-        indice_take = where(isin(axis_values, new_axis_values))[0]
-        _, idx_start, count = unique(
-            axis_values[indice_take], return_counts=True, return_index=True
-        )
-        if len(idx_start) > 0:
-            for i, ii in enumerate(idx_start):
+        if len(new_axis_values) > 0:
+            for value in new_axis_values:
+                indice_take = where(array(axis_values) == value)[0]
                 values_slices.append(
-                    take(values, indice_take[ii : ii + count[i]], axis=index).mean(
-                        axis=index
-                    )
+                    take(values, indice_take, axis=index).mean(axis=index)
                 )
             return stack(values_slices, axis=index)
         else:
-- 
2.43.0


From b531dc6543306064456c22a31abf4bb4031e93aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:11 +0000
Subject: [PATCH 27/51] fix: interpolate when the requested values only
 resemble the axis

---
 SciDataTool/Functions/interpolations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 80ee9df..2765170 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -92,7 +92,7 @@ def get_interpolation(values, axis_values, new_axis_values, index):
             idx = argmin(np_abs(axis_values - new_axis_values[0]))
             return take(values, [idx], axis=index)
     elif len(axis_values) == len(new_axis_values) and all(
-        isclose(axis_values, new_axis_values, rtol=1e-03)
+        array(axis_values) == array(new_axis_values)
     ):  # Same axes -> no interpolation
         return values
     elif isin(
-- 
2.43.0


From cca62598634550cbff733c80e3f8c726e2e19efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:16 +0000
Subject: [PATCH 28/51] fix: return nan outside the axis of an integer field

---
 SciDataTool/Functions/interpolations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 2765170..65fe133 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -10,6 +10,9 @@ from numpy import (
     abs as np_abs,
     where,
     zeros,
+    full,
+    nan,
+    result_type,
 )
 from scipy.interpolate import interp1d
 
@@ -85,9 +88,7 @@ def get_interpolation(values, axis_values, new_axis_values, index):
         ):
             new_shape = list(values.shape)
             new_shape[index] = 1
-            new_values = zeros(tuple(new_shape), dtype=values.dtype)
-            new_values[(slice(None),) * index] = None
-            return new_values
+            return full(tuple(new_shape), nan, dtype=result_type(values.dtype, float))
         else:
             idx = argmin(np_abs(axis_values - new_axis_values[0]))
             return take(values, [idx], axis=index)
-- 
2.43.0


From 6d6b6e14a7ce5f22bab4a6cfc14ada3d3192e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:19 +0000
Subject: [PATCH 29/51] fix: compare requested values with the axis in the
 requested unit

---
 SciDataTool/Methods/RequestedAxis/get_axis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index 12a770c..cf49d77 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -116,8 +116,10 @@ def get_axis(self, axis, is_real):
                 # Check if symmetries need to be reconstructed to match input_data
                 axis_values = axis.get_values(
                     is_smallestperiod=True,
+                    unit=self.unit,
                     operation=self.operation,
                     is_real=is_real,
+                    corr_unit=self.corr_unit,
                 )
                 if min(self.input_data) >= min(axis_values) and max(
                     self.input_data
@@ -128,8 +130,10 @@ def get_axis(self, axis, is_real):
                 else:
                     axis_values = axis.get_values(
                         is_oneperiod=True,
+                        unit=self.unit,
                         operation=self.operation,
                         is_real=is_real,
+                        corr_unit=self.corr_unit,
                     )
                     if min(self.input_data) >= min(axis_values) and max(
                         self.input_data
-- 
2.43.0


From f6ddf378e0dcc3f726fd9ea126fb2c7bc45c45f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:20 +0000
Subject: [PATCH 30/51] fix: interpolate two requested values that lie in a
 rebuilt period

---
 SciDataTool/Methods/RequestedAxis/get_axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index cf49d77..4cd0518 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -34,6 +34,7 @@ def get_axis(self, axis, is_real):
     if self.operation is not None:
         module = import_module("SciDataTool.Functions.conversions")
         func = getattr(module, self.operation)  # Conversion function
+    is_axis_data = self.extension == "axis_data"
     if isinstance(axis, DataPattern):
         self.is_pattern = True
         self.rebuild_indices = axis.rebuild_indices
@@ -214,7 +215,7 @@ def get_axis(self, axis, is_real):
         if self.input_data is None:
             self.values = values
         else:
-            if len(self.input_data) == 2 and self.extension != "axis_data":
+            if len(self.input_data) == 2 and not is_axis_data:
                 indices = [
                     i
                     for i, x in enumerate(values)
-- 
2.43.0


From e288cf46f3b1e76372238d7e3bd9e9e08d2a5438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:51 +0000
Subject: [PATCH 31/51] fix: number the rebuilt positions when indices of a
 pattern axis are requested

---
 SciDataTool/Methods/DataND/_get_field.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index dfc1854..0368172 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -37,7 +37,6 @@ def _get_field(self, axes_list):
                 "antiderivate",
             ]
             or axis_requested.indices not in [None, []]
-            and max(axis_requested.indices) >= values.shape[axis_requested.index]
         ):
             # DataPattern case where all values are requested
             values = take(values, axis_requested.rebuild_indices, axis_requested.index)
-- 
2.43.0


From e3483c8c55ce40dea9eea1e51361f1890932794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:58 +0000
Subject: [PATCH 32/51] fix: count negative indices from the end of the rebuilt
 axis

---
 SciDataTool/Methods/DataND/_get_field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 0368172..6cff66a 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -47,7 +47,10 @@ def _get_field(self, axes_list):
             )
         elif (
             axis_requested.indices is not None
-            and max(axis_requested.indices) >= values.shape[axis_requested.index]
+            and (
+                max(axis_requested.indices) >= values.shape[axis_requested.index]
+                or min(axis_requested.indices) < 0
+            )
         ):
             # Slicing case where requested indices are among other periods
             values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
-- 
2.43.0


From f7f88dc4b61f6a58b47e149444561b73967d0dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:31 +0000
Subject: [PATCH 33/51] fix: keep the axial coordinate when converting to
 cartesian coordinates

---
 SciDataTool/Functions/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index b8b1c6c..a485e62 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -514,14 +514,14 @@ def rphiz_to_xyz(values):
 
     r = values[:, 0]
     phi = values[:, 1]
-    if len(values.shape) > 2:
+    if values.shape[1] > 2:
         z = values[:, 2]
 
     affixe = r * exp(1j * phi)
     x = real(affixe)
     y = imag(affixe)
 
-    if len(values.shape) > 2:
+    if values.shape[1] > 2:
         return column_stack((x, y, z))
     else:
         return column_stack((x, y))
-- 
2.43.0


From 441b38c1e44ba1c8f57928545f82da6df05bdc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:37 +0000
Subject: [PATCH 34/51] fix: convert fields along angle alone to cylindrical
 components

---
 SciDataTool/Functions/conversions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index a485e62..34adbdf 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -622,12 +622,16 @@ def cart2pol(field_x, field_y, phi):
     sin_phi = sin(phi)
 
     dim_array = ones((1, field_x.ndim), int).ravel()
-    dim_array[1] = -1
+    if len(dim_array) > 1:
+        dim_array[1] = -1
 
-    # Reshape b with dim_array and perform elementwise multiplication with
-    # broadcasting along the singleton dimensions for the final output
-    cos_phi_reshaped = cos_phi.reshape(dim_array)
-    sin_phi_reshaped = sin_phi.reshape(dim_array)
+        # Reshape b with dim_array and perform elementwise multiplication with
+        # broadcasting along the singleton dimensions for the final output
+        cos_phi_reshaped = cos_phi.reshape(dim_array)
+        sin_phi_reshaped = sin_phi.reshape(dim_array)
+    else:
+        cos_phi_reshaped = cos_phi
+        sin_phi_reshaped = sin_phi
 
     field_r = field_x * cos_phi_reshaped + field_y * sin_phi_reshaped
     field_phi = -field_x * sin_phi_reshaped + field_y * cos_phi_reshaped
-- 
2.43.0


From 469a353df1a98fdf51d9d39d6f4f103e3a659941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:43 +0000
Subject: [PATCH 35/51] fix: name the tangential and axial components of a
 converted vector field

---
 SciDataTool/Methods/VectorField/to_rphiz.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/to_rphiz.py b/SciDataTool/Methods/VectorField/to_rphiz.py
index 7c2e411..2afedfc 100644
--- a/SciDataTool/Methods/VectorField/to_rphiz.py
+++ b/SciDataTool/Methods/VectorField/to_rphiz.py
@@ -44,12 +44,12 @@ def to_rphiz(self):
         Comp_t.name = "Tangential " + self.components["comp_x"].name.lower().replace(
             " along x-axis", ""
         )
-        Comp_t.symbol = self.components["comp_x"].symbol.replace("_r", "_y")
+        Comp_t.symbol = self.components["comp_x"].symbol.replace("_x", "_t")
         Comp_t.values = result["tangential"]
-        comp_dict["comp_y"] = Comp_t
+        comp_dict["tangential"] = Comp_t
 
-        if "axial" in self.components:
-            Comp_z = self.components["axial"].copy()
-            comp_dict["comp_z"] = Comp_z
+        if "comp_z" in self.components:
+            Comp_z = self.components["comp_z"].copy()
+            comp_dict["axial"] = Comp_z
 
         return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
-- 
2.43.0


From 92e020ec933ad0174b14c19568f9dc34e23d16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:50 +0000
Subject: [PATCH 36/51] fix: keep an axial component stored as comp_z when
 converting to cartesian

---
 SciDataTool/Methods/VectorField/to_xyz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SciDataTool/Methods/VectorField/to_xyz.py b/SciDataTool/Methods/VectorField/to_xyz.py
index 027ac91..8dc8086 100644
--- a/SciDataTool/Methods/VectorField/to_xyz.py
+++ b/SciDataTool/Methods/VectorField/to_xyz.py
@@ -49,5 +49,7 @@ def to_xyz(self):
         if "axial" in self.components:
             Comp_z = self.components["axial"].copy()
             comp_dict["comp_z"] = Comp_z
+        elif "comp_z" in self.components:
+            comp_dict["comp_z"] = self.components["comp_z"].copy()
 
         return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
-- 
2.43.0


From 92dd769785cb9e9b885927a3b42f0c94637f7480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:19 +0000
Subject: [PATCH 37/51] fix: leave the caller's values unchanged when
 converting to dB

Values below the reference were raised to it in the array of the caller,
and truncated to an integer when that array holds integers.
---
 SciDataTool/Functions/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 34adbdf..6928e11 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -290,7 +290,7 @@ def to_dB(values, unit, ref_value=1.0):
     """
     if ref_value != 1:
         if isinstance(values, ndarray):
-            values[values < ref_value] = ref_value
+            values = where(values < ref_value, ref_value, values)
         else:
             if values < ref_value:
                 values = ref_value
-- 
2.43.0


From 9f1e68597e1a13969a84dcfdf9c8796f2b93a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:19 +0000
Subject: [PATCH 38/51] fix: accept integer frequencies in the A-weighting

A zero among integer frequencies raised a ValueError.
---
 SciDataTool/Functions/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 6928e11..54d5180 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -411,7 +411,7 @@ def dB_to_dBA(values, freqs, noct=None):
         mask = argwhere(freqs in freqs_ref)
         Aweight = take(Aweight, mask)
     else:
-        freq2 = square(freqs)
+        freq2 = square(array(freqs, dtype=float))
         freq2[freq2 == 0] = nan
         RA = (
             12200.0 ** 2
-- 
2.43.0


From 640ee5620b54b608d2106aa8dfc8b073676decb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:19 +0000
Subject: [PATCH 39/51] fix: take the modulus of the field before converting it
 to dBA

The conversion to dB already does, the levels in dBA were complex numbers.
---
 SciDataTool/Methods/DataND/_convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index dfbb73e..3fdf40a 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -52,7 +52,7 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
                     axis_values = axis.values
                 index = axis.index
                 values = np.apply_along_axis(
-                    to_dBA, index, values, axis_values, self.unit, ref_value
+                    to_dBA, index, np.abs(values), axis_values, self.unit, ref_value
                 )
                 is_match = True
             elif axis.name == "frequency":
@@ -62,7 +62,7 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
                     axis_values = axis.corr_values
                 index = axis.index
                 values = np.apply_along_axis(
-                    to_dBA, index, values, axis_values, self.unit, ref_value
+                    to_dBA, index, np.abs(values), axis_values, self.unit, ref_value
                 )
                 is_match = True
         if not is_match:
@@ -73,7 +73,7 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
                 shape = values.shape
                 values = values.reshape(freqs.shape + shape[2:])
                 values = np.apply_along_axis(
-                    to_dBA, 0, values, freqs, self.unit, ref_value
+                    to_dBA, 0, np.abs(values), freqs, self.unit, ref_value
                 )
                 values = values.reshape(shape)
             else:
-- 
2.43.0


From 80362afd757ac4c988f52a76fe1e94e830fff159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:19 +0000
Subject: [PATCH 40/51] fix: convert to dBA along the frequency axis when other
 axes have one value

The field was squeezed first, so that the index of the frequency axis was
wrong or out of range.
---
 SciDataTool/Methods/DataND/_convert.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index 3fdf40a..db8770a 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -22,7 +22,8 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
         values of the field
     """
 
-    if is_squeeze:
+    # Keep all dimensions for dBA conversion (performed along the frequency axis)
+    if is_squeeze and unit != "dBA":
         values = np.squeeze(values)
 
     if unit == self.unit or unit == "SI":
@@ -80,6 +81,8 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
                 raise UnitError(
                     "dBA conversion only available for fft with frequencies"
                 )
+        if is_squeeze:
+            values = np.squeeze(values)
     elif unit in self.normalizations:
         values = self.normalizations.get(unit).normalize(values)
     else:
-- 
2.43.0


From b41ab11742fe5f02229edb82431add4c8a42fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:19 +0000
Subject: [PATCH 41/51] fix: convert magnitudes to dBA along the frequency axis
 when other axes have one value

The field was squeezed first, so that the index of the frequency axis was
wrong or out of range.
---
 SciDataTool/Methods/DataND/get_magnitude_along.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 47b9efe..557e7e1 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -1,7 +1,7 @@
 from SciDataTool.Functions import AxisError, NormError, UnitError
 from SciDataTool.Functions.conversions import convert, to_dB, to_dBA, to_noct
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
-from numpy import apply_along_axis, add, take
+from numpy import apply_along_axis, add, squeeze, take
 
 
 def get_magnitude_along(
@@ -164,10 +164,12 @@ def get_magnitude_along(
 
     else:
 
+        # Keep all dimensions for dBA conversion (performed along the frequency axis)
+        is_keepdims = unit == "dBA" and "A-weight" not in self.normalizations
         return_dict = self.get_along(
             *args,
             axis_data=axis_data,
-            is_squeeze=is_squeeze,
+            is_squeeze=is_squeeze and not is_keepdims,
             is_magnitude=True,
             corr_unit=corr_unit,
         )
@@ -282,5 +284,7 @@ def get_magnitude_along(
             values = self.normalizations.get(unit).normalize(values)
         else:
             values = convert(values, self.unit, unit)
+        if is_squeeze:
+            values = squeeze(values)
         return_dict[self.symbol] = values
         return return_dict
-- 
2.43.0


From 9efcfffcb2d514a415b987d4306b3a4dc3dcfa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:22 +0000
Subject: [PATCH 42/51] fix: return the counts of unique_tol without the
 inverse indices

The position of the counts depends on the other outputs of numpy.unique.
---
 SciDataTool/Functions/set_routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/set_routines.py b/SciDataTool/Functions/set_routines.py
index dc6ec5c..e53d08d 100644
--- a/SciDataTool/Functions/set_routines.py
+++ b/SciDataTool/Functions/set_routines.py
@@ -113,7 +113,7 @@ def unique_tol(
         Ib = res_tuple[2]
 
     if return_counts:
-        count0 = res_tuple[3]
+        count0 = res_tuple[-1]
 
     if return_index and return_inverse and return_counts:
         return b, Ia, Ib, count0
-- 
2.43.0


From 9d2f2caa8ba93b2d02e53d9555878dbdba56fb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:22 +0000
Subject: [PATCH 43/51] fix: give the inverse indices and counts of unique_tol
 in stable order

They referred to the sorted values while the unique values are returned
in their original order.
---
 SciDataTool/Functions/set_routines.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/set_routines.py b/SciDataTool/Functions/set_routines.py
index e53d08d..e2fb096 100644
--- a/SciDataTool/Functions/set_routines.py
+++ b/SciDataTool/Functions/set_routines.py
@@ -103,7 +103,8 @@ def unique_tol(
     )
 
     if is_stable:
-        Ia = np.sort(res_tuple[1])
+        Istable = np.argsort(res_tuple[1])
+        Ia = res_tuple[1][Istable]
     else:
         Ia = res_tuple[1]
 
@@ -111,9 +112,13 @@ def unique_tol(
 
     if return_inverse:
         Ib = res_tuple[2]
+        if is_stable:
+            Ib = np.argsort(Istable)[Ib]
 
     if return_counts:
         count0 = res_tuple[-1]
+        if is_stable:
+            count0 = count0[Istable]
 
     if return_index and return_inverse and return_counts:
         return b, Ia, Ib, count0
-- 
2.43.0


From 42a9890e791f5a2768b43a2d669dd79c83320bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:42 +0000
Subject: [PATCH 44/51] fix: keep the amplitude of the lowest harmonic when
 changing referential

The first frequency of the moved spectrum was always taken for the
constant component and halved, also when the constant component is not
in the spectrum.
---
 SciDataTool/Methods/DataND/change_referential.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index b81b14e..c61aced 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -172,7 +172,9 @@ def change_referential(
             Ifreq_pos = freqs_new >= 0
             freqs_store = freqs_new[Ifreq_pos]
             val_new = val_new[Ifreq_pos] * coeff
-            val_new[0] = val_new[0] / coeff
+            # The constant component is not doubled
+            If0 = np.abs(freqs_store) < atol_freq
+            val_new[If0] = val_new[If0] / coeff
         else:
             freqs_store = freqs_new
 
-- 
2.43.0


From 6cc0423adda1f0db8c0fd08a7085b28f989ccfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:49 +0000
Subject: [PATCH 45/51] fix: keep harmonics moved to a frequency of zero when
 changing referential

A harmonic that arrives at zero up to rounding errors could be stored
with a frequency slightly below zero and was then removed with the
negative frequencies.
---
 SciDataTool/Methods/DataND/change_referential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index c61aced..3a9a63f 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -169,7 +169,7 @@ def change_referential(
                 coeff = 1
 
             # Restrict spectrum to positive frequencies only and multiply amplitudes by coeff
-            Ifreq_pos = freqs_new >= 0
+            Ifreq_pos = freqs_new > -atol_freq
             freqs_store = freqs_new[Ifreq_pos]
             val_new = val_new[Ifreq_pos] * coeff
             # The constant component is not doubled
-- 
2.43.0


From 2fc34bd963db1966b536738267a0932b98132a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:10 +0000
Subject: [PATCH 46/51] fix: do not store temporary components in a vector
 field while reading it

Reading a vector field in other coordinates added temporary components
to the field. They stayed there when the request ended with an error,
and replaced components of the same name.
---
 .../Methods/VectorField/get_harm_rphiz_along.py     | 13 ++++---------
 .../Methods/VectorField/get_harm_xyz_along.py       | 13 ++++---------
 .../Methods/VectorField/get_mag_rphiz_along.py      | 13 ++++---------
 .../Methods/VectorField/get_mag_xyz_along.py        | 13 ++++---------
 SciDataTool/Methods/VectorField/get_rphiz_along.py  | 13 ++++---------
 SciDataTool/Methods/VectorField/get_xyz_along.py    | 13 ++++---------
 6 files changed, 24 insertions(+), 54 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
index 0e226d2..a96b5ea 100644
--- a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
@@ -56,27 +56,22 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         if "angle" not in args:
             Datax.values = field_r
             Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_harmonics(
+            resultr = Datax.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_harmonics(
+            field_r = resultr[Datax.symbol]
+            resultt = Datay.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
+            field_t = resultt[Datay.symbol]
         else:
             # Need return dict to initialize results
             resultr = self.components["comp_x"].get_harmonics(
diff --git a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
index 7822786..3248f37 100644
--- a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
@@ -56,27 +56,22 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
         if "angle" not in args:
             Datar.values = field_x
             Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_harmonics(
+            resultx = Datar.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_harmonics(
+            field_x = resultx[Datar.symbol]
+            resulty = Dataphi.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
+            field_y = resulty[Dataphi.symbol]
         else:
             # Need return dict to initialize results
             resultx = self.components["radial"].get_harmonics(
diff --git a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
index 6dc0444..79fbe61 100644
--- a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
@@ -56,25 +56,20 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         if "angle" not in args:
             Datax.values = field_r
             Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_magnitude_along(
+            resultr = Datax.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_magnitude_along(
+            field_r = resultr[Datax.symbol]
+            resultt = Datay.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
+            field_t = resultt[Datay.symbol]
         else:
             # Need return dict to initialize results
             resultr = self.components["comp_x"].get_magnitude_along(
diff --git a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
index 92fb5ab..e77625f 100644
--- a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
@@ -56,25 +56,20 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         if "angle" not in args:
             Datar.values = field_x
             Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_magnitude_along(
+            resultx = Datar.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_magnitude_along(
+            field_x = resultx[Datar.symbol]
+            resulty = Dataphi.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
+            field_y = resulty[Dataphi.symbol]
         else:
             # Need return dict to initialize results
             resultx = self.components["radial"].get_magnitude_along(
diff --git a/SciDataTool/Methods/VectorField/get_rphiz_along.py b/SciDataTool/Methods/VectorField/get_rphiz_along.py
index 3a733a8..69ef808 100644
--- a/SciDataTool/Methods/VectorField/get_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_rphiz_along.py
@@ -64,27 +64,22 @@ def get_rphiz_along(
         if "angle" not in args and "angle[smallestperiod]" not in args:
             Datax.values = field_r
             Datay.values = field_c
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_along(
+            resultr = Datax.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_along(
+            field_r = resultr[Datax.symbol]
+            resultt = Datay.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_c = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
+            field_c = resultt[Datay.symbol]
         else:
             # Need return dict to initialize results
             resultr = self.components["comp_x"].get_along(
diff --git a/SciDataTool/Methods/VectorField/get_xyz_along.py b/SciDataTool/Methods/VectorField/get_xyz_along.py
index 67fffff..74abaa2 100644
--- a/SciDataTool/Methods/VectorField/get_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_xyz_along.py
@@ -69,27 +69,22 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
         if "angle" not in args and "angle[smallestperiod]" not in args:
             Datar.values = field_x
             Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_along(
+            resultx = Datar.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_along(
+            field_x = resultx[Datar.symbol]
+            resulty = Dataphi.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
+            field_y = resulty[Dataphi.symbol]
         else:
             # Need return dict to initialize results
             resultx = self.components["radial"].get_along(
-- 
2.43.0


From 7302ad24409f8ec5e492cf4422aed82a29ff9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:52:45 +0000
Subject: [PATCH 47/51] fix: restore the data object when a spectral request
 ends with an error

Changing referential and filtering spectral leakage switch the object to
complex data while they read it. The switch stayed when the reading
failed, and filtering a spectrum halved its stored values.
---
 .../Methods/DataND/change_referential.py      | 13 +++----
 .../Methods/DataND/filter_spectral_leakage.py | 35 ++++++++++---------
 2 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index 3a9a63f..06c73c9 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -111,11 +111,16 @@ def change_referential(
         # Force non real data to get all spectrum
         is_real = self.is_real
         self.is_real = False
+        try:
+            result = self.get_along(*arg_list, is_squeeze=False)
+        finally:
+            # Reset data
+            self.is_real = is_real
     else:
         is_real = True
+        # Extract data from vectorfield on one period
+        result = self.get_along(*arg_list, is_squeeze=False)
 
-    # Extract data from vectorfield on one period
-    result = self.get_along(*arg_list, is_squeeze=False)
     values = result[self.symbol]
 
     if is_waveform:
@@ -240,8 +245,4 @@ def change_referential(
         is_real=is_real,
     )
 
-    if not is_waveform and hasattr(self, "is_real"):
-        # Reset data
-        self.is_real = is_real
-
     return data_new, axes_list_change, arg_list, freqs_new, I1, Irf_un, ta_in, ta_out
diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index 8c8ee07..a4f4052 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -74,22 +74,25 @@ def filter_spectral_leakage(
 
     is_real = self.is_real
     self.is_real = False  # To have negative frequencies
-    result = self.get_along(*arg_list, is_squeeze=False)
-    freqs = result["freqs"]
-    spectrum = result[self.symbol]
-
-    if Wmatf.size == 0:
-        # Get time step
-        Time = self.get_axes("time")
-        if len(Time) > 0:
-            time = Time[0].get_values()
+    try:
+        result = self.get_along(*arg_list, is_squeeze=False)
+        if Wmatf.size == 0:
+            # Get time step
+            Time = self.get_axes("time")
+            if len(Time) > 0:
+                time = Time[0].get_values()
+            else:
+                result_time = self.get_along("time")
+                time = result_time["time"]
+            dt = time[1] - time[0]
+            Nt = time.size
         else:
-            result_time = self.get_along("time")
-            time = result_time["time"]
-        dt = time[1] - time[0]
-        Nt = time.size
-    else:
-        Nt, dt = None, None
+            Nt, dt = None, None
+    finally:
+        self.is_real = is_real
+
+    freqs = result["freqs"]
+    spectrum = result[self.symbol].copy()
 
     if is_real and np.where(freqs < 0)[0].size == 0:
         # Mirror values to negative frequencies
@@ -187,8 +190,6 @@ def filter_spectral_leakage(
         is_real=True,
     )
 
-    self.is_real = is_real
-
     if is_return_calc_data:
         return data_filt, axes_list_filt, arg_list, Wmatf, If, freqs_th
 
-- 
2.43.0


From ea4e9f1b549acc91ff009b6aca455295cd1c2ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:30 +0000
Subject: [PATCH 48/51] fix: load objects with the classes of this library

The loader looked the saved class up in another package, so no file
written by save could be read without that package.
---
 SciDataTool/Functions/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/load.py b/SciDataTool/Functions/load.py
index d79d61a..523a12b 100644
--- a/SciDataTool/Functions/load.py
+++ b/SciDataTool/Functions/load.py
@@ -44,7 +44,7 @@ def init_data(obj, file_path):
         # Check if the dictionay has a "__class__" key
         if "__class__" in obj:
             # Check if data is a pyleecan class
-            class_obj = import_class("pyleecan.Classes", obj.get("__class__"), "")
+            class_obj = import_class("SciDataTool.Classes", obj.get("__class__"), "")
             if folder_path != "":
                 wd = getcwd()
                 chdir(folder_path)
-- 
2.43.0


From ad4a0bbe4dbe2d3c2265a50515e7ae2a5d8f5974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:13:23 +0000
Subject: [PATCH 49/51] fix: reject every mismatched shape with the dimension
 error

Values with fewer dimensions than the axes, when a later axis has one
value, raised an axis error of numpy instead of the dimension error.
---
 SciDataTool/Classes/_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Classes/_check.py b/SciDataTool/Classes/_check.py
index 9677a19..ce70016 100644
--- a/SciDataTool/Classes/_check.py
+++ b/SciDataTool/Classes/_check.py
@@ -359,7 +359,7 @@ def check_dimensions(values, axes):
 
         if values_shape != tuple(axes_shape):
             for i, s in enumerate(axes_shape):
-                if s == 1:
+                if s == 1 and i <= values.ndim:
                     values = expand_dims(values, axis=i)
             if values.shape != tuple(axes_shape):
                 raise CheckDimError(
-- 
2.43.0


From 5697d59258022db21a1f3decc581d79b73925745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:15 +0000
Subject: [PATCH 50/51] fix: read requests by their grammar, not by letters in
 the axis name

An axis whose name contains the name of an operation (luminance, summary)
was read as that operation. A bound on a normalized axis was taken as
part of the name of the normalization. Requests on axes whose names
contain one another were not put in the order of the axes.
---
 SciDataTool/Functions/fix_axes_order.py | 10 +++++---
 SciDataTool/Functions/parser.py         | 34 ++++++++++++-------------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/SciDataTool/Functions/fix_axes_order.py b/SciDataTool/Functions/fix_axes_order.py
index ea6db07..6a5b7fa 100644
--- a/SciDataTool/Functions/fix_axes_order.py
+++ b/SciDataTool/Functions/fix_axes_order.py
@@ -6,13 +6,17 @@ def fix_axes_order(axes_list, args):
     """Put args in same order as axes_list"""
     indices = []
     for j, arg in enumerate(args):
+        # Extract the axis name
+        name = arg
+        for sep in ["->", "[", "=", "<", ">", "{"]:
+            name = name.split(sep)[0]
         for i, axis in enumerate(axes_list):
             if (
-                axis in arg
+                axis == name
                 or axis in fft_dict
-                and fft_dict[axis] in arg
+                and fft_dict[axis] == name
                 or axis in ifft_dict
-                and ifft_dict[axis] in arg
+                and ifft_dict[axis] == name
             ):
                 indices.append(i)
                 break
diff --git a/SciDataTool/Functions/parser.py b/SciDataTool/Functions/parser.py
index 44775bb..e08fe03 100644
--- a/SciDataTool/Functions/parser.py
+++ b/SciDataTool/Functions/parser.py
@@ -34,82 +34,82 @@ def read_input_strings(args, axis_data):
             elif "[" in elems[1]:
                 unit = elems[1].split("[")[0]
             elif ">" in elems[1]:
-                unit = elems[1].split("[")[0]
+                unit = elems[1].split(">")[0]
             elif "<" in elems[1]:
-                unit = elems[1].split("[")[0]
+                unit = elems[1].split("<")[0]
             else:
                 unit = elems[1]
             name = elems[0]
             axis_str = axis_str.replace("->" + unit, "")
         # Detect max
-        if "max" in axis_str:
+        if "=max" in axis_str:
             elems = axis_str.split("=max")
             name = elems[0]
             extension = "max"
         # Detect min
-        elif "min" in axis_str:
+        elif "=min" in axis_str:
             elems = axis_str.split("=min")
             name = elems[0]
             extension = "min"
         # Detect rms sum
-        elif "rss" in axis_str:
+        elif "=rss" in axis_str:
             elems = axis_str.split("=rss")
             name = elems[0]
             extension = "rss"
         # Detect sum
-        elif "sum" in axis_str:
+        elif "=sum" in axis_str:
             elems = axis_str.split("=sum")
             name = elems[0]
             extension = "sum"
         # Detect rms mean
-        elif "rms" in axis_str:
+        elif "=rms" in axis_str:
             elems = axis_str.split("=rms")
             name = elems[0]
             extension = "rms"
         # Detect mean
-        elif "mean" in axis_str:
+        elif "=mean" in axis_str:
             elems = axis_str.split("=mean")
             name = elems[0]
             extension = "mean"
         # Detect integrate
-        elif "integrate_local" in axis_str:
+        elif "=integrate_local" in axis_str:
             elems = axis_str.split("=integrate_local")
             name = elems[0]
             extension = "integrate_local"
-        elif "integrate" in axis_str:
+        elif "=integrate" in axis_str:
             elems = axis_str.split("=integrate")
             name = elems[0]
             extension = "integrate"
         # Detect antiderivate
-        elif "antiderivate" in axis_str:
+        elif "=antiderivate" in axis_str:
             elems = axis_str.split("=antiderivate")
             name = elems[0]
             extension = "antiderivate"
         # Detect derivate
-        elif "derivate" in axis_str:
+        elif "=derivate" in axis_str:
             elems = axis_str.split("=derivate")
             name = elems[0]
             extension = "derivate"
         # Detect periods
-        elif "oneperiod" in axis_str:
+        elif "oneperiod]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "oneperiod"
-        elif "antiperiod" in axis_str:
+        elif "antiperiod]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "antiperiod"
-        elif "smallestperiod" in axis_str:
+        elif "smallestperiod]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "smallestperiod"
         # Detect pattern
-        elif "pattern" in axis_str:
+        elif "pattern]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "pattern"
         # Detect axis_data input
-        elif "axis_data" in axis_str:
+        elif "=axis_data" in axis_str:
             elems = axis_str.split("=axis_data")
             name = elems[0]
             if name in axis_data:
-- 
2.43.0


From 9456d1144dc31554555533d80fdd7935ea496980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:56 +0000
Subject: [PATCH 51/51] fix: keep units and symmetries of the requested axes in
 derived data

The unit of the derived data and of its axes was the one before
conversion, and the symmetries were looked up at the position of the
request, so requests in another order gave them to the wrong axis.
---
 SciDataTool/Methods/DataND/get_data_along.py | 28 ++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index cfb4e2f..d73872b 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -1,6 +1,7 @@
 from SciDataTool import Data1D
 from SciDataTool.Functions import axes_dict, rev_axes_dict
 from SciDataTool.Functions.conversions import get_unit_derivate, get_unit_integrate
+from SciDataTool.Functions.parser import read_input_strings
 
 
 def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
@@ -22,6 +23,16 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     a DataND object
     """
 
+    if len(args) == 1 and type(args[0]) == tuple:
+        args = args[0]  # if called from another script with *args
+
+    # Get the request of each axis
+    args_dict = dict()
+    unit_dict = dict()
+    for arg, axis in zip(args, read_input_strings(args, axis_data)):
+        args_dict[axis.name] = arg
+        unit_dict[axis.name] = axis.unit
+
     if "dB" in unit:
         results = self.get_magnitude_along(
             *args, is_squeeze=False, unit=unit, is_norm=is_norm, axis_data=axis_data
@@ -70,16 +81,22 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                         is_components = axis.is_components
                         axis_values = results[axis_name]
                         ax_unit = rev_axes_dict[axis_name][2]
+            # Update unit if conversion
+            if (
+                unit_dict[axis_name] != "SI"
+                and unit_dict[axis_name] not in self.axes[index].normalizations
+            ):
+                ax_unit = unit_dict[axis_name]
             # Update symmetries
             if (
-                "smallestperiod" in args[index]
-                or args[index]
+                "smallestperiod" in args_dict[axis_name]
+                or args_dict[axis_name]
                 in [
                     "freqs",
                     "wavenumber",
                 ]
-                or "antiderivate" in args[index]
-                or "derivate" in args[index]
+                or "antiderivate" in args_dict[axis_name]
+                or "derivate" in args_dict[axis_name]
             ):
                 symmetries = self.axes[index].symmetries.copy()
             else:
@@ -103,7 +120,8 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         unit = unit
     else:
         # Update unit if derivation or integration
-        unit = self.unit
+        if unit == "SI":
+            unit = self.unit
         for axis in axes_list:
             if axis.extension in ["antiderivate", "integrate", "integrate_local"]:
                 unit = get_unit_integrate(unit, axis.corr_unit)
-- 
2.43.0


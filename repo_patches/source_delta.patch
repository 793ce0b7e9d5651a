From 9d446faabfb7993a4e899cc8bccbe774b945f668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:49 +0000
Subject: [PATCH 01/32] fix: unwarp_chunk_slices_backward accepts stop_index=-1

stop_index is inclusive, so -1 means the last slice, height - 1. It was
replaced by height, which the range check right below always rejects.
---
 discorpy/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index e86f39a..23e58fd 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -283,7 +283,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     (depth, height, width) = mat3D.shape
     index_list = np.arange(height, dtype=np.int16)
     if stop_index == -1:
-        stop_index = height
+        stop_index = height - 1
     if (start_index not in index_list) or (stop_index not in index_list):
         raise ValueError("Selected index is out of the range")
     xu_list = np.arange(0, width) - xcenter
-- 
2.43.0


From eaec97029c972638e90b603071df1dc21269ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:49 +0000
Subject: [PATCH 02/32] fix: slice unwarping of stacks taller than 32767 rows

Row indices were held in int16 and overflowed.
---
 discorpy/post/postprocessing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 23e58fd..9f0d30b 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -218,8 +218,8 @@ def unwarp_slice_backward(mat3D, xcenter, ycenter, list_fact, index):
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
     yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_min = np.int64(np.floor(np.amin(yd_list)))
+    yd_max = np.int64(np.ceil(np.amax(yd_list))) + 1
     yd_list = yd_list - yd_min
     sino = np.zeros((depth, width), dtype=np.float32)
     indices = yd_list, xd_list
@@ -281,7 +281,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     if (len(mat3D.shape) < 3):
         raise ValueError("Input must be a 3D data")
     (depth, height, width) = mat3D.shape
-    index_list = np.arange(height, dtype=np.int16)
+    index_list = np.arange(height)
     if stop_index == -1:
         stop_index = height - 1
     if (start_index not in index_list) or (stop_index not in index_list):
@@ -297,8 +297,8 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     flist = np.sum(np.asarray(
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list1)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list2))) + 1
+    yd_min = np.int64(np.floor(np.amin(yd_list1)))
+    yd_max = np.int64(np.ceil(np.amax(yd_list2))) + 1
     yu_list = np.arange(start_index, stop_index + 1) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
-- 
2.43.0


From 92b5bb432b388474d886b8dde609b94165553225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:49 +0000
Subject: [PATCH 03/32] fix: unwarp_line_* keep sub-pixel results for integer
 input

The result array took the dtype of the input line, so integer (row, column)
points were truncated to whole pixels.
---
 discorpy/post/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 9f0d30b..96bc543 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -52,7 +52,7 @@ def unwarp_line_forward(list_lines, xcenter, ycenter, list_fact):
     list_ulines = []
     list_expo = np.arange(len(list_fact), dtype=np.int16)
     for _, line in enumerate(list_lines):
-        uline = np.zeros_like(line)
+        uline = np.zeros_like(line, dtype=np.float64)
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
             yd = dot[0] - ycenter
@@ -89,7 +89,7 @@ def unwarp_line_backward(list_lines, xcenter, ycenter, list_fact):
     """
     list_ulines = []
     for _, line in enumerate(list_lines):
-        uline = np.zeros_like(line)
+        uline = np.zeros_like(line, dtype=np.float64)
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
             yd = dot[0] - ycenter
-- 
2.43.0


From 22422867c040462af3703698245a6da3707c2c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:50 +0000
Subject: [PATCH 04/32] fix: unwarp_line_backward diverges for float32 points

The optimiser kept the float32 dtype of the starting radius, so its
finite-difference step vanished and results were tens of pixels off.
---
 discorpy/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 96bc543..7657819 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -93,7 +93,7 @@ def unwarp_line_backward(list_lines, xcenter, ycenter, list_fact):
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
             yd = dot[0] - ycenter
-            rd = np.sqrt(xd * xd + yd * yd)
+            rd = np.float64(np.sqrt(xd * xd + yd * yd))
             list_arg = [rd]
             list_arg.extend(list_fact)
             minimum = optimize.minimize(_func_diff, rd, args=tuple(list_arg))
-- 
2.43.0


From 6a3469fa8502fbaa6748c2d1e7c7164148729c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:49 +0000
Subject: [PATCH 05/32] fix: find_cod_fine on grids aligned with the image axes

The points of the horizontal lines closest to the origin lie on a line which
is almost vertical, so its fit must be taken along y (and along x for the
vertical lines). Fitted the other way round the metric is singular for an
untilted grid and the search ended tens of pixels away from the centre.
---
 discorpy/proc/processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 79aaaec..fc46714 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -186,8 +186,8 @@ def _calc_error(list_coef_hor, list_coef_ver):
         xm = coefs[0] * ym ** 2 + coefs[1] * ym + coefs[2]
         list_vpoint[i, 0] = ym
         list_vpoint[i, 1] = xm
-    error_h = np.polyfit(list_hpoint[:, 0], list_hpoint[:, 1], 1)[-1]
-    error_v = np.polyfit(list_vpoint[:, 0], list_vpoint[:, 1], 1)[-1]
+    error_h = np.polyfit(list_hpoint[:, 1], list_hpoint[:, 0], 1)[-1]
+    error_v = np.polyfit(list_vpoint[:, 1], list_vpoint[:, 0], 1)[-1]
     return np.abs(error_h) + np.abs(error_v)
 
 
-- 
2.43.0


From f396ba25238d887762efacb8f105899f95791755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:36 +0000
Subject: [PATCH 06/32] fix: calc_coef_backward for a grid line through the
 centre of distortion

The undistorted intercept of such a line is zero and the ratio became
NaN/inf, which lstsq refuses. Skip it, as calc_coef_forward does.
---
 discorpy/proc/processing.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index fc46714..2cac10b 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -452,23 +452,27 @@ def calc_coef_backward(list_hor_lines, list_ver_lines, xcenter, ycenter,
     for i, line in enumerate(list_hor_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_hor[i])
         uc_coef = np.float64(list_hor_uc[i])
-        for _, point in enumerate(line):
-            xd = np.float64(point[1])
-            yd = np.float64(point[0])
-            rd = np.sqrt(xd * xd + yd * yd)
-            Fb = (a_coef * xd * xd + c_coef) / uc_coef
-            Amatrix.append(np.power(rd / Fb, list_expo))
-            Bmatrix.append(Fb)
+        if uc_coef != 0.0:
+            for _, point in enumerate(line):
+                xd = np.float64(point[1])
+                yd = np.float64(point[0])
+                rd = np.sqrt(xd * xd + yd * yd)
+                Fb = (a_coef * xd * xd + c_coef) / uc_coef
+                if Fb != 0.0:
+                    Amatrix.append(np.power(rd / Fb, list_expo))
+                    Bmatrix.append(Fb)
     for i, line in enumerate(list_ver_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_ver[i])
         uc_coef = np.float64(list_ver_uc[i])
-        for _, point in enumerate(line):
-            xd = np.float64(point[1])
-            yd = np.float64(point[0])
-            rd = np.sqrt(xd * xd + yd * yd)
-            Fb = (a_coef * yd * yd + c_coef) / uc_coef
-            Amatrix.append(np.power(rd / Fb, list_expo))
-            Bmatrix.append(Fb)
+        if uc_coef != 0.0:
+            for _, point in enumerate(line):
+                xd = np.float64(point[1])
+                yd = np.float64(point[0])
+                rd = np.sqrt(xd * xd + yd * yd)
+                Fb = (a_coef * yd * yd + c_coef) / uc_coef
+                if Fb != 0.0:
+                    Amatrix.append(np.power(rd / Fb, list_expo))
+                    Bmatrix.append(Fb)
     Amatrix = np.asarray(Amatrix, dtype=np.float64)
     Bmatrix = np.asarray(Bmatrix, dtype=np.float64)
     list_fact = np.linalg.lstsq(Amatrix, Bmatrix, rcond=1e-64)[0]
-- 
2.43.0


From c9cf7af6263c4381779b947c1ed89e9688e9a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:23 +0000
Subject: [PATCH 07/32] fix: calc_perspective_coefficients with points of a
 small integer dtype

---
 discorpy/proc/processing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 2cac10b..f651340 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -1255,12 +1255,14 @@ def calc_perspective_coefficients(source_points, target_points,
     [1].. https://doi.org/10.1016/S0262-8856(98)00183-8
 
     """
+    source_points = np.asarray(source_points, dtype=np.float64)
+    target_points = np.asarray(target_points, dtype=np.float64)
     if mapping == "forward":
-        s_points = np.fliplr(np.asarray(source_points))
-        t_points = np.fliplr(np.asarray(target_points))
+        s_points = np.fliplr(source_points)
+        t_points = np.fliplr(target_points)
     else:
-        s_points = np.fliplr(np.asarray(target_points))
-        t_points = np.fliplr(np.asarray(source_points))
+        s_points = np.fliplr(target_points)
+        t_points = np.fliplr(source_points)
     Amatrix = []
     for p1, p2 in zip(s_points, t_points):
         Amatrix.append(
-- 
2.43.0


From 317d2a44a06d0b20276f6d1f826cbffbe18c4917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:20 +0000
Subject: [PATCH 08/32] fix: correct_perspective_effect rejects grids without
 opposite curves

---
 discorpy/proc/processing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index f651340..1a19532 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -1381,25 +1381,25 @@ def correct_perspective_effect(list_hor_lines, list_ver_lines, xcenter,
         raise ValueError("Need at least 2 horizontal lines!!!")
     if len(list_coef_ver) < 2:
         raise ValueError("Need at least 2 vertical lines!!!")
-    indices = np.where(list_coef_hor[:, 0] > 0)
+    indices = np.where(list_coef_hor[:, 0] > 0)[0]
     if len(indices) > 0:
         bh1, ch1 = __get_representative_linear_coefs(list_coef_hor, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open upwards !!!")
-    indices = np.where(list_coef_hor[:, 0] < 0)
+    indices = np.where(list_coef_hor[:, 0] < 0)[0]
     if len(indices) > 0:
         bh2, ch2 = __get_representative_linear_coefs(list_coef_hor, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open downwards !!!")
-    indices = np.where(list_coef_ver[:, 0] > 0)
+    indices = np.where(list_coef_ver[:, 0] > 0)[0]
     if len(indices) > 0:
         bv1, cv1 = __get_representative_linear_coefs(list_coef_ver, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open rightwards !!!")
-    indices = np.where(list_coef_ver[:, 0] < 0)
+    indices = np.where(list_coef_ver[:, 0] < 0)[0]
     if len(indices) > 0:
         bv2, cv2 = __get_representative_linear_coefs(list_coef_ver, indices,
                                                      method)
-- 
2.43.0


From 80ba9978cdd46fbe21acdb14661932c73641a4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:23 +0000
Subject: [PATCH 09/32] fix: grouping keeps lines with exactly accepted_ratio
 times the maximum number of dots

---
 discorpy/prep/preprocessing.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 5587641..67ad181 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -661,8 +661,8 @@ def group_dots_hor_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
         if len(dots_selected) > 1:
             list_lines.append(dots_selected)
     list_len = [len(i) for i in list_lines]
-    len_accepted = int(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     lines_selected = sorted(
         lines_selected, key=lambda list_: np.mean(list_[:, 0]))
     return lines_selected
@@ -733,8 +733,8 @@ def group_dots_ver_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
             dots_selected = np.fliplr(dots_selected)  # Swap back
             list_lines.append(dots_selected)
     list_length = [len(i) for i in list_lines]
-    len_accepted = int(accepted_ratio * np.max(list_length))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_length)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     lines_selected = sorted(
         lines_selected, key=lambda list_: np.mean(list_[:, 1]))
     return lines_selected
@@ -1212,8 +1212,8 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                         selected_points[:, 1].argsort()]
                     list_lines.append(selected_points)
     list_len = [len(i) for i in list_lines]
-    len_accepted = np.int16(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     y_vals = [np.median(line[:, 0]) for line in lines_selected]
     ids = np.where(np.abs(np.diff(y_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
@@ -1390,8 +1390,8 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                         selected_points[:, 0].argsort()]
                     list_lines.append(selected_points)
     list_len = [len(i) for i in list_lines]
-    len_accepted = np.int16(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     x_vals = [np.median(line[:, 1]) for line in lines_selected]
     ids = np.where( np.abs(np.diff(x_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
-- 
2.43.0


From 366f79c1c9ab09b21b7eceb3820a78c9de5513ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:30 +0000
Subject: [PATCH 10/32] fix: polyfit grouping repeats or mixes lines after a
 group of two dots

---
 discorpy/prep/preprocessing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 67ad181..ab88398 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -1197,8 +1197,8 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
         if len(grouped_points) > 0:
             residual = ratio * line_dist
             for current_points in grouped_points:
-                if len(current_points) > 2:
-                    selected_points = current_points
+                selected_points = current_points
+                if len(selected_points) > 2:
                     x_left = selected_points[0, 1]
                     x_right = selected_points[-1, 1]
                     selected_points = _get_nearby_hor_points_iter(
@@ -1376,8 +1376,8 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
         if len(grouped_points) > 0:
             residual = ratio * line_dist
             for current_points in grouped_points:
-                if len(current_points) > 2:
-                    selected_points = current_points
+                selected_points = current_points
+                if len(selected_points) > 2:
                     y_left = selected_points[0, 0]
                     y_right = selected_points[-1, 0]
                     selected_points = _get_nearby_ver_points_iter(
-- 
2.43.0


From 835d38a29e844d90e63fe81d41cd48962b26bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:34 +0000
Subject: [PATCH 11/32] fix: dot selection judges and copies each object, not
 its bounding box

---
 discorpy/prep/preprocessing.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index ab88398..c181c74 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -352,11 +352,11 @@ def select_dots_based_size(mat, dot_size, ratio=0.3):
     max_size = dot_size + ratio * dot_size
     mat_label, _ = ndi.label(np.int16(mat))
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if _check_dot_size(mat[dot], min_size, max_size)]
     mat1 = np.zeros_like(mat, dtype=np.int16)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, j in enumerate(list_dots):
+        dot = (mat_label[j] == i + 1)  # Exclude parts of other objects
+        if _check_dot_size(mat[j][dot], min_size, max_size):
+            mat1[j][dot] = mat[j][dot]
     return mat1
 
 
@@ -411,11 +411,11 @@ def select_dots_based_ratio(mat, ratio=0.3):
     mat = np.int16(mat)
     mat_label, _ = ndi.label(mat)
     list_dots = ndi.find_objects(mat_label)
-    dots_selected = [dot for dot in list_dots
-                     if _check_axes_ratio(mat[dot], ratio)]
     mat1 = np.zeros_like(mat)
-    for _, j in enumerate(dots_selected):
-        mat1[j] = mat[j]
+    for i, j in enumerate(list_dots):
+        dot = (mat_label[j] == i + 1)  # Exclude parts of other objects
+        if _check_axes_ratio(np.int16(dot), ratio):
+            mat1[j][dot] = mat[j][dot]
     return mat1
 
 
@@ -453,7 +453,8 @@ def select_dots_based_distance(mat, dot_dist, ratio=0.3):
         num = dist // dot_dist
         dist_error = (dist - num * dot_dist) / dot_dist
         if any(dist_error < ratio):
-            mat1[j] = mat[j]
+            dot = (mat_label[j] == i + 1)  # Exclude parts of other objects
+            mat1[j][dot] = mat[j][dot]
     return mat1
 
 
-- 
2.43.0


From 9bae640dccaa148f4194f74ee039c86d209a4821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:34 +0000
Subject: [PATCH 12/32] fix: select_dots_based_distance accepts distances
 slightly below the nominal one

---
 discorpy/prep/preprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index c181c74..f619a00 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -450,8 +450,8 @@ def select_dots_based_distance(mat, dot_dist, ratio=0.3):
     mat1 = np.zeros_like(mat)
     for i, j in enumerate(list_dots):
         dist = list_dist[i]
-        num = dist // dot_dist
-        dist_error = (dist - num * dot_dist) / dot_dist
+        num = np.clip(np.round(dist / dot_dist), 1, None)
+        dist_error = np.abs(dist - num * dot_dist) / dot_dist
         if any(dist_error < ratio):
             dot = (mat_label[j] == i + 1)  # Exclude parts of other objects
             mat1[j][dot] = mat[j][dot]
-- 
2.43.0


From 7fbbb4ef0c7536d5039f4f5fbfdb74cf7458e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:46 +0000
Subject: [PATCH 13/32] fix: normalization of images with a zero background
 gives inf or nan

The division of arrays never raises ZeroDivisionError, so the intended
replacement of zero background values by the mean was never done.
---
 discorpy/prep/preprocessing.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index f619a00..06a821f 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -65,11 +65,8 @@ def normalization(mat, size=51):
     """
     mat_bck = ndi.median_filter(mat, size, mode="reflect")
     mean_val = np.mean(mat_bck)
-    try:
-        mat_cor = mean_val * mat / mat_bck
-    except ZeroDivisionError:
-        mat_bck[mat_bck == 0.0] = mean_val
-        mat_cor = mean_val * mat / mat_bck
+    mat_bck = np.where(mat_bck == 0.0, mean_val, mat_bck)
+    mat_cor = mean_val * mat / mat_bck
     return mat_cor
 
 
@@ -150,11 +147,8 @@ def normalization_fft(mat, sigma=10, pad=100, mode='reflect'):
     """
     mat_bck = _apply_fft_filter(mat, sigma, pad, mode=mode)
     mean_val = np.mean(mat_bck)
-    try:
-        mat_cor = mean_val * mat / mat_bck
-    except ZeroDivisionError:
-        mat_bck[mat_bck == 0.0] = mean_val
-        mat_cor = mean_val * mat / mat_bck
+    mat_bck = np.where(mat_bck == 0.0, mean_val, mat_bck)
+    mat_cor = mean_val * mat / mat_bck
     return mat_cor
 
 
-- 
2.43.0


From ee1322d47ac6c750c1ff067bc857f461136f123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:22 +0000
Subject: [PATCH 14/32] fix: tilted profiles are stretched, cross points off by
 up to one pixel

A profile of n samples spanned n pixels instead of n - 1 and was clipped at
the end of the image, so the positions derived from it (assuming the span
of the clipped end points) were up to one pixel short at the far side.
---
 discorpy/prep/linepattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 18636f7..5923d41 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -543,7 +543,7 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         raise ValueError("Input index is out of possible range: "
                          "[{0}, {1}]".format(min_idx, max_idx))
     if direction == "horizontal":
-        rlist = np.linspace(0, np.floor(width / np.cos(angle)), width)
+        rlist = np.linspace(0, np.floor((width - 1) / np.cos(angle)), width)
         xlist = rlist * np.cos(angle)
         ylist = rlist * np.sin(-angle)
         xlist = np.clip(xlist, 0, width - 1)
@@ -554,7 +554,7 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         profile = ndi.map_coordinates(mat[ymin:ymax, :], indices, order=3,
                                       mode='nearest')
     else:
-        rlist = np.linspace(0, np.floor(height / np.cos(angle)), height)
+        rlist = np.linspace(0, np.floor((height - 1) / np.cos(angle)), height)
         ylist = rlist * np.cos(angle)
         xlist = rlist * np.sin(angle)
         xlist = np.clip(index + xlist, 0, width - 1)
-- 
2.43.0


From 11960e2ef257b77a8257b7ddd5ab5d1608dec4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:23 +0000
Subject: [PATCH 15/32] fix: tilted profiles of images with more than 32767
 rows or columns

---
 discorpy/prep/linepattern.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 5923d41..a2bc9c8 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -548,8 +548,8 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         ylist = rlist * np.sin(-angle)
         xlist = np.clip(xlist, 0, width - 1)
         ylist = np.clip(index + ylist, 0, height - 1)
-        ymin = np.int16(np.floor(np.amin(ylist)))
-        ymax = np.int16(np.ceil(np.amax(ylist))) + 1
+        ymin = np.int64(np.floor(np.amin(ylist)))
+        ymax = np.int64(np.ceil(np.amax(ylist))) + 1
         indices = ylist - ymin, xlist
         profile = ndi.map_coordinates(mat[ymin:ymax, :], indices, order=3,
                                       mode='nearest')
@@ -559,8 +559,8 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         xlist = rlist * np.sin(angle)
         xlist = np.clip(index + xlist, 0, width - 1)
         ylist = np.clip(ylist, 0, height - 1)
-        xmin = np.int16(np.floor(np.amin(xlist)))
-        xmax = np.int16(np.ceil(np.amax(xlist))) + 1
+        xmin = np.int64(np.floor(np.amin(xlist)))
+        xmax = np.int64(np.ceil(np.amax(xlist))) + 1
         indices = ylist, xlist - xmin
         profile = ndi.map_coordinates(mat[:, xmin:xmax], indices, order=3,
                                       mode='nearest')
-- 
2.43.0


From d2489b8771314dbb20d763f3b600fc0a4138be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:23 +0000
Subject: [PATCH 16/32] fix: sliding_window_slope truncates the slopes of
 integer data

---
 discorpy/prep/linepattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index a2bc9c8..5fdd1a2 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -180,7 +180,7 @@ def sliding_window_slope(list_data, size=3, norm=True):
     radius = size // 2
     padded_data = np.pad(list_data, (radius, radius), 'edge')
     x_list = np.arange(size)
-    slopes = np.zeros_like(list_data)
+    slopes = np.zeros_like(list_data, dtype=np.float64)
     for i in range(len(list_data)):
         local_data = padded_data[i:i + size]
         slopes[i] = np.polyfit(x_list, local_data, 1)[0]
-- 
2.43.0


From 6dd31d657367d86c1b6de2fff0954c0de0a76237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:29 +0000
Subject: [PATCH 17/32] fix: get_local_extrema_points misses an extremum at the
 last complete window

---
 discorpy/prep/linepattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 5fdd1a2..5530bb1 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -252,7 +252,7 @@ def get_local_extrema_points(list_data, option="min", radius=7, sensitive=0.1,
                               out=nmean * np.ones_like(list_data),
                               where=backgr != 0)
     points = []
-    for i in range(radius, num_point - radius - 1, 1):
+    for i in range(radius, num_point - radius, 1):
         val, pos = list_data[i], i
         list_sort = np.sort(list_data[i - radius:i + radius + 1])
         num1 = list_sort[0] - val
-- 
2.43.0


From 6670b3d3b50a9ba10b7dc2762ad087ae80be00e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:29 +0000
Subject: [PATCH 18/32] fix: locate_subpixel_point returns a maximum for option
 min (and vice versa)

---
 discorpy/prep/linepattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 5530bb1..c2bb736 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -65,7 +65,7 @@ def locate_subpixel_point(list_point, option="min"):
         pos = np.argmin(list_point)
     else:
         pos = np.argmax(list_point)
-    if a != 0.0:
+    if (a > 0.0 and option == "min") or (a < 0.0 and option != "min"):
         num = - b / (2 * a)
         if (num >= 0) and (num < num_point):
             pos = num
-- 
2.43.0


From 45c7d39d836e1d59a9e367d514515b400bc6c77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:06 +0000
Subject: [PATCH 19/32] fix: get_local_extrema_points smooths integer data in
 integers, doubling extrema

---
 discorpy/prep/linepattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index c2bb736..da16e3f 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -226,7 +226,7 @@ def get_local_extrema_points(list_data, option="min", radius=7, sensitive=0.1,
         1D array. Positions of local extremum points.
 
     """
-    list_data = np.copy(list_data)
+    list_data = np.array(list_data, dtype=np.float64)
     if denoise is True:
         list_data = ndi.gaussian_filter(list_data, 3)
     if option == "max":
-- 
2.43.0


From 69e9a19ef0abdd31b7c4892bd4c088400927ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:24 +0000
Subject: [PATCH 20/32] fix: remove_points_using_parabola_mask fails on points
 outside the frame

---
 discorpy/prep/preprocessing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 06a821f..5afe64f 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -953,8 +953,9 @@ def remove_points_using_parabola_mask(points, height, width, hor_curviness=0.3,
                               rotate=rotate)
     y_cors, x_cors = np.int32(points[:, 0]), np.int32(points[:, 1])
     valid_indices = ((y_cors >= 0) & (y_cors < height) &
-                     (x_cors >= 0) & (x_cors < width) &
-                     (mask[y_cors, x_cors] == 1.0))
+                     (x_cors >= 0) & (x_cors < width))
+    valid_indices[valid_indices] = mask[y_cors[valid_indices],
+                                        x_cors[valid_indices]] == 1.0
     return points[valid_indices]
 
 
-- 
2.43.0


From 031305d43395f151acfca788ad09f7044a2563aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:24 +0000
Subject: [PATCH 21/32] fix: save_image rescales images saved with an
 upper-case tif extension

---
 discorpy/losa/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 21c70a5..d8fcee2 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -427,7 +427,7 @@ def save_image(file_path, mat, overwrite=True):
         Updated file path.
     """
     file_path = __get_path(file_path, check_exist=False).resolve()
-    file_ext = file_path.suffix
+    file_ext = file_path.suffix.lower()
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
         if mat.dtype != np.uint8:
             nmin, nmax = np.min(mat), np.max(mat)
-- 
2.43.0


From 4f7f7058bcf80926fe51e38b14851c1cc76c027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:24 +0000
Subject: [PATCH 22/32] fix: save_image of integer and boolean arrays to 8-bit
 formats overflows or fails

---
 discorpy/losa/loadersaver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index d8fcee2..2787816 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -430,6 +430,7 @@ def save_image(file_path, mat, overwrite=True):
     file_ext = file_path.suffix.lower()
     if not ((file_ext == ".tif") or (file_ext == ".tiff")):
         if mat.dtype != np.uint8:
+            mat = np.asarray(mat, dtype=np.float64)
             nmin, nmax = np.min(mat), np.max(mat)
             if nmax != nmin:
                 mat = np.uint8(255.0 * (mat - nmin) / (nmax - nmin))
-- 
2.43.0


From 9ac28a411ce8e86434c2979609d44b464c2bc083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:24 +0000
Subject: [PATCH 23/32] fix: load_image averages the rows or columns of small
 colour images

---
 discorpy/losa/loadersaver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 2787816..6010fdb 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -101,8 +101,7 @@ def load_image(file_path, average=True):
     except Exception as error:
         raise ValueError(error)
     if len(mat.shape) > 2 and average is True:
-        axis_m = np.argmin(mat.shape)
-        mat = np.mean(mat, axis=axis_m)
+        mat = np.mean(mat, axis=-1)
     return mat
 
 
-- 
2.43.0


From 651a06b51fd15d9e79527ad7e520d351ddc34944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:24 +0000
Subject: [PATCH 24/32] fix: load_hdf_file with a numpy integer as index

---
 discorpy/losa/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 6010fdb..d1df5ab 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -289,7 +289,7 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
         if index is None:
             mat = np.float32(idata[:, :, :])
         else:
-            if isinstance(index, int):
+            if isinstance(index, (int, np.integer)):
                 try:
                     if axis == 0:
                         mat = np.float32(idata[index, :, :])
-- 
2.43.0


From 43abe0e80693964768e62120072233dec9b3fd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:24 +0000
Subject: [PATCH 25/32] fix: load_hdf_file returns a 1D array for one slice of
 a dataset with a side of one

---
 discorpy/losa/loadersaver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index d1df5ab..5c45cf0 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -297,7 +297,7 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
                         mat = np.float32(idata[:, index, :])
                     else:
                         mat = np.float32(idata[:, :, index])
-                    axis = np.clip(axis, 0, 1)
+                    return mat
                 except IndexError:
                     raise
             if isinstance(index, tuple) or isinstance(index, list):
-- 
2.43.0


From c10ba0fcf823c6594796032bbe3eadabb6d126df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:52 +0000
Subject: [PATCH 26/32] fix: load_hdf_file fails on a single index in a list
 along the last axis

---
 discorpy/losa/loadersaver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 5c45cf0..a975671 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -321,10 +321,10 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
                         mat = np.float32(idata[:, :, list_index])
                 except IndexError:
                     raise
-            if mat.shape[axis] == 1:
-                mat = np.swapaxes(mat, axis, 0)[0]
             if mat.shape[axis] == 0:
                 raise ValueError("Empty indices!")
+            if mat.shape[axis] == 1:
+                mat = np.squeeze(mat, axis=axis)
     return mat
 
 
-- 
2.43.0


From 4d324091d1c97e373a2a5df0c5169cfe4cfa62c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:52 +0000
Subject: [PATCH 27/32] fix: open_hdf_stream destroys an existing file before
 rejecting its options

---
 discorpy/losa/loadersaver.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index a975671..a33899a 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -637,21 +637,22 @@ def open_hdf_stream(file_path, data_shape, key_path='entry/data',
     _create_folder(str(file_path))
     if not overwrite:
         file_path = _create_file_name(str(file_path))
+    for opt_name in options:
+        for key in options[opt_name]:
+            if key_path in key:
+                msg = "!!! Selected key path, '{0}', can not be a " \
+                      "child key-path of '{1}' !!!\n!!! Change to make " \
+                      "sure they are at the same level " \
+                      "!!!".format(key, key_path)
+                raise ValueError(msg)
     try:
         ofile = h5py.File(file_path, 'w')
     except Exception as error:
         raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
-    if len(options) != 0:
-        for opt_name in options:
-            opts = options[opt_name]
-            for key in opts:
-                if key_path in key:
-                    msg = "!!! Selected key path, '{0}', can not be a " \
-                          "child key-path of '{1}' !!!\n!!! Change to make " \
-                          "sure they are at the same level " \
-                          "!!!".format(key, key_path)
-                    raise ValueError(msg)
-                ofile.create_dataset(key, data=opts[key])
+    for opt_name in options:
+        opts = options[opt_name]
+        for key in opts:
+            ofile.create_dataset(key, data=opts[key])
     data_out = ofile.create_dataset(key_path, data_shape, dtype=data_type)
     return data_out
 
-- 
2.43.0


From 2f97e9da5082645a62106bca4714f84702f07e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:31 +0000
Subject: [PATCH 28/32] fix: save_residual_plot resets the user's matplotlib
 settings

---
 discorpy/losa/loadersaver.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index a33899a..1d5f370 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -553,19 +553,20 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
     fig = plt.figure(frameon=False)
     fig.set_size_inches(width / dpi, height / dpi)
     m_size = 0.5 * min(height / dpi, width / dpi)
-    plt.rc('font', size=np.int16(m_size * 4))
-    if __check_font(font_family):
-        plt.rcParams['font.family'] = font_family
-    plt.rcParams['font.weight'] = 'bold'
-    plt.xlabel('Radius', fontweight='bold')
-    plt.ylabel('Residual', fontweight='bold')
-    plt.plot(list_data[:, 0], list_data[:, 1], '.', markersize=m_size)
-    try:
-        plt.savefig(file_path, dpi=dpi, bbox_inches='tight')
-    except Exception as error:
-        raise ValueError(f"Couldn't write to file: {file_path}. Error {error}")
-    plt.close()
-    plt.rcParams.update(plt.rcParamsDefault)
+    with plt.rc_context():
+        plt.rc('font', size=np.int16(m_size * 4))
+        if __check_font(font_family):
+            plt.rcParams['font.family'] = font_family
+        plt.rcParams['font.weight'] = 'bold'
+        plt.xlabel('Radius', fontweight='bold')
+        plt.ylabel('Residual', fontweight='bold')
+        plt.plot(list_data[:, 0], list_data[:, 1], '.', markersize=m_size)
+        try:
+            plt.savefig(file_path, dpi=dpi, bbox_inches='tight')
+        except Exception as error:
+            raise ValueError(
+                f"Couldn't write to file: {file_path}. Error {error}")
+        plt.close()
     return file_path
 
 
-- 
2.43.0


From f4c0a1570f1bd1629f1dd78f65d54e6ad8423be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 29/32] fix: data that cannot be saved as json or pickle
 destroys the existing file

---
 discorpy/losa/loadersaver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 1d5f370..0a86c1f 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -823,8 +823,9 @@ def save_metadata_json(file_path, xcenter, ycenter, list_fact, overwrite=True):
         'ycenter': float(ycenter),
         'list_fact': list_fact
     }
+    text = json.dumps(metadata, indent=4, default=__numpy_encoder)
     with open(file_path, "w") as f:
-        json.dump(metadata, f, indent=4, default=__numpy_encoder)
+        f.write(text)
     return file_path
 
 
@@ -893,8 +894,9 @@ def save_python_list(file_path, python_list, overwrite=True):
     _create_folder(str(file_path))
     if not overwrite:
         file_path = _create_file_name(str(file_path))
+    data = pickle.dumps(python_list)
     with open(file_path, 'wb') as f:
-        pickle.dump(python_list, f)
+        f.write(data)
     return file_path
 
 
-- 
2.43.0


From c6967110b1e0ead722ba4943d7c9865dbfef02f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 30/32] fix: residuals of dots given in a small integer type
 wrap around

---
 discorpy/post/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 7657819..fab8797 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -338,7 +338,7 @@ def calc_residual_hor(list_ulines, xcenter, ycenter):
     """
     list_data = []
     for i, line in enumerate(list_ulines):
-        line = np.asarray(line)
+        line = np.asarray(line, dtype=np.float64)
         y_list = line[:, 0] - ycenter
         x_list = line[:, 1] - xcenter
         (a_fact, b_fact) = np.polyfit(x_list, y_list, 1)
@@ -375,7 +375,7 @@ def calc_residual_ver(list_ulines, xcenter, ycenter):
     """
     list_data = []
     for i, line in enumerate(list_ulines):
-        line = np.asarray(line)
+        line = np.asarray(line, dtype=np.float64)
         y_list = line[:, 0] - ycenter
         x_list = line[:, 1] - xcenter
         (a_fact, b_fact) = np.polyfit(y_list, x_list, 1)
-- 
2.43.0


From 8d4a1d149d73eab75fef82539318e3a71590cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 31/32] fix: unwarp_video_cv2 with padding fails if the first
 frame cannot be read

---
 discorpy/util/utility.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/discorpy/util/utility.py b/discorpy/util/utility.py
index 2a59ce3..02b5b99 100644
--- a/discorpy/util/utility.py
+++ b/discorpy/util/utility.py
@@ -490,12 +490,6 @@ def unwarp_video_cv2(cam_obj, xcenter, ycenter, list_fact, method=None,
     xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
     yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
     check, frame = cam_obj.read()
-    if check:
-        num_dim = len(frame.shape)
-        if num_dim == 2:
-            pad_width = [(t_pad, b_pad), (l_pad, r_pad)]
-        else:
-            pad_width = [(t_pad, b_pad), (l_pad, r_pad), (0, 0)]
     while True:
         check, frame = cam_obj.read()
         if check:
@@ -503,6 +497,11 @@ def unwarp_video_cv2(cam_obj, xcenter, ycenter, list_fact, method=None,
                 uframe = mapping_cv2(frame, xd_mat, yd_mat, method=method,
                                      border=border)
             else:
+                num_dim = len(frame.shape)
+                if num_dim == 2:
+                    pad_width = [(t_pad, b_pad), (l_pad, r_pad)]
+                else:
+                    pad_width = [(t_pad, b_pad), (l_pad, r_pad), (0, 0)]
                 frame_pad = np.pad(frame, pad_width, mode=pad_mode)
                 uframe = mapping_cv2(frame_pad, xd_mat, yd_mat, method=method,
                                      border=border)
-- 
2.43.0


From a3d99b4a1fd9b7df5f3f194e0344980f0b744753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:05 +0000
Subject: [PATCH 32/32] fix: calc_coef_*(optimizing=True) started the optimiser
 in single precision and returned the start value

---
 discorpy/proc/processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 1a19532..2e2af24 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -342,7 +342,8 @@ def _optimize_intercept(dist_hv, pos_hv, list_inter):
     """
     list_arg = [list_inter[pos_hv], pos_hv]
     list_arg.extend(list_inter)
-    minimum = optimize.minimize(_func_opt, dist_hv, args=tuple(list_arg))
+    minimum = optimize.minimize(_func_opt, np.float64(dist_hv),
+                                args=tuple(list_arg))
     return minimum.x[0]
 
 
-- 
2.43.0


From 999ddda18b81c46ba354d2d003209df4a85d2aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 01/19] fix: stop_index=-1 selects slices up to the last row

unwarp_chunk_slices_backward replaced -1 by height, which is outside the
accepted range, so that the call always raised ValueError.
---
 discorpy/post/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index e86f39a..23e58fd 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -283,7 +283,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     (depth, height, width) = mat3D.shape
     index_list = np.arange(height, dtype=np.int16)
     if stop_index == -1:
-        stop_index = height
+        stop_index = height - 1
     if (start_index not in index_list) or (stop_index not in index_list):
         raise ValueError("Selected index is out of the range")
     xu_list = np.arange(0, width) - xcenter
-- 
2.43.0


From 23b54508fa907dfb2ba72e35e47a4b97a2d9833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 02/19] fix: crop of unwarp_chunk_slices_backward covers all
 mapped rows

The slab was cropped using only the rows mapped from the first and last
index. Models whose mapped rows are not monotonic across the chunk were
sampled outside the slab and returned wrong values.
---
 discorpy/post/postprocessing.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index 23e58fd..b34e418 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -287,26 +287,16 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     if (start_index not in index_list) or (stop_index not in index_list):
         raise ValueError("Selected index is out of the range")
     xu_list = np.arange(0, width) - xcenter
-    yu1 = start_index - ycenter
-    ru_list = np.sqrt(xu_list ** 2 + yu1 ** 2)
-    flist = np.sum(np.asarray(
-        [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
-    yd_list1 = np.clip(ycenter + flist * yu1, 0, height - 1)
-    yu2 = stop_index - ycenter
-    ru_list = np.sqrt(xu_list ** 2 + yu2 ** 2)
-    flist = np.sum(np.asarray(
-        [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
-    yd_list2 = np.clip(ycenter + flist * yu2, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list1)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list2))) + 1
     yu_list = np.arange(start_index, stop_index + 1) - ycenter
     xu_mat, yu_mat = np.meshgrid(xu_list, yu_list)
     ru_mat = np.sqrt(xu_mat ** 2 + yu_mat ** 2)
     fact_mat = np.sum(np.asarray(
         [factor * ru_mat ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
-    yd_mat = np.float32(
-        np.clip(ycenter + fact_mat * yu_mat, 0, height - 1)) - yd_min
+    yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
+    yd_min = np.int16(np.floor(np.amin(yd_mat)))
+    yd_max = np.int16(np.ceil(np.amax(yd_mat))) + 1
+    yd_mat = yd_mat - yd_min
     sino_chunk = np.asarray(
         [_mapping(mat3D[i, yd_min: yd_max, :],
                   xd_mat, yd_mat) for i in range(depth)])
-- 
2.43.0


From f304518519d4416fabb27e893e55a31f5aff32de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 03/19] fix: no int16 overflow of row indices when unwarping
 slices

Row indices above 32767 wrapped around in unwarp_slice_backward and
unwarp_chunk_slices_backward.
---
 discorpy/post/postprocessing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index b34e418..a073e23 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -218,8 +218,8 @@ def unwarp_slice_backward(mat3D, xcenter, ycenter, list_fact, index):
         [factor * ru_list ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_list = np.clip(xcenter + flist * xu_list, 0, width - 1)
     yd_list = np.clip(ycenter + flist * yu, 0, height - 1)
-    yd_min = np.int16(np.floor(np.amin(yd_list)))
-    yd_max = np.int16(np.ceil(np.amax(yd_list))) + 1
+    yd_min = int(np.floor(np.amin(yd_list)))
+    yd_max = int(np.ceil(np.amax(yd_list))) + 1
     yd_list = yd_list - yd_min
     sino = np.zeros((depth, width), dtype=np.float32)
     indices = yd_list, xd_list
@@ -281,7 +281,7 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
     if (len(mat3D.shape) < 3):
         raise ValueError("Input must be a 3D data")
     (depth, height, width) = mat3D.shape
-    index_list = np.arange(height, dtype=np.int16)
+    index_list = np.arange(height)
     if stop_index == -1:
         stop_index = height - 1
     if (start_index not in index_list) or (stop_index not in index_list):
@@ -294,8 +294,8 @@ def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
         [factor * ru_mat ** i for i, factor in enumerate(list_fact)]), axis=0)
     xd_mat = np.float32(np.clip(xcenter + fact_mat * xu_mat, 0, width - 1))
     yd_mat = np.float32(np.clip(ycenter + fact_mat * yu_mat, 0, height - 1))
-    yd_min = np.int16(np.floor(np.amin(yd_mat)))
-    yd_max = np.int16(np.ceil(np.amax(yd_mat))) + 1
+    yd_min = int(np.floor(np.amin(yd_mat)))
+    yd_max = int(np.ceil(np.amax(yd_mat))) + 1
     yd_mat = yd_mat - yd_min
     sino_chunk = np.asarray(
         [_mapping(mat3D[i, yd_min: yd_max, :],
-- 
2.43.0


From e86f656e42bc427ba3a64e91c5b44a693faf8fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 04/19] fix: no int16 overflow of crop indices in
 get_tilted_profile

---
 discorpy/prep/linepattern.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 18636f7..68288d7 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -548,8 +548,8 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         ylist = rlist * np.sin(-angle)
         xlist = np.clip(xlist, 0, width - 1)
         ylist = np.clip(index + ylist, 0, height - 1)
-        ymin = np.int16(np.floor(np.amin(ylist)))
-        ymax = np.int16(np.ceil(np.amax(ylist))) + 1
+        ymin = int(np.floor(np.amin(ylist)))
+        ymax = int(np.ceil(np.amax(ylist))) + 1
         indices = ylist - ymin, xlist
         profile = ndi.map_coordinates(mat[ymin:ymax, :], indices, order=3,
                                       mode='nearest')
@@ -559,8 +559,8 @@ def get_tilted_profile(mat, index, angle_deg, direction):
         xlist = rlist * np.sin(angle)
         xlist = np.clip(index + xlist, 0, width - 1)
         ylist = np.clip(ylist, 0, height - 1)
-        xmin = np.int16(np.floor(np.amin(xlist)))
-        xmax = np.int16(np.ceil(np.amax(xlist))) + 1
+        xmin = int(np.floor(np.amin(xlist)))
+        xmax = int(np.ceil(np.amax(xlist))) + 1
         indices = ylist, xlist - xmin
         profile = ndi.map_coordinates(mat[:, xmin:xmax], indices, order=3,
                                       mode='nearest')
-- 
2.43.0


From 51b57aee49e6c905bfbe2bc463197955d7a555e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 05/19] fix: unwarp lines given as integer coordinates without
 truncation

The result array took the type of the input, so that unwarped positions
of integer coordinates were truncated.
---
 discorpy/post/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/post/postprocessing.py b/discorpy/post/postprocessing.py
index a073e23..01b98e9 100644
--- a/discorpy/post/postprocessing.py
+++ b/discorpy/post/postprocessing.py
@@ -52,7 +52,7 @@ def unwarp_line_forward(list_lines, xcenter, ycenter, list_fact):
     list_ulines = []
     list_expo = np.arange(len(list_fact), dtype=np.int16)
     for _, line in enumerate(list_lines):
-        uline = np.zeros_like(line)
+        uline = np.zeros_like(line, dtype=np.result_type(line, np.float32))
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
             yd = dot[0] - ycenter
@@ -89,7 +89,7 @@ def unwarp_line_backward(list_lines, xcenter, ycenter, list_fact):
     """
     list_ulines = []
     for _, line in enumerate(list_lines):
-        uline = np.zeros_like(line)
+        uline = np.zeros_like(line, dtype=np.result_type(line, np.float32))
         for j, dot in enumerate(line):
             xd = dot[1] - xcenter
             yd = dot[0] - ycenter
-- 
2.43.0


From 027d3e69b0bd02932e7b0db2784e94f189950d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 06/19] fix: slopes of integer profiles are not truncated

sliding_window_slope stored the slopes in an array of the input's type.
---
 discorpy/prep/linepattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index 68288d7..cdff468 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -180,7 +180,7 @@ def sliding_window_slope(list_data, size=3, norm=True):
     radius = size // 2
     padded_data = np.pad(list_data, (radius, radius), 'edge')
     x_list = np.arange(size)
-    slopes = np.zeros_like(list_data)
+    slopes = np.zeros(npoint)
     for i in range(len(list_data)):
         local_data = padded_data[i:i + size]
         slopes[i] = np.polyfit(x_list, local_data, 1)[0]
-- 
2.43.0


From 80494a634c97fab1f3c9dcbc7552900f85639888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 07/19] fix: background normalisation gives finite values for
 zero background

Division of numpy arrays never raises ZeroDivisionError, so that zeros of
the background produced NaN or infinity.
---
 discorpy/prep/preprocessing.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 5587641..1231e68 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -65,11 +65,9 @@ def normalization(mat, size=51):
     """
     mat_bck = ndi.median_filter(mat, size, mode="reflect")
     mean_val = np.mean(mat_bck)
-    try:
-        mat_cor = mean_val * mat / mat_bck
-    except ZeroDivisionError:
-        mat_bck[mat_bck == 0.0] = mean_val
-        mat_cor = mean_val * mat / mat_bck
+    mat_bck = np.where(mat_bck == 0.0, mean_val if mean_val != 0.0 else 1.0,
+                       mat_bck)
+    mat_cor = mean_val * mat / mat_bck
     return mat_cor
 
 
@@ -150,11 +148,9 @@ def normalization_fft(mat, sigma=10, pad=100, mode='reflect'):
     """
     mat_bck = _apply_fft_filter(mat, sigma, pad, mode=mode)
     mean_val = np.mean(mat_bck)
-    try:
-        mat_cor = mean_val * mat / mat_bck
-    except ZeroDivisionError:
-        mat_bck[mat_bck == 0.0] = mean_val
-        mat_cor = mean_val * mat / mat_bck
+    mat_bck = np.where(mat_bck == 0.0, mean_val if mean_val != 0.0 else 1.0,
+                       mat_bck)
+    mat_cor = mean_val * mat / mat_bck
     return mat_cor
 
 
-- 
2.43.0


From a0a3055e80e90a46bd76e2596e23efba100070cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 08/19] fix: points outside the image are removed by the
 parabola mask

remove_points_using_parabola_mask raised IndexError for them.
---
 discorpy/prep/preprocessing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 1231e68..0d67663 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -955,7 +955,8 @@ def remove_points_using_parabola_mask(points, height, width, hor_curviness=0.3,
     y_cors, x_cors = np.int32(points[:, 0]), np.int32(points[:, 1])
     valid_indices = ((y_cors >= 0) & (y_cors < height) &
                      (x_cors >= 0) & (x_cors < width) &
-                     (mask[y_cors, x_cors] == 1.0))
+                     (mask[np.clip(y_cors, 0, height - 1),
+                           np.clip(x_cors, 0, width - 1)] == 1.0))
     return points[valid_indices]
 
 
-- 
2.43.0


From 803059bb31a8c24e05fb5ecc0efb29d7feaf05b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 09/19] fix: keep lines with exactly the accepted ratio of dots

As documented, lines having a number of dots equal to or larger than
accepted_ratio * maximum are selected; equality was rejected (with
accepted_ratio=1.0 no line was ever returned).
---
 discorpy/prep/preprocessing.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 0d67663..0331ab3 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -657,8 +657,8 @@ def group_dots_hor_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
         if len(dots_selected) > 1:
             list_lines.append(dots_selected)
     list_len = [len(i) for i in list_lines]
-    len_accepted = int(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     lines_selected = sorted(
         lines_selected, key=lambda list_: np.mean(list_[:, 0]))
     return lines_selected
@@ -729,8 +729,8 @@ def group_dots_ver_lines(mat, slope, dot_dist, ratio=0.3, num_dot_miss=6,
             dots_selected = np.fliplr(dots_selected)  # Swap back
             list_lines.append(dots_selected)
     list_length = [len(i) for i in list_lines]
-    len_accepted = int(accepted_ratio * np.max(list_length))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_length)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     lines_selected = sorted(
         lines_selected, key=lambda list_: np.mean(list_[:, 1]))
     return lines_selected
@@ -1209,8 +1209,8 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                         selected_points[:, 1].argsort()]
                     list_lines.append(selected_points)
     list_len = [len(i) for i in list_lines]
-    len_accepted = np.int16(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     y_vals = [np.median(line[:, 0]) for line in lines_selected]
     ids = np.where(np.abs(np.diff(y_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
@@ -1387,8 +1387,8 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
                         selected_points[:, 0].argsort()]
                     list_lines.append(selected_points)
     list_len = [len(i) for i in list_lines]
-    len_accepted = np.int16(accepted_ratio * np.max(list_len))
-    lines_selected = [line for line in list_lines if len(line) > len_accepted]
+    len_accepted = accepted_ratio * np.max(list_len)
+    lines_selected = [line for line in list_lines if len(line) >= len_accepted]
     x_vals = [np.median(line[:, 1]) for line in lines_selected]
     ids = np.where( np.abs(np.diff(x_vals)) > 0.1 * line_dist)[0]
     if len(ids) > 0:
-- 
2.43.0


From 3751520ddaa8f7992d8d91da6f0a035cc579c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 10/19] fix: short groups do not repeat previously selected
 points

In group_dots_*_lines_based_polyfit a group of less than 3 points reused
the points left over from the previous group (or all points).
---
 discorpy/prep/preprocessing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/prep/preprocessing.py b/discorpy/prep/preprocessing.py
index 0331ab3..e94182c 100644
--- a/discorpy/prep/preprocessing.py
+++ b/discorpy/prep/preprocessing.py
@@ -1194,8 +1194,8 @@ def group_dots_hor_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
         if len(grouped_points) > 0:
             residual = ratio * line_dist
             for current_points in grouped_points:
-                if len(current_points) > 2:
-                    selected_points = current_points
+                selected_points = current_points
+                if len(selected_points) > 2:
                     x_left = selected_points[0, 1]
                     x_right = selected_points[-1, 1]
                     selected_points = _get_nearby_hor_points_iter(
@@ -1373,8 +1373,8 @@ def group_dots_ver_lines_based_polyfit(points, slope, line_dist, ratio=0.1,
         if len(grouped_points) > 0:
             residual = ratio * line_dist
             for current_points in grouped_points:
-                if len(current_points) > 2:
-                    selected_points = current_points
+                selected_points = current_points
+                if len(selected_points) > 2:
                     y_left = selected_points[0, 0]
                     y_right = selected_points[-1, 0]
                     selected_points = _get_nearby_ver_points_iter(
-- 
2.43.0


From 1607999f0ccc2e1d08245136a879cac6bab4956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 11/19] fix: correct_perspective_effect reports missing curved
 lines

np.where returns a tuple of length 1, so that the check for empty indices
never raised the documented error.
---
 discorpy/proc/processing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 79aaaec..94d0d39 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -1375,25 +1375,25 @@ def correct_perspective_effect(list_hor_lines, list_ver_lines, xcenter,
         raise ValueError("Need at least 2 horizontal lines!!!")
     if len(list_coef_ver) < 2:
         raise ValueError("Need at least 2 vertical lines!!!")
-    indices = np.where(list_coef_hor[:, 0] > 0)
+    indices = np.where(list_coef_hor[:, 0] > 0)[0]
     if len(indices) > 0:
         bh1, ch1 = __get_representative_linear_coefs(list_coef_hor, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open upwards !!!")
-    indices = np.where(list_coef_hor[:, 0] < 0)
+    indices = np.where(list_coef_hor[:, 0] < 0)[0]
     if len(indices) > 0:
         bh2, ch2 = __get_representative_linear_coefs(list_coef_hor, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open downwards !!!")
-    indices = np.where(list_coef_ver[:, 0] > 0)
+    indices = np.where(list_coef_ver[:, 0] > 0)[0]
     if len(indices) > 0:
         bv1, cv1 = __get_representative_linear_coefs(list_coef_ver, indices,
                                                      method)
     else:
         raise ValueError("Input error!!! No curved line open rightwards !!!")
-    indices = np.where(list_coef_ver[:, 0] < 0)
+    indices = np.where(list_coef_ver[:, 0] < 0)[0]
     if len(indices) > 0:
         bv2, cv2 = __get_representative_linear_coefs(list_coef_ver, indices,
                                                      method)
-- 
2.43.0


From 6f492c493673daf9a6f52821fd30f4a4a91c4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 12/19] fix: load_hdf_file with an integer index removes only
 the indexed axis

A remaining axis of length 1 was removed as well, and numpy integers were
not accepted as an index.
---
 discorpy/losa/loadersaver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 21c70a5..5ab0734 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -290,7 +290,7 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
         if index is None:
             mat = np.float32(idata[:, :, :])
         else:
-            if isinstance(index, int):
+            if isinstance(index, (int, np.integer)):
                 try:
                     if axis == 0:
                         mat = np.float32(idata[index, :, :])
@@ -298,7 +298,7 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
                         mat = np.float32(idata[:, index, :])
                     else:
                         mat = np.float32(idata[:, :, index])
-                    axis = np.clip(axis, 0, 1)
+                    return mat
                 except IndexError:
                     raise
             if isinstance(index, tuple) or isinstance(index, list):
-- 
2.43.0


From d6abb39a8855fc58bf788a760e555e61deec29a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:24 +0000
Subject: [PATCH 13/19] fix: saving plots without a file extension

A folder with the given name was created, the file was written to another
path (with .png added) than the one returned, and overwrite=False did not
protect an existing file.
---
 discorpy/losa/loadersaver.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 5ab0734..f0c366e 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -476,7 +476,10 @@ def save_plot_image(file_path, list_lines, height, width, overwrite=True,
     str
         Updated file path.
     """
-    file_path = str(__get_path(file_path, check_exist=False))
+    file_path = __get_path(file_path, check_exist=False)
+    if not file_path.suffix:
+        file_path = file_path.with_suffix('.png')
+    file_path = str(file_path)
     _create_folder(file_path)
     if not overwrite:
         file_path = _create_file_name(file_path)
@@ -546,7 +549,10 @@ def save_residual_plot(file_path, list_data, height, width, overwrite=True,
     str
         Updated file path.
     """
-    file_path = str(__get_path(file_path, check_exist=False))
+    file_path = __get_path(file_path, check_exist=False)
+    if not file_path.suffix:
+        file_path = file_path.with_suffix('.png')
+    file_path = str(file_path)
     _create_folder(file_path)
     if not overwrite:
         file_path = _create_file_name(file_path)
@@ -689,6 +695,8 @@ def save_plot_points(file_path, list_points, height, width, overwrite=True,
         Updated file path.
     """
     file_path = __get_path(file_path, check_exist=False).resolve()
+    if not file_path.suffix:
+        file_path = file_path.with_suffix('.png')
     _create_folder(str(file_path))
     if not overwrite:
         file_path = _create_file_name(str(file_path))
-- 
2.43.0


From 222fa05cff971aca845b9e6e656da1c4d196cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:31 +0000
Subject: [PATCH 14/19] fix: let the spacing optimisation move: a float32 start
 value gives a zero step and a NaN gradient

---
 discorpy/proc/processing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index 94d0d39..d29f010 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -342,7 +342,8 @@ def _optimize_intercept(dist_hv, pos_hv, list_inter):
     """
     list_arg = [list_inter[pos_hv], pos_hv]
     list_arg.extend(list_inter)
-    minimum = optimize.minimize(_func_opt, dist_hv, args=tuple(list_arg))
+    minimum = optimize.minimize(_func_opt, np.float64(dist_hv),
+                                args=tuple(list_arg))
     return minimum.x[0]
 
 
@@ -919,7 +920,8 @@ def _optimize_intercept_perspective(dist_hv, pos_hv, list_inter):
     """
     list_arg = [list_inter[pos_hv], pos_hv]
     list_arg.extend(list_inter)
-    minimum = optimize.minimize(_func_opt_pers, dist_hv, args=tuple(list_arg))
+    minimum = optimize.minimize(_func_opt_pers, np.float64(dist_hv),
+                                args=tuple(list_arg))
     return minimum.x[0]
 
 
-- 
2.43.0


From 8519efc0af90d9eb509cad0c27d4ba8ac78f4adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:53 +0000
Subject: [PATCH 15/19] fix: load_hdf_file with a single selected index along
 axis 2

---
 discorpy/losa/loadersaver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index f0c366e..3efdc0f 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -322,10 +322,10 @@ def load_hdf_file(file_path, key_path=None, index=None, axis=0):
                         mat = np.float32(idata[:, :, list_index])
                 except IndexError:
                     raise
-            if mat.shape[axis] == 1:
-                mat = np.swapaxes(mat, axis, 0)[0]
             if mat.shape[axis] == 0:
                 raise ValueError("Empty indices!")
+            if mat.shape[axis] == 1:
+                mat = np.squeeze(mat, axis=axis)
     return mat
 
 
-- 
2.43.0


From f85b55508aa638d22863b0d614310759489e3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:53 +0000
Subject: [PATCH 16/19] fix: save_image scaling wraps for small integer types
 and fails for bool

---
 discorpy/losa/loadersaver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index 3efdc0f..fbce7c8 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -432,6 +432,7 @@ def save_image(file_path, mat, overwrite=True):
         if mat.dtype != np.uint8:
             nmin, nmax = np.min(mat), np.max(mat)
             if nmax != nmin:
+                nmin, nmax = np.float64(nmin), np.float64(nmax)
                 mat = np.uint8(255.0 * (mat - nmin) / (nmax - nmin))
             else:
                 mat = np.uint8(mat)
-- 
2.43.0


From f819f19ed94d3cfb7103ad4644b3582cc60da268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:53 +0000
Subject: [PATCH 17/19] fix: load_image averages rows or columns of a colour
 image of few pixels

---
 discorpy/losa/loadersaver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discorpy/losa/loadersaver.py b/discorpy/losa/loadersaver.py
index fbce7c8..7188857 100644
--- a/discorpy/losa/loadersaver.py
+++ b/discorpy/losa/loadersaver.py
@@ -101,8 +101,7 @@ def load_image(file_path, average=True):
     except Exception as error:
         raise ValueError(error)
     if len(mat.shape) > 2 and average is True:
-        axis_m = np.argmin(mat.shape)
-        mat = np.mean(mat, axis=axis_m)
+        mat = np.mean(mat, axis=-1)  # Channels are always on the last axis
     return mat
 
 
-- 
2.43.0


From cd3b6451c38c5d21ace9d7b9c44bd71bd2840333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:10 +0000
Subject: [PATCH 18/19] fix: calc_coef_backward failed on lines through the
 center (zero intercept)

The factor of such a line is undefined (0/0); like in calc_coef_forward the
line is left out instead of putting NaN in the system of equations.
---
 discorpy/proc/processing.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/discorpy/proc/processing.py b/discorpy/proc/processing.py
index d29f010..063738c 100644
--- a/discorpy/proc/processing.py
+++ b/discorpy/proc/processing.py
@@ -453,21 +453,29 @@ def calc_coef_backward(list_hor_lines, list_ver_lines, xcenter, ycenter,
     for i, line in enumerate(list_hor_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_hor[i])
         uc_coef = np.float64(list_hor_uc[i])
+        if uc_coef == 0.0:
+            continue  # Line through the center, the factor is undefined.
         for _, point in enumerate(line):
             xd = np.float64(point[1])
             yd = np.float64(point[0])
             rd = np.sqrt(xd * xd + yd * yd)
             Fb = (a_coef * xd * xd + c_coef) / uc_coef
+            if Fb == 0.0:
+                continue
             Amatrix.append(np.power(rd / Fb, list_expo))
             Bmatrix.append(Fb)
     for i, line in enumerate(list_ver_lines):
         (a_coef, _, c_coef) = np.float64(list_coef_ver[i])
         uc_coef = np.float64(list_ver_uc[i])
+        if uc_coef == 0.0:
+            continue  # Line through the center, the factor is undefined.
         for _, point in enumerate(line):
             xd = np.float64(point[1])
             yd = np.float64(point[0])
             rd = np.sqrt(xd * xd + yd * yd)
             Fb = (a_coef * yd * yd + c_coef) / uc_coef
+            if Fb == 0.0:
+                continue
             Amatrix.append(np.power(rd / Fb, list_expo))
             Bmatrix.append(Fb)
     Amatrix = np.asarray(Amatrix, dtype=np.float64)
-- 
2.43.0


From 4c89d033b81ef085a5f31c6b6c4607a8f76674b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:32 +0000
Subject: [PATCH 19/19] fix: extrema of integer profiles used a background
 truncated to whole numbers

---
 discorpy/prep/linepattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discorpy/prep/linepattern.py b/discorpy/prep/linepattern.py
index cdff468..e398450 100644
--- a/discorpy/prep/linepattern.py
+++ b/discorpy/prep/linepattern.py
@@ -226,7 +226,7 @@ def get_local_extrema_points(list_data, option="min", radius=7, sensitive=0.1,
         1D array. Positions of local extremum points.
 
     """
-    list_data = np.copy(list_data)
+    list_data = np.array(list_data, dtype=np.float64)
     if denoise is True:
         list_data = ndi.gaussian_filter(list_data, 3)
     if option == "max":
-- 
2.43.0


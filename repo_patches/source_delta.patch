From df64d02165df9929348114be433121cd33b432a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:15 +0000
Subject: [PATCH 01/50] fix: keep lines in wavelength order when selecting the
 brightest

load_calibration_lines() reordered the lines by intensity before calling
filter_separation(), which compares neighbouring entries, so lines closer
than min_distance survived and isolated ones could be dropped.
---
 src/rascal/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index ac340b0..4fa6f74 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -397,9 +397,11 @@ def load_calibration_lines(
     intensity_list = lines[:, 2][intensity_mask].astype("float64")
 
     if brightest_n_lines is not None:
-        to_keep = np.argsort(np.array(intensity_list))[::-1][
-            :brightest_n_lines
-        ]
+        # keep the lines in the order of wavelength, as filter_separation()
+        # compares the adjacent lines
+        to_keep = np.sort(
+            np.argsort(np.array(intensity_list))[::-1][:brightest_n_lines]
+        )
         element_list = element_list[to_keep]
         intensity_list = intensity_list[to_keep]
         wavelength_list = wavelength_list[to_keep]
-- 
2.43.0


From 8fc3e7404ec570ae1a454f07b39e6993696a5b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 02/50] fix: separation filter with zero or one line

filter_separation() raised IndexError on an empty line list and removed a
lone line, which has no neighbour at all.
---
 src/rascal/util.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 4fa6f74..132f75c 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -215,16 +215,18 @@ def filter_separation(wavelengths, min_separation=0):
 
     """
 
-    left_dists = np.zeros_like(wavelengths)
-    left_dists[1:] = wavelengths[1:] - wavelengths[:-1]
+    wavelengths = np.asarray(wavelengths, dtype="float64")
+
+    # The first (last) line does not have a neighbour on the left (right)
+    left_dists = np.full_like(wavelengths, np.inf)
+    left_dists[1:] = np.abs(wavelengths[1:] - wavelengths[:-1])
+
+    right_dists = np.full_like(wavelengths, np.inf)
+    right_dists[:-1] = np.abs(wavelengths[1:] - wavelengths[:-1])
 
-    right_dists = np.zeros_like(wavelengths)
-    right_dists[:-1] = wavelengths[1:] - wavelengths[:-1]
     distances = np.minimum(right_dists, left_dists)
-    distances[0] = right_dists[0]
-    distances[-1] = left_dists[-1]
 
-    distance_mask = np.abs(distances) >= min_separation
+    distance_mask = distances >= min_separation
 
     return distance_mask
 
-- 
2.43.0


From cdf9688401ce20478482c4e653c4dbc2d6f1fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 03/50] fix: chemical symbols are case insensitive

They are documented to be, but only the exact spelling of the line list was
accepted.
---
 src/rascal/util.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 132f75c..47e3ea3 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -251,13 +251,13 @@ def filter_intensity(elements, lines, min_intensity=None):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
-            min_intensity_dict[e] = 0.0
+            min_intensity_dict[e.lower()] = 0.0
 
     elif isinstance(min_intensity, (int, float)):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
-            min_intensity_dict[e] = float(min_intensity)
+            min_intensity_dict[e.lower()] = float(min_intensity)
 
     elif isinstance(min_intensity, (list, np.ndarray)):
         assert len(min_intensity) == len(elements), (
@@ -269,7 +269,7 @@ def filter_intensity(elements, lines, min_intensity=None):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
-            min_intensity_dict[e] = min_intensity[i]
+            min_intensity_dict[e.lower()] = min_intensity[i]
 
     else:
         raise ValueError(
@@ -281,7 +281,7 @@ def filter_intensity(elements, lines, min_intensity=None):
     out = []
 
     for line in lines:
-        element = line[0]
+        element = line[0].lower()
         intensity = float(line[2])
 
         if intensity >= min_intensity_dict[element]:
@@ -370,8 +370,9 @@ def load_calibration_lines(
     else:
         raise ValueError("Please provide a valid format of line list.")
 
-    # Mask elements
-    mask = [(li[0] in elements) for li in lines]
+    # Mask elements, the chemical symbols are case insensitive
+    elements_lower = [e.lower() for e in elements]
+    mask = [(li[0].lower() in elements_lower) for li in lines]
     lines = lines[mask]
 
     # update the wavelength limit
-- 
2.43.0


From d3137e04d97e3f03de08aa6da932b9119e93e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 04/50] fix: load a line list holding a single line

---
 src/rascal/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 47e3ea3..66227a3 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -362,7 +362,9 @@ def load_calibration_lines(
             )
             lines = np.loadtxt(file_path, delimiter=",", dtype=">U12")
         elif os.path.exists(linelist):
-            lines = np.loadtxt(linelist, delimiter=",", dtype=">U12")
+            lines = np.loadtxt(
+                linelist, delimiter=",", dtype=">U12", ndmin=2
+            )
         else:
             raise ValueError(
                 f"Unknown string is provided as linelist: {linelist}."
-- 
2.43.0


From 7b0aa2c78669854fabf64068b8734fede7234adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 05/50] fix: remove all the atlas lines in the given range

The list was modified while iterating over it, so the line following a
removed one was never looked at.
---
 src/rascal/atlas.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index a352e8d..6e9942f 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -324,9 +324,11 @@ class Atlas:
 
         """
 
-        for atlas_line in self.atlas_lines:
-            if abs(atlas_line.wavelength - wavelength) < tolerance:
-                self.atlas_lines.remove(atlas_line)
+        self.atlas_lines[:] = [
+            atlas_line
+            for atlas_line in self.atlas_lines
+            if not abs(atlas_line.wavelength - wavelength) < tolerance
+        ]
 
     def list(self):
         """
-- 
2.43.0


From b2dd7c861763f54bb12a0388fc0ca964c0ee5662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 06/50] fix: add a single user line to the atlas

A scalar element/wavelength/intensity is documented, but raised TypeError
(and a multi-character element name was split into letters).
---
 src/rascal/atlas.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index 6e9942f..419921e 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -246,9 +246,15 @@ class Atlas:
 
         """
 
+        if isinstance(elements, str):
+            elements = [elements]
+
         if not isinstance(elements, list):
             elements = list(elements)
 
+        if np.ndim(wavelengths) == 0:
+            wavelengths = [wavelengths]
+
         if not isinstance(wavelengths, list):
             wavelengths = list(wavelengths)
 
@@ -256,6 +262,9 @@ class Atlas:
             intensities = [0] * len(wavelengths)
 
         else:
+            if np.ndim(intensities) == 0:
+                intensities = [intensities]
+
             if not isinstance(intensities, list):
                 intensities = list(intensities)
 
-- 
2.43.0


From 925de02ed7d2fcaa2cb8cc034429be1485d4b54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 07/50] fix: update the pairs when lines are removed through
 the Calibrator

remove_atlas_lines_range() and clear_atlas() left the removed lines in the
list of pairs, so fit() kept matching peaks to them.
---
 src/rascal/calibrator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 0673c22..16f6555 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -105,7 +105,10 @@ class Calibrator:
             for pair in itertools.product(self.peaks, self.atlas.get_lines())
         ]
 
-        if self.constrain_poly:
+        if len(pairs) == 0:
+            self.pairs = np.empty((0, 2))
+
+        elif self.constrain_poly:
             # Remove pairs outside polygon
             valid_area = Delaunay(
                 [
@@ -1347,6 +1350,8 @@ class Calibrator:
 
         self.atlas.remove_atlas_lines_range(wavelength, tolerance)
 
+        self._generate_pairs()
+
     def list_atlas(self):
         """
         List all the lines loaded to the Calibrator.
@@ -1361,6 +1366,8 @@ class Calibrator:
 
         self.atlas.clear()
 
+        self._generate_pairs()
+
     def add_user_atlas(
         self,
         elements,
-- 
2.43.0


From 1fe34b76d512d093d10c7d63f2bc97f1f276f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 08/50] fix: Calibrator.save_hough_transform returns the
 in-memory output

With to_disk=False it is documented to return it, but returned None.
---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 16f6555..9d4f188 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1487,7 +1487,7 @@ class Calibrator:
 
         """
 
-        self.ht.save(
+        return self.ht.save(
             filename=filename,
             fileformat=fileformat,
             delimiter=delimiter,
-- 
2.43.0


From da392a65b7f0effee05031c60156b4f5a48ff64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 09/50] fix: restore a complete HoughTransform when loading it

The Hough points came back as a list from json, the Hough lines were not
restored at all (so fit() ignored a loaded transform), and a failure half
way left a mixture of two transforms behind.
---
 src/rascal/calibrator.py     |  2 ++
 src/rascal/houghtransform.py | 55 +++++++++++++++++++++++++-----------
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 9d4f188..71e769d 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1510,6 +1510,8 @@ class Calibrator:
         """
 
         self.ht.load(filename=filename, filetype=filetype)
+        self.hough_points = self.ht.hough_points
+        self.hough_lines = self.ht.hough_lines
 
     def set_known_pairs(self, pix=(), wave=()):
         """
diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 41a2699..46ebd01 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -186,6 +186,14 @@ class HoughTransform:
             bins=(xbins, ybins),
         )
 
+        self._rank_hough_lines()
+
+    def _rank_hough_lines(self):
+        """
+        List the centres of the bins by decreasing number of Hough points.
+
+        """
+
         # Get the line fit_coeffients from the promising bins in the
         # histogram
         self.hist_sorted_arg = np.dstack(
@@ -309,31 +317,44 @@ class HoughTransform:
 
             input_npy = np.load(filename, allow_pickle=True)
 
-            self.hough_points = input_npy[0]
-            self.hist = input_npy[1].astype("float")
-            self.xedges = input_npy[2].astype("float")
-            self.yedges = input_npy[3].astype("float")
-            self.min_slope = float(input_npy[4][0])
-            self.max_slope = float(input_npy[5][0])
-            self.min_intercept = float(input_npy[6][0])
-            self.max_intercept = float(input_npy[7][0])
+            hough_points = input_npy[0]
+            hist = input_npy[1].astype("float")
+            xedges = input_npy[2].astype("float")
+            yedges = input_npy[3].astype("float")
+            min_slope = float(input_npy[4][0])
+            max_slope = float(input_npy[5][0])
+            min_intercept = float(input_npy[6][0])
+            max_intercept = float(input_npy[7][0])
 
         elif filetype == "json":
             if filename[-5:] != ".json":
                 filename += ".json"
 
-            input_json = json.load(open(filename))
+            with open(filename) as f:
+                input_json = json.load(f)
 
-            self.hough_points = input_json["hough_points"]
-            self.hist = np.array(input_json["hist"]).astype("float")
-            self.xedges = np.array(input_json["xedges"]).astype("float")
-            self.yedges = np.array(input_json["yedges"]).astype("float")
-            self.min_slope = float(input_json["min_slope"])
-            self.max_slope = float(input_json["max_slope"])
-            self.min_intercept = float(input_json["min_intercept"])
-            self.max_intercept = float(input_json["max_intercept"])
+            hough_points = np.array(input_json["hough_points"]).astype("float")
+            hist = np.array(input_json["hist"]).astype("float")
+            xedges = np.array(input_json["xedges"]).astype("float")
+            yedges = np.array(input_json["yedges"]).astype("float")
+            min_slope = float(input_json["min_slope"])
+            max_slope = float(input_json["max_slope"])
+            min_intercept = float(input_json["min_intercept"])
+            max_intercept = float(input_json["max_intercept"])
 
         else:
             raise ValueError(
                 "Unknown filetype %s, it has to be npy or json" % filetype
             )
+
+        # Only update once everything is read
+        self.hough_points = hough_points
+        self.hist = hist
+        self.xedges = xedges
+        self.yedges = yedges
+        self.min_slope = min_slope
+        self.max_slope = max_slope
+        self.min_intercept = min_intercept
+        self.max_intercept = max_intercept
+
+        self._rank_hough_lines()
-- 
2.43.0


From 4f02ec253a7cf6a060721b7350dfa86ceea48b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 10/50] fix: num_pix sets the pixel list

num_pix was ignored by everything that uses the pixel list, because the
list made by the constructor (from the spectrum or the peaks) was kept.
---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 71e769d..d7a269c 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -936,7 +936,7 @@ class Calibrator:
         if pixel_list is not None:
             self.pixel_list = np.asarray(pixel_list)
 
-        elif self.pixel_list is None:
+        elif (self.pixel_list is None) or (num_pix is not None):
             self.pixel_list = np.arange(self.num_pix)
 
         else:
-- 
2.43.0


From 4cef78f4dd171e303942338251a0cbef48147699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 11/50] fix: update the search limits when the pixel list
 changes

The limits of the slope were those of the pixel list at the time of the
last call of set_hough_properties().
---
 src/rascal/calibrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index d7a269c..e7d7b03 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -984,6 +984,10 @@ class Calibrator:
                 "use_plotly() to manually select the library."
             )
 
+        # the limits of the slope and the pairs depend on the pixel list
+        if self.min_wavelength is not None:
+            self.set_hough_properties()
+
     def set_hough_properties(
         self,
         num_slopes=None,
-- 
2.43.0


From ff5e32ed7371e9d47dc2dc475960c3f418308973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 12/50] fix: limits of the slope follow the documented range

The range tolerance was counted from min_intercept, which already includes
it, so the window was shifted: dispersions allowed by the tolerance of
min/max_wavelength fell below min_slope.
---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index e7d7b03..dd19152 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1103,7 +1103,7 @@ class Calibrator:
                 - self.linearity_tolerance
             )
             - (
-                self.min_intercept
+                self.min_wavelength
                 + self.range_tolerance
                 + self.linearity_tolerance
             )
@@ -1116,7 +1116,7 @@ class Calibrator:
                 + self.linearity_tolerance
             )
             - (
-                self.min_intercept
+                self.min_wavelength
                 - self.range_tolerance
                 - self.linearity_tolerance
             )
-- 
2.43.0


From 5d255b491db185392b33ee1f3f3dc2d17382888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 13/50] fix: brute force fit picks the sampled pairs

x[[sample]] with a tuple gives a 2D array, so polyfit() raised a TypeError
in every fit(brute_force=True).
---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index dd19152..6cf6a52 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -533,8 +533,8 @@ class Calibrator:
                 stop_n_candidateow = False
 
                 if brute_force:
-                    x_hat = x[[sample]]
-                    y_hat = y[[sample]]
+                    x_hat = x[list(sample)]
+                    y_hat = y[list(sample)]
 
                 else:
                     # Pick some random peaks
-- 
2.43.0


From 7630e512069b5507765d0545d14acbeaa7bfc149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 14/50] fix: fit always terminates

A sample that was rejected (e.g. intercept out of bounds) was redrawn for
ever when none of the samples is acceptable, and the same combination was
evaluated for ever with brute_force=True.
---
 src/rascal/calibrator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 6cf6a52..c9b8166 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -525,11 +525,17 @@ class Calibrator:
             prob = 1.0 / h[0][np.digitize(peaks, h[1], right=True) - 1]
             prob = prob / np.sum(prob)
 
+        # A rejected sample is redrawn, but there may not be an acceptable one.
+        # A brute force sample does not change, so it is only tried once.
+        max_redraws = 1 if brute_force else 1000
+
         for sample in sampler_list:
             keep_trying = True
+            n_redraws = 0
             self.logger.debug(sample)
 
-            while keep_trying:
+            while keep_trying and n_redraws < max_redraws:
+                n_redraws += 1
                 stop_n_candidateow = False
 
                 if brute_force:
-- 
2.43.0


From 157804168f8608675a6b66daf66e7f60c31060b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 15/50] fix: sample_size larger than the number of candidate
 peaks

The number of trials was the number of combinations of the candidates, which
ignores max_tries, and is zero if there are fewer than sample_size of them.
---
 src/rascal/calibrator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index c9b8166..7854e3a 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -471,13 +471,13 @@ class Calibrator:
         if len(np.unique(x)) <= self.fit_deg:
             return (best_p, best_err, sum(best_mask), 0, False)
 
-        # Brute force check all combinations. If the request sample_size is
-        # the same or larger than the available lines, it is essentially a
-        # brute force.
-        if brute_force or (self.sample_size >= len(np.unique(x))):
+        # Cannot draw more peaks than those available
+        self.sample_size = min(self.sample_size, len(np.unique(x)))
+
+        # Brute force check all combinations.
+        if brute_force:
             idx = range(len(x))
             sampler = itertools.combinations(idx, self.sample_size)
-            self.sample_size = len(np.unique(x))
 
         else:
             sampler = range(int(max_tries))
-- 
2.43.0


From 4ec722522dc1ad325ae61dad9073b4cf37a44ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 16/50] fix: sampling probability of the peaks

np.histogram() includes the left edge of the bins while np.digitize(right=True)
excludes it, so a peak on a bin edge took the density of the neighbouring
bin, and the probability is not a number if that bin is empty.
---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 7854e3a..32b320e 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -522,7 +522,7 @@ class Calibrator:
             # weight the probability of choosing the sample by the inverse
             # line density
             h = np.histogram(peaks, bins=10)
-            prob = 1.0 / h[0][np.digitize(peaks, h[1], right=True) - 1]
+            prob = 1.0 / h[0][np.digitize(peaks, h[1][1:-1])]
             prob = prob / np.sum(prob)
 
         # A rejected sample is redrawn, but there may not be an acceptable one.
-- 
2.43.0


From 97d7d9fbbb0ae67a452ecceeec50f750c63a2541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 17/50] fix: pick the most common wavelengths of each peak

aggregated_count is in the order of the unique wavelengths, but it was used
to index the list of all the matched wavelengths.
---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 32b320e..0d6ff21 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -214,7 +214,7 @@ class Calibrator:
 
                 out_peaks.extend([peak] * n)
                 out_wavelengths.extend(
-                    wavelengths_matched[np.argsort(-aggregated_count)[:n]]
+                    unique_wavelengths[np.argsort(-aggregated_count)[:n]]
                 )
 
         return out_peaks, out_wavelengths
-- 
2.43.0


From 34559f8ec36659397b73bd81b35765e6c1f04e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 18/50] fix: weigh the fit at the right place of the Hough
 space

The first axis of the histogram is the gradient and the second one is the
intercept, they were swapped when the weights were evaluated. The spline can
also be negative next to a dense bin, which gave a negative cost that no good
solution could outperform.
---
 src/rascal/calibrator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 0d6ff21..9f3faa9 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -628,8 +628,13 @@ class Calibrator:
 
                 # modified cost function weighted by the Hough space density
                 if (self.hough_weight is not None) & (twoditp is not None):
+                    # the density cannot be negative, but the spline can be
                     weight = self.hough_weight * np.sum(
-                        twoditp(intercept, gradient, grid=False)
+                        np.clip(
+                            twoditp(gradient, intercept, grid=False),
+                            0.0,
+                            None,
+                        )
                     )
 
                 else:
-- 
2.43.0


From ace4d496014101392f9a8eb4730987e00221dcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 19/50] fix: gradient of the Legendre and Chebyshev solutions

The derivative of the power series was used with all the types of polynomial.
---
 src/rascal/calibrator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 9f3faa9..92c6436 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -8,7 +8,6 @@ from scipy.optimize import minimize
 from scipy import interpolate
 from tqdm.autonotebook import tqdm
 
-from .util import _derivative
 from .util import gauss
 
 from . import plotting
@@ -622,7 +621,7 @@ class Calibrator:
                 # use the Hough space density as weights for the cost function
                 wave = self.polyval(self.pixel_list, fit_coeffs)
                 gradient = self.polyval(
-                    self.pixel_list, _derivative(fit_coeffs)
+                    self.pixel_list, self.polyder(fit_coeffs)
                 )
                 intercept = wave - gradient * self.pixel_list
 
@@ -1645,14 +1644,17 @@ class Calibrator:
         if self.fit_type == "poly":
             self.polyfit = np.polynomial.polynomial.polyfit
             self.polyval = np.polynomial.polynomial.polyval
+            self.polyder = np.polynomial.polynomial.polyder
 
         elif self.fit_type == "legendre":
             self.polyfit = np.polynomial.legendre.legfit
             self.polyval = np.polynomial.legendre.legval
+            self.polyder = np.polynomial.legendre.legder
 
         elif self.fit_type == "chebyshev":
             self.polyfit = np.polynomial.chebyshev.chebfit
             self.polyval = np.polynomial.chebyshev.chebval
+            self.polyder = np.polynomial.chebyshev.chebder
 
         else:
             raise ValueError(
-- 
2.43.0


From 5b1fb75760e56e85d3baecbe462d5cb00d83c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 20/50] fix: return the given fit_coeff if no fits outperform
 it

fit(fit_coeff=...) failed with "Couldn't fit" unless it was outperformed, and
it was compared with the cost of the samples that was computed differently.
---
 src/rascal/calibrator.py | 91 +++++++++++++++++++++++++++-------------
 1 file changed, 61 insertions(+), 30 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 92c6436..b8ceee6 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -381,6 +381,47 @@ class Calibrator:
 
         return err, matched_x, matched_y
 
+    def _get_cost(self, err, fit_coeff, twoditp):
+        """
+        Cost of a solution.
+
+        Parameters
+        ----------
+        err: numpy.ndarray
+            Errors of the matches.
+        fit_coeff: list
+            Polynomial coefficients.
+        twoditp: scipy.interpolate.RectBivariateSpline or None
+            Interpolation of the Hough space.
+
+        Returns
+        -------
+        cost: float
+            The smaller the better.
+
+        """
+
+        # use the Hough space density as weights for the cost function
+        wave = self.polyval(self.pixel_list, fit_coeff)
+        gradient = self.polyval(self.pixel_list, self.polyder(fit_coeff))
+        intercept = wave - gradient * self.pixel_list
+
+        # modified cost function weighted by the Hough space density
+        if (self.hough_weight is not None) & (twoditp is not None):
+            # the density cannot be negative, but the spline can be
+            weight = self.hough_weight * np.sum(
+                np.clip(
+                    twoditp(gradient, intercept, grid=False),
+                    0.0,
+                    None,
+                )
+            )
+
+        else:
+            weight = 1.0
+
+        return sum(err) / (len(err) - len(fit_coeff) + 1) / (weight + 1e-9)
+
     def _solve_candidate_ransac(
         self,
         fit_deg,
@@ -510,11 +551,26 @@ class Calibrator:
         else:
             twoditp = None
 
-        # Calculate initial error given pre-existing fit
+        # The pre-existing fit is the solution to be outperformed
         if fit_coeff is not None:
-            err, _, _ = self._match_bijective(candidates, peaks, fit_coeff)
-            best_cost = sum(err)
-            best_err = np.sqrt(np.mean(err**2.0))
+            err, matched_x, matched_y = self._match_bijective(
+                candidates, peaks, fit_coeff
+            )
+            mask = err < self.ransac_tolerance
+            err[err > self.ransac_tolerance] = self.ransac_tolerance
+
+            if len(err) >= len(fit_coeff):
+                best_cost = self._get_cost(err, fit_coeff, twoditp)
+
+            best_p = np.array(fit_coeff)
+            best_inliers = sum(mask)
+            best_residual = self.polyval(matched_x, fit_coeff) - matched_y
+            best_residual = best_residual[mask]
+            self.matched_peaks = list(matched_x[mask])
+            self.matched_atlas = list(matched_y[mask])
+
+            if best_inliers > 0:
+                best_err = np.sqrt(np.mean(best_residual**2))
 
         # The histogram is fixed, so pre-computed outside the loop
         if not brute_force:
@@ -618,32 +674,7 @@ class Calibrator:
                 # M-SAC Estimator (Torr and Zisserman, 1996)
                 err[err > self.ransac_tolerance] = self.ransac_tolerance
 
-                # use the Hough space density as weights for the cost function
-                wave = self.polyval(self.pixel_list, fit_coeffs)
-                gradient = self.polyval(
-                    self.pixel_list, self.polyder(fit_coeffs)
-                )
-                intercept = wave - gradient * self.pixel_list
-
-                # modified cost function weighted by the Hough space density
-                if (self.hough_weight is not None) & (twoditp is not None):
-                    # the density cannot be negative, but the spline can be
-                    weight = self.hough_weight * np.sum(
-                        np.clip(
-                            twoditp(gradient, intercept, grid=False),
-                            0.0,
-                            None,
-                        )
-                    )
-
-                else:
-                    weight = 1.0
-
-                cost = (
-                    sum(err)
-                    / (len(err) - len(fit_coeffs) + 1)
-                    / (weight + 1e-9)
-                )
+                cost = self._get_cost(err, fit_coeffs, twoditp)
 
                 # If this is potentially a new best fit, then handle that first
                 if cost <= best_cost:
-- 
2.43.0


From db4e4b05f03fc238292a029904f6053c07684b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 21/50] fix: do not keep the matches of the former fit

A fit that does not find any solution left the matched peaks and lines of the
former fit.
---
 src/rascal/calibrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index b8ceee6..da811fe 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -483,6 +483,10 @@ class Calibrator:
 
         self.fit_deg = fit_deg
 
+        # Forget the matches of the former fit
+        self.matched_peaks = []
+        self.matched_atlas = []
+
         valid_solution = False
         best_p = None
         best_cost = 1e50
-- 
2.43.0


From 7c08275d8f8e70ae7a4058a9431d0bf8edbd73dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 22/50] fix: insert the pixel-wavelength pair in the order of
 the pixel

add_pix_wave_pair() raised a TypeError after fit(), an IndexError if pix is the
smallest, and otherwise it was always inserted at the beginning.
---
 src/rascal/calibrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index da811fe..61959f7 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -2058,7 +2058,8 @@ class Calibrator:
 
         """
 
-        arg = np.argwhere(pix > self.matched_peaks)[0]
+        # Keep the order of the peaks
+        arg = np.searchsorted(self.matched_peaks, pix)
 
         # Only update the lists if both can be inserted
         matched_peaks = np.insert(self.matched_peaks, arg, pix)
-- 
2.43.0


From 9471577ccd1406bf7b3a1ac7033da498cdcd2374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:40 +0000
Subject: [PATCH 23/50] fix: one-to-one matches in match_peaks

The permutations raised a TypeError as soon as a peak had more than one atlas
line within the tolerance, and the same line could be matched to two peaks.
Use the same bijective matching as the RANSAC step. The current solution is
used and returned if robust_refit is False, which raised an UnboundLocalError,
and the refined solution is used if it is an improvement.
---
 src/rascal/calibrator.py | 97 ++++++++++------------------------------
 1 file changed, 24 insertions(+), 73 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 61959f7..e9931b8 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1856,6 +1856,7 @@ class Calibrator:
             fit_deg = len(fit_coeff) - 1
 
         if refine:
+            fit_coeff = np.asarray(fit_coeff, dtype="float")
             fit_coeff_new = fit_coeff.copy()
 
             if n_delta is None:
@@ -1881,90 +1882,40 @@ class Calibrator:
                 )
                 return fit_coeff, None, None, None, None, None, None
 
+            # Only use the refined solution if it is an improvement
+            no_delta = np.zeros(int(n_delta))
+
+            if self._adjust_polyfit(
+                fitted_delta, fit_coeff, tolerance, min_frac
+            ) < self._adjust_polyfit(
+                no_delta, fit_coeff, tolerance, min_frac
+            ):
+                fit_coeff = fit_coeff_new
+
         matched_peaks = []
-        matched_atlas = []
-        residuals = []
+        candidates = {}
 
-        atlas_lines = self.atlas.get_lines()
+        atlas_lines = np.asarray(self.atlas.get_lines())
 
         # Find all Atlas peaks within tolerance
         for p in self.peaks:
             x = self.polyval(p, fit_coeff)
-            diff = atlas_lines - x
-            diff_abs = np.abs(diff) < tolerance
+            diff_abs = np.abs(atlas_lines - x) < tolerance
 
             if diff_abs.any():
                 matched_peaks.append(p)
-                matched_atlas.append(list(np.asarray(atlas_lines)[diff_abs]))
-                residuals.append(diff_abs)
-
-        # Create permutations:
-        candidates = [[]]
-
-        # match is a list
-        for match in matched_atlas:
-            if len(match) == 0:
-                continue
-
-            self.logger.info("matched: {}".format(match))
-
-            new_candidates = []
-            # i is an int
-            # candidates is a list of list
-
-            for i in range(len(candidates)):
-                # c is a list
-                c = candidates[i]
-
-                if len(match) == 1:
-                    c.extend(match)
-
-                else:
-                    # rep is a list of tuple
-                    rep = ~np.in1d(match, c)
-
-                    if rep.any():
-                        for j in np.argwhere(rep):
-                            new_c = c + [match[j]]
-                            new_candidates.append(new_c)
+                candidates[p] = atlas_lines[diff_abs]
 
-                # Only add if new_candidates is not an empty list
-                if new_candidates != []:
-                    if candidates[0] == []:
-                        candidates[0] = new_candidates
+        assert len(matched_peaks) > 0, "No lines within tolerance."
 
-                    else:
-                        candidates.append(new_candidates)
-
-        if len(candidates) > 1:
-            self.logger.info(
-                "More than one match solution found, checking permutations."
-            )
-
-        self.matched_peaks = np.array(copy.deepcopy(matched_peaks))
-
-        # Check all candidates
-        best_err = 1e9
-        self.matched_atlas = None
-        self.residuals = None
-
-        for candidate in candidates:
-            matched_atlas = np.array(candidate)
-
-            fit_coeff = self.polyfit(matched_peaks, matched_atlas, fit_deg)
-
-            x = self.polyval(matched_peaks, fit_coeff)
-            residuals = np.abs(matched_atlas - x)
-            err = np.sum(residuals)
-
-            if err < best_err:
-                self.matched_atlas = matched_atlas
-                self.residuals = residuals
-
-                best_err = err
+        # Each peak can only be matched to one line and vice versa
+        _, self.matched_peaks, self.matched_atlas = self._match_bijective(
+            candidates, matched_peaks, fit_coeff
+        )
 
-        assert self.matched_atlas is not None
-        assert self.residuals is not None
+        self.residuals = self.matched_atlas - self.polyval(
+            self.matched_peaks, fit_coeff
+        )
 
         self.rms = np.sqrt(
             np.nansum(self.residuals**2.0) / len(self.residuals)
@@ -2004,7 +1955,7 @@ class Calibrator:
                 )
 
         else:
-            self.fit_coeff = fit_coeff_new
+            self.fit_coeff = fit_coeff
 
         return (
             self.fit_coeff,
-- 
2.43.0


From cc53d1842b6453e594cbcd31f15c78d89236d476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 24/50] fix: positions of the refined peaks

The refined position was wrong if the window is truncated by the left edge or
if the given position is not an integer, the spectrum was normalised in place
so that a peak modified the window of the next one, and the first guess was
not the mean and the standard deviation of the window so that isolated peaks
were lost or refined to wrong positions.
---
 src/rascal/util.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 66227a3..9d8840f 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -487,22 +487,23 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
     length = len(spectrum)
 
     for peak in peaks:
-        y = spectrum[
-            max(0, int(peak) - window_width) : min(
-                int(peak) + window_width, length
-            )
-        ]
-        y /= np.nanmax(y)
+        start = max(0, int(peak) - window_width)
+        y = spectrum[start : min(int(peak) + window_width, length)]
+        y = y / np.nanmax(y)
         x = np.arange(len(y))
 
         mask = np.isfinite(y) & ~np.isnan(y)
         n = np.sum(mask)
 
-        if n == 0:
+        # A Gaussian cannot be fitted with less than 3 points
+        if n < 3:
             continue
 
-        mean = np.sum(x * y) / n
-        sigma = np.sum(y * (x - mean) ** 2) / n
+        total = np.sum(y[mask])
+        mean = np.sum(x[mask] * y[mask]) / total
+        sigma = np.sqrt(
+            np.abs(np.sum(y[mask] * (x[mask] - mean) ** 2) / total)
+        )
 
         try:
             popt, _ = curve_fit(gauss, x[mask], y[mask], p0=[1, mean, sigma])
@@ -514,7 +515,7 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
             if centre > len(spectrum) or centre < 0:
                 continue
 
-            refined_peaks.append(peak - window_width + centre)
+            refined_peaks.append(start + centre)
 
         except RuntimeError:
             continue
-- 
2.43.0


From 1279ae28fef2740113e78a8ef03ea27c3d0d309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 25/50] fix: initial coefficients of robust_polyfit

The given coefficients are in increasing order while the cost function takes
the highest order first, and they were not normalised in the same way as the
data, so a refit of degree 4 or above starting from the current solution did
not converge. Also accept lists, as documented.
---
 src/rascal/models.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index 68aff03..d821ba8 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -1,4 +1,3 @@
-import copy
 import scipy.optimize
 import numpy as np
 
@@ -93,15 +92,16 @@ def robust_polyfit(x, y, degree=3, x0=None):
 
     """
 
-    x_n, y_n = normalise_input(x, y)
+    x = np.asarray(x, dtype="float")
+    y = np.asarray(y, dtype="float")
 
-    p_init = copy.copy(x0)
-    # Need to normalise the fit function too
-    if p_init is not None:
-        for i in range(0, degree):
-            p_init[i] *= x.std() ** i
+    x_n, y_n = normalise_input(x, y)
 
-        p_init /= y.std()
+    # Need to normalise the fit function too, the cost function needs the
+    # highest order first
+    if x0 is not None:
+        p_init = np.array(x0, dtype="float")[::-1]
+        p_init *= x.std() ** np.arange(degree, -1, -1) / y.std()
     else:
         p_init = np.ones(degree + 1)
 
-- 
2.43.0


From 7aeb25a5338e3d879f4bfbbeee1ed48095a850b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 26/50] fix: set_model of the SyntheticSpectrum updates the
 coefficients

get_pixels() used the former coefficients with the constant and the linear
models, or raised an AttributeError if there is none.
---
 src/rascal/synthetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/synthetic.py b/src/rascal/synthetic.py
index 64c159d..4d7442e 100644
--- a/src/rascal/synthetic.py
+++ b/src/rascal/synthetic.py
@@ -23,8 +23,7 @@ class SyntheticSpectrum:
         self.set_wavelength_limit(min_wavelength, max_wavelength)
 
         if coefficients is not None:
-            self.coefficients = coefficients
-            self.set_model(self.coefficients)
+            self.set_model(coefficients)
 
         else:
             self.model = None
@@ -36,6 +35,7 @@ class SyntheticSpectrum:
         """
 
         if isinstance(coefficients, (list, np.ndarray)):
+            self.coefficients = coefficients
             self.degree = len(coefficients) - 1
             self.model = models.polynomial(a=coefficients, degree=self.degree)
 
-- 
2.43.0


From f33a0d4f4bcd6203b03e2e940c0a8d1798d627ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 27/50] fix: plot_fit does not modify the spectrum

With log_spectrum=True the negative values of the spectrum of the calibrator,
or of the array provided, were overwritten.
---
 src/rascal/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 96695d0..ef06ac8 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -742,6 +742,8 @@ def plot_fit(
 
     if spectrum is not None:
         if log_spectrum:
+            # Do not modify the spectrum of the user
+            spectrum = np.array(spectrum, dtype="float")
             spectrum[spectrum < 0] = 1e-100
             spectrum = np.log10(spectrum)
             vline_max = np.nanmax(spectrum) * 2.0
-- 
2.43.0


From b8f277f4d7a47bcb22bdd11882bd2518f4d880eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 28/50] fix: plot the candidate pairs at their pixel and
 wavelength

_merge_candidates() sorted the peak, wavelength and weight of each of the
pairs, so the weight was plotted as the pixel and the pixel as the wavelength.
---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index e9931b8..c65df33 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -151,7 +151,7 @@ class Calibrator:
             for pair in np.array(pairs).T:
                 merged.append(pair)
 
-        return np.sort(np.array(merged))
+        return np.array(merged)
 
     def _get_most_common_candidates(
         self, candidates, top_n_candidate, weighted
-- 
2.43.0


From e66a93daee43fc56e91955be66e9ee9f7a81a225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 29/50] fix: residuals in the matplotlib plot of the fit

The matched atlas lines were compared with the atlas, so they were always 0.
---
 src/rascal/plotting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index ef06ac8..48a3d71 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -800,14 +800,15 @@ def plot_fit(
 
         first_one = True
         for p, x in zip(calibrator.matched_peaks, calibrator.matched_atlas):
-            diff = calibrator.atlas.get_lines() - x
+            diff = np.asarray(calibrator.atlas.get_lines()) - x
             idx = np.argmin(np.abs(diff))
-            all_diff.append(diff[idx])
 
             calibrator.logger.info("Peak at: {} A".format(x))
 
             fitted_peaks.append(p)
-            fitted_diff.append(diff[idx])
+            # the residual of the fit
+            fitted_diff.append(x - calibrator.polyval(p, fit_coeff))
+            all_diff.append(fitted_diff[-1])
             calibrator.logger.info(
                 "- matched to {} A".format(calibrator.atlas.get_lines()[idx])
             )
-- 
2.43.0


From 8d55623657e2dc737b67d17eb9c3f4d94525939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 30/50] fix: swapped axis labels in plot_search_space

---
 src/rascal/plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 48a3d71..1ec14ed 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -440,8 +440,8 @@ def plot_search_space(
             calibrator.max_wavelength + calibrator.range_tolerance,
         )
 
-        plt.xlabel("Wavelength / A")
-        plt.ylabel("Pixel")
+        plt.xlabel("Pixel")
+        plt.ylabel("Wavelength / A")
         plt.legend()
         plt.grid()
         plt.tight_layout()
@@ -625,7 +625,7 @@ def plot_search_space(
         fig.update_layout(
             autosize=True,
             yaxis=dict(
-                title="Pixel",
+                title="Wavelength / A",
                 range=[
                     calibrator.min_wavelength
                     - calibrator.range_tolerance * 1.1,
@@ -635,7 +635,7 @@ def plot_search_space(
                 showgrid=True,
             ),
             xaxis=dict(
-                title="Wavelength / A",
+                title="Pixel",
                 zeroline=False,
                 range=[0.0, calibrator.pixel_list.max()],
                 showgrid=True,
-- 
2.43.0


From 10f9b8f5ff1b7540065bfc52ff8ac6e405af75d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 31/50] fix: candidates of a polynomial guess solution

The peaks were compared with the lines one by one instead of with all of them,
which only works if there are as many peaks as lines.
---
 src/rascal/calibrator.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index c65df33..826420c 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -304,16 +304,19 @@ class Calibrator:
 
         for d in delta:
             # predicted wavelength
-            predicted = self.polyval(self.peaks, self.fit_coeff) + d
-            diff = np.abs(actual - predicted)
-            mask = diff < candidate_tolerance
+            predicted = self.polyval(np.asarray(self.peaks), self.fit_coeff)
+            predicted = predicted + d
 
-            if np.sum(mask) > 0:
+            # compare all the peaks with all the lines
+            diff = np.abs(actual - predicted[:, np.newaxis])
+            i, j = np.where(diff < candidate_tolerance)
+
+            if len(i) > 0:
                 weight = gauss(
-                    actual[mask], 1.0, predicted[mask], self.range_tolerance
+                    actual[j], 1.0, predicted[i], self.range_tolerance
                 )
                 self.candidates.append(
-                    [self.peaks[mask], actual[mask], weight]
+                    [np.asarray(self.peaks)[i], actual[j], weight]
                 )
 
     def _match_bijective(self, candidates, peaks, fit_coeff):
-- 
2.43.0


From f372fde11c5351f69dd74a095d5e341137701ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 32/50] fix: plot_arc without a spectrum or with a list

Calibrator takes an optional list, but plot_arc() raised a TypeError or an
AttributeError unless it is an array.
---
 src/rascal/plotting.py | 61 +++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 33 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 1ec14ed..26bb656 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1206,19 +1206,27 @@ def plot_arc(
 
     """
 
-    if pixel_list is None:
-        pixel_list = np.arange(len(calibrator.spectrum))
+    if calibrator.spectrum is not None:
+        spectrum = np.asarray(calibrator.spectrum)
+        num_pix = len(spectrum)
+
+        if pixel_list is None:
+            pixel_list = np.arange(num_pix)
+
+    else:
+        spectrum = None
+        num_pix = max(calibrator.peaks)
 
     if calibrator.plot_with_matplotlib:
         _import_matplotlib()
 
         fig = plt.figure(figsize=(18, 5))
 
-        if calibrator.spectrum is not None:
+        if spectrum is not None:
             if log_spectrum:
                 plt.plot(
                     pixel_list,
-                    np.log10(calibrator.spectrum / calibrator.spectrum.max()),
+                    np.log10(spectrum / spectrum.max()),
                     label="Arc Spectrum",
                 )
                 plt.vlines(
@@ -1229,7 +1237,7 @@ def plot_arc(
             else:
                 plt.plot(
                     pixel_list,
-                    calibrator.spectrum / calibrator.spectrum.max(),
+                    spectrum / spectrum.max(),
                     label="Arc Spectrum",
                 )
                 plt.ylabel("Normalised Count")
@@ -1240,12 +1248,12 @@ def plot_arc(
                     label="Detected Peaks",
                     color="C1",
                 )
-            plt.title("Number of pixels: " + str(calibrator.spectrum.shape[0]))
-            plt.xlim(0, calibrator.spectrum.shape[0])
+            plt.title("Number of pixels: " + str(num_pix))
+            plt.xlim(0, num_pix)
             plt.legend()
 
         else:
-            plt.xlim(0, max(calibrator.peaks))
+            plt.xlim(0, num_pix)
 
         plt.xlabel("Pixel (Spectral Direction)")
         plt.grid()
@@ -1274,39 +1282,26 @@ def plot_arc(
 
         fig = go.Figure()
 
-        if log_spectrum:
-            # Plot all-pairs
+        if spectrum is not None:
+            spectrum = spectrum / spectrum.max()
+
+            if log_spectrum:
+                spectrum = np.log10(spectrum)
+
             fig.add_trace(
                 go.Scatter(
                     x=list(pixel_list),
-                    y=list(
-                        np.log10(
-                            calibrator.spectrum / calibrator.spectrum.max()
-                        )
-                    ),
+                    y=list(spectrum),
                     mode="lines",
                     name="Arc",
                 )
             )
-            xmin = min(
-                np.log10(calibrator.spectrum / calibrator.spectrum.max())
-            )
-            xmax = max(
-                np.log10(calibrator.spectrum / calibrator.spectrum.max())
-            )
+            xmin = min(spectrum)
+            xmax = max(spectrum)
 
         else:
-            # Plot all-pairs
-            fig.add_trace(
-                go.Scatter(
-                    x=list(pixel_list),
-                    y=list(calibrator.spectrum / calibrator.spectrum.max()),
-                    mode="lines",
-                    name="Arc",
-                )
-            )
-            xmin = min(calibrator.spectrum / calibrator.spectrum.max())
-            xmax = max(calibrator.spectrum / calibrator.spectrum.max())
+            xmin = 0.0
+            xmax = 1.05
 
         # Add vlines
         for i in calibrator.peaks:
@@ -1331,7 +1326,7 @@ def plot_arc(
             xaxis=dict(
                 title="Pixel",
                 zeroline=False,
-                range=[0.0, len(calibrator.spectrum)],
+                range=[0.0, num_pix],
                 showgrid=True,
             ),
             hovermode="closest",
-- 
2.43.0


From 4f06a165fe32a538d6bb04dde5a8bb9342dd963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 33/50] fix: plot_calibration_lines with several lines in a bin
 or no lines

It raised a ValueError if two lines fall in the same bin of the simulated
spectrum or if an element does not have any lines, and the chemical symbols
were case sensitive.
---
 src/rascal/plotting.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 26bb656..0dc92cc 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -130,6 +130,9 @@ def plot_calibration_lines(
 
     _import_matplotlib()
 
+    if isinstance(elements, str):
+        elements = [elements]
+
     # the min_intensity and min_distance are set to 0.0 because the
     # simulated spectrum would contain them. These arguments only
     # affect the labelling.
@@ -160,12 +163,10 @@ def plot_calibration_lines(
     ).astype("float64")
     i = np.zeros_like(w)
 
-    for e in elements:
-        i[
-            np.isin(
-                w, np.around(wavelength_list[element_list == e], decimals=3)
-            )
-        ] += intensity_list[element_list == e]
+    # Lines can share the same bin
+    idx = np.rint((wavelength_list - w[0]) / 0.001).astype("int")
+    np.add.at(i, np.clip(idx, 0, len(w) - 1), intensity_list)
+
     # Convolve to simulate the arc spectrum
     model_spectrum = signal.convolve(i, gaussian, mode="same")
 
@@ -189,7 +190,12 @@ def plot_calibration_lines(
     fig = plt.figure(**fig_kwarg)
 
     for j, e in enumerate(elements):
-        e_mask = element_list == e
+        e_mask = np.char.lower(element_list) == e.lower()
+
+        # Nothing to be plotted
+        if not e_mask.any():
+            continue
+
         markerline, stemline, _ = plt.stem(
             wavelength_list[e_mask],
             intensity_list[e_mask],
-- 
2.43.0


From 35d72b55ad8c8d190e16871bf903b4799d57fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 34/50] fix: saturation vapour pressure takes the temperature
 in Kelvin

The equation of the vapour pressure was evaluated with the temperature in
Celcius, which gave 110 Pa instead of 2339 Pa at 20 degree Celcius.
---
 src/rascal/util.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 9d8840f..86e12a9 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -8,7 +8,17 @@ import pkg_resources
 def get_vapour_pressure(temperature):
     """
     Appendix A.I of https://emtoolbox.nist.gov/Wavelength/Documentation.asp
+
+    Parameters
+    ----------
+    temperature: float
+        In unit of Celcius
+
     """
+
+    # The equation takes the temperature in Kelvin
+    temperature = temperature + 273.15
+
     K1 = 1.16705214528e03
     K2 = -7.24213167032e05
     K3 = -1.70738469401e01
-- 
2.43.0


From c0f1b28bd4aa00b7cc55b067254f41fa7a0023a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 35/50] fix: match_peaks(), manual_refit() and plot_fit() with
 given coefficients raised AttributeError before fit()

---
 src/rascal/calibrator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 826420c..7f7af03 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -73,6 +73,12 @@ class Calibrator:
         self.minimum_peak_utilisation = None
         self.minimum_fit_error = None
 
+        # the family of the polynomials, fit() can choose another one
+        self.fit_type = "poly"
+        self.polyfit = np.polynomial.polynomial.polyfit
+        self.polyval = np.polynomial.polynomial.polyval
+        self.polyder = np.polynomial.polynomial.polyder
+
         # results
         self.matched_peaks = []
         self.matched_atlas = []
-- 
2.43.0


From d0e2298be2f8e7271d6a28214b2d9226085c274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 36/50] fix: match_peaks with fewer matches than coefficients
 keeps the solution

---
 src/rascal/calibrator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 7f7af03..2b9bc6c 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1933,6 +1933,12 @@ class Calibrator:
         self.peak_utilisation = len(self.matched_peaks) / len(self.peaks)
         self.atlas_utilisation = len(self.matched_atlas) / len(self.atlas)
 
+        if robust_refit and len(self.matched_peaks) <= fit_deg:
+            self.logger.warning(
+                "Not enough matches to refit. Input solution is returned."
+            )
+            robust_refit = False
+
         if robust_refit:
             self.fit_coeff = models.robust_polyfit(
                 np.asarray(self.matched_peaks),
-- 
2.43.0


From be9827e60189b1e8bb40ed74aa1f586225f1156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 37/50] fix: refined peaks are unique in any order of the peaks

---
 src/rascal/util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 86e12a9..f6cfd11 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -535,8 +535,13 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
 
     # Remove peaks that are within rounding errors from each other from the
     # curve_fit
-    distance_mask = np.isclose(refined_peaks[:-1], refined_peaks[1:])
-    distance_mask = np.insert(distance_mask, 0, False)
+    distance_mask = np.array(
+        [
+            np.isclose(refined_peaks[:i], p).any()
+            for i, p in enumerate(refined_peaks)
+        ],
+        dtype=bool,
+    )
 
     return refined_peaks[mask & ~distance_mask]
 
-- 
2.43.0


From 21786fd956e34abdbf8185d7247e6f27d578cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:15 +0000
Subject: [PATCH 38/50] fix: pixel list and known pairs followed later changes
 of the given arrays

---
 src/rascal/calibrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 2b9bc6c..ed64dfb 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -988,7 +988,7 @@ class Calibrator:
 
         # set the pixel_list
         if pixel_list is not None:
-            self.pixel_list = np.asarray(pixel_list)
+            self.pixel_list = np.array(pixel_list)
 
         elif (self.pixel_list is None) or (num_pix is not None):
             self.pixel_list = np.arange(self.num_pix)
@@ -1595,8 +1595,8 @@ class Calibrator:
 
         """
 
-        pix = np.asarray(pix, dtype="float").reshape(-1)
-        wave = np.asarray(wave, dtype="float").reshape(-1)
+        pix = np.array(pix, dtype="float").reshape(-1)
+        wave = np.array(wave, dtype="float").reshape(-1)
 
         assert pix.size == wave.size, ValueError(
             "Please check the length of the input arrays. pix has size {} "
-- 
2.43.0


From c5811258cdbde72cdd64e80ac027c90242a5f018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 39/50] fix: plot_arc cut off the pixels beyond the length of
 the spectrum

---
 src/rascal/plotting.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 0dc92cc..fcfbfd1 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1219,9 +1219,13 @@ def plot_arc(
         if pixel_list is None:
             pixel_list = np.arange(num_pix)
 
+        # The pixels can go beyond the length of the spectrum
+        pix_max = max(num_pix, np.max(pixel_list))
+
     else:
         spectrum = None
         num_pix = max(calibrator.peaks)
+        pix_max = num_pix
 
     if calibrator.plot_with_matplotlib:
         _import_matplotlib()
@@ -1255,11 +1259,11 @@ def plot_arc(
                     color="C1",
                 )
             plt.title("Number of pixels: " + str(num_pix))
-            plt.xlim(0, num_pix)
+            plt.xlim(0, pix_max)
             plt.legend()
 
         else:
-            plt.xlim(0, num_pix)
+            plt.xlim(0, pix_max)
 
         plt.xlabel("Pixel (Spectral Direction)")
         plt.grid()
@@ -1332,7 +1336,7 @@ def plot_arc(
             xaxis=dict(
                 title="Pixel",
                 zeroline=False,
-                range=[0.0, num_pix],
+                range=[0.0, pix_max],
                 showgrid=True,
             ),
             hovermode="closest",
-- 
2.43.0


From e4a4a52ce999260ba29773abcf026db7c239d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 40/50] fix: plot_arc in logarithm with plotly drew the peaks
 outside the axes

---
 src/rascal/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index fcfbfd1..e69f7ae 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1320,7 +1320,7 @@ def plot_arc(
                 xref="x",
                 yref="y",
                 x0=i,
-                y0=0,
+                y0=min(0, xmin),
                 x1=i,
                 y1=1.05,
                 line=dict(
-- 
2.43.0


From 5ccb775472739f839d6c4fdc2073ba4bded46242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 41/50] fix: plot_fit with plotly took the logarithm of the
 spectrum twice

---
 src/rascal/plotting.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index e69f7ae..d1190f1 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -1075,29 +1075,15 @@ def plot_fit(
 
         # Layout, Title, Grid config
         if spectrum is not None:
-            if log_spectrum:
-                fig.update_layout(
-                    yaxis3=dict(
-                        title="Electron Count / e-",
-                        range=[
-                            np.log10(np.percentile(spectrum, 15)),
-                            np.log10(spec_max),
-                        ],
-                        domain=[0.67, 1.0],
-                        showgrid=True,
-                        type="log",
-                    )
-                )
-
-            else:
-                fig.update_layout(
-                    yaxis3=dict(
-                        title="Electron Count / e-",
-                        range=[np.percentile(spectrum, 15), spec_max],
-                        domain=[0.67, 1.0],
-                        showgrid=True,
-                    )
+            # the logarithm of the spectrum is taken already
+            fig.update_layout(
+                yaxis3=dict(
+                    title="Electron Count / e-",
+                    range=[np.percentile(spectrum, 15), spec_max],
+                    domain=[0.67, 1.0],
+                    showgrid=True,
                 )
+            )
 
         fig.update_layout(
             autosize=True,
-- 
2.43.0


From 48a9deb551c4440b81b8e7e7681a977f3f5a1e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 42/50] fix: fit() changed the sample size and the minimum
 matches for the next fits

---
 src/rascal/calibrator.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index ed64dfb..9b2d860 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -437,6 +437,8 @@ class Calibrator:
         fit_coeff,
         max_tries,
         candidate_tolerance,
+        sample_size,
+        minimum_matches,
         brute_force,
         progress,
     ):
@@ -456,6 +458,10 @@ class Calibrator:
             during candidate peak/line selection. This should be reasonable
             small as we want to search for candidate points which are
             *locally* linear.
+        sample_size: int
+            Number of peaks drawn in a trial.
+        minimum_matches: int
+            Number of matches needed by a solution.
         brute_force: boolean
             Solve all pixel-wavelength combinations with set to True.
         progress: boolean
@@ -525,12 +531,12 @@ class Calibrator:
             return (best_p, best_err, sum(best_mask), 0, False)
 
         # Cannot draw more peaks than those available
-        self.sample_size = min(self.sample_size, len(np.unique(x)))
+        sample_size = min(sample_size, len(np.unique(x)))
 
         # Brute force check all combinations.
         if brute_force:
             idx = range(len(x))
-            sampler = itertools.combinations(idx, self.sample_size)
+            sampler = itertools.combinations(idx, sample_size)
 
         else:
             sampler = range(int(max_tries))
@@ -613,7 +619,7 @@ class Calibrator:
                 else:
                     # Pick some random peaks
                     x_hat = np.random.choice(
-                        peaks, self.sample_size, replace=False, p=prob
+                        peaks, sample_size, replace=False, p=prob
                     )
                     y_hat = []
 
@@ -738,10 +744,10 @@ class Calibrator:
                     # Check that we have enough inliers based on user specified
                     # constraints
 
-                    if n_inliers < self.minimum_matches:
+                    if n_inliers < minimum_matches:
                         self.logger.debug(
                             "Not enough matched peaks for valid solution, "
-                            "user specified {}.".format(self.minimum_matches)
+                            "user specified {}.".format(minimum_matches)
                         )
                         continue
 
@@ -1705,37 +1711,41 @@ class Calibrator:
                 "fit_type must be: (1) poly, (2) legendre or (3) chebyshev"
             )
 
+        # The settings are kept for the next fits
+        sample_size = self.sample_size
+        minimum_matches = self.minimum_matches
+
         # Reduce sample_size if it is larger than the number of atlas available
-        if self.sample_size > len(self.atlas):
+        if sample_size > len(self.atlas):
             self.logger.warning(
                 "Size of sample_size is larger than the size of atlas, "
                 + "the sample_size is set to match the size of atlas = "
                 + str(len(self.atlas))
                 + "."
             )
-            self.sample_size = len(self.atlas)
+            sample_size = len(self.atlas)
 
-        if self.sample_size <= fit_deg:
-            self.sample_size = fit_deg + 1
+        if sample_size <= fit_deg:
+            sample_size = fit_deg + 1
 
         if (self.hough_lines is None) or (self.hough_points is None):
             self.do_hough_transform()
 
-        if self.minimum_matches > len(self.atlas):
+        if minimum_matches > len(self.atlas):
             self.logger.warning(
                 "Requested minimum matches is greater than the atlas size"
                 "setting the minimum number of matches to equal the atlas"
                 "size = " + str(len(self.atlas)) + "."
             )
-            self.minimum_matches = len(self.atlas)
+            minimum_matches = len(self.atlas)
 
-        if self.minimum_matches > len(self.peaks):
+        if minimum_matches > len(self.peaks):
             self.logger.warning(
                 "Requested minimum matches is greater than the number of "
                 "peaks detected, which has a size of "
                 "size = " + str(len(self.peaks)) + "."
             )
-            self.minimum_matches = len(self.peaks)
+            minimum_matches = len(self.peaks)
 
         # TODO also check whether minimum peak utilisation is greater than
         # minimum matches.
@@ -1751,6 +1761,8 @@ class Calibrator:
             fit_coeff=self.fit_coeff,
             max_tries=self.max_tries,
             candidate_tolerance=candidate_tolerance,
+            sample_size=sample_size,
+            minimum_matches=minimum_matches,
             brute_force=self.brute_force,
             progress=self.progress,
         )
-- 
2.43.0


From 3fcf9e35b4f90db7c5091c95bb6647db91efcb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 43/50] fix: a guess of a higher degree than fit_deg was fitted
 with underdetermined samples

---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 9b2d860..405b726 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1725,8 +1725,8 @@ class Calibrator:
             )
             sample_size = len(self.atlas)
 
-        if sample_size <= fit_deg:
-            sample_size = fit_deg + 1
+        if sample_size <= self.fit_deg:
+            sample_size = self.fit_deg + 1
 
         if (self.hough_lines is None) or (self.hough_points is None):
             self.do_hough_transform()
-- 
2.43.0


From cc40cf0db5ee36693e663a36eea43505c4e9a250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:17 +0000
Subject: [PATCH 44/50] fix: limits that are numpy numbers could not be saved
 as json

---
 src/rascal/houghtransform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 46ebd01..c404209 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -277,7 +277,8 @@ class HoughTransform:
 
             if to_disk:
                 with open(filename + ".json", "w+") as f:
-                    json.dump(output_json, f)
+                    # the limits can be numpy numbers
+                    json.dump(output_json, f, default=float)
 
         if not to_disk:
             if ("npy" in fileformat_split) and (
-- 
2.43.0


From 497b66242c56eea93599c6b24ac2cf94b855b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:17 +0000
Subject: [PATCH 45/50] fix: numbers of more than 12 characters in a line list
 were cut off

---
 src/rascal/util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index f6cfd11..c770777 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -372,9 +372,7 @@ def load_calibration_lines(
             )
             lines = np.loadtxt(file_path, delimiter=",", dtype=">U12")
         elif os.path.exists(linelist):
-            lines = np.loadtxt(
-                linelist, delimiter=",", dtype=">U12", ndmin=2
-            )
+            lines = np.loadtxt(linelist, delimiter=",", dtype=str, ndmin=2)
         else:
             raise ValueError(
                 f"Unknown string is provided as linelist: {linelist}."
-- 
2.43.0


From 1c5c14d7019bb35cf39092a5e92454aab73b491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:17 +0000
Subject: [PATCH 46/50] fix: an intensity limit that is a numpy number was
 ignored

---
 src/rascal/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index c770777..6012cbf 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -263,7 +263,7 @@ def filter_intensity(elements, lines, min_intensity=None):
         for i, e in enumerate(elements):
             min_intensity_dict[e.lower()] = 0.0
 
-    elif isinstance(min_intensity, (int, float)):
+    elif isinstance(min_intensity, (int, float, np.number)):
         min_intensity_dict = {}
 
         for i, e in enumerate(elements):
@@ -400,7 +400,7 @@ def load_calibration_lines(
     )
 
     # Filter intensities
-    if isinstance(min_intensity, (float, int, list, np.ndarray)):
+    if min_intensity is not None:
         intensity_mask = filter_intensity(elements, lines, min_intensity)
     else:
         intensity_mask = np.ones_like(lines[:, 0]).astype(bool)
-- 
2.43.0


From b7da9021c4b1563067cbb56dbd76d9034e2bb7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:10 +0000
Subject: [PATCH 47/50] fix: set_model() followed later changes of the list
 that was given

---
 src/rascal/synthetic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/synthetic.py b/src/rascal/synthetic.py
index 4d7442e..d35cfcd 100644
--- a/src/rascal/synthetic.py
+++ b/src/rascal/synthetic.py
@@ -35,6 +35,8 @@ class SyntheticSpectrum:
         """
 
         if isinstance(coefficients, (list, np.ndarray)):
+            # the caller can change the list afterwards
+            coefficients = coefficients.copy()
             self.coefficients = coefficients
             self.degree = len(coefficients) - 1
             self.model = models.polynomial(a=coefficients, degree=self.degree)
-- 
2.43.0


From a3ae1035a58a971da8360c49781a28ed557fdf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 48/50] fix: a Hough weight that is not a finite number stopped
 the fit

---
 src/rascal/calibrator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 405b726..3fb4398 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -567,6 +567,9 @@ class Calibrator:
                     self.ht.hist,
                 )
 
+            else:
+                twoditp = None
+
         else:
             twoditp = None
 
-- 
2.43.0


From 82b8a92f356a55052238f5a6fdb991d6b70b9a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:54 +0000
Subject: [PATCH 49/50] fix: no lines were loaded in air with a lower limit of
 0

---
 src/rascal/util.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 6012cbf..f595603 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -387,12 +387,15 @@ def load_calibration_lines(
 
     # update the wavelength limit
     if not vacuum:
-        min_atlas_wavelength, max_atlas_wavelength = air_to_vacuum_wavelength(
-            (min_atlas_wavelength, max_atlas_wavelength),
-            temperature,
-            pressure,
-            relative_humidity,
-        )
+        # there is no refractive index at 0, which stands for no lower limit
+        min_atlas_wavelength, max_atlas_wavelength = [
+            air_to_vacuum_wavelength(
+                limit, temperature, pressure, relative_humidity
+            )
+            if limit > 0
+            else limit
+            for limit in (min_atlas_wavelength, max_atlas_wavelength)
+        ]
 
     # Filter wavelengths
     lines = filter_wavelengths(
-- 
2.43.0


From 4ee3b32f183a314be1a1990a985da66f7c54e3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 50/50] fix: the robust fit diverged for peaks in a part of the
 detector far from pixel 0

---
 src/rascal/models.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index d821ba8..be7bfc8 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -95,12 +95,15 @@ def robust_polyfit(x, y, degree=3, x0=None):
     x = np.asarray(x, dtype="float")
     y = np.asarray(y, dtype="float")
 
-    x_n, y_n = normalise_input(x, y)
+    # The powers of pixels far from 0 are almost the same, so the pixels are
+    # counted from their mean
+    x_mean = x.mean()
+    x_n, y_n = normalise_input(x - x_mean, y)
 
     # Need to normalise the fit function too, the cost function needs the
     # highest order first
     if x0 is not None:
-        p_init = np.array(x0, dtype="float")[::-1]
+        p_init = _shift(x0, x_mean)[::-1]
         p_init *= x.std() ** np.arange(degree, -1, -1) / y.std()
     else:
         p_init = np.ones(degree + 1)
@@ -120,7 +123,18 @@ def robust_polyfit(x, y, degree=3, x0=None):
     for i in range(0, degree):
         p[i] /= x.std() ** (degree - i)
 
-    return p[::-1]
+    return _shift(p[::-1], -x_mean)
+
+
+def _shift(p, d):
+    """
+    Coefficients of f(x + d), lowest order first.
+    """
+    shifted = np.polynomial.Polynomial(p)(np.polynomial.Polynomial([d, 1.0]))
+    out = np.zeros(len(p))
+    out[: len(shifted.coef)] = shifted.coef
+
+    return out
 
 
 # What is this for?
-- 
2.43.0


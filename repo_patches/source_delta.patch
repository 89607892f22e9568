From 11f1e2137c54122558a3cbe956c4d054f0c9ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:17 +0000
Subject: [PATCH 01/16] fix: calculate_ab returns two scalars when the ellipse
 is degenerate

The conditional expression bound to the second tuple element only, so the
fallback returned (nan, (1e10, 1e10)) and velocity_correlation crashed.
---
 proadv/filtration/detection/poincare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/poincare.py b/proadv/filtration/detection/poincare.py
index 5d1f48f..3240550 100644
--- a/proadv/filtration/detection/poincare.py
+++ b/proadv/filtration/detection/poincare.py
@@ -22,7 +22,7 @@ def calculate_ab(std1, std2, theta, lambda_):
     fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
     fa = (r1 ** 2 * np.cos(theta) ** 2 - r2 ** 2 * np.sin(theta) ** 2) / fact
     fb = (r2 ** 2 * np.cos(theta) ** 2 - r1 ** 2 * np.sin(theta) ** 2) / fact
-    return np.sqrt(fa), np.sqrt(fb) if fa > 0 and fb > 0 else (1e10, 1e10)
+    return (np.sqrt(fa), np.sqrt(fb)) if fa > 0 and fb > 0 else (1e10, 1e10)
 
 
 def calculate_rho(x, y, theta, a, b):
-- 
2.43.0


From 95c5f42fd6d7cd5da5c8780ff6bbd9294e95b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:17 +0000
Subject: [PATCH 02/16] fix: pollution_rate counts every polluted sample once

A sample satisfying both one-sided tests was counted twice, so the rate could
exceed 100 percent.
---
 proadv/filtration/detection/pollution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/pollution.py b/proadv/filtration/detection/pollution.py
index 05fd099..d3ccba8 100644
--- a/proadv/filtration/detection/pollution.py
+++ b/proadv/filtration/detection/pollution.py
@@ -24,7 +24,7 @@ def pollution_rate(x, xfil, k):
     neg = np.nonzero(x < -xfil - k * std(x))
     
     # Concatenate positive and negative noises
-    noises = np.concatenate((pos, neg), axis=None)
+    noises = np.union1d(pos, neg)
     
     # Compute pollution rate
     pollution = len(noises) / len(x) * 100
-- 
2.43.0


From e1d96025067dba749c7b6573a9f39e7596412645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:17 +0000
Subject: [PATCH 03/16] fix: phase-space ellipse axes solve the Goring-Nikora
 equations

The third projection divided the square root by cos^4-sin^4 instead of dividing
under the root, unlike the paper and calculate_ab, which is used now.
---
 proadv/filtration/detection/phasespace.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 87b22d3..28dc716 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -1,5 +1,5 @@
 import numpy as np
-from proadv.filtration.detection.poincare import calculate_rho
+from proadv.filtration.detection.poincare import calculate_ab, calculate_rho
 from proadv.statistics.spread import std
 
 
@@ -71,9 +71,7 @@ def calculate_parameters(c, dc, dc2):
     b1 = lambda_ * std_dc
     a2 = lambda_ * std_dc
     b2 = lambda_ * std_dc2
-    fact = np.cos(theta) ** 4 - np.sin(theta) ** 4
-    a3 = np.sqrt(a1 ** 2 * np.cos(theta) ** 2 - b2 ** 2 * np.sin(theta) ** 2) / fact
-    b3 = np.sqrt(b2 ** 2 * np.cos(theta) ** 2 - a1 ** 2 * np.sin(theta) ** 2) / fact
+    a3, b3 = calculate_ab(std_c, std_dc2, theta, lambda_)
     return std_c, std_dc, std_dc2, lambda_, theta, a1, b1, a2, b2, a3, b3
 
 
-- 
2.43.0


From 267515111f84e1264bfa8151e21540c008100296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:17 +0000
Subject: [PATCH 04/16] fix: phase-space premodification removes the points it
 documents

The removable set intersected two disjoint sets and was always empty. Points
beyond either threshold are now replaced, in a copy of the caller's data, and
the first sample no longer takes its value from the end of the series.
---
 proadv/filtration/detection/phasespace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 28dc716..85273e9 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -151,6 +151,7 @@ def phasespace_thresholding_premodification(data, c1=1.5, c2=1.35):
         >>> phasespace_thresholding_premodification(data)
     """
 
+    data = np.array(data, dtype=float)  # work on a copy, the caller's data stays as it is
     data_size = data.size
     theta = np.median(np.absolute(data - np.median(data)))
 
@@ -161,11 +162,11 @@ def phasespace_thresholding_premodification(data, c1=1.5, c2=1.35):
     removable_threshold = c2 * theta * np.sqrt(2 * np.log(data_size))
 
     # Calculate indices of removable data
-    removable_indices = np.intersect1d(np.nonzero(data > removable_threshold)[0],
-                                       np.nonzero(data < -removable_threshold)[0])
+    removable_indices = np.union1d(np.nonzero(data > removable_threshold)[0],
+                                   np.nonzero(data < -removable_threshold)[0])
 
     # Replace removable data points with the preceding data point
     for i in removable_indices:
-        data[i] = data[i - 1]
+        data[i] = data[i - 1] if i > 0 else np.median(data)
 
     return data, unremovable_indices
-- 
2.43.0


From ec6df89e4e0aa02c2821f45399d2c1c0d4d3d1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:16 +0000
Subject: [PATCH 05/16] fix: last_valid_data does not take the last sample as
 predecessor of the first

A spike at index 0 was replaced with velocities[-1]. The first sample has no
preceding one; like the other replacement methods, use the mean.
---
 proadv/filtration/replacement/replacements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 8cb089f..2693d8f 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -26,6 +26,10 @@ def last_valid_data(velocities, spike_indices):
 
     # Replace values at spikes indices with the last valid value
     for idx in spike_indices:
+        if idx == 0:
+            # No sample precedes the first one, use the mean value instead
+            modified_data[idx] = mean(velocities)
+            continue
         modified_data[idx] = modified_data[idx - 1]
 
     return modified_data
-- 
2.43.0


From 308e3f40d2aa7f841cddd0c57f59037e423c3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:16 +0000
Subject: [PATCH 06/16] fix: kalman_filter replacement returns the modified
 data

The filter yields a list of 1x1 matrices, indexing it with the spike indices
raised TypeError, and the function had no return statement.
---
 proadv/filtration/replacement/replacements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 2693d8f..e18a19f 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -363,9 +363,11 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
 
     # Use kalman_filter function
     filtered_data = kl(modified_data, initial_state, initial_covariance, process_noise, measurement_noise)
+    filtered_data = np.array(filtered_data).reshape(-1)
 
     # Replace values at spikes indices with the kalman_filter values
     modified_data[spike_indices] = filtered_data[spike_indices]
+    return modified_data
 
 
 def _create_model(velocities, velocities_indices, spike_indices, degree):
-- 
2.43.0


From d5e80bff69abc9ffd94eabd02dd941902514356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:16 +0000
Subject: [PATCH 07/16] fix: weighted_moving_average replacement uses the
 average of the spike itself

The weighted moving average starts at sample `period`, so its k-th entry was
written to the wrong sample, and the last `period` samples raised IndexError.
Samples without a full period before them take the mean.
---
 proadv/filtration/replacement/replacements.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index e18a19f..ce23160 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -301,6 +301,8 @@ def weighted_moving_average(velocities, spike_indices, period=20):
 
     # Use weighted_moving_average function
     wma = wm(modified_data, period)
+    # The first average belongs to the sample that follows the first period
+    wma = np.concatenate((np.full(period, mean(velocities)), wma))
 
     # Replace values at spikes indices with the weighted_moving_average values
     modified_data[spike_indices] = wma[spike_indices]
-- 
2.43.0


From eeab2eb20d46353904e02d91825866b752224661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:16 +0000
Subject: [PATCH 08/16] fix: normal cdf accepts integers and single values

Integer input was truncated to 0 and a 0-d input raised TypeError, which made
skewtest and kurtotest fail for every sample.
---
 proadv/statistics/distributions/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proadv/statistics/distributions/normal.py b/proadv/statistics/distributions/normal.py
index 7af9195..3a69544 100644
--- a/proadv/statistics/distributions/normal.py
+++ b/proadv/statistics/distributions/normal.py
@@ -47,13 +47,13 @@ def cdf(array):
     """
 
     from math import erf, erfc
-    array_cdf = np.copy(array)
+    array_cdf = np.array(array, dtype=float)
     D = array_cdf.shape  # array dimensions
     if array_cdf.size == 0:
         raise ValueError("cannot calculate PDF with empty array.")
     if np.isnan(array_cdf).any():
         raise TypeError('array cannot contain NaN values.')
-    if array_cdf.ndim > 1:
+    if array_cdf.ndim != 1:
         array_cdf = array_cdf.flatten()
     np_sqrt = 1.0 / np.sqrt(2)
     array_ns = array_cdf * np_sqrt
-- 
2.43.0


From 84a6bd1ca97d3a554bec482b765b3bc2a72f3328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:58 +0000
Subject: [PATCH 09/16] fix: polynomial_replacement handles a single spike and
 a spike at sample 10

A single spike raised TypeError (iteration over a 0-d array), a spike at index
10 was passed over or raised IndexError, integer data was truncated, and the
mean put at index 0 was overwritten when samples 1 to 10 held a spike.
---
 proadv/filtration/replacement/replacements.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index ce23160..05f46e5 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -420,17 +420,19 @@ def polynomial_replacement(velocities, spike_indices, window=100, degree=2, deci
     """
 
     # Make a copy of velocities to preserve original data
+    velocities = np.asarray(velocities, dtype=float)
+    spike_indices = np.asarray(spike_indices, dtype=int).ravel()
     modified_data = velocities.copy()
     a = 0
-    for i in spike_indices.squeeze():
+    for i in spike_indices:
         if i == 0:
             # If the first index of the data set is a spike, it will be replaced with the value of the mean of the data.
             modified_data[i] = np.mean(modified_data)
         elif 1 <= i <= 10:
             # Spikes 1 to 10 are replaced using linear interpolation algorithm
             if a == 0:
-                modified_data = linear_interpolation(modified_data,
-                                                     spike_indices[np.where(spike_indices < 10)[0]].squeeze(), decimals)
+                early = np.where((spike_indices >= 1) & (spike_indices <= 10))[0]
+                modified_data = linear_interpolation(modified_data, spike_indices[early], decimals)
                 a += 1  # "a" is to run this algorithm only once.
         elif 11 <= i <= window - 1:
             # Predicting the appropriate spike value for indexes less than window
-- 
2.43.0


From 535cc7bb9ebfc00161e7e3523a8cbe0ecafa2914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:58 +0000
Subject: [PATCH 10/16] fix: linear_interpolation accepts integer data, lists
 and no spikes

An empty index array raised IndexError, lists raised TypeError and integer data
raised ValueError (cannot convert float NaN to integer).
---
 proadv/filtration/replacement/replacements.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 05f46e5..052fc8d 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -124,9 +124,16 @@ def linear_interpolation(velocities, spike_indices, decimals=4):
 
     """
 
+    velocities = np.asarray(velocities, dtype=float)
+    spike_indices = np.asarray(spike_indices, dtype=int)
+
     # Create a copy of the velocity data to avoid modifying the original array
     modified_data = np.copy(velocities)
 
+    # Without spikes there is nothing to interpolate
+    if spike_indices.size == 0:
+        return np.around(modified_data, decimals=decimals)
+
     # Initialize spike values with NaN to facilitate interpolation
     modified_data[spike_indices] = np.nan
 
-- 
2.43.0


From 73d6708da9853c7ad4f484b5f340e4ab082ee654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:58 +0000
Subject: [PATCH 11/16] fix: cubic_12points_polynomial uses the 12 valid
 samples on either side

The documented ValueError was not raised; a spike at the end raised IndexError
and one at index 0 took the last sample; the cubic fit dropped the sample just
before the spike, so the other 11 were one position off, and it used the raw
values of earlier spikes; boundary values ignored `decimals`.
---
 proadv/filtration/replacement/replacements.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 052fc8d..6cdf1ed 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -201,6 +201,12 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
     """
 
     # Make a copy of velocities to preserve original data
+    velocities = np.asarray(velocities, dtype=float)
+    spike_indices = np.sort(np.asarray(spike_indices, dtype=int))
+    if velocities.ndim != 1:
+        raise ValueError("velocities must be a one-dimensional array.")
+    if np.any(spike_indices < 0) or np.any(spike_indices >= velocities.size):
+        raise ValueError("spike_indices contains invalid indices.")
     modified_data = velocities.copy()
 
     # Replace spike indices with NaN values
@@ -210,15 +216,15 @@ def cubic_12points_polynomial(velocities, spike_indices, decimals=4):
     x = np.array(list(range(1, 13)) + list(range(14, 26)))
 
     for i in spike_indices:
+        # Valid data that follows the spike
+        valid_after = modified_data[i:][~np.isnan(modified_data[i:])]
         # Check if index is near the boundaries
-        if i <= 30 or i >= (len(velocities) - 30):
+        if i <= 30 or i >= (len(velocities) - 30) or valid_after.size < 12:
             # Use linear interpolation near the boundaries
-            modified_data[i] = np.around((velocities[i - 1] + modified_data[i:][~np.isnan(modified_data[i:])][0]) / 2,
-                                         4)
+            modified_data[i] = np.mean(np.append(modified_data[i - 1: i], valid_after[0:1]))
         else:
             # Use cubic polynomial interpolation
-            yint = np.delete(np.append(velocities[i - 13: i], modified_data[i:][~np.isnan(modified_data[i:])][0:12]),
-                             12)
+            yint = np.append(modified_data[i - 12: i], valid_after[0:12])
             f = interp1d(x, yint, 3)
             modified_data[i] = f(13)
     return np.around(modified_data, decimals=decimals)
-- 
2.43.0


From 87b62fb2c25e893c667e86532cff209fbc8b0f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:58 +0000
Subject: [PATCH 12/16] fix: integer data is not truncated

Replacement values, derivatives and the exponential moving average were written
into arrays of the input's integer type, which cut off their fractions.
---
 proadv/filtration/detection/phasespace.py       | 2 ++
 proadv/filtration/detection/trivariatekernel.py | 2 ++
 proadv/filtration/replacement/replacements.py   | 8 ++++++++
 proadv/statistics/series.py                     | 5 ++++-
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/proadv/filtration/detection/phasespace.py b/proadv/filtration/detection/phasespace.py
index 85273e9..21ec440 100644
--- a/proadv/filtration/detection/phasespace.py
+++ b/proadv/filtration/detection/phasespace.py
@@ -16,6 +16,8 @@ def calculate_derivatives(c):
         dc (array_like): First derivative of the input data.
         dc2 (array_like): Second derivative of the input data.
     """
+    c = np.asarray(c, dtype=float)
+
     # Initialize arrays for first and second derivatives
     dc = np.zeros_like(c)
     dc2 = np.zeros_like(c)
diff --git a/proadv/filtration/detection/trivariatekernel.py b/proadv/filtration/detection/trivariatekernel.py
index b12cd3e..af6d955 100644
--- a/proadv/filtration/detection/trivariatekernel.py
+++ b/proadv/filtration/detection/trivariatekernel.py
@@ -19,6 +19,8 @@ def _derivatives(data):
     dc2 (array_like): Second derivative of the input data.
     """
 
+    data = np.asarray(data, dtype=float)
+
     # Initialize arrays for first and second derivatives
     dc = np.zeros_like(data)
     dc2 = np.zeros_like(data)
diff --git a/proadv/filtration/replacement/replacements.py b/proadv/filtration/replacement/replacements.py
index 6cdf1ed..9333672 100644
--- a/proadv/filtration/replacement/replacements.py
+++ b/proadv/filtration/replacement/replacements.py
@@ -21,6 +21,7 @@ def last_valid_data(velocities, spike_indices):
     modified_data (array_like): Modified data with spikes replaced by last valid values.
         An array containing the modified data.
     """
+    velocities = np.asarray(velocities, dtype=float)
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
@@ -52,6 +53,7 @@ def mean_value(velocities, spike_indices):
         An array containing the modified data.
     """
 
+    velocities = np.asarray(velocities, dtype=float)
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
@@ -78,6 +80,7 @@ def median_value(velocities, spike_indices):
         An array containing the modified data.
     """
 
+    velocities = np.asarray(velocities, dtype=float)
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
@@ -249,6 +252,7 @@ def simple_moving_average(velocities, spike_indices, window_size=20):
 
     from proadv.statistics.series import moving_average as ma
 
+    velocities = np.asarray(velocities, dtype=float)
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
@@ -279,6 +283,7 @@ def exponential_moving_average(velocities, spike_indices, alpha=0.2):
 
     from proadv.statistics.series import exponential_moving_average as expo
 
+    velocities = np.asarray(velocities, dtype=float)
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
@@ -309,6 +314,7 @@ def weighted_moving_average(velocities, spike_indices, period=20):
 
     from proadv.statistics.series import weighted_moving_average as wm
 
+    velocities = np.asarray(velocities, dtype=float)
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
@@ -341,6 +347,7 @@ def ssa(velocities, spike_indices, fs, f):
 
     from proadv.statistics.series import ssa as sa
 
+    velocities = np.asarray(velocities, dtype=float)
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
@@ -373,6 +380,7 @@ def kalman_filter(velocities, spike_indices, initial_state, initial_covariance,
 
     from proadv.statistics.series import kalman_filter as kl
 
+    velocities = np.asarray(velocities, dtype=float)
     # Create a copy of the original data
     modified_data = np.copy(velocities)
 
diff --git a/proadv/statistics/series.py b/proadv/statistics/series.py
index ef5a1b1..6bf2335 100644
--- a/proadv/statistics/series.py
+++ b/proadv/statistics/series.py
@@ -109,7 +109,8 @@ def exponential_moving_average(data, alpha=0.2):
     >>> data = np.array([1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
     >>> ema = adv.statistics.series.exponential_moving_average(data, alpha=0.5)
     >>> ema
-    array([1, 1, 2, 3, 4, 5, 6, 7, 8, 9])
+    array([1.        , 1.5       , 2.25      , 3.125     , 4.0625    ,
+           5.03125   , 6.015625  , 7.0078125 , 8.00390625, 9.00195312])
 
     """
 
@@ -117,6 +118,8 @@ def exponential_moving_average(data, alpha=0.2):
     if alpha <= 0 or alpha > 1:
         raise ValueError("Alpha must be between 0 and 1 (inclusive).")
 
+    data = np.asarray(data, dtype=float)
+
     # Initialize the exponential moving average array with zeros
     ema = np.zeros_like(data)
 
-- 
2.43.0


From 6ad38b0cabb7f66e66bf84b88e4dd63563c93132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:58 +0000
Subject: [PATCH 13/16] fix: brentq reports what its documentation says

A root at an endpoint gave a tuple instead of the documented dictionary, a run
that did not converge returned a value instead of raising the documented
ValueError, and its call count left out the last evaluation.
---
 proadv/statistics/optimize/optimize.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 40e6d35..225a314 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -65,10 +65,10 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     fcur = f(xcur)
 
     # Check if we already have a root at the endpoints
-    if fpre == 0:
-        return (xpre, 0, 0, 1) if full_output else xpre
-    if fcur == 0:
-        return (xb, 0, 0, 1) if full_output else xb
+    if fpre == 0 or fcur == 0:
+        endpoint = xpre if fpre == 0 else xb
+        result = {'root': endpoint, 'function_calls': 2, 'iterations': 0, 'converged': True, 'flag': 'converged'}
+        return result if full_output else endpoint
 
     # Ensure the function has opposite signs at the endpoints (necessary condition for Brent's method)
     if np.sign(fpre) == np.sign(fcur):
@@ -142,15 +142,15 @@ def brentq(f, xa, xb, xtol=1.48e-8, rtol=1.48e-8, maxiter=500, full_output=False
     # If we reach here, the method did not converge within the maximum number of iterations
     result = {
         'root': xcur,
-        'function_calls': i + 2,
-        'iterations': i + 1,
+        'function_calls': maxiter + 2,
+        'iterations': maxiter,
         'converged': False,
         'flag': 'convergence not achieved'
     }
     if full_output:
         return result
     else:
-        return result['root']
+        raise ValueError("The method did not converge within {} iterations.".format(maxiter))
 
 
 def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
-- 
2.43.0


From f5367a8f3d894eafa3d8f37ba49b984143629668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:58 +0000
Subject: [PATCH 14/16] fix: fminbound returns the best point it found

It returned the last evaluated point together with the function value of the
best one.
---
 proadv/statistics/optimize/optimize.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/proadv/statistics/optimize/optimize.py b/proadv/statistics/optimize/optimize.py
index 225a314..3afad03 100644
--- a/proadv/statistics/optimize/optimize.py
+++ b/proadv/statistics/optimize/optimize.py
@@ -328,7 +328,6 @@ def _optimize_within_bounds(target_function, limit_bounds, extra_params=(),
         convergence_flag = 2
 
     # Set the final optimal value and function value
-    x_optimal = x_current
     fval = f_current
     flag = convergence_flag
 
-- 
2.43.0


From a31548586fe122bd696cd30992833c4d11c078ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:58 +0000
Subject: [PATCH 15/16] fix: power_spectra takes the overlap as a percentage

The documented percentage was used as a number of samples.
---
 proadv/statistics/signal/spectrum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/proadv/statistics/signal/spectrum.py b/proadv/statistics/signal/spectrum.py
index aab687f..eb546aa 100644
--- a/proadv/statistics/signal/spectrum.py
+++ b/proadv/statistics/signal/spectrum.py
@@ -23,7 +23,10 @@ def power_spectra(data, sampling_frequency, overlap=50, block=2048, onesided=Tru
     # Define Hann window
     win=hann(block, True)
 
+    # Number of samples shared by neighbouring blocks
+    shared = int(block * overlap / 100)
+
     # Compute power spectral density
-    fxu, fyu = welch(data, sampling_frequency, window=win, noverlap=overlap, nfft=block, return_onesided=onesided)
+    fxu, fyu = welch(data, sampling_frequency, window=win, noverlap=shared, nfft=block, return_onesided=onesided)
     
     return fxu, fyu
-- 
2.43.0


From 84fd707a7179428f87e081633634d4f589cd80d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:58 +0000
Subject: [PATCH 16/16] fix: synthetic noise rejects a percentage it cannot
 reach

With percent above 100 the search for distinct indices never ended.
---
 proadv/statistics/signal/synthetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/proadv/statistics/signal/synthetic.py b/proadv/statistics/signal/synthetic.py
index 203bf56..adffd60 100644
--- a/proadv/statistics/signal/synthetic.py
+++ b/proadv/statistics/signal/synthetic.py
@@ -16,6 +16,9 @@ def _random_index(data_size, percent):
     randoms (np.ndarray): An array containing randomly selected indexes.
     """
 
+    if percent < 0 or percent > 100:
+        raise ValueError("percent must be between 0 and 100.")
+
     randoms = []
     iteration = 0
     while iteration < len(range(int(data_size * percent / 100))):
-- 
2.43.0


From a39cb765a95ad0a34b9729dd992d9421f35aebdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 01/33] fix: start a first capture from empty traps, even after
 a cloud below the notch

A cloud too small to occupy any volume left a zero-volume watermark marked
as filled, so the next cloud, if too small to fill its traps, was not limited
to the electrons it has.
---
 arcticpy/trap_managers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 295e298..50b24a8 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -264,6 +264,13 @@ class TrapManager(object):
         """
         return 1
 
+    @property
+    def empty_watermark_value(self):
+        """ The value for an empty watermark level, here 0 because we are 
+            monitoring the fill fraction.
+        """
+        return 0
+
     @property
     def n_watermarks_per_transfer(self):
         """ Each transfer can create up to 2 new watermark levels (at the other 
@@ -560,6 +567,7 @@ class TrapManager(object):
         # Update the watermark volume, duplicated for the initial watermarks
         self.watermarks[0, 0] = cloud_fractional_volume
         watermarks_initial[0, 0] = self.watermarks[0, 0]
+        watermarks_initial[0, 1:] = self.empty_watermark_value
 
         # Update the fill fractions
         self.watermarks[0, 1:] = fill_probabilities_from_empty
@@ -936,6 +944,7 @@ class TrapManagerInstantCapture(TrapManager):
         # Update the watermark volume, duplicated for the initial watermarks
         self.watermarks[0, 0] = cloud_fractional_volume
         watermarks_initial[0, 0] = self.watermarks[0, 0]
+        watermarks_initial[0, 1:] = self.empty_watermark_value
 
         # Update the fill fractions
         self.watermarks[0, 1:] = self.filled_watermark_value
-- 
2.43.0


From 9708c59d947db94968504ab6d83f41cd7811af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 02/33] fix: limit slow capture to the electrons that are in
 the cloud

The net capture was compared with the cloud plus the electrons just released
into it, although those are already included in the net, so a small cloud
could lose more electrons than it contains (and a pixel be left with a
negative charge that is then clipped, creating charge).
---
 arcticpy/trap_managers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 50b24a8..5b78760 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -727,6 +727,7 @@ class TrapManager(object):
         """
         # Initial watermarks and number of electrons in traps
         # watermarks_initial = deepcopy(self.watermarks)
+        n_cloud_electrons = n_free_electrons
         watermarks_initial = np.array(self.watermarks)
         n_trapped_electrons_initial = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
@@ -828,11 +829,13 @@ class TrapManager(object):
         if n_trapped_electrons_final == n_trapped_electrons_initial:
             return 0
 
-        # Not enough available electrons to capture
-        enough = n_free_electrons / (
+        # Not enough available electrons to capture. Compare the net capture with
+        # the electrons that were in the cloud to begin with, since those that
+        # were released in the meantime are already accounted for in the net
+        enough = n_cloud_electrons / (
             n_trapped_electrons_final - n_trapped_electrons_initial
         )
-        if 0 < enough < 1:
+        if n_trapped_electrons_final > n_trapped_electrons_initial and enough < 1:
             # For watermark fill fractions that increased, tweak them such that
             # the resulting increase instead matches the available electrons
             self.watermarks = self.updated_watermarks_from_capture_not_enough(
-- 
2.43.0


From ad4870a5f3c501e9fc7ad06a86332140e0e80440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 03/33] fix: capture from a cloud that rises above the
 watermarks while they release

When the electrons released from watermarks above the cloud enlarge it beyond
the highest watermark, a new watermark is needed on top; instead the volume of
the inactive level above was split, leaving a negative fractional volume.
---
 arcticpy/trap_managers.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 5b78760..aa95fb4 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -656,7 +656,19 @@ class TrapManager(object):
         )
 
         # Update the watermark volumes, duplicated for the initial watermarks
-        if cloud_fractional_volume > 0 and not cy_value_in_cumsum(
+        if watermark_index_above_cloud > max_watermark_index:
+            # The released electrons raised the cloud above all the watermarks
+            self.watermarks[
+                watermark_index_above_cloud, 0
+            ] = cloud_fractional_volume - np.sum(self.watermarks[:, 0])
+            watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
+                watermark_index_above_cloud, 0
+            ]
+
+            # Increment the index now that an extra watermark has been set
+            max_watermark_index += 1
+
+        elif cloud_fractional_volume > 0 and not cy_value_in_cumsum(
             cloud_fractional_volume, self.watermarks[:, 0]
         ):
             self.watermarks = self.update_watermark_volumes_for_cloud_below_highest(
-- 
2.43.0


From eaed838e53d611b8deb44e598a68517477124025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 04/33] fix: share out a cloud that is too small level by level

The watermarks that would have been filled were merged, and their original
contents averaged, before it was known whether there were enough electrons to
fill them. With too few electrons this moved trapped charge between volume
elements, or not, depending on the rounding of the fill fractions.
---
 arcticpy/trap_managers.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index aa95fb4..85fdf48 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -827,11 +827,6 @@ class TrapManager(object):
             + (1 - fill_fractions_old) * fill_probabilities_from_empty
         )
 
-        # Collapse any redundant watermarks that are completely full
-        self.watermarks, watermarks_initial = self.collapse_redundant_watermarks(
-            watermarks=self.watermarks, watermarks_copy=watermarks_initial
-        )
-
         # Final number of electrons in traps
         n_trapped_electrons_final = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
@@ -1136,11 +1131,6 @@ class TrapManagerInstantCapture(TrapManager):
             : watermark_index_above_cloud + 1, 1:
         ] = self.filled_watermark_value
 
-        # Collapse any redundant watermarks that are completely full
-        self.watermarks, watermarks_initial = self.collapse_redundant_watermarks(
-            watermarks=self.watermarks, watermarks_copy=watermarks_initial
-        )
-
         # Final number of electrons in traps
         n_trapped_electrons_final = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
-- 
2.43.0


From 51482c6af56389eb3438e9ab4f91fc77600e9256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 05/33] fix: let the time-tracking trap manager handle clouds
 too small for the traps

It passed itself twice (a TypeError), converted the wrong columns, and took
levels that were empty (new) to be completely filled, since 0 is an elapsed
time there.
---
 arcticpy/trap_managers.py | 46 +++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 85fdf48..d46af49 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -1122,6 +1122,9 @@ class TrapManagerInstantCapture(TrapManager):
             watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
                 watermark_index_above_cloud, 0
             ]
+            watermarks_initial[
+                watermark_index_above_cloud, 1:
+            ] = self.empty_watermark_value
 
         # Continue with capture having prepared the new watermark at the cloud
         # and released from any watermarks above the cloud
@@ -1242,6 +1245,11 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
         """ The value for a filled watermark level, here 0 is an elapsed time """
         return 0
 
+    @property
+    def empty_watermark_value(self):
+        """ The value for an empty watermark level, here the time elapsed """
+        return np.inf
+
     def watermarks_converted_to_fill_fractions_from_elapsed_times(self, watermarks):
         """ Convert the watermark values to fill fractions.
 
@@ -1326,33 +1334,25 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
-        # Convert to fill fractions
         for level in range(np.argmax(watermarks[:, 0] == 0)):
             for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks[level, i_trap]
-                )
-                watermarks_initial[
-                    level, i_trap
-                ] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks_initial[level, i_trap]
+                time_elapsed = watermarks[level, 1 + i_trap]
+                time_elapsed_initial = watermarks_initial[level, 1 + i_trap]
+
+                # Skip the levels that the capture did not change
+                if time_elapsed == time_elapsed_initial:
+                    continue
+
+                # Update the fill fractions in the standard way
+                fill_fraction = enough * trap.fill_fraction_from_time_elapsed(
+                    time_elapsed=time_elapsed
+                ) + (1 - enough) * trap.fill_fraction_from_time_elapsed(
+                    time_elapsed=time_elapsed_initial
                 )
 
-        # Update the fill fractions in the standard way
-        watermarks = super(
-            TrapManagerTrackTime, self
-        ).updated_watermarks_from_capture_not_enough(
-            self,
-            watermarks=watermarks,
-            watermarks_initial=watermarks_initial,
-            enough=enough,
-        )
-
-        # Convert back to elapsed times
-        for level in range(np.argmax(watermarks[:, 0] == 0)):
-            for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.time_elapsed_from_fill_fraction(
-                    fill_fraction=watermarks[level, i_trap]
+                # Convert back to elapsed times
+                watermarks[level, 1 + i_trap] = trap.time_elapsed_from_fill_fraction(
+                    fill_fraction=fill_fraction
                 )
 
         return watermarks
-- 
2.43.0


From e368b6ad6b34ec567ee8800702cbbba0fd8d5a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 06/33] fix: compare watermark volumes to within rounding
 errors

The cumulative sum of the watermark volumes only matches a repeated cloud's
volume to within rounding, so a watermark with zero volume could be split off
in the middle of the list. As zero volume marks the end of the active levels,
all those above were then no longer released from but overwritten, losing the
electrons trapped there.
---
 arcticpy/trap_managers.py        |  4 ++--
 arcticpy/trap_managers_utils.pyx | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index d46af49..c48dec1 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -997,8 +997,8 @@ class TrapManagerInstantCapture(TrapManager):
         Create a new watermark at the cloud fractional volume.
         """
         # Create the new watermark at the cloud fractional volume
-        if cloud_fractional_volume > 0 and cloud_fractional_volume not in np.cumsum(
-            self.watermarks[:, 0]
+        if cloud_fractional_volume > 0 and not cy_value_in_cumsum(
+            cloud_fractional_volume, self.watermarks[:, 0]
         ):
             # Update the watermark volumes, duplicated for the initial watermarks
             self.watermarks = self.update_watermark_volumes_for_cloud_below_highest(
diff --git a/arcticpy/trap_managers_utils.pyx b/arcticpy/trap_managers_utils.pyx
index 1d09cba..b52da3b 100644
--- a/arcticpy/trap_managers_utils.pyx
+++ b/arcticpy/trap_managers_utils.pyx
@@ -5,7 +5,12 @@ import numpy as np
 cimport numpy as np
 
 from libc.stdlib cimport malloc, free
-from libc.math cimport exp
+from libc.math cimport exp, fabs
+
+# Fractional volumes closer than this are the same watermark. The cumulative
+# sums of the watermark volumes are only accurate to within rounding errors, so
+# exact comparisons could split off watermarks with zero (or negative) volumes.
+cdef np.float64_t volume_tolerance = 1e-12
 
 
 @cython.boundscheck(False)
@@ -46,11 +51,11 @@ cpdef np.int64_t cy_value_in_cumsum(np.float64_t value, np.float64_t[:] arr):
     
     with nogil:
         for i in range(1, arr.shape[0], 1):
-            if value == total:
+            if fabs(value - total) <= volume_tolerance:
                 return 1
             total += arr[i]
 
-        if value == total:
+        if fabs(value - total) <= volume_tolerance:
             return 1
         else:
             return 0
@@ -90,10 +95,10 @@ cpdef np.int64_t cy_watermark_index_above_cloud_from_cloud_fractional_volume(
     with nogil:
         for i in range(watermarks.shape[0]):
             total += watermarks[i, 0]
-            if cloud_fractional_volume <= total:
+            if cloud_fractional_volume <= total + volume_tolerance:
                 index = min(index, i)
 
-        if total < cloud_fractional_volume:
+        if total + volume_tolerance < cloud_fractional_volume:
             return max_watermark_index + 1
         else:
             return index
-- 
2.43.0


From 5b2cbdfb65983a6936bc528701f87b3ebb24fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 07/33] fix: make space for more watermarks when traps carry
 over between columns

The watermark array is sized for one column starting from empty traps. With
empty_traps_between_columns=False the watermarks of the previous columns are
still there, so it overflowed and their trapped electrons were overwritten.
---
 arcticpy/trap_managers.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index c48dec1..8f0d8e9 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -372,6 +372,21 @@ class TrapManager(object):
         """ Reset the trap watermarks for the next run of release and capture. """
         self.watermarks.fill(0)
 
+    def make_space_for_new_watermarks(self):
+        """ Extend the watermarks, if another transfer might not fit.
+
+        The initial size assumes that the traps start empty, but they need not
+        if their states are carried over, e.g. from a previous column. At least
+        one inactive watermark must always remain, to mark the highest one.
+        """
+        n_active = np.argmax(self.watermarks[:, 0] == 0)
+        n_required = n_active + self.n_watermarks_per_transfer + 1
+
+        if n_required > self.watermarks.shape[0]:
+            self.watermarks = np.concatenate(
+                (self.watermarks, np.zeros((n_required, self.watermarks.shape[1])))
+            )
+
     def watermark_index_above_cloud_from_cloud_fractional_volume(
         self, cloud_fractional_volume, watermarks, max_watermark_index
     ):
@@ -737,6 +752,9 @@ class TrapManager(object):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        # Make sure that any new watermarks will fit
+        self.make_space_for_new_watermarks()
+
         # Initial watermarks and number of electrons in traps
         # watermarks_initial = deepcopy(self.watermarks)
         n_cloud_electrons = n_free_electrons
@@ -1060,6 +1078,9 @@ class TrapManagerInstantCapture(TrapManager):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        # Make sure that any new watermarks will fit
+        self.make_space_for_new_watermarks()
+
         # Save the initial watermarks and number of electrons in traps, in case
         # there aren't enough free electrons to fill all the identified traps
         watermarks_initial = deepcopy(self.watermarks)
-- 
2.43.0


From a46e9bb0e2e9692024bd66be30987372aad3068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 08/33] fix: report the number of densities when it is wrong
 (was a NameError)

---
 arcticpy/trap_managers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 8f0d8e9..614e16f 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -297,7 +297,7 @@ class TrapManager(object):
     def n_traps_per_pixel(self, values):
         if len(values) != len(self.traps):
             raise ValueError(
-                f"{len(value)} trap densities supplied, for {len(self.traps)} species of traps"
+                f"{len(values)} trap densities supplied, for {len(self.traps)} species of traps"
             )
         for i, value in enumerate(values):
             self.traps[i].density = float(value)
-- 
2.43.0


From f22b4decc0db7d10e9e6dda43cbdcdadc7d8a3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:41 +0000
Subject: [PATCH 09/33] fix: keep the kind and capture timescale of the species
 in poisson_trap

Only the release timescale was passed on, so e.g. slow-capture, instant-capture
or continuum-lifetime species all turned into default Trap objects.
---
 arcticpy/traps.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 582a1ec..eb4e5a7 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -189,11 +189,10 @@ class Trap(object):
         poisson_trap = []
         for densities in poisson_densities:
             for i, trap_i in enumerate(trap):
-                poisson_trap.append(
-                    Trap(
-                        density=densities[i], release_timescale=trap_i.release_timescale
-                    )
-                )
+                # Keep all the other properties of the species
+                poisson_trap_i = deepcopy(trap_i)
+                poisson_trap_i.density = float(densities[i])
+                poisson_trap.append(poisson_trap_i)
 
         return poisson_trap
 
-- 
2.43.0


From a431654586765c65d58c22f51baf45b1496c2283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 10/33] fix: remove CTI from integer images

The in-place update of the estimate cannot add fractional electrons to an
integer array (UFuncTypeError).
---
 arcticpy/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/main.py b/arcticpy/main.py
index bfd1388..85980d3 100644
--- a/arcticpy/main.py
+++ b/arcticpy/main.py
@@ -296,7 +296,7 @@ def remove_cti(
         )
 
         # Improved estimate of image with CTI trails removed
-        image_remove_cti += image - image_add_cti
+        image_remove_cti = image_remove_cti + (image - image_add_cti)
 
     # TODO : Implement as decorator
 
-- 
2.43.0


From 51fc90e3cb8cf5fb5fd1cc884e05e2bfa4cc7753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 11/33] fix: decide once whether first transfers are treated
 separately

With express = n_pixels - 1, the second test used the already reduced
n_pixels, so the last transfer was left out and an IndexError raised.
---
 arcticpy/roe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index f73794a..a625af0 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -522,7 +522,10 @@ class ROE(ROEAbstract):
 
         # Temporarily ignore the first pixel-to-pixel transfer, if it is to be
         # handled differently than the rest
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        separate_first_transfers = (
+            self.empty_traps_for_first_transfers and express < n_pixels
+        )
+        if separate_first_transfers:
             n_pixels -= 1
 
         # Initialise an array with enough pixels to contain the supposed image,
@@ -548,7 +551,7 @@ class ROE(ROEAbstract):
         # Add an extra (first) transfer for every pixel, the effect of which
         # will only ever be counted once, because it is physically different
         # from the other transfers (it sees only empty traps)
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        if separate_first_transfers:
             # Store current matrix, which is correct for one-too-few pixel-to-pixel transfers
             express_matrix_small = express_matrix
             # Create a new matrix for the full number of transfers
-- 
2.43.0


From 5534a456df11c6589958f9704a074101dc38bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:27 +0000
Subject: [PATCH 12/33] fix: never use a negative integer multiplier for trap
 pumping

Rounding every multiplier and correcting the last one for the total could make
that one negative, e.g. 12 pumps with express=7 became [1, 2 * 6, -1].
---
 arcticpy/roe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index a625af0..a8501c5 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -858,8 +858,9 @@ class ROETrapPumping(ROEAbstract):
         # Make sure all values are integers, but still add up to the desired
         # number of pumps
         if self.express_matrix_dtype == int:
-            express_multipliers = list(map(int, np.round(express_multipliers)))
-            express_multipliers[-1] += self.n_pumps - sum(express_multipliers)
+            express_multipliers = np.diff(
+                np.round(np.cumsum([0] + express_multipliers)).astype(int)
+            )
 
         # Initialise an array
         express_matrix = np.zeros(
-- 
2.43.0


From 421cd277ea73a947f06589a59fe1d2ddc3b5250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:27 +0000
Subject: [PATCH 13/33] fix: allow trap pumping in more than one pixel

The index of the sequence to save was out of bounds (an IndexError), and the
first pump of the next pixel would have started from the trap states that were
saved while pumping the previous one.
---
 arcticpy/main_utils.pyx | 8 ++++++++
 arcticpy/roe.py         | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 7914981..db24c1d 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -175,6 +175,14 @@ def cy_clock_charge_in_one_direction(
         # Monitor the traps in every pixel, or just one (express=1) or a few
         # (express=a few) then replicate their effect
         for express_index in range(n_express_pass):
+            # Forget the saved trap states when moving on to pump the next pixel
+            if (
+                isinstance(roe, ROETrapPumping)
+                and express_index % (n_express_pass // n_rows_to_process) == 0
+            ):
+                trap_managers.empty_all_traps()
+                trap_managers.save()
+
             # Restore the trap occupancy levels (to empty, or to a saved state
             # from a previous express pass)
             trap_managers.restore()
diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index a8501c5..2363e8d 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -888,6 +888,9 @@ class ROETrapPumping(ROEAbstract):
         (n_express, n_pixels) = express_matrix.shape
         save_trap_states_matrix = np.zeros((n_express, n_pixels), dtype=bool)
 
+        # Number of pump sequences for each trap
+        n_express //= n_pixels
+
         for j in range(n_pixels):
             for i in range(n_express):
                 # Save trap occupancy between pumps of same trap
-- 
2.43.0


From 179ed650132ef528f4df691de4c9de5ebad2293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:27 +0000
Subject: [PATCH 14/33] fix: save the trap states just before the row where the
 next pass begins

With an offset (or window) the next pass can begin at the first row, when no
state must be saved; it was saved after the first row, so each pass continued
from more filled traps. A single row was an UnboundLocalError. With a time
window, the transfers outside it were ignored although they are monitored.
---
 arcticpy/main_utils.pyx | 5 +++--
 arcticpy/roe.py         | 9 ++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index db24c1d..597760f 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -124,9 +124,10 @@ def cy_clock_charge_in_one_direction(
     )
 
     # ; and whether the trap occupancy states must be saved for the next express
-    # pass rather than being reset (usually at the end of each express pass)
+    # pass rather than being reset (usually at the end of each express pass).
+    # This depends on which transfers are monitored, not only those implemented
     save_trap_states_matrix = roe.save_trap_states_matrix_from_express_matrix(
-        express_matrix=express_matrix
+        express_matrix=np.asarray(monitor_traps_matrix).astype(float)
     )
 
     # Decide in advance which steps need to be evaluated and which can be skipped
diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 2363e8d..4c42f77 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -618,11 +618,10 @@ class ROE(ROEAbstract):
 
         if not self.empty_traps_for_first_transfers:
             for express_index in range(n_express - 1):
-                for row_index in range(n_pixels - 1):
-                    if express_matrix[express_index + 1, row_index + 1] > 0:
-                        break
-
-                save_trap_states_matrix[express_index, row_index] = True
+                # Save just before the row at which the next pass begins, if any
+                row_indices = np.nonzero(express_matrix[express_index + 1])[0]
+                if len(row_indices) > 0 and row_indices[0] > 0:
+                    save_trap_states_matrix[express_index, row_indices[0] - 1] = True
 
         return save_trap_states_matrix
 
-- 
2.43.0


From 1f8004d05d854a61cfd383a64ff264f855459531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 15/33] fix: charge injection with integer express multipliers
 (was a NameError)

---
 arcticpy/roe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 4c42f77..11f6b2e 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -51,6 +51,8 @@ phase 2 is closer than phase 1:
 import numpy as np
 from copy import deepcopy
 
+from arcticpy import util
+
 
 class ROEPhase(object):
     def __init__(
@@ -703,7 +705,7 @@ class ROEChargeInjection(ROE):
         express_matrix = np.zeros((express, n_pixels), dtype=self.express_matrix_dtype)
         max_multiplier = self.n_pixel_transfers / express
         if self.express_matrix_dtype == int:
-            max_multiplier = math.ceil(max_multiplier)
+            max_multiplier = int(np.ceil(max_multiplier))
             for i in reversed(range(express)):
                 express_matrix[i, :] = util.set_min_max(
                     max_multiplier,
-- 
2.43.0


From c694edf142cebc9cfa5f398b41bb9a361567bcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 16/33] fix: do not remember the default number of charge
 injection transfers

The default was stored in the ROE object by its first use, and then applied
to any other image, offset or window the same object was used with.
---
 arcticpy/roe.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 11f6b2e..834d546 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -693,24 +693,26 @@ class ROEChargeInjection(ROE):
         window_range = range(pixels) if isinstance(pixels, int) else pixels
         n_pixels = max(window_range) + 1
         if self.n_pixel_transfers is None:
-            self.n_pixel_transfers = n_pixels + offset
+            n_pixel_transfers = n_pixels + offset
+        else:
+            n_pixel_transfers = self.n_pixel_transfers
 
         # Set default express to all transfers and check no larger
         if express == 0:
-            express = self.n_pixel_transfers
+            express = n_pixel_transfers
         else:
-            express = min(express, self.n_pixel_transfers)
+            express = min(express, n_pixel_transfers)
 
         # Compute the multiplier factors
         express_matrix = np.zeros((express, n_pixels), dtype=self.express_matrix_dtype)
-        max_multiplier = self.n_pixel_transfers / express
+        max_multiplier = n_pixel_transfers / express
         if self.express_matrix_dtype == int:
             max_multiplier = int(np.ceil(max_multiplier))
             for i in reversed(range(express)):
                 express_matrix[i, :] = util.set_min_max(
                     max_multiplier,
                     0,
-                    self.n_pixel_transfers - sum(express_matrix[:, 0]),
+                    n_pixel_transfers - sum(express_matrix[:, 0]),
                 )
         else:
             express_matrix[:] = max_multiplier
-- 
2.43.0


From 945214a35876ccdd3e21be3d0554b255c81f50d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 17/33] fix: allow spatial windows in charge injection mode

The matrices were not restricted to the window (an IndexError, or the wrong
pixels), and the default number of transfers was the last row of the window
instead of the number of rows in the image.
---
 arcticpy/main_utils.pyx | 10 +++++++++-
 arcticpy/roe.py         |  9 ++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 597760f..e7f5ad8 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -4,7 +4,9 @@ import numpy as np
 import cython
 cimport cython
 
-from arcticpy.roe import ROETrapPumping
+from copy import deepcopy
+
+from arcticpy.roe import ROEChargeInjection, ROETrapPumping
 from arcticpy.trap_managers import AllTrapManager
 
 
@@ -107,6 +109,12 @@ def cy_clock_charge_in_one_direction(
         The output array of pixel values.
     """
 
+    # The default number of charge injection transfers is the number of rows in
+    # the image, even if only some of them are modelled
+    if isinstance(roe, ROEChargeInjection) and roe.n_pixel_transfers is None:
+        roe = deepcopy(roe)
+        roe.n_pixel_transfers = image_in.shape[0] + offset
+
     # Generate the arrays over each step for: the number of of times that the
     # effect of each pixel-to-pixel transfer can be multiplied for the express
     # algorithm; and whether the traps must be monitored (usually whenever
diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 834d546..7e2dbb0 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -725,7 +725,14 @@ class ROEChargeInjection(ROE):
             express_matrix, time_window_range
         )
 
-        return express_matrix.astype(float), monitor_traps_matrix
+        # Keep only the spatial region of interest
+        express_matrix = express_matrix[:, window_range]
+        monitor_traps_matrix = monitor_traps_matrix[:, window_range]
+
+        return (
+            np.ascontiguousarray(express_matrix.astype(float)),
+            np.ascontiguousarray(monitor_traps_matrix),
+        )
 
     def save_trap_states_matrix_from_express_matrix(self, express_matrix):
         """
-- 
2.43.0


From 6e4bdd7625b3b94429b3adcecbf00cec2ebe4b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 18/33] fix: pad the image on the readout side too

Phases that capture from or release to the next pixel nearer to readout read
and wrote memory before the start of the image for its first row.
---
 arcticpy/main_utils.pyx | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index e7f5ad8..4c75dbe 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -172,12 +172,17 @@ def cy_clock_charge_in_one_direction(
 
     # Temporarily expand image, if charge released from traps ever migrates to
     # a different charge packet, at any time during the clocking sequence
-    n_rows_zero_padding = max(roe.pixels_accessed_during_clocking) - min(
-        roe.pixels_accessed_during_clocking
-    )
-    zero_padding = np.zeros((n_rows_zero_padding, image_in.shape[1]), dtype=np.float64)
+    cdef np.int64_t n_rows_padding_before = -min(roe.pixels_accessed_during_clocking)
+    cdef np.int64_t n_rows_padding_after = max(roe.pixels_accessed_during_clocking)
 
-    cdef np.float64_t[:, :] image = np.concatenate((image_in, zero_padding), axis=0)
+    cdef np.float64_t[:, :] image = np.concatenate(
+        (
+            np.zeros((n_rows_padding_before, image_in.shape[1]), dtype=np.float64),
+            image_in,
+            np.zeros((n_rows_padding_after, image_in.shape[1]), dtype=np.float64),
+        ),
+        axis=0,
+    )
     
     # Read out one column of pixels through the (column of) traps
     for column_index in window_column_range:
@@ -217,7 +222,9 @@ def cy_clock_charge_in_one_direction(
 
                         # Select the relevant pixel (and phase) for the initial charge
                         row_index_read = (
-                            window_row_range[row_index] + roe_phase.capture_from_which_pixel
+                            n_rows_padding_before
+                            + window_row_range[row_index]
+                            + roe_phase.capture_from_which_pixel
                         )
 
                         # Initial charge (0 if this phase's potential is not high)
@@ -243,7 +250,8 @@ def cy_clock_charge_in_one_direction(
 
                         # Select the relevant pixel (and phase(s)) for the returned charge
                         row_indices_write = (
-                            window_row_range[row_index]
+                            n_rows_padding_before
+                            + window_row_range[row_index]
                             + roe_phase.release_to_which_pixels
                         )
 
@@ -274,9 +282,9 @@ def cy_clock_charge_in_one_direction(
         trap_managers.save()
 
     # Unexpand the image to its original dimensions
-    image_out = np.asarray(image)
-    if n_rows_zero_padding > 0:
-        image_out = image_out[0:-n_rows_zero_padding, :]
+    image_out = np.asarray(image)[
+        n_rows_padding_before : n_rows_padding_before + image_in.shape[0], :
+    ]
 
     return image_out
 
-- 
2.43.0


From 92666a82daf342e816bee0c1fddc6cd8fe126518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 19/33] fix: do not capture more electrons than there are with
 several trap groups

Every group was given the whole cloud, so together they could capture more
than it contains. The resulting negative charge was set to zero, creating
electrons.
---
 arcticpy/main_utils.pyx | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 4c75dbe..bb48a19 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -234,6 +234,12 @@ def cy_clock_charge_in_one_direction(
 
                         # Allow electrons to be released from and captured by traps
                         n_electrons_released_and_captured = 0
+                        n_trap_groups = len(trap_managers[phase])
+                        if n_trap_groups > 1:
+                            watermarks_initial = [
+                                trap_manager.watermarks.copy()
+                                for trap_manager in trap_managers[phase]
+                            ]
                         for trap_manager in trap_managers[phase]:
                             n_electrons_released_and_captured += trap_manager.n_electrons_released_and_captured(
                                 n_free_electrons=n_free_electrons,
@@ -244,6 +250,27 @@ def cy_clock_charge_in_one_direction(
                                 express_multiplier=express_multiplier,
                             )
 
+                        # If the groups of traps together captured more than there
+                        # is in the cloud, then start again and leave to each group
+                        # only what the previous ones have not captured
+                        if (
+                            n_trap_groups > 1
+                            and n_free_electrons + n_electrons_released_and_captured < 0
+                        ):
+                            n_electrons_released_and_captured = 0
+                            for i_group in range(n_trap_groups):
+                                trap_manager = trap_managers[phase][i_group]
+                                trap_manager.watermarks = watermarks_initial[i_group]
+                                n_electrons_released_and_captured += trap_manager.n_electrons_released_and_captured(
+                                    n_free_electrons=n_free_electrons
+                                    + min(n_electrons_released_and_captured, 0),
+                                    dwell_time=roe.dwell_times[clocking_step],
+                                    ccd_filling_function=ccd.well_filling_function(
+                                        phase=phase
+                                    ),
+                                    express_multiplier=express_multiplier,
+                                )
+
                         # Skip updating the image if only monitoring the traps
                         if express_multiplier == 0:
                             continue
-- 
2.43.0


From c2cc8afce4e63b849394f04b38f00435d01a4399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:02 +0000
Subject: [PATCH 20/33] fix: default the bloom level of each phase to its own
 full well depth

It was a list of all the phases' full well depths, for each phase.
---
 arcticpy/ccd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arcticpy/ccd.py b/arcticpy/ccd.py
index 41485a1..64875d6 100644
--- a/arcticpy/ccd.py
+++ b/arcticpy/ccd.py
@@ -160,8 +160,9 @@ class CCD(object):
             self._well_bloom_level = value
         else:
             if value is None:
-                value = self.full_well_depth
-            self._well_bloom_level = [value] * self.n_phases
+                self._well_bloom_level = list(self.full_well_depth)
+            else:
+                self._well_bloom_level = [value] * self.n_phases
 
     def cloud_fractional_volume_from_n_electrons_and_phase(
         self, n_electrons, phase=0, surface=False
-- 
2.43.0


From 0d305cf6086216289248d3b8542d555df7b94a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 21/33] fix: find the elapsed time of a continuum of lifetimes
 reliably

The unbracketed search stepped to negative times, and failed its own check,
for nearly full traps with a wide distribution of lifetimes.
---
 arcticpy/traps.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index eb4e5a7..cdde0dd 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -314,11 +314,22 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
         time_elapsed : float
             The time elapsed, in the same units as the trap timescales.
         """
-        # Crudely iterate to find the time that gives the required fill fraction
+        # Iterate to find the time that gives the required fill fraction
         def find_time(time_elapsed):
             return self.fill_fraction_from_time_elapsed(time_elapsed) - fill_fraction
 
-        time_elapsed = optimize.fsolve(find_time, 0.1 * self.release_timescale_mu)[0]
+        # Completely full or empty
+        if find_time(0) <= 0:
+            return 0.0
+        if fill_fraction <= 0:
+            return np.inf
+
+        # Bracket the solution, since the fill fraction only ever decreases
+        time_elapsed_max = self.release_timescale_mu
+        while find_time(time_elapsed_max) > 0:
+            time_elapsed_max *= 2
+
+        time_elapsed = optimize.brentq(find_time, 0, time_elapsed_max)
 
         # Check solution (seems to be slightly unreliable for very small sigmas)
         assert abs(find_time(time_elapsed)) < 1e-7
-- 
2.43.0


From 8d9dffa53406132aae8c61da88a2ab390f6a00de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 22/33] fix: do not miss a narrow distribution of lifetimes
 when integrating

---
 arcticpy/traps.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index cdde0dd..e1ff046 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -268,6 +268,19 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
         self.release_timescale_mu = release_timescale_mu
         self.release_timescale_sigma = release_timescale_sigma
 
+    def integrate_over_lifetimes(self, integrand, args):
+        """ Integrate over all the release timescales.
+
+        Split at the central value, so that a narrow distribution is not missed.
+        """
+        return sum(
+            integrate.quad(integrand, limit_lower, limit_upper, args=args)[0]
+            for (limit_lower, limit_upper) in [
+                (0, self.release_timescale_mu),
+                (self.release_timescale_mu, np.inf),
+            ]
+        )
+
     def fill_fraction_from_time_elapsed(self, time_elapsed):
         """ Calculate the fraction of filled traps after a certain time_elapsed.
     
@@ -288,16 +301,14 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
                 release_timescale, mu, sigma
             ) * np.exp(-time_elapsed / release_timescale)
 
-        fill_fraction = integrate.quad(
+        fill_fraction = self.integrate_over_lifetimes(
             integrand,
-            0,
-            np.inf,
             args=(
                 time_elapsed,
                 self.release_timescale_mu,
                 self.release_timescale_sigma,
             ),
-        )[0]
+        )
 
         return fill_fraction
 
@@ -362,17 +373,15 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
                 * (1 - np.exp(-dwell_time / release_timescale))
             )
 
-        return integrate.quad(
+        return self.integrate_over_lifetimes(
             integrand,
-            0,
-            np.inf,
             args=(
                 time_elapsed,
                 dwell_time,
                 self.release_timescale_mu,
                 self.release_timescale_sigma,
             ),
-        )[0]
+        )
 
 
 class TrapLogNormalLifetimeContinuum(TrapLifetimeContinuumAbstract):
-- 
2.43.0


From 7ead04006fd322206fb552b5e246a366258ddc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 23/33] fix: leave the traps alone in passes with nothing left
 to read out

---
 arcticpy/main_utils.pyx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index bb48a19..0e1854b 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -197,15 +197,19 @@ def cy_clock_charge_in_one_direction(
                 trap_managers.empty_all_traps()
                 trap_managers.save()
 
-            # Restore the trap occupancy levels (to empty, or to a saved state
-            # from a previous express pass)
-            trap_managers.restore()
-
             # Set the steps that need to be evaluated (may need to monitor the 
             # traps and update their occupancies even if express_mulitplier is 
             # 0, e.g. for a time window)
             row_indices = np.nonzero(monitor_traps_matrix[express_index])[0]
 
+            # Leave the traps as they are if there is nothing left to read out
+            if row_indices.shape[0] == 0:
+                continue
+
+            # Restore the trap occupancy levels (to empty, or to a saved state
+            # from a previous express pass)
+            trap_managers.restore()
+
             # Each pixel
             for i_row in range(row_indices.shape[0]):
                 row_index = row_indices[i_row]
-- 
2.43.0


From cffb9e4dc5b43d33b411982c9fa170c0ab2e121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:42 +0000
Subject: [PATCH 24/33] fix: integrate over lifetimes in units of the central
 value

---
 arcticpy/traps.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index e1ff046..2349abf 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -271,14 +271,17 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
     def integrate_over_lifetimes(self, integrand, args):
         """ Integrate over all the release timescales.
 
-        Split at the central value, so that a narrow distribution is not missed.
+        Split at the central value, so that a narrow distribution is not missed,
+        and in units of that value, so that the choice of units does not matter.
         """
+        unit = self.release_timescale_mu
+
+        def integrand_in_units(release_timescale, *args):
+            return integrand(release_timescale * unit, *args) * unit
+
         return sum(
-            integrate.quad(integrand, limit_lower, limit_upper, args=args)[0]
-            for (limit_lower, limit_upper) in [
-                (0, self.release_timescale_mu),
-                (self.release_timescale_mu, np.inf),
-            ]
+            integrate.quad(integrand_in_units, limit_lower, limit_upper, args=args)[0]
+            for (limit_lower, limit_upper) in [(0, 1), (1, np.inf)]
         )
 
     def fill_fraction_from_time_elapsed(self, time_elapsed):
-- 
2.43.0


From efd5414f7715430e8161a0d59ef6c3688bb205cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 25/33] fix: find short elapsed times of a continuum of
 lifetimes to relative precision

---
 arcticpy/traps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 2349abf..3a2afa1 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -343,7 +343,9 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
         while find_time(time_elapsed_max) > 0:
             time_elapsed_max *= 2
 
-        time_elapsed = optimize.brentq(find_time, 0, time_elapsed_max)
+        time_elapsed = optimize.brentq(
+            find_time, 0, time_elapsed_max, xtol=2e-12 * self.release_timescale_mu
+        )
 
         # Check solution (seems to be slightly unreliable for very small sigmas)
         assert abs(find_time(time_elapsed)) < 1e-7
-- 
2.43.0


From 35b2fe77e3026f8383e7512310b4a373b7a073f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 26/33] fix: generate the clock sequence again when the number
 of steps is changed

---
 arcticpy/roe.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 7e2dbb0..1dd0ece 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -124,6 +124,7 @@ class ROEAbstract(object):
         if not isinstance(value, list):
             value = [value]
         self._dwell_times = value
+        self._update_clock_sequence()
 
     @property
     def n_steps(self):
@@ -141,6 +142,14 @@ class ROEAbstract(object):
         else:
             raise ValueError("express_matrix_dtype must be int or float")
 
+    def _update_clock_sequence(self):
+        """ Generate the clock sequence again if the number of steps changed. """
+        if len(getattr(self, "clock_sequence", [])) not in [0, self.n_steps]:
+            self.clock_sequence = self._generate_clock_sequence()
+            self.pixels_accessed_during_clocking = (
+                self._generate_pixels_accessed_during_clocking()
+            )
+
     def _generate_clock_sequence(self):
         """
         The state of the readout electronics at each step of a clocking sequence
@@ -813,6 +822,7 @@ class ROETrapPumping(ROEAbstract):
         )
         if (self.n_steps % 2) == 1:
             raise Exception("n_steps must be even for a complete trap pumping sequence")
+        self._update_clock_sequence()
 
     @property
     def n_phases(self):
-- 
2.43.0


From d8c5ce961cc402fb5a4e19dcd372714a0883c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 27/33] fix: draw Poisson trap densities without touching the
 global random generator

---
 arcticpy/traps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 3a2afa1..48dadc1 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -181,10 +181,10 @@ class Trap(object):
         seed : int
             The seed of the Poisson random number generator.
         """
-        np.random.seed(seed)
+        random_state = np.random.RandomState(seed)
         total_traps = tuple(map(lambda sp: sp.density * shape[0], trap))
         poisson_densities = [
-            np.random.poisson(total_traps) / shape[0] for _ in range(shape[1])
+            random_state.poisson(total_traps) / shape[0] for _ in range(shape[1])
         ]
         poisson_trap = []
         for densities in poisson_densities:
-- 
2.43.0


From b6b5a4f88000f0c204c244439ec8738e925d5985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 28/33] fix: ignore the invalid value of instant capture
 without changing the process-wide warning filters

---
 arcticpy/trap_managers.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 614e16f..acf68d8 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -2,7 +2,6 @@ import numpy as np
 from collections import UserList
 from scipy import integrate, optimize
 from copy import deepcopy
-import warnings
 from arcticpy.traps import (
     Trap,
     TrapLifetimeContinuumAbstract,
@@ -335,10 +334,7 @@ class TrapManager(object):
 
         # New fill fraction for empty traps (Eqn. 20)
         # Ignore unnecessary warning from instant capture
-        with warnings.catch_warnings():
-            warnings.filterwarnings(
-                "ignore", message="invalid value encountered in multiply"
-            )
+        with np.errstate(invalid="ignore"):
             fill_probabilities_from_empty = self.capture_rates * exponential_factor
         # Fix for instant capture
         fill_probabilities_from_empty[np.isnan(fill_probabilities_from_empty)] = 1
-- 
2.43.0


From 026646f48a89027e574864f27e2528497ed87932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 29/33] fix: reject an odd number of trap pumping steps before
 storing them

---
 arcticpy/roe.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 1dd0ece..4dd14ba 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -817,11 +817,9 @@ class ROETrapPumping(ROEAbstract):
         # Check that there are an even number of steps in a there-and-back clocking sequence
         if not isinstance(value, list):
             value = [value]
-        self._dwell_times = (
-            value  # This must go before the even check, because n_steps uses it.
-        )
-        if (self.n_steps % 2) == 1:
+        if (len(value) % 2) == 1:
             raise Exception("n_steps must be even for a complete trap pumping sequence")
+        self._dwell_times = value
         self._update_clock_sequence()
 
     @property
-- 
2.43.0


From 3a22dcb0c12e0168d160059f6b72735efd50f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 30/33] fix: do not share the lists of default settings between
 objects

---
 arcticpy/ccd.py | 10 +++++-----
 arcticpy/roe.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/arcticpy/ccd.py b/arcticpy/ccd.py
index 64875d6..c4d1dde 100644
--- a/arcticpy/ccd.py
+++ b/arcticpy/ccd.py
@@ -90,7 +90,7 @@ class CCD(object):
     @fraction_of_traps_per_phase.setter
     def fraction_of_traps_per_phase(self, value):
         if isinstance(value, list):
-            self._fraction_of_traps_per_phase = value
+            self._fraction_of_traps_per_phase = list(value)
         else:
             self._fraction_of_traps_per_phase = [
                 value
@@ -112,7 +112,7 @@ class CCD(object):
                 raise ValueError(
                     f"Incorrect number of phases ({len(value)}) in full_well_depth"
                 )
-            self._full_well_depth = value
+            self._full_well_depth = list(value)
         else:
             self._full_well_depth = [value] * self.n_phases
 
@@ -127,7 +127,7 @@ class CCD(object):
                 raise ValueError(
                     f"Incorrect number of phases ({len(value)}) in well_fill_power"
                 )
-            self._well_fill_power = value
+            self._well_fill_power = list(value)
         else:
             self._well_fill_power = [value] * self.n_phases
 
@@ -142,7 +142,7 @@ class CCD(object):
                 raise ValueError(
                     f"Incorrect number of phases ({len(value)}) in well_notch_depth"
                 )
-            self._well_notch_depth = value
+            self._well_notch_depth = list(value)
         else:
             self._well_notch_depth = [value] * self.n_phases
 
@@ -157,7 +157,7 @@ class CCD(object):
                 raise ValueError(
                     f"Incorrect number of phases ({len(value)}) in well_bloom_level"
                 )
-            self._well_bloom_level = value
+            self._well_bloom_level = list(value)
         else:
             if value is None:
                 self._well_bloom_level = list(self.full_well_depth)
diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 4dd14ba..5b5a2b5 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -123,7 +123,7 @@ class ROEAbstract(object):
         # Check that dwell_times is a list
         if not isinstance(value, list):
             value = [value]
-        self._dwell_times = value
+        self._dwell_times = list(value)
         self._update_clock_sequence()
 
     @property
@@ -819,7 +819,7 @@ class ROETrapPumping(ROEAbstract):
             value = [value]
         if (len(value) % 2) == 1:
             raise Exception("n_steps must be even for a complete trap pumping sequence")
-        self._dwell_times = value
+        self._dwell_times = list(value)
         self._update_clock_sequence()
 
     @property
-- 
2.43.0


From 7035586a33e6c5a2fb3efd798598eecfef70d0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:59 +0000
Subject: [PATCH 31/33] fix: accept numpy integers as single-pixel windows

---
 arcticpy/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arcticpy/main.py b/arcticpy/main.py
index 85980d3..f8fab36 100644
--- a/arcticpy/main.py
+++ b/arcticpy/main.py
@@ -156,11 +156,11 @@ def add_cti(
     # Default windows to the full image; convert single-pixel windows to ranges
     if parallel_window_range is None:
         parallel_window_range = range(n_rows_in_image)
-    elif isinstance(parallel_window_range, int):
+    elif isinstance(parallel_window_range, (int, np.integer)):
         parallel_window_range = range(parallel_window_range, parallel_window_range + 1)
     if serial_window_range is None:
         serial_window_range = range(n_columns_in_image)
-    elif isinstance(serial_window_range, int):
+    elif isinstance(serial_window_range, (int, np.integer)):
         serial_window_range = range(serial_window_range, serial_window_range + 1)
     if time_window_range is None:
         time_window_range = range(n_rows_in_image + parallel_offset)
-- 
2.43.0


From 84c276032741069d7be3106260fa56fd5d7d9879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 32/33] fix: integrate wide distributions of lifetimes
 accurately

The tails of distributions with sigma of 2 and more were missed (errors of 1e-3 for sigma 3): integrate in the logarithm of the lifetime.
---
 arcticpy/traps.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 48dadc1..39844b7 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -272,16 +272,21 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
         """ Integrate over all the release timescales.
 
         Split at the central value, so that a narrow distribution is not missed,
-        and in units of that value, so that the choice of units does not matter.
+        and in the logarithm of the timescales in units of that value, so that
+        the tails of a wide distribution are not missed either, and the choice
+        of units does not matter.
         """
         unit = self.release_timescale_mu
 
-        def integrand_in_units(release_timescale, *args):
-            return integrand(release_timescale * unit, *args) * unit
+        def integrand_in_log_units(log_release_timescale, *args):
+            release_timescale = unit * np.exp(log_release_timescale)
+            return integrand(release_timescale, *args) * release_timescale
+
+        limits = [-100, -10, 0, 10, 100]
 
         return sum(
-            integrate.quad(integrand_in_units, limit_lower, limit_upper, args=args)[0]
-            for (limit_lower, limit_upper) in [(0, 1), (1, np.inf)]
+            integrate.quad(integrand_in_log_units, limit_lower, limit_upper, args=args)[0]
+            for (limit_lower, limit_upper) in zip(limits[:-1], limits[1:])
         )
 
     def fill_fraction_from_time_elapsed(self, time_elapsed):
-- 
2.43.0


From 5e8457b4393c8d84fd4cf0474e335d829722cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 33/33] fix: keep to the rows of a window with steps in serial
 clocking with a time window

The intersection of the two windows took all rows between the first and the last.
---
 arcticpy/main.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/arcticpy/main.py b/arcticpy/main.py
index f8fab36..95e78d5 100644
--- a/arcticpy/main.py
+++ b/arcticpy/main.py
@@ -168,11 +168,9 @@ def add_cti(
         serial_window_column_range = parallel_window_range
     else:
         # Intersection of spatial and time windows for serial clocking
-        serial_window_column_range = range(
-            int(max(parallel_window_range[0], time_window_range[0] - parallel_offset)),
-            int(min(parallel_window_range[-1], time_window_range[-1] - parallel_offset))
-            + 1,
-        )
+        serial_window_column_range = [
+            row for row in parallel_window_range if row + parallel_offset in time_window_range
+        ]
 
     # Default ROE: simple, single-phase clocking in imaging mode
     if parallel_roe is None:
-- 
2.43.0


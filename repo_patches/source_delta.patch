From e4ab365ed58695683b022bfe48aa2092f73a1aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 01/33] fix: implement create_refined_grid_at in
 NearField2DSearchGrid

---
 doatools/estimation/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index de5e7a2..20750a9 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -414,7 +414,7 @@ class NearField2DSearchGrid(SearchGrid):
     def _create_source_placement(self):
         return NearField2DSourcePlacement(cartesian(*self._axes))
 
-    def create_refined_grids_at(self, coord, density=10, span=1):
+    def create_refined_grid_at(self, coord, density=10, span=1):
         """Creates a finer search grid for 2D near-field sources.
         
         Args:
-- 
2.43.0


From a0bf81bfc1d1f28cd7afa247cac6e1235ab66a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 02/33] fix: raise the intended ValueError for out-of-range 1D
 far-field locations

---
 doatools/model/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 8e619a6..06a451b 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -197,8 +197,8 @@ class FarField1DSourcePlacement(SourcePlacement):
         lb, ub = FarField1DSourcePlacement.VALID_RANGES[unit]
         if np.any(locations < lb) or np.any(locations > ub):
             raise ValueError(
-                "When unit is '{0}', source locations must be within [{0}, {1}]."
-                .format_map(unit, lb, ub)
+                "When unit is '{0}', source locations must be within [{1}, {2}]."
+                .format(unit, lb, ub)
             )
         super().__init__(locations, (unit,))
 
-- 
2.43.0


From 2953a5fb3270f8affdf63e70687335f3a5e20ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 03/33] fix: build a 1D axis for 1D far-field grids given as
 lists of ranges

---
 doatools/estimation/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index 20750a9..bce73ca 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -264,10 +264,10 @@ class FarField1DSearchGrid(SearchGrid):
                 locations = np.linspace(start, stop, size, endpoint=False)
             else:
                 n_points = sum(size)
-                locations = np.zeros((n_points, 1))
+                locations = np.zeros((n_points,))
                 offset = 0
                 for k in range(len(start)):
-                    locations[offset:offset+size[k], 0] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    locations[offset:offset+size[k]] = np.linspace(start[k], stop[k], size[k], endpoint=False)
             super().__init__((locations,), ('DOA',), (unit,))
     
     def _create_source_placement(self):
-- 
2.43.0


From cb63b7826d81d4bc38ce457c291204214daf6d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 04/33] fix: accept the documented 20-element minimum
 redundancy array

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 6d19a23..f9b5d4f 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -680,7 +680,7 @@ class MinimumRedundancyLinearArray(GridBasedArrayDesign):
     """
 
     def __init__(self, n, d0, name=None, **kwargs):
-        if n < 1 or n >= len(_MRLA_PRESETS):
+        if n < 1 or n > len(_MRLA_PRESETS):
             raise ValueError('The MRLA presets only support up to 20 elements.')
         if name is None:
             name = 'MRLA {0}'.format(n)
-- 
2.43.0


From a13ce58e324e69d847804ba2eb42b72dd4a756dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 05/33] fix: pass perturbations and element on in
 UniformCircularArray

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index f9b5d4f..612ced0 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -704,7 +704,7 @@ class UniformCircularArray(ArrayDesign):
         self._r = r
         theta = np.linspace(0., np.pi * (2.0 - 2.0 / n), n)
         locations = np.vstack((r * np.cos(theta), r * np.sin(theta))).T
-        super().__init__(locations, name)
+        super().__init__(locations, name, **kwargs)
 
     @property
     def radius(self):
-- 
2.43.0


From 42e211badfbeb18737c1a370a3bd9bb7499706b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 06/33] fix: accept list-like gain and phase errors

---
 doatools/model/perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 627b9d3..c795762 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -176,7 +176,7 @@ class GainErrors(ArrayPerturbation):
     """
     def __init__(self, gain_errors, known=False):
         if not isinstance(gain_errors, np.ndarray):
-            gain_erros = np.array(gain_errors)
+            gain_errors = np.array(gain_errors)
         if gain_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(gain_errors, known)
@@ -232,7 +232,7 @@ class PhaseErrors(ArrayPerturbation):
     """
     def __init__(self, phase_errors, known=False):
         if not isinstance(phase_errors, np.ndarray):
-            gain_erros = np.array(phase_errors)
+            phase_errors = np.array(phase_errors)
         if phase_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(phase_errors, known)
-- 
2.43.0


From 9763260531b159dcf536127929ae9d79f30815f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 07/33] fix: reject non-square mutual coupling matrices

---
 doatools/model/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index c795762..92a8b65 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -290,7 +290,7 @@ class MutualCoupling(ArrayPerturbation):
     def __init__(self, C, known=False):
         if not isinstance(C, np.ndarray):
             C = np.array(C)
-        if C.ndim != 2 and C.shape[0] != C.shape[1]:
+        if C.ndim != 2 or C.shape[0] != C.shape[1]:
             raise ValueError('Expecting a square matrix.')
         super().__init__(C, known)
 
-- 
2.43.0


From 8af3ac1e067701d77895953beb9ee967b0a5d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 08/33] fix: return the documented tuple from
 ArrayPerturbation.is_applicable_to

---
 doatools/model/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 92a8b65..2478317 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -41,7 +41,7 @@ class ArrayPerturbation:
             applicable. The second element is a string describing why this
             perturbation is not applicable.
         """
-        return True
+        return True, ''
 
     def perturb_sensor_locations(self, locations):
         """Perturbs the given sensor locations.
-- 
2.43.0


From b5d789be7de8423019421e451ceceae2b7f27292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 09/33] fix: support scalar amplitudes in RandomPhaseSignal

---
 doatools/model/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/signals.py b/doatools/model/signals.py
index a2282cd..946d4a0 100644
--- a/doatools/model/signals.py
+++ b/doatools/model/signals.py
@@ -93,7 +93,7 @@ class RandomPhaseSignal(SignalGenerator):
     def __init__(self, dim, amplitudes=1.0):
         self._dim = dim
         if np.isscalar(amplitudes):
-            self._amplitudes = np.full(amplitudes, (dim, 1))
+            self._amplitudes = np.full((dim, 1), amplitudes)
         else:
             if amplitudes.size != dim:
                 raise ValueError("The size of 'amplitudes' does not match the value of 'dim'.")
-- 
2.43.0


From a64897e163f5f9c995ac911577f5f86e0eb068e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 10/33] fix: reject non-square covariance matrices

---
 doatools/estimation/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 09deb3b..5c94bec 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -10,7 +10,7 @@ def ensure_covariance_size(R, array):
     m = array.size
     if R.ndim != 2:
         raise ValueError('Expecting a matrix.')
-    if R.shape[0] != m or R.shape[0] != m:
+    if R.shape[0] != m or R.shape[1] != m:
         raise ValueError(
             'The shape of the covariance matrix does not match the array size.'
             'Expected shape is {0}. Got {1}'
-- 
2.43.0


From e27786f96410d6bf5e812597155119490c221388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 11/33] fix: do not weight overlapping ESPRIT subarrays
 in-place

---
 doatools/estimation/esprit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/esprit.py b/doatools/estimation/esprit.py
index ac70c2b..4449d8c 100644
--- a/doatools/estimation/esprit.py
+++ b/doatools/estimation/esprit.py
@@ -121,8 +121,9 @@ class Esprit1D:
         Es2 = Es[displacement:, :]
         # Apply row weights.
         if row_weights is not None:
-            Es1 *= row_weights[:, np.newaxis]
-            Es2 *= row_weights[:, np.newaxis]
+            # Es1 and Es2 overlap in Es, so they cannot be weighted in-place.
+            Es1 = Es1 * row_weights[:, np.newaxis]
+            Es2 = Es2 * row_weights[:, np.newaxis]
         # Estimate the rotation matrix.
         if formulation == 'tls':
             # Total least-squares
-- 
2.43.0


From e0105a16245d8ade69df8391c11480d647c1de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 12/33] fix: draw 1D spectra on the given axes

---
 doatools/plotting/plot_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doatools/plotting/plot_spectrum.py b/doatools/plotting/plot_spectrum.py
index 2d6829f..3743bde 100644
--- a/doatools/plotting/plot_spectrum.py
+++ b/doatools/plotting/plot_spectrum.py
@@ -92,9 +92,9 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
             plot_containers.append(container_sp)
         else:
             if use_log_scale:
-                plot_containers.append(plt.semilogy(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.semilogy(x, y, '-', label=label, color=color))
             else:
-                plot_containers.append(plt.plot(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.plot(x, y, '-', label=label, color=color))
     # Plot estimates
     if estimates is not None:
         if estimates.units != grid.units:
@@ -122,7 +122,7 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
     ax.margins(x=0)
     # Set up y-axis
     if not use_log_scale:
-        ax.set_ylim((0, plt.ylim()[1]))
+        ax.set_ylim((0, ax.get_ylim()[1]))
     ax.set_ylabel('Normalized spectrum')
     # Show the legend.
     if has_legend:
-- 
2.43.0


From 6bd7504b69c46d866c8a89bd9fff8e3e764a0844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 13/33] fix: show location errors in array plots when requested

---
 doatools/plotting/plot_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doatools/plotting/plot_array.py b/doatools/plotting/plot_array.py
index 325c04e..0df0adf 100644
--- a/doatools/plotting/plot_array.py
+++ b/doatools/plotting/plot_array.py
@@ -2,6 +2,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
 import warnings
+from ..model.perturbations import LocationErrors
 from ..model.coarray import compute_unique_location_differences
 
 def _auto_scatter(ax, x, *args, **kwargs):
@@ -41,7 +42,7 @@ def _fix_3d_aspect(ax):
 
 def _plot_array_impl(array, ax=None, coarray=False, show_location_errors=False):
     """Internal implementation for plotting arrays."""
-    if not array.has_perturbation('location_errors') and show_location_errors:
+    if not array.has_perturbation(LocationErrors) and show_location_errors:
         warnings.warn(
             'The input array does not have location errors.'
             'Visualization of location errors is disabled.'
-- 
2.43.0


From 927262d9b7519d24b69b1accecd7f26b150b9e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 14/33] fix: use the array spacing for the virtual array in
 ecov_coarray_music_1d

---
 doatools/performance/mse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/mse.py b/doatools/performance/mse.py
index aece6fa..bdb080c 100644
--- a/doatools/performance/mse.py
+++ b/doatools/performance/mse.py
@@ -133,7 +133,7 @@ def ecov_coarray_music_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     A = array.steering_matrix(sources, wavelength)
     R_ideal = (A * p) @ A.conj().T + sigma * np.eye(m)
     # Compute virtual array related variable.
-    arr_virtual = UniformLinearArray(m_v, wavelength / 2.0)
+    arr_virtual = UniformLinearArray(m_v, array.d0)
     Av, DAv = arr_virtual.steering_matrix(sources, wavelength, True)
     Rss_ideal = (Av * p) @ Av.conj().T + sigma * np.eye(m_v)
     # Construct the subarray selection matrices.
-- 
2.43.0


From 2f6c52313efd748aacfa8bddea839ee431ae834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 15/33] fix: do not report peaks for flat 2D spectra

---
 doatools/estimation/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 5c94bec..634e853 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -32,7 +32,8 @@ def find_peaks_simple(x):
     else:
         # Use maximum filter for peak finding.
         y = maximum_filter(x, 3)
-        return np.where(x == y)
+        # A flat region at the very bottom is not a peak.
+        return np.where((x == y) & (x > x.min()))
 
 def get_noise_subspace(R, k):
     """
-- 
2.43.0


From 7f1c8794be7690533719bb020545abbfac84ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 16/33] fix: do not expose internal storage in
 actual_element_locations

---
 doatools/model/arrays.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 612ced0..f3c0062 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -131,6 +131,8 @@ class ArrayDesign:
         locations = self._locations
         for p in self._perturbations.values():
             locations = p.perturb_sensor_locations(locations)
+        if locations is self._locations:
+            locations = locations.copy()
         return locations
 
     @property
-- 
2.43.0


From 99294779614a98375a98ed2394f4201d23587e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 17/33] fix: account for vector sensors in
 ArrayDesign.output_size

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index f3c0062..f7c1366 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -105,7 +105,7 @@ class ArrayDesign:
         In generate, the output size should be equal to ``size``. However, for
         vector sensor arrays, the output size is greater than the array size.
         """
-        return self.size
+        return self.size * self._element.output_size
     
     @property
     def element_locations(self):
-- 
2.43.0


From edcdb515cfdc8bc6d37a51685838181b09aa1399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 18/33] fix: report unresolved when ESPRIT/root-MUSIC roots are
 not physical directions

---
 doatools/estimation/core.py   | 14 ++++++++++++++
 doatools/estimation/esprit.py |  4 +++-
 doatools/estimation/music.py  |  5 ++++-
 doatools/model/sources.py     |  3 +++
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 634e853..8b09333 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -25,6 +25,20 @@ def ensure_n_resolvable_sources(k, max_k):
             .format(max_k)
         )
 
+def are_roots_visible(z, wavelength, d0):
+    """Checks if every root corresponds to a real direction.
+
+    When the spacing is smaller than half of the wavelength, roots whose phases
+    are too large do not correspond to any physical direction.
+
+    Args:
+        z: Roots.
+        wavelength: Wavelength of the carrier wave.
+        d0: Inter-element spacing of the uniform linear array.
+    """
+    c = 2 * np.pi * d0 / wavelength
+    return np.all(np.abs(np.angle(z)) <= c * (1.0 + 1e-12))
+
 def find_peaks_simple(x):
     if x.ndim == 1:
         # Delegate to scipy's peak finder.
diff --git a/doatools/estimation/esprit.py b/doatools/estimation/esprit.py
index 4449d8c..f19e4f0 100644
--- a/doatools/estimation/esprit.py
+++ b/doatools/estimation/esprit.py
@@ -1,6 +1,6 @@
 import numpy as np
 from ..model.sources import FarField1DSourcePlacement
-from .core import ensure_n_resolvable_sources
+from .core import ensure_n_resolvable_sources, are_roots_visible
 
 def get_default_row_weights(m):
     """Gets the default row weights for the ESPRIT estimator.
@@ -143,4 +143,6 @@ class Esprit1D:
             raise ValueError("Formulation must be either 'ls' or 'tls'.")
         # Recover the DOAs.
         z = np.linalg.eigvals(Phi)
+        if not are_roots_visible(z, self._wavelength, d0 * displacement):
+            return False, None
         return True, FarField1DSourcePlacement.from_z(z, self._wavelength, d0 * displacement, unit)
diff --git a/doatools/estimation/music.py b/doatools/estimation/music.py
index 00f960e..ea548e7 100644
--- a/doatools/estimation/music.py
+++ b/doatools/estimation/music.py
@@ -4,7 +4,8 @@ from scipy.signal import find_peaks
 import warnings
 from ..model.sources import FarField1DSourcePlacement
 from .core import SpectrumBasedEstimatorBase, get_noise_subspace, \
-                  ensure_covariance_size, ensure_n_resolvable_sources
+                  ensure_covariance_size, ensure_n_resolvable_sources, \
+                  are_roots_visible
 
 def f_music(A, En):
     r"""Computes the classical MUSIC spectrum
@@ -185,4 +186,6 @@ class RootMUSIC1D:
             return False, None
         else:
             z = z[sorted_indices[:k]]
+            if not are_roots_visible(z, self._wavelength, d0):
+                return False, None
             return True, FarField1DSourcePlacement.from_z(z, self._wavelength, d0, unit)
diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 06a451b..293ba35 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -220,7 +220,10 @@ class FarField1DSourcePlacement(SourcePlacement):
             :class:`~doatools.model.sources.FarField1DSourcePlacement`.
         """
         c = 2 * np.pi * d0 / wavelength
+        # The clipping only removes the rounding errors at the end-fire.
         sin_vals = np.angle(z) / c
+        sin_vals[(sin_vals > 1.0) & (sin_vals <= 1.0 + 1e-12)] = 1.0
+        sin_vals[(sin_vals < -1.0) & (sin_vals >= -1.0 - 1e-12)] = -1.0
         if unit == 'sin':
             sin_vals.sort()
             return FarField1DSourcePlacement(sin_vals, 'sin')
-- 
2.43.0


From 0cf991e1792a97f3ee9b60ae50cd26133634ac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 19/33] fix: place every range of a list-based 1D far-field
 grid after the previous one

---
 doatools/estimation/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index bce73ca..fc9b092 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -268,6 +268,7 @@ class FarField1DSearchGrid(SearchGrid):
                 offset = 0
                 for k in range(len(start)):
                     locations[offset:offset+size[k]] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    offset += size[k]
             super().__init__((locations,), ('DOA',), (unit,))
     
     def _create_source_placement(self):
-- 
2.43.0


From 8700caf7f313670e5aa197ac13dc75ea6ef05e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 20/33] fix: store source locations given as integers in
 floating point

---
 doatools/model/sources.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 293ba35..0f53f02 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -17,6 +17,9 @@ class SourcePlacement(ABC):
     """
 
     def __init__(self, locations, units):
+        # Estimators update locations in-place, which requires floating point.
+        if np.issubdtype(locations.dtype, np.integer):
+            locations = locations.astype(np.float64)
         self._locations = locations
         self._units = units
 
-- 
2.43.0


From dcf611aeb99c208c2f61219455ea14cf869567fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:57 +0000
Subject: [PATCH 21/33] fix: name the virtual ULA of an unnamed array

---
 doatools/estimation/coarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/coarray.py b/doatools/estimation/coarray.py
index ee9d3e5..31a6110 100644
--- a/doatools/estimation/coarray.py
+++ b/doatools/estimation/coarray.py
@@ -51,7 +51,7 @@ class CoarrayACMBuilder1D:
             corresponding to the augmented covariance matrix.
         """
         if name is None:
-            name = 'Virtual ULA of ' + self._array.name
+            name = 'Virtual ULA of ' + (self._array.name or 'unnamed array')
         return UniformLinearArray(self.output_size, self._array.d0, name)
 
     def transform(self, R, method='ss'):
-- 
2.43.0


From 49fe825de2e7ad55481401a0c34fbca21e441ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 22/33] fix: do not return stale solutions when an l1 problem
 is reused

With warm starting (the default in cvxpy), solving a 'constrainedl1' problem
again after changing only l makes OSQP reject the update of its bounds and
silently return the solution for the previous l.
---
 doatools/optim/l1lsq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doatools/optim/l1lsq.py b/doatools/optim/l1lsq.py
index 00ea66a..7f40d45 100644
--- a/doatools/optim/l1lsq.py
+++ b/doatools/optim/l1lsq.py
@@ -111,6 +111,9 @@ class L1RegularizedLeastSquaresProblem:
         self._A.value = A
         self._b.value = b
         self._l.value = l
+        # When warm started, OSQP may reject the in-place update of its bounds,
+        # in which case the solution of the previous problem is returned.
+        kwargs.setdefault('warm_start', False)
         self._problem.solve(**kwargs)
         if self._problem.status != 'optimal':
             warnings.warn('Optimal solution cannot be obtained.')
-- 
2.43.0


From 7a5de6d36251cae48f0f34c0767a28ba4e784391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 23/33] fix: emit signals with singular covariance matrices
 correctly

scipy.linalg.sqrtm is inaccurate for some singular matrices: five fully
coherent unit-power sources were emitted with a 12% error in power.
---
 doatools/model/signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doatools/model/signals.py b/doatools/model/signals.py
index 946d4a0..147a7bd 100644
--- a/doatools/model/signals.py
+++ b/doatools/model/signals.py
@@ -1,6 +1,5 @@
 from abc import ABC, abstractmethod
 import numpy as np
-from scipy.linalg import sqrtm
 from ..utils.math import randcn
 
 class SignalGenerator(ABC):
@@ -60,7 +59,10 @@ class ComplexStochasticSignal(SignalGenerator):
             # Matrix
             if C.shape[0] != dim or C.shape[1] != dim:
                 raise ValueError('The shape of C must be ({0}, {0}).'.format(dim))
-            self._C2 = sqrtm(C)
+            # Hermitian square root. Unlike the general purpose sqrtm, it is
+            # also accurate when C is singular (e.g., for coherent sources).
+            w, V = np.linalg.eigh(C)
+            self._C2 = (V * np.sqrt(np.maximum(w, 0.0))) @ V.conj().T
             self._generator = lambda n: self._C2 @ randcn((self._dim, n))
         else:
             raise ValueError(
-- 
2.43.0


From cc6324633f6cd73137a5ca5d6783c824cb615c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 24/33] fix: compute the AIC/MDL statistic without overflow or
 underflow

The product of the eigenvalues underflows for, e.g., 64 sensors with a noise
variance of 1e-6, and overflows for integer eigenvalues.
---
 doatools/estimation/source_number.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doatools/estimation/source_number.py b/doatools/estimation/source_number.py
index d11dfd8..44a4da9 100644
--- a/doatools/estimation/source_number.py
+++ b/doatools/estimation/source_number.py
@@ -18,7 +18,8 @@ def ld_stat(l, n_sources, n_snapshots):
     n_sensors = l.size
     diff = n_sensors - n_sources
     l = l[:diff]
-    return n_snapshots * diff * log(np.sum(l) / diff / (np.prod(l)**(1./diff)))
+    # The product of the eigenvalues can easily overflow or underflow.
+    return n_snapshots * diff * (np.log(np.sum(l) / diff) - np.sum(np.log(l)) / diff)
 
 def aic(x, n_snapshots):
     """Detects source numbers using AIC.
-- 
2.43.0


From fc6629d09b608a122bcece8e8f912affddc3849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 25/33] fix: make SORTE independent of the scale of the
 eigenvalues

Variances were compared with an absolute threshold, so that one source was
always reported when the eigenvalues were small.
---
 doatools/estimation/source_number.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/doatools/estimation/source_number.py b/doatools/estimation/source_number.py
index 44a4da9..abd573b 100644
--- a/doatools/estimation/source_number.py
+++ b/doatools/estimation/source_number.py
@@ -89,8 +89,11 @@ def sorte(x):
     diffs = x[:-1] - x[1:]
     sigmas = [np.var(diffs[k:]) for k in range(n - 1)]
     s = np.zeros((n - 2,))
+    # A variance is zero if it is not larger than what rounding errors in the
+    # eigenvalues can cause.
+    tol = (n * np.finfo(np.float_).eps * np.max(np.abs(x)))**2
     for k in range(n - 2):
-        if np.abs(sigmas[k]) < np.finfo(np.float_).eps:
+        if np.abs(sigmas[k]) <= tol:
             s[k] = np.inf
         else:
             s[k] = sigmas[k + 1] / sigmas[k]
-- 
2.43.0


From 03ed9936b6c3bbd9ef1d2b628976a18fc687ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 26/33] fix: use |a_i^H R^-1 a_j|^2 for the power block of the
 uncorrelated stochastic CRB

---
 doatools/performance/crb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/crb.py b/doatools/performance/crb.py
index dbb6809..9351c10 100644
--- a/doatools/performance/crb.py
+++ b/doatools/performance/crb.py
@@ -216,7 +216,7 @@ def crb_stouc_farfield_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     ARA = A_H @ R_inv @ A
     PP = np.outer(p, p)
     FIM_tt = 2.0 * ((DRD.T * ARA + DRA.conj() * ARD) * PP).real
-    FIM_pp = (ARA.conj().T * ARA).real
+    FIM_pp = (ARA.conj() * ARA).real
     R_inv2 = R_inv @ R_inv
     FIM_ss = np.trace(R_inv2).real
     # diag(A @ B) = np.sum(A^T * B, axis=0, keepdims=True)
-- 
2.43.0


From 01afbbcfb1e5e12b7aa3009d3873f9e12560f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 27/33] fix: add the colorbar of a 2D spectrum through the
 figure of the given axes

---
 doatools/plotting/plot_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/plotting/plot_spectrum.py b/doatools/plotting/plot_spectrum.py
index 3743bde..622d4e4 100644
--- a/doatools/plotting/plot_spectrum.py
+++ b/doatools/plotting/plot_spectrum.py
@@ -180,7 +180,7 @@ def plot_spectrum_2d(sp, grid, ax, estimates=None, ground_truth=None,
     if use_log_scale:
         plot_args['norm'] = LogNorm()
     containers.append(ax.imshow(sp, **plot_args))
-    plt.colorbar(containers[0], ax=ax)
+    ax.figure.colorbar(containers[0], ax=ax)
     ax.set_xlabel(x_label)
     ax.set_ylabel(y_label)
     if estimates is not None:
-- 
2.43.0


From b15f789a4628160e3e1feff70c3a710a66a75d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 28/33] fix: support integer sensor locations and location
 errors

---
 doatools/model/perturbations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 2478317..04105fc 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -151,16 +151,18 @@ class LocationErrors(ArrayPerturbation):
     def perturb_sensor_locations(self, locations):
         array_dim = locations.shape[1]
         loc_err_dim = self._params.shape[1]
+        # Either of them may consist of integers.
+        dtype = np.result_type(locations, self._params)
         if loc_err_dim <= array_dim:
             # It is possible that the location errors only exist along the
             # first one or two axis.
-            perturbed_locations = locations.copy()
+            perturbed_locations = locations.astype(dtype)
             perturbed_locations[:, :loc_err_dim] += self._params
         else:
             # Actual dimension is higher. For instance, this can happen if a
             # linear array, which is 1D, has location errors along both
             # x- and y-axis.
-            perturbed_locations = self._params.copy()
+            perturbed_locations = self._params.astype(dtype)
             perturbed_locations[:, :array_dim] += locations
         return perturbed_locations
 
-- 
2.43.0


From efdb27d5bf3df363f2f72a877ea664deb53399b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:43 +0000
Subject: [PATCH 29/33] fix: do not let rounding on the unit circle make
 root-MUSIC drop roots

---
 doatools/estimation/music.py | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/doatools/estimation/music.py b/doatools/estimation/music.py
index ea548e7..32114b8 100644
--- a/doatools/estimation/music.py
+++ b/doatools/estimation/music.py
@@ -158,29 +158,11 @@ class RootMUSIC1D:
         # Find the roots of the polynomial.
         z = np.roots(coeff)
         # Find k points inside the unit circle that are also closest to the unit
-        # circle.
-        nz = len(z)
-        mask = np.ones((nz,), dtype=np.bool_)
-        for i in range(nz):
-            absz = abs(z[i])
-            if absz > 1.0:
-                # Outside the unit circle.
-                mask[i] = False
-            elif absz == 1.0:
-                # On the unit circle. Need to find the closest point and remove
-                # it.
-                idx = -1
-                dist = np.inf
-                for j in range(nz):
-                    if j != i and mask[j]:
-                        cur_dist = abs(z[i] - z[j])
-                        if cur_dist < dist:
-                            dist = cur_dist
-                            idx = j
-                if idx < 0:
-                    raise RuntimeError('Unpaired point found on the unit circle, which is impossible.')
-                mask[idx] = False
-        z = z[mask]
+        # circle. The roots appear in conjugate reciprocal pairs, and the inner
+        # m - 1 ones consist of one root from each pair. Comparing with 1.0 is
+        # not reliable because both roots of a pair lie on the unit circle if R
+        # is noise-free, and may be rounded to the same side.
+        z = z[np.argsort(np.abs(z))[:m - 1]]
         sorted_indices = np.argsort(1.0 - np.abs(z))
         if len(z) < k:
             return False, None
-- 
2.43.0


From a1be50df2e3ce0120b027a7289b5a0b6f83b0954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:16 +0000
Subject: [PATCH 30/33] fix: let spatial_smooth accept integer covariance
 matrices

---
 doatools/estimation/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/preprocessing.py b/doatools/estimation/preprocessing.py
index d8002b7..befa811 100644
--- a/doatools/estimation/preprocessing.py
+++ b/doatools/estimation/preprocessing.py
@@ -32,7 +32,7 @@ def spatial_smooth(R, l, fb=False):
     Rf = R[:m-l+1, :m-l+1].copy()
     for i in range(1, l):
         Rf += R[i:i+m-l+1, i:i+m-l+1]
-    Rf /= l
+    Rf = Rf / l
     if not fb:
         return Rf
     
-- 
2.43.0


From 43b0e447c683a09c5df1c86908bbe5f0eed334da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:16 +0000
Subject: [PATCH 31/33] fix: keep the elements of 3D arrays in view

The axes limits were scaled instead of widened around their centers. Arrays that
are not located at the origin were drawn outside of the visible region.
---
 doatools/plotting/plot_array.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/doatools/plotting/plot_array.py b/doatools/plotting/plot_array.py
index 0df0adf..da61660 100644
--- a/doatools/plotting/plot_array.py
+++ b/doatools/plotting/plot_array.py
@@ -31,11 +31,10 @@ def _fix_3d_aspect(ax):
     if max_range == 0:
         return
     # Force similar ranges and re-scales the view.
+    # The limits are widened around their centers to keep the elements visible.
     for i in range(3):
-        if ranges[i] == 0:
-            limits[i] = [-max_range / 2.0, max_range / 2.0]
-        else:
-            limits[i] = [limits[i][0] * max_range / ranges[i], limits[i][1] * max_range / ranges[i]]
+        center = (limits[i][0] + limits[i][1]) / 2.0
+        limits[i] = [center - max_range / 2.0, center + max_range / 2.0]
     # This method is not documented but judging from its source it should do
     # the job for us.
     ax.auto_scale_xyz(limits[0], limits[1], limits[2])
-- 
2.43.0


From 3a11fea56aafb76fb6dffe40a3a4f8b3dc59604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:05 +0000
Subject: [PATCH 32/33] fix: reject source counts below one

---
 doatools/estimation/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 8b09333..569c4da 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -19,6 +19,8 @@ def ensure_covariance_size(R, array):
 
 def ensure_n_resolvable_sources(k, max_k):
     """Checks if the number of expected sources exceeds the maximum resolvable sources."""
+    if k < 1:
+        raise ValueError('At least one source is expected.')
     if k > max_k:
         raise ValueError(
             'Too many sources. Maximum number of resolvable sources is {0}'
@@ -171,6 +173,8 @@ class SpectrumBasedEstimatorBase(ABC):
                 specified search grid, consisting of values evaluated at the
                 grid points. Only present if `return_spectrum` is True.
         """
+        if k < 1:
+            raise ValueError('At least one source is expected.')
         sp = f_sp(self._get_atom_matrix())
         # Restores the shape of the spectrum.
         sp = sp.reshape(self._search_grid.shape)
-- 
2.43.0


From c0f8e0871a65ab78fef103f98e25dba2dab8a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:39 +0000
Subject: [PATCH 33/33] fix: do not report small covariances as infinitely
 unlikely

The determinant of a covariance matrix can be smaller than one; f_nll_stouc
returned inf then, and a complex number otherwise.
---
 doatools/estimation/ml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/ml.py b/doatools/estimation/ml.py
index ac7bfcd..1f8b121 100644
--- a/doatools/estimation/ml.py
+++ b/doatools/estimation/ml.py
@@ -11,9 +11,10 @@ def f_nll_stouc(R, array, sources, wavelength, p, sigma):
     A = array.steering_matrix(sources, wavelength)
     S = (A * p) @ A.conj().T + sigma * np.eye(array.size)
     sgn, logdet = np.linalg.slogdet(S)
-    if sgn < 0 or logdet < 0:
+    # Note: the determinant of a covariance matrix can be less than one.
+    if sgn <= 0:
         return np.Inf
-    return logdet + np.trace(np.linalg.solve(S, R))
+    return logdet + np.trace(np.linalg.solve(S, R)).real
 
 class CovarianceBasedMLEstimator(ABC):
     """Abstract base class for covariance based maximum-likelihood estimators.
-- 
2.43.0


From 76a07a61ef539639620018ba4f419d668af9b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 01/58] fix: convert delta values into the requested delta
 range
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The lower bound was added instead of subtracted before the modulo, so every
range whose lower bound is not a multiple of 180° was off by a constant and
(0, 180) was not folded.
---
 src/elli/result.py | 30 +++++++++++-------------------
 src/elli/utils.py  |  6 +++++-
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 51eb512..834cf32 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -29,7 +29,7 @@ import numpy as np
 import numpy.typing as npt
 from numpy.lib.scimath import sqrt
 
-from .utils import DeltaRange
+from .utils import DeltaRange, convert_delta_range
 
 
 def _convert_index(index: str) -> int:
@@ -112,10 +112,7 @@ class Result:
         .. math::
             \rho = \tan \psi \exp(-i \Delta)
         """
-        return (
-            np.mod(-np.angle(self.rho, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._convert_delta(-np.angle(self.rho, deg=True))
 
     @property
     def delta_t(self) -> npt.NDArray:
@@ -126,10 +123,7 @@ class Result:
         .. math::
             \rho_\text{t} = \tan \psi_\text{t} \exp(-i \Delta_\text{t})
         """
-        return (
-            np.mod(-np.angle(self.rho_t, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._convert_delta(-np.angle(self.rho_t, deg=True))
 
     @property
     def rho_matrix(self) -> npt.NDArray:
@@ -197,10 +191,7 @@ class Result:
             \Delta_\text{pp} & \Delta_\text{ps} \\ \Delta_\text{sp} & 0°
             \end{bmatrix}
         """
-        return (
-            np.mod(-np.angle(self.rho_matrix, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._convert_delta(-np.angle(self.rho_matrix, deg=True))
 
     @property
     def delta_matrix_t(self) -> npt.NDArray:
@@ -212,12 +203,7 @@ class Result:
             \Delta_\text{t,pp} & \Delta_\text{t,ps} \\ \Delta_\text{t,sp} & 0°
             \end{bmatrix}
         """
-        return (
-            np.mod(
-                -np.angle(self.rho_matrix_t, deg=True) + self._delta_range.lower, 360
-            )
-            + self._delta_range.lower
-        )
+        return self._convert_delta(-np.angle(self.rho_matrix_t, deg=True))
 
     @property
     def mueller_matrix(self) -> npt.NDArray:
@@ -367,6 +353,12 @@ class Result:
         else:
             self._power_correction = power_correction
 
+    def _convert_delta(self, delta: npt.NDArray) -> npt.NDArray:
+        """Converts delta values to the delta range of this result."""
+        return convert_delta_range(
+            delta, self._delta_range.lower, self._delta_range.upper
+        )
+
     def get(self, name: str) -> npt.NDArray:
         """Return the data for the requested variable 'name'.
 
diff --git a/src/elli/utils.py b/src/elli/utils.py
index 85f4cd2..d685b15 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -50,7 +50,11 @@ def convert_delta_range(
         npt.ArrayLike: Delta values with shifted range.
     """
     delta_range = DeltaRange(lower, upper)
-    return np.mod((delta_values + delta_range.lower), 360) + delta_range.lower
+    delta_values = np.mod((delta_values - delta_range.lower), 360) + delta_range.lower
+    if (delta_range.lower, delta_range.upper) == (0, 180):
+        # The sign of delta is lost in this range: 360° - delta is the same state
+        delta_values = 180 - np.abs(180 - delta_values)
+    return delta_values
 
 
 def calc_pseudo_diel(rho, angle: float, output: str = "eps") -> pd.DataFrame:
-- 
2.43.0


From 85bbc42aa9b719f3ee4af1f1459b62990f54008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 02/58] fix: Result.get returns the requested data

Result has no __getitem__, so every call of the documented get method raised a
TypeError.
---
 src/elli/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 834cf32..d5d5425 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -376,7 +376,7 @@ class Result:
         Returns:
             npt.NDArray: Array of data.
         """
-        return self[name]
+        return getattr(self, name)
 
     def __getattr__(self, name: str) -> npt.NDArray:
         """Return the data for the requested variable 'name'.
-- 
2.43.0


From bdfc1a9c2712d0c2a883b751768f316195ec631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 03/58] fix: isotropic Mueller matrix from psi/delta
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Psi and delta are given in degrees, and C and S are sin(2Ψ)cos(Δ) and
sin(2Ψ)sin(Δ); the angles were used as radians, delta was doubled and S was
calculated from the cosine.
---
 src/elli/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index d685b15..2a227e9 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -152,12 +152,12 @@ def convert_psi_delta_to_isotropic_mueller_matrix(psi_delta_df) -> pd.DataFrame:
     # fill in the Mueller matrix coefficients for an isotropic material based equation in https://www.jawoollam.com/resources/ellipsometry-faq#toggle-id-15
     for aoi in aois:
         for λ in wavelengths:
-            Δ = psi_delta_df.loc[aoi, λ]["Δ"]
-            Ψ = psi_delta_df.loc[aoi, λ]["Ψ"]
+            Δ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Δ"])
+            Ψ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Ψ"])
 
             N = np.cos(2 * Ψ)
-            C = np.sin(2 * Ψ) * np.cos(2 * Δ)
-            S = np.sin(2 * Ψ) * np.cos(2 * Δ)
+            C = np.sin(2 * Ψ) * np.cos(Δ)
+            S = np.sin(2 * Ψ) * np.sin(Δ)
 
             MM.loc[(aoi, λ), "M11"] = 1
             MM.loc[(aoi, λ), "M12"] = -N
-- 
2.43.0


From aedf22a8a76a42ac9f694fada4a33353ccfbf3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:35 +0000
Subject: [PATCH 04/58] fix: sign of the circular components of Mueller matrix
 and Stokes vector

With rho = tan(psi) exp(-i delta) the fourth Stokes component is 2 Im(Ep Es*).
The old sign belongs to the exp(+i delta) convention, so M34 and M43 of the
model had the opposite sign of measured Mueller matrices (e.g. the SiO2/Si
example) and of convert_psi_delta_to_isotropic_mueller_matrix.
---
 src/elli/experiment.py | 4 ++--
 src/elli/result.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elli/experiment.py b/src/elli/experiment.py
index e7f5fd6..b0fe418 100644
--- a/src/elli/experiment.py
+++ b/src/elli/experiment.py
@@ -99,7 +99,7 @@ class Experiment:
                     * np.real(
                         self.jones_vector[0] * np.conjugate(self.jones_vector[1])
                     ),
-                    -2
+                    2
                     * np.imag(
                         self.jones_vector[0] * np.conjugate(self.jones_vector[1])
                     ),
@@ -126,7 +126,7 @@ class Experiment:
                 b = 1
             else:
                 a = np.sqrt((1 + Q) / 2)
-                b = U / (2 * a) + 1j * V / (2 * a)
+                b = U / (2 * a) - 1j * V / (2 * a)
 
             self.jones_vector = np.array([a, b])
 
diff --git a/src/elli/result.py b/src/elli/result.py
index d5d5425..1c5fe47 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -208,7 +208,7 @@ class Result:
     @property
     def mueller_matrix(self) -> npt.NDArray:
         """Returns the Mueller matrix for reflection, calculated from the rho matrix."""
-        a = np.array([[1, 0, 0, 1], [1, 0, 0, -1], [0, 1, 1, 0], [0, 1j, -1j, 0]])
+        a = np.array([[1, 0, 0, 1], [1, 0, 0, -1], [0, 1, 1, 0], [0, -1j, 1j, 0]])
 
         # Kronecker product of S and S*
         s_kron_s_star = np.einsum(
-- 
2.43.0


From bf24173c279de92b0e77a4ea3cda7bd9ce52418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 05/58] fix: Jones vector of (nearly) vertically polarized
 Stokes vectors

Rounding of the normalized component Q below -1 gave a NaN Jones vector, and
rounding it above -1 gave horizontal instead of vertical polarization.
---
 src/elli/experiment.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/elli/experiment.py b/src/elli/experiment.py
index b0fe418..e40db8a 100644
--- a/src/elli/experiment.py
+++ b/src/elli/experiment.py
@@ -121,12 +121,9 @@ class Experiment:
             U = self.stokes_vector[2] / (self.stokes_vector[0] * p)
             V = self.stokes_vector[3] / (self.stokes_vector[0] * p)
 
-            if Q == -1:
-                a = 0
-                b = 1
-            else:
-                a = np.sqrt((1 + Q) / 2)
-                b = U / (2 * a) - 1j * V / (2 * a)
+            # Q can be slightly outside of [-1, 1] because of rounding
+            a = np.sqrt(np.maximum(1 + Q, 0) / 2)
+            b = np.sqrt(np.maximum(1 - Q, 0) / 2) * np.exp(-1j * np.arctan2(V, U))
 
             self.jones_vector = np.array([a, b])
 
-- 
2.43.0


From 650cfc2542734d60fcc7260c877e1e6b75fc5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 06/58] fix: adding dispersions does not change the operands

Adding anything to a DispersionSum or IndexDispersionSum (from either side)
appended to the operand itself, so the sum kept for one material changed when
another one was derived from it.
---
 src/elli/dispersions/base_dispersion.py | 40 +++++++++++--------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 04a021b..654c4a0 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -223,8 +223,7 @@ class Dispersion(BaseDispersion):
             return other.__add__(self)
 
         if isinstance(other, DispersionSum):
-            other.dispersions.append(self)
-            return other
+            return DispersionSum(other, self)
 
         if isinstance(other, (int, float)):
             return DispersionSum(self, dispersions.EpsilonInf(other))
@@ -299,8 +298,7 @@ class IndexDispersion(BaseDispersion):
             return other.__add__(self)
 
         if isinstance(other, IndexDispersionSum):
-            other.index_dispersions.append(self)
-            return other
+            return IndexDispersionSum(other, self)
 
         if isinstance(other, (int, float)):
             return IndexDispersionSum(self, dispersions.ConstantRefractiveIndex(other))
@@ -345,21 +343,20 @@ class DispersionSum(Dispersion):
 
         self.dispersions = []
         for disp in disps:
-            self += disp
+            self._append(disp)
 
-    def __add__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
+    def _append(self, other: Union[int, float, "Dispersion"]) -> None:
         self._check_valid_operand(other)
 
         if isinstance(other, DispersionSum):
             self.dispersions += other.dispersions
-            return self
-
-        if isinstance(other, (int, float)):
+        elif isinstance(other, (int, float)):
             self.dispersions.append(dispersions.EpsilonInf(eps=other))
-            return self
+        else:
+            self.dispersions.append(other)
 
-        self.dispersions.append(other)
-        return self
+    def __add__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
+        return DispersionSum(self, other)
 
     def dielectric_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
         dielectric_function = sum(
@@ -388,23 +385,22 @@ class IndexDispersionSum(IndexDispersion):
 
         self.index_dispersions = []
         for disp in disps:
-            self += disp
+            self._append(disp)
 
-    def __add__(
-        self, other: Union[int, float, "IndexDispersion"]
-    ) -> "IndexDispersionSum":
+    def _append(self, other: Union[int, float, "IndexDispersion"]) -> None:
         self._check_valid_operand(other)
 
         if isinstance(other, IndexDispersionSum):
             self.index_dispersions += other.index_dispersions
-            return self
-
-        if isinstance(other, (int, float)):
+        elif isinstance(other, (int, float)):
             self.index_dispersions.append(dispersions.ConstantRefractiveIndex(n=other))
-            return self
+        else:
+            self.index_dispersions.append(other)
 
-        self.index_dispersions.append(other)
-        return self
+    def __add__(
+        self, other: Union[int, float, "IndexDispersion"]
+    ) -> "IndexDispersionSum":
+        return IndexDispersionSum(self, other)
 
     def refractive_index(self, lbda: npt.ArrayLike) -> npt.NDArray:
         refractive_index = sum(
-- 
2.43.0


From b5149bd8bf0e87926a2477cf0fb418e4973f3772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:18 +0000
Subject: [PATCH 07/58] fix: adding a number to a refractive index table

ConstantRefractiveIndex has no parameter eps, so Table + number always raised
InvalidParameters.
---
 src/elli/dispersions/table_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/table_index.py b/src/elli/dispersions/table_index.py
index 038be6e..037c0ff 100644
--- a/src/elli/dispersions/table_index.py
+++ b/src/elli/dispersions/table_index.py
@@ -57,7 +57,7 @@ class Table(IndexDispersion):
         self, other: Union[int, float, "IndexDispersion"]
     ) -> "IndexDispersionSum":
         if isinstance(other, (int, float)):
-            return IndexDispersionSum(self, ConstantRefractiveIndex(eps=other))
+            return IndexDispersionSum(self, ConstantRefractiveIndex(n=other))
 
         if isinstance(other, Table):
             raise NotImplementedError(
-- 
2.43.0


From adf79c1cd7b5b0ac4ad19848652579397a8c64c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:55 +0000
Subject: [PATCH 08/58] fix: parameter history is not changed by later edits

update_params, revert and pop shared the lmfit Parameter objects between the
current parameters, the history and the given parameters, so editing a value
afterwards rewrote the history. Undoing tracked_add kept the added parameter
and revert raised ZeroDivisionError for an empty history.
---
 src/elli/fitting/params_hist.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/elli/fitting/params_hist.py b/src/elli/fitting/params_hist.py
index 9e5098d..559a0d5 100644
--- a/src/elli/fitting/params_hist.py
+++ b/src/elli/fitting/params_hist.py
@@ -81,14 +81,24 @@ class ParamsHist(Parameters):
         Args:
             hist_pos (int): The history position to revert to.
         """
-        if len(self._history) > (hist_pos % len(self._history)):
-            self.update(self._history[hist_pos])
+        if -len(self._history) <= hist_pos < len(self._history):
+            self._restore(self._history[hist_pos])
+
+    def _restore(self, parameters: Parameters) -> None:
+        """Sets the current parameters to a copy of the given parameters.
+
+        Args:
+            parameters (Parameters): The parameters to restore.
+        """
+        for key in [key for key in self if key not in parameters]:
+            del self[key]
+        self.update(copy.deepcopy(parameters))
 
     def pop(self):
         """Gets to the previous history version and deletes the current element."""
         if len(self._history) > 0:
             curr_params = self.copy()
-            self.update(self._history[-1])
+            self._restore(self._history[-1])
             self._history = self._history[:-1]
 
             return curr_params
@@ -112,7 +122,7 @@ class ParamsHist(Parameters):
                 The lmfit parameters object to update the values from.
         """
         self.commit()
-        self.update(parameters)
+        self.update(copy.deepcopy(parameters))
 
     def tracked_add(self, *args, **kwargs) -> None:
         """Adds a parameter and keeps track of the change in history"""
-- 
2.43.0


From d17078db7c3402c84d140ebfa18cc1d06b7ceee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 09/58] fix: the fit button adds a single step to the parameter
 history

update_params already commits the current parameters, so a fit had to be undone
twice. With plain lmfit Parameters, which have no history, the button raised an
AttributeError.
---
 src/elli/fitting/decorator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 87ad403..a5c47cb 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -128,8 +128,9 @@ class FitDecorator(ABC):
         """
         self.fit(**self.fit_kwargs)
         if isinstance(self.params, ParamsHist):
-            self.params.commit()
-        self.params.update_params(self.fitted_params)
+            self.params.update_params(self.fitted_params)
+        else:
+            self.params = self.fitted_params.copy()
         self.update_widgets()
 
         self.update_selection()
-- 
2.43.0


From a592163c9cab5dce5ed4d799891be7748d6c25d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 10/58] fix: allow negative values for unbounded parameters in
 the fit widget

sys.float_info.min is the smallest positive number, so every parameter without
lower bound was clipped to zero by its input field.
---
 src/elli/fitting/decorator_psi_delta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator_psi_delta.py b/src/elli/fitting/decorator_psi_delta.py
index 6ce2f57..a4f8b41 100644
--- a/src/elli/fitting/decorator_psi_delta.py
+++ b/src/elli/fitting/decorator_psi_delta.py
@@ -176,7 +176,7 @@ class FitRho(FitDecorator):
             curr_widget = widgets.BoundedFloatText(
                 self.params[param],
                 min=(
-                    float_info.min
+                    -float_info.max
                     if self.params[param].min == -float("inf")
                     else self.params[param].min
                 ),
-- 
2.43.0


From 83875fc7c31e515c4c80da02aac60dae6b3bbc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:42 +0000
Subject: [PATCH 11/58] fix: Mueller matrix fits without display options

The optional display options had no default values, so leaving one of them out
raised an AttributeError, and a redo without a preceding undo added an empty
step to the history.
---
 src/elli/fitting/decorator_mmatrix.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/elli/fitting/decorator_mmatrix.py b/src/elli/fitting/decorator_mmatrix.py
index 25999d7..9da5dd2 100644
--- a/src/elli/fitting/decorator_mmatrix.py
+++ b/src/elli/fitting/decorator_mmatrix.py
@@ -346,11 +346,12 @@ class FitMuellerMatrix(FitDecorator):
         self.param_widgets = {}
         self.show_residual = False
 
-        mm_kwargs = ("display_single", "sharex", "full_scale")
-        for kwarg in mm_kwargs:
-            if kwarg in kwargs:
-                setattr(self, kwarg, kwargs[kwarg])
-                del kwargs[kwarg]
+        self.last_params = None
+
+        # The same defaults as in plot_mmatrix
+        mm_kwargs = {"display_single": True, "sharex": False, "full_scale": False}
+        for kwarg, default in mm_kwargs.items():
+            setattr(self, kwarg, kwargs.pop(kwarg, default))
         self.fit_kwargs = kwargs
 
         model_df = mmatrix_to_dataframe(
-- 
2.43.0


From 332750f8b0ecbf5bdb1d313d39966fa7575e1f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 12/58] fix: average a ResultList over the results only

The mean was taken over the first axis left after squeezing, which are the
wavelengths for a list with a single result, and the wavelength axis got lost
for a single wavelength.
---
 src/elli/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 1c5fe47..2e846fe 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -533,4 +533,4 @@ class AveragedResultList(ResultList):
                 "The ResultList is already averaged and can't be averaged again."
             )
 
-        return np.mean(super().__getattr__(name), axis=0)
+        return np.mean([getattr(result, name) for result in self.results], axis=0)
-- 
2.43.0


From 19d9edf492e88aa6e6c7c49c66c3e7980363a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 13/58] fix: copying and pickling of ResultLists

__getattr__ looked up self.results on objects without attributes and recursed
until a RecursionError.
---
 src/elli/result.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/elli/result.py b/src/elli/result.py
index 2e846fe..27ee755 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -498,6 +498,9 @@ class ResultList:
             npt.NDArray: Array of data.
         """
 
+        if name.startswith("__") or name == "results":
+            raise AttributeError(name)
+
         if name == "mean":
             return AveragedResultList(self.results)
 
@@ -533,4 +536,7 @@ class AveragedResultList(ResultList):
                 "The ResultList is already averaged and can't be averaged again."
             )
 
+        if name.startswith("__") or name == "results":
+            raise AttributeError(name)
+
         return np.mean([getattr(result, name) for result in self.results], axis=0)
-- 
2.43.0


From 7019dd738585bd82c39d8f96c1574488dcdfb8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 14/58] fix: count layers instead of slices in RepeatedLayers

The additional layers before and after the periods were counted in slices of
the permittivity profile, so a sublayer made of several slices was cut.
---
 src/elli/structure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elli/structure.py b/src/elli/structure.py
index eb25a53..a2b7f02 100644
--- a/src/elli/structure.py
+++ b/src/elli/structure.py
@@ -133,15 +133,15 @@ class RepeatedLayers(AbstractLayer):
             List[Tuple[float, npt.NDArray]]:
                 Returns list of tuples [(thickness, dielectric tensor), ...]
         """
-        layers = []
-        for layer in self.layers:
-            layers += layer.get_permittivity_profile(lbda)
+        # Every layer can consist of multiple slices
+        layers = [layer.get_permittivity_profile(lbda) for layer in self.layers]
 
         if self.before > 0:
             before = layers[-self.before :]
         else:
             before = []
-        return before + self.repetitions * layers + layers[: self.after]
+        profile = before + self.repetitions * layers + layers[: self.after]
+        return [layer_slice for layer in profile for layer_slice in layer]
 
 
 class Layer(AbstractLayer):
-- 
2.43.0


From eff483c9afa10470ab961a141c2478a264448250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 15/58] fix: inhomogeneous layers with zero thickness

The relative position in the layer was calculated as 0 / 0, so TwistedLayer and
VaryingMixtureLayer of thickness 0, e.g. at the bound of a fit, returned NaN.
---
 src/elli/structure.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/elli/structure.py b/src/elli/structure.py
index a2b7f02..bdbd262 100644
--- a/src/elli/structure.py
+++ b/src/elli/structure.py
@@ -252,6 +252,10 @@ class InhomogeneousLayer(AbstractLayer):
         """
         return np.linspace(0, self.thickness, self.div + 1)
 
+    def _relative_position(self, z: float) -> float:
+        """Returns position 'z' relative to the thickness of the layer (0 to 1)."""
+        return z / self.thickness if self.thickness > 0 else 0.0
+
     @abstractmethod
     def get_tensor(self, z: float, lbda: npt.ArrayLike) -> npt.NDArray:
         """Returns permittivity tensor matrix for position 'z'."""
@@ -313,7 +317,7 @@ class TwistedLayer(InhomogeneousLayer):
             npt.NDArray: Permittivity tensor for position 'z' and wavelength 'lbda'.
         """
         epsilon = self.material.get_tensor(lbda)
-        m_r = rotation_v_theta(E_Z, self.angle * z / self.thickness)
+        m_r = rotation_v_theta(E_Z, self.angle * self._relative_position(z))
         return m_r @ epsilon @ m_r.T
 
 
@@ -387,7 +391,7 @@ class VaryingMixtureLayer(InhomogeneousLayer):
             npt.NDArray: Permittivity tensor for position 'z' and wavelength 'lbda'.
         """
         epsilon = self.material.get_tensor_fraction(
-            lbda, self.fraction_modulation(z / self.thickness)
+            lbda, self.fraction_modulation(self._relative_position(z))
         )
         return epsilon
 
-- 
2.43.0


From 7d50f57ae703709c3c7f4cb14ebe8c5af3fe5941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 16/58] fix: loading of SpectraRay tables over the wavelength

df.iloc does not accept column names, so tables with a wavelength axis could
not be loaded at all.
---
 src/elli/dispersions/table_spectraray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/table_spectraray.py b/src/elli/dispersions/table_spectraray.py
index 87fc9b8..9312ea6 100644
--- a/src/elli/dispersions/table_spectraray.py
+++ b/src/elli/dispersions/table_spectraray.py
@@ -58,7 +58,7 @@ class TableSpectraRay:
 
         if x_unit == "Wavelength":
             return TableEpsilon(
-                lbda=df.index, epsilon=df.loc[:, "ϵ1"] + 1j * df.iloc[:, "ϵ2"]
+                lbda=df.index, epsilon=df.loc[:, "ϵ1"] + 1j * df.loc[:, "ϵ2"]
             )
         return TableEpsilon(
             lbda=conversion_wavelength_energy(df.index),
-- 
2.43.0


From e77c76bafcab521326c8715a136a7971bfcf1885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:24 +0000
Subject: [PATCH 17/58] fix: convert energy axes of Woollam files to
 wavelengths

Units which are not a length were converted for the value 1 only and used as a
linear scaling factor, although the wavelength is reciprocal to the energy.
---
 src/elli/importer/woollam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index c0cc6e9..e99237d 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -87,9 +87,9 @@ def scale_to_nm(unit: str, dataframe: pd.DataFrame) -> pd.DataFrame:
         pd.DataFrame: The dataframe with scaled wavelength axis.
     """
     try:
-        scaling = ureg(unit).to("nm").magnitude
+        values = dataframe.index.levels[1].astype(float).to_numpy() * ureg(unit)
         dataframe.index = dataframe.index.set_levels(
-            dataframe.index.levels[1].astype(float) * scaling, level=1
+            values.to("nm").magnitude, level=1
         )
 
         return dataframe
-- 
2.43.0


From 6ff4f439df31cd9202185db567aa05be1f2de9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 18/58] fix: read the axis of tabulated NeXus materials into
 memory

The wavelength table kept a reference to the dataset of the closed file, so the
material could not be used in a structure, and an energy axis raised a
TypeError.
---
 src/elli/importer/nexus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 47b9981..717de05 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -205,10 +205,10 @@ def read_nexus_materials(filename: str):
     def get_dispersion_table(dataset: h5py.Dataset):
         wavelength = None
         if "wavelength" in dataset:
-            wavelength = dataset["wavelength"]
+            wavelength = dataset["wavelength"][()]
 
         if "energy" in dataset:
-            wavelength = conversion_wavelength_energy(dataset["energy"])
+            wavelength = conversion_wavelength_energy(dataset["energy"][()])
 
         if wavelength is None:
             raise ValueError("No wavelength array found in dataset.")
-- 
2.43.0


From 5ce21e0110cb3e82f47bfe94976e8fa8ea2348e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 19/58] fix: formula parameters whose names start with a
 function or constant

Names like c1, h_x or log2 were split into a builtin token and a remainder,
which raised a parser error.
---
 src/elli/formula_parser/dispersion_function_grammar.lark | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/formula_parser/dispersion_function_grammar.lark b/src/elli/formula_parser/dispersion_function_grammar.lark
index 7524723..ba9d55a 100644
--- a/src/elli/formula_parser/dispersion_function_grammar.lark
+++ b/src/elli/formula_parser/dispersion_function_grammar.lark
@@ -41,8 +41,8 @@
                  | NAME -> param_name
                  | BUILTIN -> builtin
 
-FUNC.1: "sin" | "cos" | "tan" | "sqrt" | "dawsn" | "ln" | "log" | "heaviside" 
-BUILTIN.1: "1j" | "pi" | "eps_0" | "hbar" | "h" | "c" 
+FUNC.1: /(sin|cos|tan|sqrt|dawsn|ln|log|heaviside)\b/
+BUILTIN.1: /(1j|pi|eps_0|hbar|h|c)\b/
 
 %import common.CNAME -> NAME
 %import common.SIGNED_NUMBER
-- 
2.43.0


From 267b826319f6d19ca3940bc1387a5292040eb4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 20/58] fix: sums over formula terms without wavelength
 dependence

sum[...] assumed a two-dimensional term and raised an error if the expression
did not contain both the x-axis and a repeated parameter.
---
 src/elli/formula_parser/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index e2de3d4..8405ce6 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -129,7 +129,9 @@ class FormulaTransformer(Transformer):
 
     def sum_expr(self, expr):
         """Sum an expression"""
-        return expr.sum(axis=1)
+        # Terms without the x-axis or a repeated parameter are added for each set, too
+        shape = (len(self.x_axis_values), self.no_repeated_params)
+        return np.broadcast_to(expr, shape).sum(axis=1)
 
     def single_param_name(self, name):
         """Return a parameter inside a non-repeated section"""
-- 
2.43.0


From f9eb07ce239437ac87f774f935d061fcaf50dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 21/58] fix: heaviside function in formulas

np.heaviside needs the value at zero as second argument, so every formula with
heaviside(x) raised a TypeError.
---
 src/elli/formula_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index 8405ce6..cc8c3fe 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -103,7 +103,7 @@ class FormulaTransformer(Transformer):
             "dawsn": dawsn,
             "ln": np.log,
             "log": np.log10,
-            "heaviside": np.heaviside,
+            "heaviside": lambda x: np.heaviside(x, 0.5),
         }
 
         if name in names:
-- 
2.43.0


From 27e1665ce9f1ee212dafafca895d75877bd7a070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 22/58] fix: formula parameters added later and copies of
 formulas with units

---
 src/elli/dispersions/formula.py | 41 +++++++++++++++++----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index f1954b8..cd88f2b 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -62,39 +62,40 @@ class FormulaParser(BaseDispersion):
         for rep_params_set in rep_params_sets:
             self.add(**rep_params_set)
 
-        self.rep_params_dl = {}
-        if self.rep_params:
-            self.rep_params_dl = {
-                k: np.array([dic[k] for dic in self.rep_params])
-                for k in self.rep_params[0]
-            }
-
         self.formula = formula
 
         self._check_repr()
 
-        self._dispersion_function = self.__dispersion_function
+        self._scaling: Optional[float] = None
+        self._is_energy: bool = False
         if unit is not None:
             self._set_unit_conversion(unit)
 
+    @property
+    def rep_params_dl(self) -> Dict[str, npt.NDArray]:
+        """The repeated parameters as a dict of arrays"""
+        if not self.rep_params:
+            return {}
+        return {
+            k: np.array([dic[k] for dic in self.rep_params]) for k in self.rep_params[0]
+        }
+
     def _set_unit_conversion(self, unit: str):
         quantity = ureg(unit)
-        if quantity.check("[length]"):
-            scaling = ureg("nm").to(unit).magnitude
-            self._dispersion_function = lambda lbda: self.__dispersion_function(
-                scaling * lbda
-            )
-            return
-
-        if quantity.check("[energy]"):
-            scaling = ureg("nm").to(unit).magnitude
-            self._dispersion_function = lambda lbda: self.__dispersion_function(
-                scaling / lbda
-            )
+        if quantity.check("[length]") or quantity.check("[energy]"):
+            self._scaling = ureg("nm").to(unit).magnitude
+            self._is_energy = quantity.check("[energy]")
             return
 
         raise ValueError(f"Unsupported unit `{unit}`.")
 
+    def _dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
+        if self._scaling is None:
+            return self.__dispersion_function(lbda)
+        if self._is_energy:
+            return self.__dispersion_function(self._scaling / lbda)
+        return self.__dispersion_function(self._scaling * lbda)
+
     def _check_repr(self):
         representation = parse_formula(self.formula).data
 
-- 
2.43.0


From b920938d980b6cd787801caa5f325076380a0702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 23/58] fix: transmittance of p polarization into absorbing
 media

---
 src/elli/result.py    | 15 ++++++++++-----
 src/elli/solver2x2.py | 13 +++++++++----
 src/elli/solver4x4.py | 12 ++++++++++--
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 27ee755..f63ce83 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -307,7 +307,7 @@ class Result:
         .. math::
             M_T = \begin{bmatrix} T_{pp} & T_{ps} \\ T_{sp} & T_{ss} \end{bmatrix}
         """
-        return np.abs(self._jones_matrix_t) ** 2 * self._power_correction[:, None, None]
+        return np.abs(self._jones_matrix_t) ** 2 * self._power_correction[:, :, None]
 
     @property
     def Rc_matrix(self) -> npt.NDArray:
@@ -325,7 +325,8 @@ class Result:
         .. math::
             M_{Tc} = \begin{bmatrix} T_{LL} & T_{LR} \\ T_{RL} & T_{RR} \end{bmatrix}
         """
-        return np.abs(self.jones_matrix_tc) ** 2 * self._power_correction[:, None, None]
+        power_correction = np.mean(self._power_correction, axis=-1)
+        return np.abs(self.jones_matrix_tc) ** 2 * power_correction[:, None, None]
 
     def __init__(
         self,
@@ -343,15 +344,19 @@ class Result:
             jones_matrix_t (npt.NDArray): Jones matrix for the transmission direction.
             power_correction (npt.NDArray):
                 Correction factors, to get the power transmission values.
+                Either one factor per wavelength or separate factors
+                for the transmitted p and s polarization per wavelength.
         """
         self.experiment = experiment
         self._jones_matrix_r = jones_matrix_r
         self._jones_matrix_t = jones_matrix_t
         self._delta_range = DeltaRange(-180, 180)
         if power_correction is None:
-            self._power_correction = np.ones_like(self.experiment.lbda)
-        else:
-            self._power_correction = power_correction
+            power_correction = np.ones_like(self.experiment.lbda)
+
+        if np.ndim(power_correction) == 1:
+            power_correction = np.stack([power_correction, power_correction], axis=-1)
+        self._power_correction = power_correction
 
     def _convert_delta(self, delta: npt.NDArray) -> npt.NDArray:
         """Converts delta values to the delta range of this result."""
diff --git a/src/elli/solver2x2.py b/src/elli/solver2x2.py
index b7ed856..f14dd16 100644
--- a/src/elli/solver2x2.py
+++ b/src/elli/solver2x2.py
@@ -106,10 +106,15 @@ class Solver2x2(Solver):
         jones_matrix_r = np.moveaxis(np.array([[rtotp, zeros], [zeros, rtots]]), 2, 0)
         jones_matrix_t = np.moveaxis(np.array([[ttotp, zeros], [zeros, ttots]]), 2, 0)
 
-        # TODO: Test if p and s correction formulas are needed.
-        power_correction = ((n_list[-1] * np.cos(th_list[-1])).real) / (
-            n_list[0] * np.cos(th_list[0])
-        ).real
+        cos_f = np.cos(th_list[0])
+        cos_b = np.cos(th_list[-1])
+        power_correction = np.stack(
+            [
+                (np.conj(n_list[-1]) * cos_b).real / (n_list[0] * cos_f).real,
+                (n_list[-1] * cos_b).real / (n_list[0] * cos_f).real,
+            ],
+            axis=-1,
+        )
 
         return Result(self.experiment, jones_matrix_r, jones_matrix_t, power_correction)
 
diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 4f2610d..62d2393 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -376,12 +376,20 @@ class Solver4x4(Solver):
         # The power transmission coefficient is the ratio of the 'z' components
         # of the Poynting vector:       t = P_t_z / P_i_z
         # For isotropic media, we have: t = kb'/kf' |t_bf|^2
-        # The correction coefficient is kb'/kf'
+        # The correction coefficient is kb'/kf' for s polarization
+        # and (n_b^2/kb)' |kb/n_b|^2 / kf' for p polarization
         # Note : For the moment it is only meaningful for isotropic half spaces.
         if isinstance(self.structure.back_material, IsotropicMaterial):
             k_z_f = self.get_k_z(self.structure.front_material, self.lbda, k_x)
             k_z_b = self.get_k_z(self.structure.back_material, self.lbda, k_x)
-            power_correction = k_z_b.real / k_z_f.real
+            n_b = self.structure.back_material.get_refractive_index(self.lbda)[:, 0, 0]
+            power_correction = np.stack(
+                [
+                    (k_z_b * np.conj(n_b) / n_b).real / k_z_f.real,
+                    k_z_b.real / k_z_f.real,
+                ],
+                axis=-1,
+            )
             return Result(
                 self.experiment, jones_matrix_r, jones_matrix_t, power_correction
             )
-- 
2.43.0


From 9f87ebd79ec9872e08c6813b33e41e0c0dcb6245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 24/58] fix: direction of evaluation in index profiles

---
 src/elli/plot/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/plot/structure.py b/src/elli/plot/structure.py
index 110cf6c..4fd8caf 100644
--- a/src/elli/plot/structure.py
+++ b/src/elli/plot/structure.py
@@ -32,7 +32,7 @@ def get_index_profile(structure, lbda, v=E_X):
     """
     profile = get_permittivity_profile(structure, lbda)
     (h, epsilon) = list(zip(*profile))  # unzip
-    n = [sqrt((v.T * eps * v)[0, 0, 0]) for eps in epsilon]
+    n = [sqrt(v @ eps[0] @ v) for eps in epsilon]
     return list(zip(h, n))
 
 
-- 
2.43.0


From de0bc797365c31f69f735469ac6a67204a863833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 25/58] fix: Maxwell-Garnett mixing leaves numpy error settings
 alone

---
 src/elli/materials.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/elli/materials.py b/src/elli/materials.py
index 868151e..2fd24cd 100755
--- a/src/elli/materials.py
+++ b/src/elli/materials.py
@@ -402,17 +402,12 @@ class MaxwellGarnettEMA(MixtureMaterial):
         e_g = self.guest_material.get_tensor(lbda)
 
         # Catch calculation warnings
-        old_settings = np.geterr()
-        np.seterr(invalid="ignore")
-
-        maxwell_garnett = (
-            e_h
-            * (2 * fraction * (e_g - e_h) + e_g + 2 * e_h)
-            / (2 * e_h + e_g - fraction * (e_g - e_h))
-        )
-
-        # Reset numpy settings
-        np.seterr(**old_settings)
+        with np.errstate(invalid="ignore"):
+            maxwell_garnett = (
+                e_h
+                * (2 * fraction * (e_g - e_h) + e_g + 2 * e_h)
+                / (2 * e_h + e_g - fraction * (e_g - e_h))
+            )
 
         epsilon = np.where(np.logical_and(e_h == 0, e_g == 0), e_h, maxwell_garnett)
         return epsilon
-- 
2.43.0


From 6d5559ba874ef7d838cd383ff2c5ae223091ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 26/58] fix: integration interval of the first point in the kkr

---
 src/elli/kkr/kkr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 05bdab1..85f9ba6 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -126,7 +126,7 @@ def _calc_kkr(
         )
 
     integral = np.empty(len(t))
-    interval = np.diff(x, prepend=x[1] - x[0])
+    interval = np.diff(x, prepend=2 * x[0] - x[1])
     odd_slice = slice(1, None, 2)
     even_slice = slice(0, None, 2)
 
-- 
2.43.0


From 786f8b9875a008759934b6d8db81ddb3cadfd969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 27/58] fix: both bounds of a delta range have to be integers

---
 src/elli/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 2a227e9..327364d 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -16,7 +16,7 @@ class DeltaRange:
     upper: int
 
     def __post_init__(self):
-        if not (isinstance(self.lower, int) or isinstance(self.upper, int)):
+        if not (isinstance(self.lower, int) and isinstance(self.upper, int)):
             raise TypeError("delta range values must be an integer")
 
         if not -360 <= self.lower <= 0:
-- 
2.43.0


From 97cf1b9a9ffda2f2501cca86acd3a6a9d076569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 28/58] fix: evaluate dispersions for integer wavelengths and
 lists

---
 src/elli/dispersions/base_dispersion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 654c4a0..3db43a2 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -112,13 +112,13 @@ class BaseDispersion(ABC):
     def get_dielectric(self, lbda: Optional[npt.ArrayLike] = None) -> npt.NDArray:
         """Returns the dielectric constant for wavelength 'lbda' default unit (nm)
         in the convention ε1 + iε2."""
-        lbda = self.default_lbda_range if lbda is None else lbda
+        lbda = np.asarray(self.default_lbda_range if lbda is None else lbda, float)
         return np.asarray(self.dielectric_function(lbda), dtype=np.complex128)
 
     def get_refractive_index(self, lbda: Optional[npt.ArrayLike] = None) -> npt.NDArray:
         """Returns the refractive index for wavelength 'lbda' default unit (nm)
         in the convention n + ik."""
-        lbda = self.default_lbda_range if lbda is None else lbda
+        lbda = np.asarray(self.default_lbda_range if lbda is None else lbda, float)
 
         if isinstance(self, IndexDispersion):
             return self.refractive_index(lbda)
-- 
2.43.0


From 3f58a31a4ecadfa1e5f7a46ba3662f4f1d964dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 29/58] fix: tabulated dispersions can be used as index
 dispersion

---
 src/elli/dispersions/base_dispersion.py   | 3 ++-
 src/elli/dispersions/pseudo_dielectric.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 3db43a2..636a812 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -243,7 +243,8 @@ class Dispersion(BaseDispersion):
             (IndexDispersion,),
             {
                 "rep_params_template": self.rep_params_template,
-                "single_params_template": self.single_params_template,
+                "single_params_template": self.single_params,
+                "default_lbda_range": self.default_lbda_range,
                 "dielectric_function": self.dielectric_function,
                 "refractive_index": lambda self, lbda: sqrt(
                     self.dielectric_function(lbda)
diff --git a/src/elli/dispersions/pseudo_dielectric.py b/src/elli/dispersions/pseudo_dielectric.py
index 1fcb393..e1130a7 100644
--- a/src/elli/dispersions/pseudo_dielectric.py
+++ b/src/elli/dispersions/pseudo_dielectric.py
@@ -60,6 +60,8 @@ class PseudoDielectricFunction(Dispersion):
             kind="cubic",
         )
 
+        self.default_lbda_range = self.single_params.get("lbda")
+
     def __add__(self, _: Union[int, float, "Dispersion"]) -> "DispersionSum":
         raise NotImplementedError("Adding of tabular dispersions is not yet supported")
 
-- 
2.43.0


From 3f8b3d96e3004ff2f1a6663ba5a4745487584f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 30/58] fix: evaluate formulas for a single wavelength

---
 src/elli/dispersions/formula.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index cd88f2b..70852f4 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -110,13 +110,16 @@ class FormulaParser(BaseDispersion):
             )
 
     def __dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
-        return FormulaTransformer(
+        values = FormulaTransformer(
             x_axis_name=self.f_axis_name,
-            x_axis_values=lbda,
+            x_axis_values=np.atleast_1d(lbda),
             single_params=self.single_params,
             repeated_params=self.rep_params_dl,
         ).transform(parse_formula(self.formula))[1]
 
+        # Return a single value for a single wavelength
+        return np.reshape(values, ()) if np.ndim(lbda) == 0 else values
+
 
 class Formula(Dispersion, FormulaParser):
     r"A formula dispersion"
-- 
2.43.0


From b0ce63cf0aaa729e3d18aac92c38d5785aa01361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 31/58] fix: wrong propagators of the SciPy backend for several
 wavelengths

---
 src/elli/solver4x4.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 62d2393..5df5342 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -78,7 +78,9 @@ class PropagatorExpm(Propagator):
             "torch": lambda mats: torch.linalg.matrix_exp(
                 torch.from_numpy(mats)
             ).numpy(),
-            "scipy": lambda mats: scipy_expm(mats),
+            # The stacked evaluation of SciPy 1.18 carries the scaling of a matrix
+            # over to the following ones, so each matrix is evaluated on its own.
+            "scipy": lambda mats: np.array([scipy_expm(mat) for mat in mats]),
         }
 
         if backend == "automatic" and TORCH_AVAILABLE:
-- 
2.43.0


From c17cfda69dc5abf9cfc29f5e0a0b819155fe661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 32/58] fix: sign of the real to imaginary Kramers-Kronig
 transformation

The imaginary part of a causal response is minus the transform of the real
part, while the transform of the imaginary part gives the real part without
a sign. With the same sign in both, transforming the real part of a passive
oscillator returned a negative imaginary part.
---
 src/elli/kkr/kkr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 85f9ba6..46445f9 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -77,7 +77,7 @@ def _integrate_re(re: np.ndarray, x: np.ndarray, x_i: np.ndarray) -> np.ndarray:
     Returns:
         numpy.ndarray: The real sum. (shape (m,))
     """
-    return np.sum(x_i * re / (x * x - x_i * x_i), axis=1)
+    return np.sum(x_i * re / (x_i * x_i - x * x), axis=1)
 
 
 def _integrate_re_reciprocal(
@@ -95,7 +95,7 @@ def _integrate_re_reciprocal(
         numpy.ndarray: The real sum. (shape (m,))
     """
 
-    return np.sum(re / (x_i - x * x / x_i), axis=1)
+    return np.sum(re / (x * x / x_i - x_i), axis=1)
 
 
 def _calc_kkr(
@@ -153,7 +153,7 @@ def re2im(re: np.ndarray, x: np.ndarray) -> np.ndarray:
 
     .. math::
         \Delta \Im(x_i) = \Im(x_i) - \Im(\infty) =
-        \frac{2}{\pi} \int_0^\infty \frac{x_i \Re(x)}{x^2 - x_i^2} dx
+        -\frac{2}{\pi} \int_0^\infty \frac{x_i \Re(x)}{x^2 - x_i^2} dx
 
     Args:
         re (numpy.ndarray): The real values to transform.
@@ -198,7 +198,7 @@ def re2im_reciprocal(re: np.ndarray, x: np.ndarray) -> np.ndarray:
 
     .. math::
         \Delta \Im(x_i) = \Im(x_i) - \Im(\infty) =
-        \frac{2}{\pi} \int_0^\infty \frac{\Re(x)}{x_i - \frac{x^2}{x_i}} dx
+        -\frac{2}{\pi} \int_0^\infty \frac{\Re(x)}{x_i - \frac{x^2}{x_i}} dx
 
     Args:
         re (numpy.ndarray): The real values to transform.
-- 
2.43.0


From ca306456ecfd96e7c179eb6d18d4cff1aafc6dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 33/58] fix: recognize all number formats in the first line of
 Woollam files

A negative delta (CompleteEASE), integers or exponents in the first line of the
table made the reader take this line as part of the header: the line was lost
and the wavelengths were not converted.
---
 src/elli/importer/woollam.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index e99237d..cf5107c 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -16,6 +16,9 @@ from ..utils import calc_rho, detect_encoding
 logger = logging.getLogger(__name__)
 
 
+# Any number, with optional sign, decimals and exponent
+NUMBER = r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?"
+
 is_float_regex = re.compile(r"[+-]?(\d+([.]\d*)?([eE][+-]?\d+)?|[.]\d+([eE][+-]?\d+)?)")
 
 
@@ -45,7 +48,7 @@ def _is_wvase_tabular(line: str) -> bool:
     Returns:
         bool: True if the line is in wvase tabular layout.
     """
-    return bool(re.search(r"^(-?\d*\.\d*\s+){5}\d*\.\d*$", line))
+    return bool(re.search(rf"^({NUMBER}\s+){{5}}{NUMBER}\s*$", line))
 
 
 def _is_complete_ease_tabular(line: str) -> bool:
@@ -58,7 +61,7 @@ def _is_complete_ease_tabular(line: str) -> bool:
     Returns:
         bool: True if the line is in complete ease tabular layout.
     """
-    return bool(re.search(r"^[a-zA-Z]+\s+(\d+\.\d+\s+){5}\d+\.\d+$", line))
+    return bool(re.search(rf"^[a-zA-Z]+\s+({NUMBER}\s+){{5}}{NUMBER}\s*$", line))
 
 
 def _is_tan_cos_format(line: str) -> bool:
-- 
2.43.0


From aee2ae3d7945a5e9f4a6f82436856eb547963c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 34/58] fix: use the decimal separator for the angles in
 SpectraRay files

---
 src/elli/importer/spectraray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/importer/spectraray.py b/src/elli/importer/spectraray.py
index 9835e82..3cbad54 100644
--- a/src/elli/importer/spectraray.py
+++ b/src/elli/importer/spectraray.py
@@ -46,7 +46,7 @@ def read_spectraray_psi_delta(
     with open(fname) as f:
         header = f.readlines()[0]
 
-    aois = list(map(float, re.split(sep, header)[3::2]))
+    aois = [float(aoi.replace(decimal, ".")) for aoi in re.split(sep, header)[3::2]]
     index = pd.MultiIndex.from_product(
         [aois, ["Ψ", "Δ"]], names=["Angle of Incidence", ""]
     )
-- 
2.43.0


From c52bf007000a4d3aae28bc50fede5aefc2c3e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 35/58] fix: use the sample group name to find the data type of
 NeXus files

---
 src/elli/importer/nexus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 717de05..c4e1abc 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -114,8 +114,10 @@ def read_nexus_psi_delta(
         group_names = NexusGroupNames()
 
     h5file = h5py.File(nxs_filename, "r")
-    if f"{group_names.entry}/sample/data_type" in h5file:
-        data_type = h5file[f"{group_names.entry}/sample/data_type"][()].decode("utf-8")
+    if f"{group_names.full_sample_path}/data_type" in h5file:
+        data_type = h5file[f"{group_names.full_sample_path}/data_type"][()].decode(
+            "utf-8"
+        )
     elif f"{group_names.entry}/data_collection/data_type" in h5file:
         data_type = h5file[f"{group_names.entry}/data_collection/data_type"][()].decode(
             "utf-8"
-- 
2.43.0


From f5246b54cab1d6595befa4e7e08ba2aba9285321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:53 +0000
Subject: [PATCH 36/58] fix: read the wavelength unit of NeXus files

The wavelengths were always taken as angstrom, regardless of their unit.
---
 src/elli/importer/nexus.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index c4e1abc..03a29d2 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -22,6 +22,7 @@ from elli.dispersions.table_epsilon import TableEpsilon
 from elli.dispersions.table_index import Table
 from elli.materials import BiaxialMaterial, IsotropicMaterial, UniaxialMaterial
 
+from ..units import ureg
 from ..utils import calc_rho, conversion_wavelength_energy
 
 
@@ -61,6 +62,12 @@ def read_nexus_psi_delta(
         and the wavelength as second column.
     """
 
+    def read_wavelength(dataset: h5py.Dataset) -> np.ndarray:
+        unit = dataset.attrs.get("units") or "angstrom"
+        if unit not in ureg or not ureg(unit).check("[length]"):
+            unit = "angstrom"
+        return np.array(dataset) / ureg("nm").to(unit).magnitude
+
     def read_data(
         wavelength_path: str,
         aois_path: str,
@@ -68,7 +75,7 @@ def read_nexus_psi_delta(
         indexing: Callable[[int, int], IndexExpression],
     ):
         aois = np.array(h5file[aois_path])
-        wavelength = np.array(h5file[wavelength_path]) / 10
+        wavelength = read_wavelength(h5file[wavelength_path])
         psi_delta_df = pd.DataFrame(
             {},
             columns=["Ψ", "Δ"],
-- 
2.43.0


From 80c027f25cc121e944e6a40d6b3e085974d666a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 37/58] fix: do not detect special encodings for plain ASCII
 files

---
 src/elli/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 327364d..7241893 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -377,5 +377,7 @@ def detect_encoding(fname: str) -> str:
     """
     with open(fname, "rb") as f:
         raw_data = f.read()
+    if raw_data.isascii():
+        return "ascii"
     result = chardet.detect(raw_data)
     return result["encoding"]
-- 
2.43.0


From 49a726cbf9a4ab2979a6de132864397482ed724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 38/58] fix: wavelength range of database pages with separate
 ranges for n and k

---
 src/elli/database/refractive_index_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index 7b88381..f519eba 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -101,7 +101,7 @@ class RII:
             r"(?P<authors>.*) "
             r"(?P<year>\d{4})[^:]*?: "
             r"((?P<comment1>.*); )?"
-            r"(?P<type1>.+) (?P<lower_range1>\d+(\.\d*)?(e\W?\d+)?)\W(?P<upper_range1>\d+(\.\d*)?(e\W?\d+)?) µm"
+            r"(?P<type1>.+?) (?P<lower_range1>\d+(\.\d*)?(e\W?\d+)?)\W(?P<upper_range1>\d+(\.\d*)?(e\W?\d+)?) µm"
             r"(, (?P<type2>.+) (?P<lower_range2>\d+(\.\d*)?(e\W?\d+)?).(?P<upper_range2>\d+(\.\d*)?(e\W?\d+)?) µm)?"
             r"(; (?P<comment2>.*))?"
         )
-- 
2.43.0


From beb5e8e6f4aea0b4e25115583161deea27488909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 39/58] fix: find database entries with missing fields

---
 src/elli/database/refractive_index_info.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index f519eba..39c9971 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -236,10 +236,10 @@ class RII:
                     )
 
                     for s, _, _ in suggestions:
-                        index = np.logical_or(index, self.catalog[col] == s)
+                        index = index | (self.catalog[col] == s)
 
                 else:
-                    index = np.logical_or(index, self.catalog[col] == q)
+                    index = index | (self.catalog[col] == q)
 
         result = self.catalog.loc[index]
 
-- 
2.43.0


From a2ce82cfc0f464660b5968148411b6bb021a0c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 40/58] fix: update the widgets of dependent parameters

---
 src/elli/fitting/decorator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index a5c47cb..4aae51d 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -177,6 +177,8 @@ class FitDecorator(ABC):
             self.params.commit()
         self.params[change.owner.description].value = change.new
 
+        # Parameters with expressions may depend on the changed value
+        self.update_widgets()
         self.update_selection()
 
     def update_widgets(self) -> None:
-- 
2.43.0


From 9778fa46fa90512bc70c3690f93933799525acf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 41/58] fix: keep fixed parameters fixed after undo and redo

---
 src/elli/fitting/decorator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 4aae51d..872c894 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -116,8 +116,12 @@ class FitDecorator(ABC):
         """
 
     def set_vary_param(self, change: dict) -> None:
-        self.initial_params[change.owner.description_tooltip].vary = change.new
-        self.params[change.owner.description_tooltip].vary = change.new
+        name = change.owner.description_tooltip
+        # The checkboxes are not part of the history, i.e. undo and redo keep them
+        history = getattr(self.params, "history", [])
+        for params in [self.initial_params, self.params, self.last_params, *history]:
+            if params is not None and name in params:
+                params[name].vary = change.new
 
     def fit_button_clicked(self) -> None:
         """Fit and update plot after the fit button has been clicked
-- 
2.43.0


From a357904e3892c56089f748e81fc0d0108537c75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 42/58] fix: pass append_exp_data by name in to_csv of fits

---
 src/elli/fitting/decorator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 872c894..7b7aed5 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -92,7 +92,9 @@ class FitDecorator(ABC):
                 Appends the experimental data if set to True.
                 Defaults to False.
         """
-        self.get_model_data(params, append_exp_data).to_csv(fname, *args, **kwargs)
+        self.get_model_data(params, append_exp_data=append_exp_data).to_csv(
+            fname, *args, **kwargs
+        )
 
     @abstractmethod
     def fit(self, method: str = "") -> None:
-- 
2.43.0


From 0404e35e45f308ea19a4fdd37047c640f99c8f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 43/58] fix: convert psi/delta tables without a full grid of
 angles and wavelengths to Mueller matrices

---
 src/elli/utils.py | 61 +++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 7241893..4c96334 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -119,9 +119,6 @@ def convert_psi_delta_to_isotropic_mueller_matrix(psi_delta_df) -> pd.DataFrame:
     Returns:
             pd.DataFrame: pyElli-compatible DataFrame of the Mueller matrix
     """
-    aois = psi_delta_df.index.get_level_values("Angle of Incidence").unique().to_numpy()
-    wavelengths = psi_delta_df.index.get_level_values("Wavelength").unique().to_numpy()
-
     # create empty Mueller matrix
     MM = pd.DataFrame(
         {},
@@ -143,41 +140,37 @@ def convert_psi_delta_to_isotropic_mueller_matrix(psi_delta_df) -> pd.DataFrame:
             "M43",
             "M44",
         ],
-        index=pd.MultiIndex.from_product(
-            [aois, wavelengths], names=["Angle of Incidence", "Wavelength"]
-        ),
+        index=psi_delta_df.index,
         dtype=float,
     )
 
     # fill in the Mueller matrix coefficients for an isotropic material based equation in https://www.jawoollam.com/resources/ellipsometry-faq#toggle-id-15
-    for aoi in aois:
-        for λ in wavelengths:
-            Δ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Δ"])
-            Ψ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Ψ"])
-
-            N = np.cos(2 * Ψ)
-            C = np.sin(2 * Ψ) * np.cos(Δ)
-            S = np.sin(2 * Ψ) * np.sin(Δ)
-
-            MM.loc[(aoi, λ), "M11"] = 1
-            MM.loc[(aoi, λ), "M12"] = -N
-            MM.loc[(aoi, λ), "M13"] = 0
-            MM.loc[(aoi, λ), "M14"] = 0
-
-            MM.loc[(aoi, λ), "M21"] = -N
-            MM.loc[(aoi, λ), "M22"] = 1
-            MM.loc[(aoi, λ), "M23"] = 0
-            MM.loc[(aoi, λ), "M24"] = 0
-
-            MM.loc[(aoi, λ), "M31"] = 0
-            MM.loc[(aoi, λ), "M32"] = 0
-            MM.loc[(aoi, λ), "M33"] = C
-            MM.loc[(aoi, λ), "M34"] = S
-
-            MM.loc[(aoi, λ), "M41"] = 0
-            MM.loc[(aoi, λ), "M42"] = 0
-            MM.loc[(aoi, λ), "M43"] = -S
-            MM.loc[(aoi, λ), "M44"] = C
+    Δ = np.deg2rad(psi_delta_df["Δ"])
+    Ψ = np.deg2rad(psi_delta_df["Ψ"])
+
+    N = np.cos(2 * Ψ)
+    C = np.sin(2 * Ψ) * np.cos(Δ)
+    S = np.sin(2 * Ψ) * np.sin(Δ)
+
+    MM["M11"] = 1.0
+    MM["M12"] = -N
+    MM["M13"] = 0.0
+    MM["M14"] = 0.0
+
+    MM["M21"] = -N
+    MM["M22"] = 1.0
+    MM["M23"] = 0.0
+    MM["M24"] = 0.0
+
+    MM["M31"] = 0.0
+    MM["M32"] = 0.0
+    MM["M33"] = C
+    MM["M34"] = S
+
+    MM["M41"] = 0.0
+    MM["M42"] = 0.0
+    MM["M43"] = -S
+    MM["M44"] = C
 
     return MM
 
-- 
2.43.0


From 5654047ba187247890fea4e7919c59d63dac0f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 44/58] fix: honour full_scale in single Mueller matrix plots

---
 src/elli/plot/mueller_matrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elli/plot/mueller_matrix.py b/src/elli/plot/mueller_matrix.py
index 8ce4418..f65e1a9 100644
--- a/src/elli/plot/mueller_matrix.py
+++ b/src/elli/plot/mueller_matrix.py
@@ -74,8 +74,9 @@ def plot_mmatrix(
         )
     else:
         fig = make_subplots(rows=4, cols=4)
-        if full_scale:
-            fig.update_yaxes(range=[-1, 1])
+
+    if full_scale:
+        fig.update_yaxes(range=[-1, 1])
 
     for i, melem in enumerate(dataframes[0]):
         coli = colors[i % len(colors)]
-- 
2.43.0


From b3299ddff3eab2dbeb63087d2e29c6ad21d4409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 45/58] fix: reject polarization vectors that are neither Jones
 nor Stokes vectors

---
 src/elli/experiment.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/elli/experiment.py b/src/elli/experiment.py
index e40db8a..97d86a3 100644
--- a/src/elli/experiment.py
+++ b/src/elli/experiment.py
@@ -127,6 +127,12 @@ class Experiment:
 
             self.jones_vector = np.array([a, b])
 
+        else:
+            raise ValueError(
+                "Expected a Jones vector with two or a Stokes vector with four elements, "
+                f"but found shape {vector.shape}."
+            )
+
     def set_theta(self, theta_i: float) -> None:
         """Set incident angle to evaluate.
 
-- 
2.43.0


From 1e0e0e7f220c4511f73298d16a786593e8b05621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:54 +0000
Subject: [PATCH 46/58] fix: identify the forward waves of anisotropic
 half-spaces by decay and power flow

---
 src/elli/solver4x4.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 5df5342..81e5c5e 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -220,8 +220,17 @@ class Solver4x4(Solver):
         """
         q, p = np.linalg.eig(delta)
 
-        # Sort according to z propagation direction, by Re(q) first, then Im(q)
-        idx = np.lexsort((-np.real(q), -np.imag(q)))
+        # The imaginary parts of propagating waves are only rounding errors
+        q_imag = np.imag(q)
+        q_max = np.max(np.abs(q), axis=-1, keepdims=True)
+        q_imag = np.where(np.abs(q_imag) > 1e-9 * q_max, q_imag, 0)
+
+        # Forward waves decay in z direction or, if they propagate, carry power in z direction
+        s_z = np.real(p[:, 0] * np.conj(p[:, 3]) - p[:, 1] * np.conj(p[:, 2]))
+        direction = np.sign(np.where(q_imag != 0, q_imag, s_z))
+
+        # Sort according to z propagation direction
+        idx = np.lexsort((-np.real(q), -q_imag, -direction))
 
         q = np.take_along_axis(q, idx, axis=-1)
         p = np.take_along_axis(p, idx[:, np.newaxis, :], axis=-1)
-- 
2.43.0


From e667bb3a6a546e23f27487fc6d71f3ae3444f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:10 +0000
Subject: [PATCH 47/58] fix: Tauc-Lorentz oscillators with C > 2 E have a
 spurious imaginary part

---
 src/elli/dispersions/tauc_lorentz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elli/dispersions/tauc_lorentz.py b/src/elli/dispersions/tauc_lorentz.py
index e93182f..ff31027 100644
--- a/src/elli/dispersions/tauc_lorentz.py
+++ b/src/elli/dispersions/tauc_lorentz.py
@@ -41,7 +41,8 @@ class TaucLorentz(Dispersion):
         zeta4 = (E**2 - gamma2) ** 2 + alpha**2 * Ci**2 / 4
 
         # fmt: off
-        return (
+        # alpha is imaginary for Ci > 2 Ei, eps1 is real nevertheless
+        return np.real(
             Ai*Ci*aL/2.0/np.pi/zeta4/alpha/Ei*np.log((Ei**2 + Eg**2 + alpha*Eg)/(Ei**2 + Eg**2 - alpha*Eg)) - \
             Ai*aA/np.pi/zeta4/Ei*(np.pi - np.arctan((2.0*Eg + alpha)/Ci) + np.arctan((alpha - 2.0*Eg)/Ci)) + \
             2.0*Ai*Ei*Eg/np.pi/zeta4/alpha*(E**2 - gamma2)*(np.pi + 2.0*np.arctan(2.0/alpha/Ci*(gamma2 - Eg**2))) - \
-- 
2.43.0


From 19d9489d0c98aef711fd58a502df926f874d366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 48/58] fix: Tauc-Lorentz oscillators with C = 2 E are not a
 number

---
 src/elli/dispersions/tauc_lorentz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elli/dispersions/tauc_lorentz.py b/src/elli/dispersions/tauc_lorentz.py
index ff31027..027ef09 100644
--- a/src/elli/dispersions/tauc_lorentz.py
+++ b/src/elli/dispersions/tauc_lorentz.py
@@ -35,7 +35,8 @@ class TaucLorentz(Dispersion):
     @staticmethod
     def eps1(E, Eg, Ai, Ei, Ci):
         gamma2 = sqrt(Ei**2 - Ci**2 / 2) ** 2
-        alpha = sqrt(4 * Ei**2 - Ci**2)
+        # the singularity at alpha = 0 is removable
+        alpha = sqrt(4 * Ei**2 - Ci**2) or 1e-6 * Ei
         aL = (Eg**2 - Ei**2) * E**2 + Eg**2 * Ci**2 - Ei**2 * (Ei**2 + 3 * Eg**2)
         aA = (E**2 - Ei**2) * (Ei**2 + Eg**2) + Eg**2 * Ci**2
         zeta4 = (E**2 - gamma2) ** 2 + alpha**2 * Ci**2 / 4
-- 
2.43.0


From ac88cc34f2bb92124033b3011a1164e6f9ecd6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:47 +0000
Subject: [PATCH 49/58] fix: read the SpectraRay header in the detected
 encoding

---
 src/elli/importer/spectraray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/importer/spectraray.py b/src/elli/importer/spectraray.py
index 3cbad54..9825a7c 100644
--- a/src/elli/importer/spectraray.py
+++ b/src/elli/importer/spectraray.py
@@ -43,7 +43,7 @@ def read_spectraray_psi_delta(
     # index data correctly
     psi_delta_df.index.name = "Wavelength"
 
-    with open(fname) as f:
+    with open(fname, encoding=encoding) as f:
         header = f.readlines()[0]
 
     aois = [float(aoi.replace(decimal, ".")) for aoi in re.split(sep, header)[3::2]]
-- 
2.43.0


From 79a97f4cb331256e3eb0c89b61883ba98473f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:56 +0000
Subject: [PATCH 50/58] fix: accept all real number types as formula parameters

---
 src/elli/formula_parser/parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index cc8c3fe..bf3ca2e 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -51,11 +51,13 @@ class FormulaTransformer(Transformer):
 
     def _check_and_set_single(self, single_params):
         for name, param in single_params.items():
-            if not isinstance(param, (float, int)):
+            if not isinstance(param, (float, int, np.floating, np.integer)):
                 raise TypeError(
                     f"Expected {name} to be of type float but found type {type(param)}."
                 )
-        self.single_params = single_params
+        self.single_params = {
+            name: float(param) for name, param in single_params.items()
+        }
 
     def __init__(
         self,
@@ -78,7 +80,6 @@ class FormulaTransformer(Transformer):
         self._check_and_set_single(single_params)
 
         self.repeated_params = repeated_params
-        self.single_params = single_params
 
     def eps(self, inp):
         """Return an epsilon type formula"""
-- 
2.43.0


From 5b4978403f57b39b4fce2decfa3ac277ad255c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:50 +0000
Subject: [PATCH 51/58] fix: evaluate repeated formula parameters as floating
 point numbers

---
 src/elli/dispersions/formula.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index 70852f4..53b0bac 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -76,9 +76,11 @@ class FormulaParser(BaseDispersion):
         """The repeated parameters as a dict of arrays"""
         if not self.rep_params:
             return {}
-        return {
+        params = {
             k: np.array([dic[k] for dic in self.rep_params]) for k in self.rep_params[0]
         }
+        # Integers would overflow or reject negative powers
+        return {k: v.astype(np.result_type(v, float)) for k, v in params.items()}
 
     def _set_unit_conversion(self, unit: str):
         quantity = ureg(unit)
-- 
2.43.0


From f2764634869fdac174586dbce74ba1707bae9fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:47 +0000
Subject: [PATCH 52/58] fix: read refractive-index coefficients separated by
 any white space or given as a single number

---
 src/elli/database/refractive_index_info.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index 39c9971..9f2e80a 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -333,7 +333,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 1":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 a = coeffs[slice(1, len(coeffs), 2)]
                 b = coeffs[slice(2, len(coeffs), 2)]
@@ -346,7 +346,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 2":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 a = coeffs[slice(1, len(coeffs), 2)]
                 b = coeffs[slice(2, len(coeffs), 2)]
@@ -359,7 +359,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 3":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 f = coeffs[slice(1, len(coeffs), 2)]
                 e = coeffs[slice(2, len(coeffs), 2)]
@@ -372,7 +372,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 4":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 a = coeffs[slice(1, 6, 4)]
                 e1 = coeffs[slice(2, 7, 4)]
@@ -394,7 +394,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 5":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, str(dispersion_relation["coefficients"]).split())
                 )
                 f = coeffs[slice(1, len(coeffs), 2)]
                 e = coeffs[slice(2, len(coeffs), 2)]
-- 
2.43.0


From c69bed2971f93dc2ca1aaab129dc999a38918fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:38 +0000
Subject: [PATCH 53/58] fix: copies of an index view of a dispersion are
 independent of the original

---
 src/elli/dispersions/base_dispersion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 636a812..7c0119e 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -245,7 +245,9 @@ class Dispersion(BaseDispersion):
                 "rep_params_template": self.rep_params_template,
                 "single_params_template": self.single_params,
                 "default_lbda_range": self.default_lbda_range,
-                "dielectric_function": self.dielectric_function,
+                "dielectric_function": lambda self, lbda: (
+                    self.dispersion.dielectric_function(lbda)
+                ),
                 "refractive_index": lambda self, lbda: sqrt(
                     self.dielectric_function(lbda)
                 ),
@@ -253,6 +255,8 @@ class Dispersion(BaseDispersion):
         )
 
         idx_dispersion = AnonymousIndexDispersion()
+        # Part of the instance, such that copies get an own dispersion
+        idx_dispersion.dispersion = self
         idx_dispersion.rep_params = self.rep_params
         idx_dispersion.single_params = self.single_params
 
-- 
2.43.0


From efbba6718ed5d7fc7d1a2caf2a8b4f96c332ba6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:44 +0000
Subject: [PATCH 54/58] fix: Kramers-Kronig transforms on descending axes had
 the wrong sign

---
 src/elli/kkr/kkr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 46445f9..0ce560a 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -126,7 +126,7 @@ def _calc_kkr(
         )
 
     integral = np.empty(len(t))
-    interval = np.diff(x, prepend=2 * x[0] - x[1])
+    interval = np.abs(np.diff(x, prepend=2 * x[0] - x[1]))
     odd_slice = slice(1, None, 2)
     even_slice = slice(0, None, 2)
 
-- 
2.43.0


From 3e6f48593f504b015a64d9d98c0ce70754a5ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:41 +0000
Subject: [PATCH 55/58] fix: do not trust doubtful guesses of the encoding of a
 measurement file

---
 src/elli/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index 4c96334..337ce51 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -373,4 +373,7 @@ def detect_encoding(fname: str) -> str:
     if raw_data.isascii():
         return "ascii"
     result = chardet.detect(raw_data)
+    if not result["encoding"] or result["confidence"] < 0.5:
+        # Doubtful guesses may not even contain ASCII (e.g. EBCDIC for short files)
+        return "latin-1"
     return result["encoding"]
-- 
2.43.0


From f4ee8a020f686fb2ba28add5f5030ede1a088766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:22 +0000
Subject: [PATCH 56/58] fix: repeated measurements in an Accurion file were
 added up

---
 src/elli/importer/accurion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elli/importer/accurion.py b/src/elli/importer/accurion.py
index 94bbce3..38344e3 100644
--- a/src/elli/importer/accurion.py
+++ b/src/elli/importer/accurion.py
@@ -30,7 +30,8 @@ def read_accurion_psi_delta(fname: str) -> pd.DataFrame:
             "Psi": "Ψ",
         }
     )
-    psi_delta_df = psi_delta_df.groupby(["Angle of Incidence", "Wavelength"]).sum()
+    psi_delta_df = psi_delta_df.set_index(["Angle of Incidence", "Wavelength"])
+    psi_delta_df = psi_delta_df.sort_index(kind="stable")
 
     # wrap delta range
     psi_delta_df.loc[:, "Δ"] = convert_delta_range(psi_delta_df.loc[:, "Δ"], -180, 180)
-- 
2.43.0


From 541ae11469c8ba891cee0aac2236a7b25c6107df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:06 +0000
Subject: [PATCH 57/58] fix: isotropic exit media that are mixtures or crystals
 with equal axes are treated as isotropic

---
 src/elli/solver4x4.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 81e5c5e..5506c07 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -16,7 +16,6 @@ else:
 from numpy.lib.scimath import sqrt
 from scipy.linalg import expm as scipy_expm
 
-from .materials import IsotropicMaterial
 from .result import Result
 from .solver import Solver
 
@@ -350,13 +349,16 @@ class Solver4x4(Solver):
 
         layers = reversed(self.permittivity_profile[1:-1])
 
-        if isinstance(self.structure.back_material, IsotropicMaterial):
-            m_t = self.transition_matrix_iso_halfspace(
-                k_x, self.permittivity_profile[-1][1]
-            )
-        else:
-            m_t = self.transition_matrix_halfspace(
-                self.build_delta_matrix(k_x, self.permittivity_profile[-1][1])
+        # The exit medium counts as isotropic by its tensor, as mixtures and crystals
+        # with equal axes are isotropic, too.
+        eps_b = self.permittivity_profile[-1][1]
+        deviation = np.abs(eps_b - eps_b[:, :1, :1] * np.identity(3))
+        isotropic = np.all(deviation <= 1e-12 * np.abs(eps_b[:, :1, :1]), axis=(1, 2))
+
+        m_t = self.transition_matrix_iso_halfspace(k_x, eps_b)
+        if not np.all(isotropic):
+            m_t[~isotropic] = self.transition_matrix_halfspace(
+                self.build_delta_matrix(k_x[~isotropic], eps_b[~isotropic])
             )
 
         for thickness, epsilon in layers:
@@ -390,7 +392,7 @@ class Solver4x4(Solver):
         # The correction coefficient is kb'/kf' for s polarization
         # and (n_b^2/kb)' |kb/n_b|^2 / kf' for p polarization
         # Note : For the moment it is only meaningful for isotropic half spaces.
-        if isinstance(self.structure.back_material, IsotropicMaterial):
+        if np.any(isotropic):
             k_z_f = self.get_k_z(self.structure.front_material, self.lbda, k_x)
             k_z_b = self.get_k_z(self.structure.back_material, self.lbda, k_x)
             n_b = self.structure.back_material.get_refractive_index(self.lbda)[:, 0, 0]
@@ -401,6 +403,7 @@ class Solver4x4(Solver):
                 ],
                 axis=-1,
             )
+            power_correction[~isotropic] = 1
             return Result(
                 self.experiment, jones_matrix_r, jones_matrix_t, power_correction
             )
-- 
2.43.0


From fbb8c1ec8dd1dfae452e76f04ac702cc6530565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:22 +0000
Subject: [PATCH 58/58] fix: WVASE rows of other kinds were taken as data if
 their tag contains a digit

---
 src/elli/importer/woollam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index cf5107c..f618be4 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -34,7 +34,7 @@ def is_float(line: Union[float, int, str]) -> bool:
     if isinstance(line, (float, int)):
         return True
     if isinstance(line, str):
-        return bool(is_float_regex.search(line))
+        return bool(is_float_regex.fullmatch(line.strip()))
     return False
 
 
@@ -135,6 +135,7 @@ def _read_wvase_dataframe(file_object: TextIO) -> pd.DataFrame:
 
     dframe = (
         dframe[dframe.apply(lambda x: is_float(x.iloc[0]), axis=1)]
+        .astype({"Wavelength": float})
         .set_index(["Wavelength", "Angle of Incidence"])
         .swaplevel(0, 1)
     )
-- 
2.43.0


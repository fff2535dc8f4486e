From 22c21fac6af89d5a6e561c3572698f8186b05324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 01/45] fix: count leading and trailing layers of
 RepeatedLayers, not their slices

---
 src/elli/structure.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/elli/structure.py b/src/elli/structure.py
index eb25a53..34a8575 100644
--- a/src/elli/structure.py
+++ b/src/elli/structure.py
@@ -133,15 +133,15 @@ class RepeatedLayers(AbstractLayer):
             List[Tuple[float, npt.NDArray]]:
                 Returns list of tuples [(thickness, dielectric tensor), ...]
         """
-        layers = []
-        for layer in self.layers:
-            layers += layer.get_permittivity_profile(lbda)
+        profiles = [layer.get_permittivity_profile(lbda) for layer in self.layers]
 
         if self.before > 0:
-            before = layers[-self.before :]
+            before = profiles[-self.before :]
         else:
             before = []
-        return before + self.repetitions * layers + layers[: self.after]
+
+        sequence = before + self.repetitions * profiles + profiles[: self.after]
+        return [layer_slice for profile in sequence for layer_slice in profile]
 
 
 class Layer(AbstractLayer):
-- 
2.43.0


From b02c9117fd09890ee89e50fdb7de2ef5e199d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 02/45] fix: give zero-thickness inhomogeneous layers a defined
 tensor

---
 src/elli/structure.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elli/structure.py b/src/elli/structure.py
index 34a8575..521d02d 100644
--- a/src/elli/structure.py
+++ b/src/elli/structure.py
@@ -313,7 +313,8 @@ class TwistedLayer(InhomogeneousLayer):
             npt.NDArray: Permittivity tensor for position 'z' and wavelength 'lbda'.
         """
         epsilon = self.material.get_tensor(lbda)
-        m_r = rotation_v_theta(E_Z, self.angle * z / self.thickness)
+        position = z / self.thickness if self.thickness > 0 else 0.0
+        m_r = rotation_v_theta(E_Z, self.angle * position)
         return m_r @ epsilon @ m_r.T
 
 
@@ -386,8 +387,9 @@ class VaryingMixtureLayer(InhomogeneousLayer):
         Returns:
             npt.NDArray: Permittivity tensor for position 'z' and wavelength 'lbda'.
         """
+        position = z / self.thickness if self.thickness > 0 else 0.0
         epsilon = self.material.get_tensor_fraction(
-            lbda, self.fraction_modulation(z / self.thickness)
+            lbda, self.fraction_modulation(position)
         )
         return epsilon
 
-- 
2.43.0


From 265db8b62b7912c5e8e01787e1bea3221122ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 03/45] fix: evaluate dispersions for wavelength lists and
 integer wavelengths

---
 src/elli/dispersions/base_dispersion.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 04a021b..4dfd90b 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -109,16 +109,21 @@ class BaseDispersion(ABC):
 
         return self
 
+    def _wavelength_array(self, lbda: Optional[npt.ArrayLike] = None) -> npt.NDArray:
+        """Returns the wavelengths as floating point array, which all models can evaluate."""
+        lbda = self.default_lbda_range if lbda is None else lbda
+        return np.asarray(lbda, dtype=np.float64)
+
     def get_dielectric(self, lbda: Optional[npt.ArrayLike] = None) -> npt.NDArray:
         """Returns the dielectric constant for wavelength 'lbda' default unit (nm)
         in the convention ε1 + iε2."""
-        lbda = self.default_lbda_range if lbda is None else lbda
+        lbda = self._wavelength_array(lbda)
         return np.asarray(self.dielectric_function(lbda), dtype=np.complex128)
 
     def get_refractive_index(self, lbda: Optional[npt.ArrayLike] = None) -> npt.NDArray:
         """Returns the refractive index for wavelength 'lbda' default unit (nm)
         in the convention n + ik."""
-        lbda = self.default_lbda_range if lbda is None else lbda
+        lbda = self._wavelength_array(lbda)
 
         if isinstance(self, IndexDispersion):
             return self.refractive_index(lbda)
-- 
2.43.0


From 534b7ebf584e9ed26f14276a9f4dc8ab2f0c4f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 04/45] fix: let as_index work for dispersions with required
 parameters

---
 src/elli/dispersions/base_dispersion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 4dfd90b..180ebe0 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -257,9 +257,12 @@ class Dispersion(BaseDispersion):
             },
         )
 
-        idx_dispersion = AnonymousIndexDispersion()
+        # The parameters are taken over as a whole, because required parameters
+        # have no default to create the object from.
+        idx_dispersion = AnonymousIndexDispersion.__new__(AnonymousIndexDispersion)
         idx_dispersion.rep_params = self.rep_params
         idx_dispersion.single_params = self.single_params
+        idx_dispersion.default_lbda_range = self.default_lbda_range
 
         return idx_dispersion
 
-- 
2.43.0


From 567ae1ba38bd94bffa507203ce11c0b36f5a7b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 05/45] fix: do not modify the operands when adding dispersions

---
 src/elli/dispersions/base_dispersion.py | 40 +++++++++++--------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 180ebe0..beb47f3 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -228,8 +228,7 @@ class Dispersion(BaseDispersion):
             return other.__add__(self)
 
         if isinstance(other, DispersionSum):
-            other.dispersions.append(self)
-            return other
+            return DispersionSum(other, self)
 
         if isinstance(other, (int, float)):
             return DispersionSum(self, dispersions.EpsilonInf(other))
@@ -307,8 +306,7 @@ class IndexDispersion(BaseDispersion):
             return other.__add__(self)
 
         if isinstance(other, IndexDispersionSum):
-            other.index_dispersions.append(self)
-            return other
+            return IndexDispersionSum(other, self)
 
         if isinstance(other, (int, float)):
             return IndexDispersionSum(self, dispersions.ConstantRefractiveIndex(other))
@@ -353,21 +351,20 @@ class DispersionSum(Dispersion):
 
         self.dispersions = []
         for disp in disps:
-            self += disp
+            self._append(disp)
 
-    def __add__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
+    def _append(self, other: Union[int, float, "Dispersion"]) -> None:
         self._check_valid_operand(other)
 
         if isinstance(other, DispersionSum):
             self.dispersions += other.dispersions
-            return self
-
-        if isinstance(other, (int, float)):
+        elif isinstance(other, (int, float)):
             self.dispersions.append(dispersions.EpsilonInf(eps=other))
-            return self
+        else:
+            self.dispersions.append(other)
 
-        self.dispersions.append(other)
-        return self
+    def __add__(self, other: Union[int, float, "Dispersion"]) -> "DispersionSum":
+        return DispersionSum(self, other)
 
     def dielectric_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
         dielectric_function = sum(
@@ -396,23 +393,22 @@ class IndexDispersionSum(IndexDispersion):
 
         self.index_dispersions = []
         for disp in disps:
-            self += disp
+            self._append(disp)
 
-    def __add__(
-        self, other: Union[int, float, "IndexDispersion"]
-    ) -> "IndexDispersionSum":
+    def _append(self, other: Union[int, float, "IndexDispersion"]) -> None:
         self._check_valid_operand(other)
 
         if isinstance(other, IndexDispersionSum):
             self.index_dispersions += other.index_dispersions
-            return self
-
-        if isinstance(other, (int, float)):
+        elif isinstance(other, (int, float)):
             self.index_dispersions.append(dispersions.ConstantRefractiveIndex(n=other))
-            return self
+        else:
+            self.index_dispersions.append(other)
 
-        self.index_dispersions.append(other)
-        return self
+    def __add__(
+        self, other: Union[int, float, "IndexDispersion"]
+    ) -> "IndexDispersionSum":
+        return IndexDispersionSum(self, other)
 
     def refractive_index(self, lbda: npt.ArrayLike) -> npt.NDArray:
         refractive_index = sum(
-- 
2.43.0


From 745544a6943e7fd993d11011c4036f9a3dd4404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 06/45] fix: add numbers to tabulated refractive indices

---
 src/elli/dispersions/table_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/table_index.py b/src/elli/dispersions/table_index.py
index 038be6e..037c0ff 100644
--- a/src/elli/dispersions/table_index.py
+++ b/src/elli/dispersions/table_index.py
@@ -57,7 +57,7 @@ class Table(IndexDispersion):
         self, other: Union[int, float, "IndexDispersion"]
     ) -> "IndexDispersionSum":
         if isinstance(other, (int, float)):
-            return IndexDispersionSum(self, ConstantRefractiveIndex(eps=other))
+            return IndexDispersionSum(self, ConstantRefractiveIndex(n=other))
 
         if isinstance(other, Table):
             raise NotImplementedError(
-- 
2.43.0


From 977190eac36bed686a4f069622fda6ad04968333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 07/45] fix: map delta values into the requested delta range

---
 src/elli/result.py | 30 +++++++++++-------------------
 src/elli/utils.py  |  5 ++++-
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 51eb512..0a76410 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -29,7 +29,7 @@ import numpy as np
 import numpy.typing as npt
 from numpy.lib.scimath import sqrt
 
-from .utils import DeltaRange
+from .utils import DeltaRange, convert_delta_range
 
 
 def _convert_index(index: str) -> int:
@@ -112,10 +112,7 @@ class Result:
         .. math::
             \rho = \tan \psi \exp(-i \Delta)
         """
-        return (
-            np.mod(-np.angle(self.rho, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._to_delta_range(-np.angle(self.rho, deg=True))
 
     @property
     def delta_t(self) -> npt.NDArray:
@@ -126,10 +123,7 @@ class Result:
         .. math::
             \rho_\text{t} = \tan \psi_\text{t} \exp(-i \Delta_\text{t})
         """
-        return (
-            np.mod(-np.angle(self.rho_t, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._to_delta_range(-np.angle(self.rho_t, deg=True))
 
     @property
     def rho_matrix(self) -> npt.NDArray:
@@ -197,10 +191,7 @@ class Result:
             \Delta_\text{pp} & \Delta_\text{ps} \\ \Delta_\text{sp} & 0°
             \end{bmatrix}
         """
-        return (
-            np.mod(-np.angle(self.rho_matrix, deg=True) + self._delta_range.lower, 360)
-            + self._delta_range.lower
-        )
+        return self._to_delta_range(-np.angle(self.rho_matrix, deg=True))
 
     @property
     def delta_matrix_t(self) -> npt.NDArray:
@@ -212,12 +203,7 @@ class Result:
             \Delta_\text{t,pp} & \Delta_\text{t,ps} \\ \Delta_\text{t,sp} & 0°
             \end{bmatrix}
         """
-        return (
-            np.mod(
-                -np.angle(self.rho_matrix_t, deg=True) + self._delta_range.lower, 360
-            )
-            + self._delta_range.lower
-        )
+        return self._to_delta_range(-np.angle(self.rho_matrix_t, deg=True))
 
     @property
     def mueller_matrix(self) -> npt.NDArray:
@@ -438,6 +424,12 @@ class Result:
 
         return self.__getattribute__(names[0])[:, i, j]
 
+    def _to_delta_range(self, delta: npt.NDArray) -> npt.NDArray:
+        """Returns the delta values in the delta range of this result."""
+        return convert_delta_range(
+            delta, self._delta_range.lower, self._delta_range.upper
+        )
+
     def as_delta_range(self, lower: int, upper: int):
         """Returns this result in another delta range
 
diff --git a/src/elli/utils.py b/src/elli/utils.py
index 85f4cd2..c3baf88 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -50,7 +50,10 @@ def convert_delta_range(
         npt.ArrayLike: Delta values with shifted range.
     """
     delta_range = DeltaRange(lower, upper)
-    return np.mod((delta_values + delta_range.lower), 360) + delta_range.lower
+    delta_values = np.mod(delta_values - delta_range.lower, 360) + delta_range.lower
+    if delta_range.upper - delta_range.lower == 180:
+        return 180 - np.abs(180 - delta_values)
+    return delta_values
 
 
 def calc_pseudo_diel(rho, angle: float, output: str = "eps") -> pd.DataFrame:
-- 
2.43.0


From 312fdeb0e665a1c21fc74bf9da15fb394aa75804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 08/45] fix: let Result.get return the requested variable

---
 src/elli/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 0a76410..fbfd1f2 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -370,7 +370,7 @@ class Result:
         Returns:
             npt.NDArray: Array of data.
         """
-        return self[name]
+        return getattr(self, name)
 
     def __getattr__(self, name: str) -> npt.NDArray:
         """Return the data for the requested variable 'name'.
-- 
2.43.0


From ea1c22104d8e19acafb3c4e7decc96ffbe3d5182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 09/45] fix: average over the results of a ResultList only and
 let it be copied

---
 src/elli/result.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index fbfd1f2..4c6de8f 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -498,6 +498,9 @@ class ResultList:
             npt.NDArray: Array of data.
         """
 
+        if name == "results" or name.startswith("__"):
+            raise AttributeError(f"'ResultList' object has no attribute '{name}'")
+
         if name == "mean":
             return AveragedResultList(self.results)
 
@@ -533,4 +536,7 @@ class AveragedResultList(ResultList):
                 "The ResultList is already averaged and can't be averaged again."
             )
 
-        return np.mean(super().__getattr__(name), axis=0)
+        if name == "results" or name.startswith("__"):
+            raise AttributeError(f"'ResultList' object has no attribute '{name}'")
+
+        return np.mean([getattr(result, name) for result in self.results], axis=0)
-- 
2.43.0


From efb89c4c1f916e4cea46ad5d796e9e3c7ec3f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 10/45] fix: require both bounds of a delta range to be
 integers

---
 src/elli/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index c3baf88..d93f95b 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -16,7 +16,7 @@ class DeltaRange:
     upper: int
 
     def __post_init__(self):
-        if not (isinstance(self.lower, int) or isinstance(self.upper, int)):
+        if not (isinstance(self.lower, int) and isinstance(self.upper, int)):
             raise TypeError("delta range values must be an integer")
 
         if not -360 <= self.lower <= 0:
-- 
2.43.0


From e708d3ab33e4f01055f26b9e6e3028478f7e8520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 11/45] fix: convert psi and delta in degrees to the isotropic
 Mueller matrix

---
 src/elli/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elli/utils.py b/src/elli/utils.py
index d93f95b..6e550fa 100644
--- a/src/elli/utils.py
+++ b/src/elli/utils.py
@@ -151,12 +151,12 @@ def convert_psi_delta_to_isotropic_mueller_matrix(psi_delta_df) -> pd.DataFrame:
     # fill in the Mueller matrix coefficients for an isotropic material based equation in https://www.jawoollam.com/resources/ellipsometry-faq#toggle-id-15
     for aoi in aois:
         for λ in wavelengths:
-            Δ = psi_delta_df.loc[aoi, λ]["Δ"]
-            Ψ = psi_delta_df.loc[aoi, λ]["Ψ"]
+            Δ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Δ"])
+            Ψ = np.deg2rad(psi_delta_df.loc[aoi, λ]["Ψ"])
 
             N = np.cos(2 * Ψ)
-            C = np.sin(2 * Ψ) * np.cos(2 * Δ)
-            S = np.sin(2 * Ψ) * np.cos(2 * Δ)
+            C = np.sin(2 * Ψ) * np.cos(Δ)
+            S = np.sin(2 * Ψ) * np.sin(Δ)
 
             MM.loc[(aoi, λ), "M11"] = 1
             MM.loc[(aoi, λ), "M12"] = -N
-- 
2.43.0


From 21cd565e680c8fa0d88cde44122dfcb02cfd6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 12/45] fix: only create dispersions in the dispersion factory

---
 src/elli/dispersions/base_dispersion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index beb47f3..19a7753 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -331,10 +331,10 @@ class DispersionFactory:
         Returns:
             DispersionLaw: The Dispersion object initialized with the given parameters.
         """
-        bad_identifier = ["Dispersion"]
+        dispersion = getattr(dispersions, identifier, None)
 
-        if hasattr(dispersions, identifier) and identifier not in bad_identifier:
-            return getattr(dispersions, identifier)(*args, **kwargs)
+        if isinstance(dispersion, type) and issubclass(dispersion, BaseDispersion):
+            return dispersion(*args, **kwargs)
 
         raise ValueError(f"No such dispersion: {identifier}")
 
-- 
2.43.0


From 3511c5c05a8d6d25435a53af2fe8d2b8e149f6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 13/45] fix: reject vectors which are neither Jones nor Stokes
 vectors

---
 src/elli/experiment.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/elli/experiment.py b/src/elli/experiment.py
index e7f5fd6..8b61daa 100644
--- a/src/elli/experiment.py
+++ b/src/elli/experiment.py
@@ -130,6 +130,12 @@ class Experiment:
 
             self.jones_vector = np.array([a, b])
 
+        else:
+            raise ValueError(
+                "The polarization has to be given as a Jones vector with two "
+                f"or a Stokes vector with four elements, not with shape {vector.shape}."
+            )
+
     def set_theta(self, theta_i: float) -> None:
         """Set incident angle to evaluate.
 
-- 
2.43.0


From 3d2b159854347f1ba9821c42d9f334454ed88a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 14/45] fix: weight the first point of a Kramers-Kronig
 transformation by its spacing

---
 src/elli/kkr/kkr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 05bdab1..85f9ba6 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -126,7 +126,7 @@ def _calc_kkr(
         )
 
     integral = np.empty(len(t))
-    interval = np.diff(x, prepend=x[1] - x[0])
+    interval = np.diff(x, prepend=2 * x[0] - x[1])
     odd_slice = slice(1, None, 2)
     even_slice = slice(0, None, 2)
 
-- 
2.43.0


From 7908e74048e927cc5ec0b4508d797de13c0d0641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 15/45] fix: evaluate the index profile along the requested
 direction

---
 src/elli/plot/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/plot/structure.py b/src/elli/plot/structure.py
index 110cf6c..4fd8caf 100644
--- a/src/elli/plot/structure.py
+++ b/src/elli/plot/structure.py
@@ -32,7 +32,7 @@ def get_index_profile(structure, lbda, v=E_X):
     """
     profile = get_permittivity_profile(structure, lbda)
     (h, epsilon) = list(zip(*profile))  # unzip
-    n = [sqrt((v.T * eps * v)[0, 0, 0]) for eps in epsilon]
+    n = [sqrt(v @ eps[0] @ v) for eps in epsilon]
     return list(zip(h, n))
 
 
-- 
2.43.0


From dc0b47ce94f4e0ae08ec19c8cda84dd7e2552510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 16/45] fix: rescale energy axes of woollam files reciprocally

---
 src/elli/importer/woollam.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index c0cc6e9..916eb00 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -87,10 +87,12 @@ def scale_to_nm(unit: str, dataframe: pd.DataFrame) -> pd.DataFrame:
         pd.DataFrame: The dataframe with scaled wavelength axis.
     """
     try:
-        scaling = ureg(unit).to("nm").magnitude
-        dataframe.index = dataframe.index.set_levels(
-            dataframe.index.levels[1].astype(float) * scaling, level=1
-        )
+        quantity = ureg(unit)
+        scaling = quantity.to("nm").magnitude
+        values = dataframe.index.levels[1].astype(float)
+        # Energies, frequencies and wavenumbers are reciprocal to wavelengths
+        values = values * scaling if quantity.check("[length]") else scaling / values
+        dataframe.index = dataframe.index.set_levels(values, level=1)
 
         return dataframe
     except UndefinedUnitError:
-- 
2.43.0


From 91287de1ab20477766d627d81789844dba4b1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 17/45] fix: read the spectraray header in the encoding of the
 file

---
 src/elli/importer/spectraray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/importer/spectraray.py b/src/elli/importer/spectraray.py
index 9835e82..b7ba209 100644
--- a/src/elli/importer/spectraray.py
+++ b/src/elli/importer/spectraray.py
@@ -43,7 +43,7 @@ def read_spectraray_psi_delta(
     # index data correctly
     psi_delta_df.index.name = "Wavelength"
 
-    with open(fname) as f:
+    with open(fname, encoding=encoding) as f:
         header = f.readlines()[0]
 
     aois = list(map(float, re.split(sep, header)[3::2]))
-- 
2.43.0


From a79fce914765cf2be729ff293478245705634023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 18/45] fix: load spectraray tables with a wavelength axis

---
 src/elli/dispersions/table_spectraray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/dispersions/table_spectraray.py b/src/elli/dispersions/table_spectraray.py
index 87fc9b8..9312ea6 100644
--- a/src/elli/dispersions/table_spectraray.py
+++ b/src/elli/dispersions/table_spectraray.py
@@ -58,7 +58,7 @@ class TableSpectraRay:
 
         if x_unit == "Wavelength":
             return TableEpsilon(
-                lbda=df.index, epsilon=df.loc[:, "ϵ1"] + 1j * df.iloc[:, "ϵ2"]
+                lbda=df.index, epsilon=df.loc[:, "ϵ1"] + 1j * df.loc[:, "ϵ2"]
             )
         return TableEpsilon(
             lbda=conversion_wavelength_energy(df.index),
-- 
2.43.0


From 97bc9fb9163076f8c83b868c804babb75e94caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 19/45] fix: do not divide by zero when normalizing half-space
 eigenvectors

---
 src/elli/solver4x4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/solver4x4.py b/src/elli/solver4x4.py
index 4f2610d..4658bbc 100644
--- a/src/elli/solver4x4.py
+++ b/src/elli/solver4x4.py
@@ -252,7 +252,7 @@ class Solver4x4(Solver):
         # For an isotropic half-space, this should return the same matrix
         # as IsotropicHalfSpace
         c = p[:, 1, 0] + p[:, 1, 1]
-        np.where(np.abs(c) == 0, 1, c)
+        c = np.where(np.abs(c) == 0, 1, c)
 
         p = 2 * p / c[:, np.newaxis, np.newaxis]
 
-- 
2.43.0


From 8bf2fcdc07978c48b2ae4ad9a81ab6d2dc45fda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 20/45] fix: restore the numpy error settings when the mixing
 formula fails

---
 src/elli/materials.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/elli/materials.py b/src/elli/materials.py
index 868151e..2fd24cd 100755
--- a/src/elli/materials.py
+++ b/src/elli/materials.py
@@ -402,17 +402,12 @@ class MaxwellGarnettEMA(MixtureMaterial):
         e_g = self.guest_material.get_tensor(lbda)
 
         # Catch calculation warnings
-        old_settings = np.geterr()
-        np.seterr(invalid="ignore")
-
-        maxwell_garnett = (
-            e_h
-            * (2 * fraction * (e_g - e_h) + e_g + 2 * e_h)
-            / (2 * e_h + e_g - fraction * (e_g - e_h))
-        )
-
-        # Reset numpy settings
-        np.seterr(**old_settings)
+        with np.errstate(invalid="ignore"):
+            maxwell_garnett = (
+                e_h
+                * (2 * fraction * (e_g - e_h) + e_g + 2 * e_h)
+                / (2 * e_h + e_g - fraction * (e_g - e_h))
+            )
 
         epsilon = np.where(np.logical_and(e_h == 0, e_g == 0), e_h, maxwell_garnett)
         return epsilon
-- 
2.43.0


From 752ded8825d99b9d7a6e2ab353b89cbd4a1b3c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 21/45] fix: keep the states of a parameter history apart from
 the live parameters

---
 src/elli/fitting/params_hist.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/elli/fitting/params_hist.py b/src/elli/fitting/params_hist.py
index 9e5098d..7aad95e 100644
--- a/src/elli/fitting/params_hist.py
+++ b/src/elli/fitting/params_hist.py
@@ -81,14 +81,25 @@ class ParamsHist(Parameters):
         Args:
             hist_pos (int): The history position to revert to.
         """
-        if len(self._history) > (hist_pos % len(self._history)):
-            self.update(self._history[hist_pos])
+        if len(self._history) > 0:
+            self._restore(self._history[hist_pos])
+
+    def _restore(self, state: Parameters) -> None:
+        """Takes over the parameters of a state, without sharing them with it.
+
+        Args:
+            state (Parameters): The state to restore.
+        """
+        for name in list(self):
+            if name not in state:
+                del self[name]
+        self.update(state.copy())
 
     def pop(self):
         """Gets to the previous history version and deletes the current element."""
         if len(self._history) > 0:
             curr_params = self.copy()
-            self.update(self._history[-1])
+            self._restore(self._history[-1])
             self._history = self._history[:-1]
 
             return curr_params
@@ -112,7 +123,7 @@ class ParamsHist(Parameters):
                 The lmfit parameters object to update the values from.
         """
         self.commit()
-        self.update(parameters)
+        self.update(parameters.copy())
 
     def tracked_add(self, *args, **kwargs) -> None:
         """Adds a parameter and keeps track of the change in history"""
-- 
2.43.0


From 7c489cd8c8f9a92a35d9c5e5285054e71df74d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 22/45] fix: take over a fit with a single history step and for
 plain parameters

---
 src/elli/fitting/decorator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 87ad403..82534b1 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -128,8 +128,9 @@ class FitDecorator(ABC):
         """
         self.fit(**self.fit_kwargs)
         if isinstance(self.params, ParamsHist):
-            self.params.commit()
-        self.params.update_params(self.fitted_params)
+            self.params.update_params(self.fitted_params)
+        else:
+            self.params.update(self.fitted_params.copy())
         self.update_widgets()
 
         self.update_selection()
-- 
2.43.0


From 4450272e93c15f591e8de959153cd70e1776855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 23/45] fix: keep the history when resetting to the initial
 parameters

---
 src/elli/fitting/decorator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index 82534b1..ce460fb 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -161,8 +161,8 @@ class FitDecorator(ABC):
         if not isinstance(self.params, ParamsHist):
             return
 
-        self.last_params = self.params.pop()
-        self.params = self.initial_params.copy()
+        self.last_params = None
+        self.params.update_params(self.initial_params)
         self.update_widgets()
         self.update_selection()
 
-- 
2.43.0


From 91828a02c69fb224c782797a3fd095fee9f86598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 24/45] fix: give the display options of the Mueller matrix fit
 defaults

---
 src/elli/fitting/decorator_mmatrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elli/fitting/decorator_mmatrix.py b/src/elli/fitting/decorator_mmatrix.py
index 25999d7..b6acc63 100644
--- a/src/elli/fitting/decorator_mmatrix.py
+++ b/src/elli/fitting/decorator_mmatrix.py
@@ -345,6 +345,9 @@ class FitMuellerMatrix(FitDecorator):
         self.model = model
         self.param_widgets = {}
         self.show_residual = False
+        self.display_single = True
+        self.sharex = False
+        self.full_scale = False
 
         mm_kwargs = ("display_single", "sharex", "full_scale")
         for kwarg in mm_kwargs:
-- 
2.43.0


From 526b13de07aca25a463b9eb10d834481367bb1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 25/45] fix: let formula dispersions follow their own
 parameters after copying or extending them

---
 src/elli/dispersions/formula.py | 39 ++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index f1954b8..6dab303 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -62,35 +62,33 @@ class FormulaParser(BaseDispersion):
         for rep_params_set in rep_params_sets:
             self.add(**rep_params_set)
 
-        self.rep_params_dl = {}
-        if self.rep_params:
-            self.rep_params_dl = {
-                k: np.array([dic[k] for dic in self.rep_params])
-                for k in self.rep_params[0]
-            }
-
         self.formula = formula
 
         self._check_repr()
 
-        self._dispersion_function = self.__dispersion_function
+        self._axis_scaling = 1
+        self._axis_is_reciprocal = False
         if unit is not None:
             self._set_unit_conversion(unit)
 
+    @property
+    def rep_params_dl(self) -> Dict[str, npt.NDArray]:
+        """The repeated parameters as arrays over all repetitions."""
+        if not self.rep_params:
+            return {}
+        return {
+            k: np.array([dic[k] for dic in self.rep_params]) for k in self.rep_params[0]
+        }
+
     def _set_unit_conversion(self, unit: str):
         quantity = ureg(unit)
         if quantity.check("[length]"):
-            scaling = ureg("nm").to(unit).magnitude
-            self._dispersion_function = lambda lbda: self.__dispersion_function(
-                scaling * lbda
-            )
+            self._axis_scaling = ureg("nm").to(unit).magnitude
             return
 
         if quantity.check("[energy]"):
-            scaling = ureg("nm").to(unit).magnitude
-            self._dispersion_function = lambda lbda: self.__dispersion_function(
-                scaling / lbda
-            )
+            self._axis_scaling = ureg("nm").to(unit).magnitude
+            self._axis_is_reciprocal = True
             return
 
         raise ValueError(f"Unsupported unit `{unit}`.")
@@ -108,10 +106,15 @@ class FormulaParser(BaseDispersion):
                 f"Representation `{representation}` not supported by Formula"
             )
 
-    def __dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
+    def _dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
+        if self._axis_is_reciprocal:
+            x_axis_values = self._axis_scaling / lbda
+        else:
+            x_axis_values = self._axis_scaling * lbda
+
         return FormulaTransformer(
             x_axis_name=self.f_axis_name,
-            x_axis_values=lbda,
+            x_axis_values=x_axis_values,
             single_params=self.single_params,
             repeated_params=self.rep_params_dl,
         ).transform(parse_formula(self.formula))[1]
-- 
2.43.0


From 04e365a223b0c905ee764a6e36e3fd8700ae17c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 26/45] fix: do not read the start of a parameter name as
 function or constant

---
 src/elli/formula_parser/dispersion_function_grammar.lark | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/formula_parser/dispersion_function_grammar.lark b/src/elli/formula_parser/dispersion_function_grammar.lark
index 7524723..fcd764c 100644
--- a/src/elli/formula_parser/dispersion_function_grammar.lark
+++ b/src/elli/formula_parser/dispersion_function_grammar.lark
@@ -41,8 +41,8 @@
                  | NAME -> param_name
                  | BUILTIN -> builtin
 
-FUNC.1: "sin" | "cos" | "tan" | "sqrt" | "dawsn" | "ln" | "log" | "heaviside" 
-BUILTIN.1: "1j" | "pi" | "eps_0" | "hbar" | "h" | "c" 
+FUNC.1: /(sin|cos|tan|sqrt|dawsn|ln|log|heaviside)(?![A-Za-z0-9_])/
+BUILTIN.1: /(1j|pi|eps_0|hbar|h|c)(?![A-Za-z0-9_])/
 
 %import common.CNAME -> NAME
 %import common.SIGNED_NUMBER
-- 
2.43.0


From 33dcfb39be89b7675460e7287ef5dff19421e119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 27/45] fix: make the heaviside function usable in formulas

---
 src/elli/formula_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/formula_parser/parser.py b/src/elli/formula_parser/parser.py
index e2de3d4..be7e8fe 100644
--- a/src/elli/formula_parser/parser.py
+++ b/src/elli/formula_parser/parser.py
@@ -103,7 +103,7 @@ class FormulaTransformer(Transformer):
             "dawsn": dawsn,
             "ln": np.log,
             "log": np.log10,
-            "heaviside": np.heaviside,
+            "heaviside": lambda x: np.heaviside(x, 0.5),
         }
 
         if name in names:
-- 
2.43.0


From 5f95a3a823956c2d19e4411434b60635b4d1cb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 28/45] fix: close NeXus files after reading psi and delta

---
 src/elli/importer/nexus.py | 50 +++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 47b9981..6270935 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -113,33 +113,33 @@ def read_nexus_psi_delta(
     if group_names is None:
         group_names = NexusGroupNames()
 
-    h5file = h5py.File(nxs_filename, "r")
-    if f"{group_names.entry}/sample/data_type" in h5file:
-        data_type = h5file[f"{group_names.entry}/sample/data_type"][()].decode("utf-8")
-    elif f"{group_names.entry}/data_collection/data_type" in h5file:
-        data_type = h5file[f"{group_names.entry}/data_collection/data_type"][()].decode(
-            "utf-8"
-        )
-    else:
-        raise ValueError(
-            "Could not resolve a proper definition "
-            f"from the provided nexus file: {nxs_filename}"
-        )
+    with h5py.File(nxs_filename, "r") as h5file:
+        if f"{group_names.entry}/sample/data_type" in h5file:
+            data_type = h5file[f"{group_names.entry}/sample/data_type"][()].decode("utf-8")
+        elif f"{group_names.entry}/data_collection/data_type" in h5file:
+            data_type = h5file[f"{group_names.entry}/data_collection/data_type"][
+                ()
+            ].decode("utf-8")
+        else:
+            raise ValueError(
+                "Could not resolve a proper definition "
+                f"from the provided nexus file: {nxs_filename}"
+            )
 
-    # Currently, the appdef version can only be determined
-    # reliably by the case in the data_type field.
-    def_mapping = {
-        "psi/delta": read_legacy,
-        "Psi/Delta": read_nx_opt_def,
-    }
-
-    if data_type not in def_mapping:
-        raise NotImplementedError(
-            f"Unsupported data type: {data_type}. "
-            "Only 'psi/delta' values are supported yet."
-        )
+        # Currently, the appdef version can only be determined
+        # reliably by the case in the data_type field.
+        def_mapping = {
+            "psi/delta": read_legacy,
+            "Psi/Delta": read_nx_opt_def,
+        }
+
+        if data_type not in def_mapping:
+            raise NotImplementedError(
+                f"Unsupported data type: {data_type}. "
+                "Only 'psi/delta' values are supported yet."
+            )
 
-    return def_mapping.get(data_type)()
+        return def_mapping.get(data_type)()
 
 
 def read_nexus_rho(nxs_filename: str) -> pd.DataFrame:
-- 
2.43.0


From d3d6095581e7345b08d2e8e430df5886f86bba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 29/45] fix: look up the NeXus data type in the configured
 sample group

---
 src/elli/importer/nexus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 6270935..62a88c9 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -114,8 +114,8 @@ def read_nexus_psi_delta(
         group_names = NexusGroupNames()
 
     with h5py.File(nxs_filename, "r") as h5file:
-        if f"{group_names.entry}/sample/data_type" in h5file:
-            data_type = h5file[f"{group_names.entry}/sample/data_type"][()].decode("utf-8")
+        if f"{group_names.full_sample_path}/data_type" in h5file:
+            data_type = h5file[f"{group_names.full_sample_path}/data_type"][()].decode("utf-8")
         elif f"{group_names.entry}/data_collection/data_type" in h5file:
             data_type = h5file[f"{group_names.entry}/data_collection/data_type"][
                 ()
-- 
2.43.0


From 5fbe27a99f5268c688033ec4e5ed28c0a59f96ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 30/45] fix: read the axis of NeXus dispersion tables before
 the file is closed

---
 src/elli/importer/nexus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 62a88c9..a0cf901 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -205,10 +205,10 @@ def read_nexus_materials(filename: str):
     def get_dispersion_table(dataset: h5py.Dataset):
         wavelength = None
         if "wavelength" in dataset:
-            wavelength = dataset["wavelength"]
+            wavelength = dataset["wavelength"][()]
 
         if "energy" in dataset:
-            wavelength = conversion_wavelength_energy(dataset["energy"])
+            wavelength = conversion_wavelength_energy(dataset["energy"][()])
 
         if wavelength is None:
             raise ValueError("No wavelength array found in dataset.")
-- 
2.43.0


From 444232302705a7a086ae3b17c3694f0936ee62f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 31/45] fix: do not use an undefined unit for NeXus dispersions

---
 src/elli/importer/nexus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index a0cf901..3fb312a 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -178,6 +178,7 @@ def read_nexus_materials(filename: str):
                 rep_params[param_name] = dataset["values"][()]
 
         identifier = None
+        unit = None
         if "wavelength_identifier" in dataset:
             identifier = dataset["wavelength_identifier"][()].decode("utf-8")
             unit = (
-- 
2.43.0


From 2aa86d4c5aebd84ef8d7fbd53ea19519afc3c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 32/45] fix: accept any whitespace between database
 coefficients

---
 src/elli/database/refractive_index_info.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index 7b88381..4fabb0a 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -333,7 +333,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 1":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, dispersion_relation["coefficients"].split())
                 )
                 a = coeffs[slice(1, len(coeffs), 2)]
                 b = coeffs[slice(2, len(coeffs), 2)]
@@ -346,7 +346,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 2":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, dispersion_relation["coefficients"].split())
                 )
                 a = coeffs[slice(1, len(coeffs), 2)]
                 b = coeffs[slice(2, len(coeffs), 2)]
@@ -359,7 +359,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 3":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, dispersion_relation["coefficients"].split())
                 )
                 f = coeffs[slice(1, len(coeffs), 2)]
                 e = coeffs[slice(2, len(coeffs), 2)]
@@ -372,7 +372,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 4":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, dispersion_relation["coefficients"].split())
                 )
                 a = coeffs[slice(1, 6, 4)]
                 e1 = coeffs[slice(2, 7, 4)]
@@ -394,7 +394,7 @@ class RII:
 
             elif dispersion_relation["type"] == "formula 5":
                 coeffs = list(
-                    map(float, dispersion_relation["coefficients"].split(" "))
+                    map(float, dispersion_relation["coefficients"].split())
                 )
                 f = coeffs[slice(1, len(coeffs), 2)]
                 e = coeffs[slice(2, len(coeffs), 2)]
-- 
2.43.0


From 4dbc4d026bcf7e7efea2f068243a6c28d563ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 33/45] fix: state the formulas and defaults the dispersion
 models use

---
 src/elli/dispersions/cauchy_urbach.py     |  4 ++--
 src/elli/dispersions/drude_resistivity.py |  6 +++---
 src/elli/dispersions/gaussian.py          | 12 ++++++------
 src/elli/dispersions/lorentz_energy.py    |  4 ++--
 src/elli/dispersions/lorentz_lambda.py    |  2 +-
 src/elli/dispersions/pseudo_dielectric.py |  2 +-
 src/elli/importer/nexus.py                |  4 +++-
 7 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/elli/dispersions/cauchy_urbach.py b/src/elli/dispersions/cauchy_urbach.py
index 2193342..102f12d 100644
--- a/src/elli/dispersions/cauchy_urbach.py
+++ b/src/elli/dispersions/cauchy_urbach.py
@@ -16,8 +16,8 @@ class CauchyUrbach(IndexDispersion):
         :B: Defaults to 0. Unit in 1/eV\ :sup:`2`.
         :C: Defaults to 0. Unit in 1/eV\ :sup:`4`.
         :D: Defaults to 0.
-        :Eg: Defaults to 0. Unit in eV.
-        :Eu: Defaults to 1. Unit in eV.
+        :Eg: Defaults to 2. Unit in eV.
+        :Eu: Defaults to 0.5. Unit in eV.
 
     Repeated parameters:
         --
diff --git a/src/elli/dispersions/drude_resistivity.py b/src/elli/dispersions/drude_resistivity.py
index 491352d..5d28f3f 100644
--- a/src/elli/dispersions/drude_resistivity.py
+++ b/src/elli/dispersions/drude_resistivity.py
@@ -24,9 +24,9 @@ class DrudeResistivity(Dispersion):
     Output:
 
         .. math::
-            \varepsilon(E) = \hbar / (\varepsilon_0  \cdot
-            \boldsymbol{rho\_opt} \cdot \boldsymbol{tau} \cdot E^2
-            - i \cdot \hbar \cdot E)
+            \varepsilon(E) = \hbar^2 / (\varepsilon_0  \cdot
+            \boldsymbol{rho\_opt} \cdot (\boldsymbol{tau} \cdot E^2
+            - i \cdot \hbar \cdot E))
 
        where :math:`\hbar` is the planck constant divided by :math:`2\pi`
        and :math:`\varepsilon_0` is the vacuum dielectric permittivity.
diff --git a/src/elli/dispersions/gaussian.py b/src/elli/dispersions/gaussian.py
index 38c78d5..cd3b629 100644
--- a/src/elli/dispersions/gaussian.py
+++ b/src/elli/dispersions/gaussian.py
@@ -27,14 +27,14 @@ class Gaussian(Dispersion):
 
         .. math::
             \varepsilon(E) = \sum_j & \; 2 \cdot \boldsymbol{A}_j / \sqrt{π} \cdot
-                    (D\left(2 \cdot \sqrt{2 \cdot \ln(2)} \cdot (E + \boldsymbol{E}_j)
+                    (D\left(2 \cdot \sqrt{\ln(2)} \cdot (E + \boldsymbol{E}_j)
                     / \boldsymbol{sigma}_j\right) \\
-                    &- D\left(2 \cdot \sqrt{2 \cdot \ln(2)} \cdot (E - \boldsymbol{E}_j)
+                    &- D\left(2 \cdot \sqrt{\ln(2)} \cdot (E - \boldsymbol{E}_j)
                     / \boldsymbol{sigma}_j\right) \\
-                    &+ i \cdot \Bigl(\boldsymbol{A}_j \cdot \exp\left(-(4 \cdot \ln(2) \cdot
-                    (E - \boldsymbol{E}_j)/ \boldsymbol{sigma}_j\right)^2 \\
-                    &- \boldsymbol{A}_j \cdot \exp\left(-(4 \cdot ln(2) \cdot
-                    (E + \boldsymbol{E}_j)/ \boldsymbol{sigma}_j\right)^2\Bigr)
+                    &+ i \cdot \Bigl(\boldsymbol{A}_j \cdot \exp\left(-4 \cdot \ln(2) \cdot
+                    ((E - \boldsymbol{E}_j)/ \boldsymbol{sigma}_j)^2\right) \\
+                    &- \boldsymbol{A}_j \cdot \exp\left(-4 \cdot \ln(2) \cdot
+                    ((E + \boldsymbol{E}_j)/ \boldsymbol{sigma}_j)^2\right)\Bigr)
 
         D is the
         `Dawson function
diff --git a/src/elli/dispersions/lorentz_energy.py b/src/elli/dispersions/lorentz_energy.py
index bea2800..8326e42 100644
--- a/src/elli/dispersions/lorentz_energy.py
+++ b/src/elli/dispersions/lorentz_energy.py
@@ -20,8 +20,8 @@ class LorentzEnergy(Dispersion):
 
     Output:
         .. math::
-            \varepsilon(E) = 1 + \sum_j \boldsymbol{A}_j / \left(E^2-\boldsymbol{E}_j^2
-            + i \cdot \boldsymbol{gamma}_j \cdot E\right)
+            \varepsilon(E) = 1 + \sum_j \boldsymbol{A}_j / \left(\boldsymbol{E}_j^2 - E^2
+            - i \cdot \boldsymbol{gamma}_j \cdot E\right)
 
         With :math:`j`  as the index for the respective oscillator.
     """
diff --git a/src/elli/dispersions/lorentz_lambda.py b/src/elli/dispersions/lorentz_lambda.py
index 383fe33..b78e8de 100644
--- a/src/elli/dispersions/lorentz_lambda.py
+++ b/src/elli/dispersions/lorentz_lambda.py
@@ -22,7 +22,7 @@ class LorentzLambda(Dispersion):
         .. math::
             \varepsilon(\lambda) = 1 + \sum_j \boldsymbol{A}_j
             \cdot \lambda^2 / (\lambda^2 - \boldsymbol{lambda\_r}_j^2
-            + i \cdot \boldsymbol{gamma}_j \cdot \lambda)
+            - i \cdot \boldsymbol{gamma}_j \cdot \lambda)
 
         The summation index :math:`j` refers to the respective oscillator.
     """
diff --git a/src/elli/dispersions/pseudo_dielectric.py b/src/elli/dispersions/pseudo_dielectric.py
index 1fcb393..ccf4447 100644
--- a/src/elli/dispersions/pseudo_dielectric.py
+++ b/src/elli/dispersions/pseudo_dielectric.py
@@ -30,7 +30,7 @@ class PseudoDielectricFunction(Dispersion):
     Output:
         .. math::
             \varepsilon(\lambda) = \sin^2 \left( \Theta \right) \cdot
-            \left( 1 + \tan^2 (\Theta) \left( \frac{1 - \rho}{1 + \rho} \right) \right)
+            \left( 1 + \tan^2 (\Theta) \left( \frac{1 - \rho}{1 + \rho} \right)^2 \right)
 
         With
 
diff --git a/src/elli/importer/nexus.py b/src/elli/importer/nexus.py
index 3fb312a..1060909 100644
--- a/src/elli/importer/nexus.py
+++ b/src/elli/importer/nexus.py
@@ -115,7 +115,9 @@ def read_nexus_psi_delta(
 
     with h5py.File(nxs_filename, "r") as h5file:
         if f"{group_names.full_sample_path}/data_type" in h5file:
-            data_type = h5file[f"{group_names.full_sample_path}/data_type"][()].decode("utf-8")
+            data_type = h5file[f"{group_names.full_sample_path}/data_type"][()].decode(
+                "utf-8"
+            )
         elif f"{group_names.entry}/data_collection/data_type" in h5file:
             data_type = h5file[f"{group_names.entry}/data_collection/data_type"][
                 ()
-- 
2.43.0


From 9213d10759bdba41cb3de26ce9667f005765bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 34/45] fix: use the handedness of measured Mueller matrices

The circular elements of the simulated Mueller matrix had the opposite sign of
the isotropic Mueller matrix of the same psi and delta and of the fits shown in
the documentation.
---
 src/elli/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index 4c6de8f..b3fe09b 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -208,7 +208,7 @@ class Result:
     @property
     def mueller_matrix(self) -> npt.NDArray:
         """Returns the Mueller matrix for reflection, calculated from the rho matrix."""
-        a = np.array([[1, 0, 0, 1], [1, 0, 0, -1], [0, 1, 1, 0], [0, 1j, -1j, 0]])
+        a = np.array([[1, 0, 0, 1], [1, 0, 0, -1], [0, 1, 1, 0], [0, -1j, 1j, 0]])
 
         # Kronecker product of S and S*
         s_kron_s_star = np.einsum(
-- 
2.43.0


From c12055040a7b296b60e8c8a5a3bd992b80f0d0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 35/45] fix: let index views of dispersions be copied and
 pickled

---
 src/elli/dispersions/base_dispersion.py | 47 ++++++++++++++-----------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/elli/dispersions/base_dispersion.py b/src/elli/dispersions/base_dispersion.py
index 19a7753..61589f1 100644
--- a/src/elli/dispersions/base_dispersion.py
+++ b/src/elli/dispersions/base_dispersion.py
@@ -243,27 +243,7 @@ class Dispersion(BaseDispersion):
         and index based dispersions is normally mathematically wrong.
         """
 
-        AnonymousIndexDispersion = type(
-            "AnonymousIndexDispersion",
-            (IndexDispersion,),
-            {
-                "rep_params_template": self.rep_params_template,
-                "single_params_template": self.single_params_template,
-                "dielectric_function": self.dielectric_function,
-                "refractive_index": lambda self, lbda: sqrt(
-                    self.dielectric_function(lbda)
-                ),
-            },
-        )
-
-        # The parameters are taken over as a whole, because required parameters
-        # have no default to create the object from.
-        idx_dispersion = AnonymousIndexDispersion.__new__(AnonymousIndexDispersion)
-        idx_dispersion.rep_params = self.rep_params
-        idx_dispersion.single_params = self.single_params
-        idx_dispersion.default_lbda_range = self.default_lbda_range
-
-        return idx_dispersion
+        return AnonymousIndexDispersion(self)
 
 
 class IndexDispersion(BaseDispersion):
@@ -317,6 +297,31 @@ class IndexDispersion(BaseDispersion):
         return self.refractive_index(lbda) ** 2
 
 
+class AnonymousIndexDispersion(IndexDispersion):
+    """Represents a dielectric function based dispersion as index based dispersion,
+    which shares its parameters with the original dispersion."""
+
+    def __init__(self, dispersion: Dispersion) -> None:
+        self.dispersion = dispersion
+        self.rep_params = dispersion.rep_params
+        self.single_params = dispersion.single_params
+        self.default_lbda_range = dispersion.default_lbda_range
+
+    @property
+    def single_params_template(self) -> dict:
+        return self.dispersion.single_params_template
+
+    @property
+    def rep_params_template(self) -> dict:
+        return self.dispersion.rep_params_template
+
+    def dielectric_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
+        return self.dispersion.dielectric_function(lbda)
+
+    def refractive_index(self, lbda: npt.ArrayLike) -> npt.NDArray:
+        return sqrt(self.dielectric_function(lbda))
+
+
 class DispersionFactory:
     """A factory class for dispersion objects"""
 
-- 
2.43.0


From aa7385ca1d5fd71c7f59780b8e0a6c34a64d08d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 36/45] fix: let mixture layers with the default profile be
 pickled

---
 src/elli/structure.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/elli/structure.py b/src/elli/structure.py
index 521d02d..c539aa4 100644
--- a/src/elli/structure.py
+++ b/src/elli/structure.py
@@ -318,6 +318,11 @@ class TwistedLayer(InhomogeneousLayer):
         return m_r @ epsilon @ m_r.T
 
 
+def _linear_profile(position: float) -> float:
+    """Default profile of a varying mixture layer, which can be pickled with the layer."""
+    return position
+
+
 class VaryingMixtureLayer(InhomogeneousLayer):
     """Mixture layer, with varying fraction dependent on z Position.
 
@@ -330,7 +335,7 @@ class VaryingMixtureLayer(InhomogeneousLayer):
         material: MixtureMaterial,
         thickness: float,
         div: int,
-        fraction_modulation: Callable[[float], float] = lambda x: x,
+        fraction_modulation: Callable[[float], float] = _linear_profile,
     ) -> None:
         """
         Args:
@@ -363,7 +368,7 @@ class VaryingMixtureLayer(InhomogeneousLayer):
         self.material = material
 
     def set_fraction_modulation(
-        self, fraction_modulation: Callable[[float], float] = lambda x: x
+        self, fraction_modulation: Callable[[float], float] = _linear_profile
     ) -> None:
         """Sets function for variation of the mixture over the layer
 
-- 
2.43.0


From 93a4ffe4a45bbbd438a357e9af83bd4b2152789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 37/45] fix: report unknown matrix elements of results as
 missing attributes

---
 src/elli/result.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/elli/result.py b/src/elli/result.py
index b3fe09b..0a6c79a 100644
--- a/src/elli/result.py
+++ b/src/elli/result.py
@@ -405,7 +405,15 @@ class Result:
             raise AttributeError(f"'Result' object has no attribute '{name}'")
 
         if len(names) > 1:
-            (i, j) = map(_convert_index, names[1])
+            try:
+                (i, j) = map(_convert_index, names[1])
+            except ValueError as error:
+                raise AttributeError(
+                    f"'Result' object has no attribute '{name}'"
+                ) from error
+
+            if max(i, j) > 1 and names[0] != "mueller_matrix":
+                raise AttributeError(f"'Result' object has no attribute '{name}'")
 
         if names[0] in ["psi", "delta", "rho", "R", "T"]:
             if len(names) == 1:
-- 
2.43.0


From ccc17fd89a385445d8c74c4bb66db387e1d0a81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 38/45] fix: docstring of im2re_reciprocal states the kernel
 the code uses

---
 src/elli/kkr/kkr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/kkr/kkr.py b/src/elli/kkr/kkr.py
index 85f9ba6..650fb7d 100644
--- a/src/elli/kkr/kkr.py
+++ b/src/elli/kkr/kkr.py
@@ -221,7 +221,7 @@ def im2re_reciprocal(im: np.ndarray, x: np.ndarray) -> np.ndarray:
 
     .. math::
         \Delta \Re(x_i) = \Re(x_i) - \Re(\infty) =
-        \frac{2}{\pi} \int_0^\infty \frac{x \Im(x)}{1 - \frac{x^2}{x_i^2}} dx
+        \frac{2}{\pi} \int_0^\infty \frac{\Im(x)}{x (1 - \frac{x^2}{x_i^2})} dx
 
     Args:
         im (numpy.ndarray): The imaginary values to transform.
-- 
2.43.0


From 86ce659051ffbb8b3755f77ec634fbef27116861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 39/45] fix: parameter boxes of the psi/delta fit take negative
 values of unbounded parameters

---
 src/elli/fitting/decorator_psi_delta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator_psi_delta.py b/src/elli/fitting/decorator_psi_delta.py
index 6ce2f57..a4f8b41 100644
--- a/src/elli/fitting/decorator_psi_delta.py
+++ b/src/elli/fitting/decorator_psi_delta.py
@@ -176,7 +176,7 @@ class FitRho(FitDecorator):
             curr_widget = widgets.BoundedFloatText(
                 self.params[param],
                 min=(
-                    float_info.min
+                    -float_info.max
                     if self.params[param].min == -float("inf")
                     else self.params[param].min
                 ),
-- 
2.43.0


From b3720f4be40dbca59194eb645595ea0488f39ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:18 +0000
Subject: [PATCH 40/45] fix: titles naming a single wavelength are not split
 into a wavelength range at the decimal point

---
 src/elli/database/refractive_index_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index 4fabb0a..519305b 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -101,7 +101,7 @@ class RII:
             r"(?P<authors>.*) "
             r"(?P<year>\d{4})[^:]*?: "
             r"((?P<comment1>.*); )?"
-            r"(?P<type1>.+) (?P<lower_range1>\d+(\.\d*)?(e\W?\d+)?)\W(?P<upper_range1>\d+(\.\d*)?(e\W?\d+)?) µm"
+            r"(?P<type1>.+) (?P<lower_range1>\d+(\.\d*)?(e\W?\d+)?)[^\w.](?P<upper_range1>\d+(\.\d*)?(e\W?\d+)?) µm"
             r"(, (?P<type2>.+) (?P<lower_range2>\d+(\.\d*)?(e\W?\d+)?).(?P<upper_range2>\d+(\.\d*)?(e\W?\d+)?) µm)?"
             r"(; (?P<comment2>.*))?"
         )
-- 
2.43.0


From cddb77f0b1f1ab111b0511cbff35b9f8045226c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:37 +0000
Subject: [PATCH 41/45] fix: searching several catalog columns keeps entries
 whose later columns are empty

---
 src/elli/database/refractive_index_info.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elli/database/refractive_index_info.py b/src/elli/database/refractive_index_info.py
index 519305b..6d883cd 100644
--- a/src/elli/database/refractive_index_info.py
+++ b/src/elli/database/refractive_index_info.py
@@ -236,10 +236,10 @@ class RII:
                     )
 
                     for s, _, _ in suggestions:
-                        index = np.logical_or(index, self.catalog[col] == s)
+                        index = index | (self.catalog[col] == s)
 
                 else:
-                    index = np.logical_or(index, self.catalog[col] == q)
+                    index = index | (self.catalog[col] == q)
 
         result = self.catalog.loc[index]
 
-- 
2.43.0


From 28ff23ce68292094629593a8afdac3812d8cf741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 42/45] fix: formula dispersions can be evaluated at a single
 wavelength

---
 src/elli/dispersions/formula.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/elli/dispersions/formula.py b/src/elli/dispersions/formula.py
index 6dab303..63b494a 100644
--- a/src/elli/dispersions/formula.py
+++ b/src/elli/dispersions/formula.py
@@ -107,18 +107,22 @@ class FormulaParser(BaseDispersion):
             )
 
     def _dispersion_function(self, lbda: npt.ArrayLike) -> npt.NDArray:
+        wavelengths = np.atleast_1d(lbda)
         if self._axis_is_reciprocal:
-            x_axis_values = self._axis_scaling / lbda
+            x_axis_values = self._axis_scaling / wavelengths
         else:
-            x_axis_values = self._axis_scaling * lbda
+            x_axis_values = self._axis_scaling * wavelengths
 
-        return FormulaTransformer(
+        values = FormulaTransformer(
             x_axis_name=self.f_axis_name,
             x_axis_values=x_axis_values,
             single_params=self.single_params,
             repeated_params=self.rep_params_dl,
         ).transform(parse_formula(self.formula))[1]
 
+        # A single wavelength yields a single value
+        return np.reshape(values, ()) if np.ndim(lbda) == 0 else values
+
 
 class Formula(Dispersion, FormulaParser):
     r"A formula dispersion"
-- 
2.43.0


From e78cdd1faaedb04a42ef330355071e14275df25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:25 +0000
Subject: [PATCH 43/45] fix: FitRho.to_csv passed append_exp_data as the
 representation

---
 src/elli/fitting/decorator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/elli/fitting/decorator.py b/src/elli/fitting/decorator.py
index ce460fb..72b720d 100644
--- a/src/elli/fitting/decorator.py
+++ b/src/elli/fitting/decorator.py
@@ -92,7 +92,9 @@ class FitDecorator(ABC):
                 Appends the experimental data if set to True.
                 Defaults to False.
         """
-        self.get_model_data(params, append_exp_data).to_csv(fname, *args, **kwargs)
+        self.get_model_data(params, append_exp_data=append_exp_data).to_csv(
+            fname, *args, **kwargs
+        )
 
     @abstractmethod
     def fit(self, method: str = "") -> None:
-- 
2.43.0


From 957e6c3980ddce8aa706858634c5ac00a85bc811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:03 +0000
Subject: [PATCH 44/45] fix: accept negative values in the first row of
 CompleteEASE files

---
 src/elli/importer/woollam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/importer/woollam.py b/src/elli/importer/woollam.py
index 916eb00..4daa531 100644
--- a/src/elli/importer/woollam.py
+++ b/src/elli/importer/woollam.py
@@ -58,7 +58,7 @@ def _is_complete_ease_tabular(line: str) -> bool:
     Returns:
         bool: True if the line is in complete ease tabular layout.
     """
-    return bool(re.search(r"^[a-zA-Z]+\s+(\d+\.\d+\s+){5}\d+\.\d+$", line))
+    return bool(re.search(r"^[a-zA-Z]+\s+(-?\d+\.\d+\s+){5}-?\d+\.\d+$", line))
 
 
 def _is_tan_cos_format(line: str) -> bool:
-- 
2.43.0


From 2c7441fcdd81b1f7d95f9eb72780c6a9a0531045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:14 +0000
Subject: [PATCH 45/45] fix: draw refractive indices below one inside the axes
 of a structure graph

---
 src/elli/plot/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elli/plot/structure.py b/src/elli/plot/structure.py
index 4fd8caf..09cce52 100644
--- a/src/elli/plot/structure.py
+++ b/src/elli/plot/structure.py
@@ -76,7 +76,7 @@ def _draw_structure_graph(structure, z, n):
     ax.set_xlabel("z (nm)")
     ax.set_ylabel("n'")
     ax.set_xlim(z.min(), z.max())
-    ax.set_ylim(bottom=1.0)
+    ax.set_ylim(bottom=min(1.0, n.real.min()))
     return ax
 
 
-- 
2.43.0


From 03d7e9a12b034d8249e6149c10dba0624dd5a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 01/97] fix: basis_as_n_point_basis raised NameError (type
 variable only defined while type checking)

---
 surface_potential_analysis/basis/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/conversion.py b/surface_potential_analysis/basis/conversion.py
index ee4b11f..4510045 100644
--- a/surface_potential_analysis/basis/conversion.py
+++ b/surface_potential_analysis/basis/conversion.py
@@ -108,7 +108,7 @@ def basis_as_n_point_basis(
     -------
     FundamentalPositionBasis[_N1Inv, _NDInv]
     """
-    return FundamentalPositionBasis[_N1Inv, int](delta_x, n)
+    return FundamentalPositionBasis(delta_x, n)
 
 
 def basis_as_single_point_basis(
-- 
2.43.0


From b78c93eb610219d6e2a1a3a81a2f12749baaf593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 02/97] fix: converting real data between identical bases
 reinterpreted its bytes as complex

---
 surface_potential_analysis/basis/basis_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/basis_like.py b/surface_potential_analysis/basis/basis_like.py
index 0204947..34a7050 100644
--- a/surface_potential_analysis/basis/basis_like.py
+++ b/surface_potential_analysis/basis/basis_like.py
@@ -308,7 +308,7 @@ class BasisLike(
     ) -> np.ndarray[Any, np.dtype[np.complex128]]:
         assert basis.fundamental_n == self.fundamental_n
         if self == basis:
-            return vector.view(np.complex128)
+            return vector.astype(np.complex128, copy=False)
         # Small speedup here, and prevents imprecision of fft followed by ifft
         # And two pad_ft_points
         if isinstance(self, AsTransformedBasis) and isinstance(
-- 
2.43.0


From 567fbc95b0ddd9dd79a9d29abd365cfe865cadcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 03/97] fix: get_twice_average_nx raised ZeroDivisionError
 unless every axis has antipodal pairs

---
 surface_potential_analysis/basis/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/util.py b/surface_potential_analysis/basis/util.py
index f8c16df..fa1dc4c 100644
--- a/surface_potential_analysis/basis/util.py
+++ b/surface_potential_analysis/basis/util.py
@@ -517,7 +517,7 @@ def get_twice_average_nx(
     is_nan = np.isnan(average_angles)
     if np.any(is_nan):
         for i, angle in enumerate(angles):
-            average_angles[i][is_nan[i]] = np.average(angle[:, is_nan[i]], axis=0)
+            average_angles[i][is_nan[i]] = np.mean(angle[:, is_nan[i]], axis=0)
 
     # Interpret this back as a coordinate. Note we multiply average by 2 here
     return tuple(
-- 
2.43.0


From 2920a42760be8ae2952093d3f6e0e01d485649a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 04/97] fix: evenly spaced bloch fractions were complex and one
 dimensional, not (ndim, n)

---
 surface_potential_analysis/basis/block_fraction_basis.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/basis/block_fraction_basis.py b/surface_potential_analysis/basis/block_fraction_basis.py
index 7bf6e41..79a6227 100644
--- a/surface_potential_analysis/basis/block_fraction_basis.py
+++ b/surface_potential_analysis/basis/block_fraction_basis.py
@@ -59,9 +59,11 @@ class EvenlySpacedBlockFractionBasis(
 
     @property
     def bloch_fractions(self) -> np.ndarray[tuple[Any, _N0_co], np.dtype[np.float64]]:
-        return self.__from_fundamental__(  # type: ignore can't infer shape
-            np.linspace(-0.5, 0.5, self.fundamental_n, endpoint=False)
-        )
+        return np.real(  # type: ignore can't infer shape
+            self.__from_fundamental__(
+                np.linspace(-0.5, 0.5, self.fundamental_n, endpoint=False)
+            )
+        )[np.newaxis, :]
 
 
 class FundamentalBlockFractionBasis(
-- 
2.43.0


From 8823b8034f26fe1fe6cd52b840ad7460f158e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 05/97] fix: fundamental times of an evenly spaced time basis
 did not contain its times

---
 surface_potential_analysis/basis/time_basis_like.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/basis/time_basis_like.py b/surface_potential_analysis/basis/time_basis_like.py
index 8d59d55..54b5371 100644
--- a/surface_potential_analysis/basis/time_basis_like.py
+++ b/surface_potential_analysis/basis/time_basis_like.py
@@ -51,7 +51,7 @@ class EvenlySpacedTimeBasis(
 
     @property
     def fundamental_times(self) -> np.ndarray[tuple[Any], np.dtype[np.float64]]:
-        return np.linspace(0, self._delta_t, self.fundamental_n)  # type: ignore[no-any-return]
+        return np.linspace(0, self._delta_t, self.fundamental_n, endpoint=False)  # type: ignore[no-any-return]
 
     @property
     def delta_t(self) -> float:
-- 
2.43.0


From 259c60d4465eeca97938b54f84a0a096cd087dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 06/97] fix: cumulative k distances took the norm over the path
 rather than the components

---
 surface_potential_analysis/stacked_basis/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/util.py b/surface_potential_analysis/stacked_basis/util.py
index 510a047..e9449a3 100644
--- a/surface_potential_analysis/stacked_basis/util.py
+++ b/surface_potential_analysis/stacked_basis/util.py
@@ -446,7 +446,7 @@ def calculate_cumulative_k_distances_along_path(
     )
     util = BasisUtil(basis)
     x_distances = np.linalg.norm(  # TODO: test
-        np.tensordot(distances, util.dk_stacked, axes=(0, 0)),
+        np.tensordot(util.dk_stacked, distances, axes=(0, 0)),
         axis=0,
     )
     cum_distances = np.cumsum(x_distances)
-- 
2.43.0


From 146beaa000726fd0e229295fa861bf6f10d3ea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 07/97] fix: folding about a bragg plane only worked in three
 dimensions

---
 surface_potential_analysis/stacked_basis/brillouin_zone.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/brillouin_zone.py b/surface_potential_analysis/stacked_basis/brillouin_zone.py
index 5257d0c..1a235a1 100644
--- a/surface_potential_analysis/stacked_basis/brillouin_zone.py
+++ b/surface_potential_analysis/stacked_basis/brillouin_zone.py
@@ -79,10 +79,8 @@ def fold_point_in_bragg_plane(
     # If we denote the plane by the normal n and point p, where p.n n = p
     # we find p is given by bragg_point / 2.
     # The two reflections are then equivalent to a translation a - 2p.
-    return (
-        (coordinate[0] - bragg_point[0]),  # type: ignore cant infer
-        (coordinate[1] - bragg_point[1]),
-        (coordinate[2] - bragg_point[2]),
+    return tuple(  # type: ignore cant infer
+        c - b for (c, b) in zip(coordinate, bragg_point, strict=True)
     )
 
 
-- 
2.43.0


From 41447a38c636330876168984a2c422495ce72702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 08/97] fix: spline interpolation along any but the last axis
 returned uninitialised memory

---
 surface_potential_analysis/util/interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index 05ca1bc..b02b3b8 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -243,7 +243,8 @@ def interpolate_points_along_axis_spline(
     new_shape[axis] = n
     points = np.empty(new_shape)
 
-    swapped_points = points.swapaxes(axis, -1).reshape(-1, n)
+    swapped_shape = points.swapaxes(axis, -1).shape
+    swapped_points = np.empty((np.prod(swapped_shape[:-1], dtype=int), n))
 
     flat_data = data.swapaxes(axis, -1).reshape(-1, data.shape[axis])
 
@@ -253,4 +254,5 @@ def interpolate_points_along_axis_spline(
         new_energy = scipy.interpolate.splev(new_coords, tck, der=0)  # type: ignore bad type inference
         swapped_points[i] = new_energy  # type: ignore bad type inference
 
+    points[...] = swapped_points.reshape(swapped_shape).swapaxes(axis, -1)
     return points  # type: ignore[no-any-return]
-- 
2.43.0


From a8c2cba2d92e786f8007d7edaca0c2152bf1f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 09/97] fix: default axes of the fourier interpolation were
 paired with the shape in reverse

---
 surface_potential_analysis/util/interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/util/interpolation.py b/surface_potential_analysis/util/interpolation.py
index b02b3b8..f11b906 100644
--- a/surface_potential_analysis/util/interpolation.py
+++ b/surface_potential_analysis/util/interpolation.py
@@ -102,7 +102,7 @@ def interpolate_points_fftn(
     NDArray
         The points interpolated along the given axes
     """
-    axes_arr = np.arange(-1, -1 - len(s), -1) if axes is None else np.array(axes)
+    axes_arr = np.arange(-len(s), 0) if axes is None else np.array(axes)
     # We use the forward norm here, as otherwise we would also need to
     # scale the ft_potential by a factor of n / shape[axis]
     # when we pad or truncate it
@@ -176,7 +176,7 @@ def interpolate_points_rfftn(
     -------
     np.ndarray[tuple, np.dtype[np.float_]]
     """
-    axes_arr = np.arange(-1, -1 - len(s), -1) if axes is None else np.array(axes)
+    axes_arr = np.arange(-len(s), 0) if axes is None else np.array(axes)
     ft_points = np.fft.rfftn(points, axes=axes_arr, norm="forward")  # type: ignore Argument of type "NDArray[signedinteger[Any]] | NDArray[Any]" cannot be assigned to parameter "axes" of type "Sequence[int] | None"
     # pad (or truncate) for the new lengths s
     # we don't need to pad the last axis here, as it is handled correctly by irfftn
-- 
2.43.0


From c3110e500594869b9ffa93aa00af2391a8fa7dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 10/97] fix: interpolating a state vector used shape[1] for
 every axis

---
 surface_potential_analysis/state_vector/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/conversion.py b/surface_potential_analysis/state_vector/conversion.py
index d2965e6..3ae53fc 100644
--- a/surface_potential_analysis/state_vector/conversion.py
+++ b/surface_potential_analysis/state_vector/conversion.py
@@ -216,8 +216,8 @@ def interpolate_state_vector_momentum(
             TransformedPositionBasis(ax.delta_x, ax.n, shape[idx])
             if (
                 idx := next((i for i, jax in enumerate(axes) if jax == iax), None)
-                is not None
             )
+            is not None
             else ax
             for iax, ax in enumerate(converted["basis"])
         )
-- 
2.43.0


From 48a8dc675adb3218261f083e4ad3d54522b7bcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 11/97] fix: interpolating a state vector along a subset of
 axes scaled it wrongly

---
 surface_potential_analysis/state_vector/conversion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/conversion.py b/surface_potential_analysis/state_vector/conversion.py
index 3ae53fc..3a593a8 100644
--- a/surface_potential_analysis/state_vector/conversion.py
+++ b/surface_potential_analysis/state_vector/conversion.py
@@ -222,5 +222,7 @@ def interpolate_state_vector_momentum(
             for iax, ax in enumerate(converted["basis"])
         )
     )
-    scaled = converted["data"] * np.sqrt(np.prod(shape) / converted_basis.n)
+    scaled = converted["data"] * np.sqrt(
+        final_basis.fundamental_n / converted_basis.n
+    )
     return {"basis": final_basis, "data": scaled}
-- 
2.43.0


From 8b31f2222a91b55c106e175fe6adc21482365808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 12/97] fix: get_state_along_axis labelled reordered axes with
 the bases of the sorted axes

---
 surface_potential_analysis/state_vector/state_vector_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/state_vector_list.py b/surface_potential_analysis/state_vector/state_vector_list.py
index a943e20..c2e40c1 100644
--- a/surface_potential_analysis/state_vector/state_vector_list.py
+++ b/surface_potential_analysis/state_vector/state_vector_list.py
@@ -334,7 +334,7 @@ def get_state_along_axis(
     ndim = states["basis"][0].ndim
     idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
     final_basis = TupleBasis(
-        *tuple(b for (i, b) in enumerate(states["basis"][0]) if i in axes)
+        *tuple(list(states["basis"][0])[ax] for ax in axes)
     )
 
     vector = get_data_in_axes(
-- 
2.43.0


From 56315bae2605a2685385ff756d2596c42573d239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 13/97] fix: average_state_vector raised TypeError for every
 one dimensional list of weights

---
 surface_potential_analysis/state_vector/state_vector_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/state_vector_list.py b/surface_potential_analysis/state_vector/state_vector_list.py
index c2e40c1..133489b 100644
--- a/surface_potential_analysis/state_vector/state_vector_list.py
+++ b/surface_potential_analysis/state_vector/state_vector_list.py
@@ -286,7 +286,8 @@ def average_state_vector(
         "basis": TupleBasis(basis, probabilities["basis"][1]),
         "data": np.average(
             probabilities["data"].reshape(*probabilities["basis"][0].shape, -1),
-            axis=tuple(ax for ax in axis),
+            # numpy only accepts one dimensional weights along a single integer axis
+            axis=tuple(ax for ax in axis) if len(axis) != 1 else axis[0],
             weights=weights,
         ).reshape(-1),
     }
-- 
2.43.0


From 5eb5639226b70e6750430112cc6370161915fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 14/97] fix: operator functions returned two dimensional data
 where operators hold flat data

---
 surface_potential_analysis/operator/operations.py | 2 +-
 surface_potential_analysis/operator/operator.py   | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/operator/operations.py b/surface_potential_analysis/operator/operations.py
index ed57d85..99af755 100644
--- a/surface_potential_analysis/operator/operations.py
+++ b/surface_potential_analysis/operator/operations.py
@@ -334,7 +334,7 @@ def apply_operator_to_states(
     norm = np.sqrt(np.sum(np.abs(np.square(data)), axis=1))
     return {
         "basis": TupleBasis(converted["basis"][0], lhs["basis"][0]),
-        "data": data / norm.reshape(norm.size, 1),
+        "data": (data / norm.reshape(norm.size, 1)).reshape(-1),
         "eigenvalue": norm,
     }
 
diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index 7938035..848548f 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -78,7 +78,7 @@ def as_operator(operator: DiagonalOperator[_B0, _B1]) -> Operator[_B0, _B1]:
     -------
     Operator[_B0_co, _B1_co]
     """
-    return {"basis": operator["basis"], "data": np.diag(operator["data"])}
+    return {"basis": operator["basis"], "data": np.diag(operator["data"]).reshape(-1)}
 
 
 def as_diagonal_operator(operator: Operator[_B0, _B1]) -> DiagonalOperator[_B0, _B1]:
@@ -232,7 +232,7 @@ def apply_function_to_operator(
         "k,ak,kb->ab", eigenvalues, res.eigenvectors, np.linalg.inv(res.eigenvectors)
     )
 
-    return {"basis": operator["basis"], "data": data}
+    return {"basis": operator["basis"], "data": data.reshape(-1)}
 
 
 def matmul_operator(
@@ -243,7 +243,10 @@ def matmul_operator(
         rhs["data"].reshape(rhs["basis"].shape),
         axes=(1, 0),
     )
-    return {"basis": TupleBasis(lhs["basis"][0], rhs["basis"][1]), "data": data}
+    return {
+        "basis": TupleBasis(lhs["basis"][0], rhs["basis"][1]),
+        "data": data.reshape(-1),
+    }
 
 
 def add_operator(a: Operator[_B0, _B1], b: Operator[_B0, _B1]) -> Operator[_B0, _B1]:
-- 
2.43.0


From e4e619e89cfc55f77fd7cc0938f00adf1440129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 15/97] fix: products of operators and operator lists used the
 shape before conversion

---
 surface_potential_analysis/operator/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/operations.py b/surface_potential_analysis/operator/operations.py
index 99af755..d8a9989 100644
--- a/surface_potential_analysis/operator/operations.py
+++ b/surface_potential_analysis/operator/operations.py
@@ -75,7 +75,7 @@ def matmul_list_operator(
 
     data = np.tensordot(
         lhs["data"].reshape(-1, *lhs["basis"][1].shape),
-        converted["data"].reshape(rhs["basis"].shape),
+        converted["data"].reshape(converted["basis"].shape),
         axes=(2, 0),
     ).reshape(-1)
     return {
@@ -175,7 +175,7 @@ def matmul_operator_diagonal_list(
     )
     data = np.einsum(  # type: ignore lib
         "ik,mk->mik",
-        converted["data"].reshape(lhs["basis"].shape),
+        converted["data"].reshape(converted["basis"].shape),
         rhs["data"].reshape(-1, rhs["basis"][1][0].n),
     ).reshape(-1)
     return {
-- 
2.43.0


From 3bb78a1a1fcaec34e62fce4b6438d39bbe50ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 16/97] fix: averages of eigenvalues used the wrong default
 axes and rejected weights

---
 surface_potential_analysis/operator/operator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/operator/operator.py b/surface_potential_analysis/operator/operator.py
index 848548f..f44387c 100644
--- a/surface_potential_analysis/operator/operator.py
+++ b/surface_potential_analysis/operator/operator.py
@@ -167,13 +167,14 @@ def average_eigenvalues(
     -------
     EigenvalueList[Any]
     """
-    axis = tuple(range(eigenvalues["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(eigenvalues["basis"][0].ndim)) if axis is None else axis
     basis = tuple(b for (i, b) in enumerate(eigenvalues["basis"][0]) if i not in axis)
     return {
         "basis": TupleBasis(TupleBasis(*basis), TupleBasis(*basis)),
         "data": np.average(
             eigenvalues["data"].reshape(*eigenvalues["basis"][0].shape),
-            axis=tuple(ax for ax in axis),
+            # numpy only accepts one dimensional weights along a single integer axis
+            axis=tuple(ax for ax in axis) if len(axis) != 1 else axis[0],
             weights=weights,
         ).reshape(-1),
     }
@@ -200,7 +201,7 @@ def average_eigenvalues_list(
     -------
     EigenvalueList[Any]
     """
-    axis = tuple(range(eigenvalues["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(eigenvalues["basis"][1][0].ndim)) if axis is None else axis
     basis = tuple(
         b for (i, b) in enumerate(eigenvalues["basis"][1][0]) if i not in axis
     )
@@ -213,7 +214,8 @@ def average_eigenvalues_list(
             eigenvalues["data"].reshape(
                 eigenvalues["basis"][0].n, *eigenvalues["basis"][1][0].shape
             ),
-            axis=tuple(1 + ax for ax in axis),
+            # numpy only accepts one dimensional weights along a single integer axis
+            axis=tuple(1 + ax for ax in axis) if len(axis) != 1 else 1 + axis[0],
             weights=weights,
         ).reshape(-1),
     }
-- 
2.43.0


From 0206e56f2547b0663284e567e7961933d19ea038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 17/97] fix: displacement matrix of a one dimensional basis
 raised or was wrapped into the wrong interval

---
 surface_potential_analysis/operator/build.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/operator/build.py b/surface_potential_analysis/operator/build.py
index e959de3..4c029b6 100644
--- a/surface_potential_analysis/operator/build.py
+++ b/surface_potential_analysis/operator/build.py
@@ -62,7 +62,7 @@ def get_displacements_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    distances = BasisUtil(basis_x).x_points - origin
+    distances = BasisUtil(basis_x).x_points.reshape(-1) - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
     data = _wrap_displacements(distances, max_distance)
     return {"basis": basis_x, "data": data.astype(np.complex128)}
@@ -166,11 +166,14 @@ def get_displacements_matrix_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    x_points = BasisUtil(basis_x).x_points
+    x_points = BasisUtil(basis_x).x_points.reshape(-1)
     distances = x_points[:, np.newaxis] - x_points[np.newaxis, :] - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
-    data = np.remainder((distances + basis_x.delta_x), max_distance) - max_distance
-    return {"basis": TupleBasis(basis_x, basis_x), "data": data.astype(np.complex128)}
+    data = _wrap_displacements(distances, max_distance)
+    return {
+        "basis": TupleBasis(basis_x, basis_x),
+        "data": data.astype(np.complex128).reshape(-1),
+    }
 
 
 def _get_displacements_matrix_x_along_axis(
@@ -187,7 +190,10 @@ def _get_displacements_matrix_x_along_axis(
     delta_x = np.linalg.norm(basis_x.delta_x_stacked[axis])
     max_distance = delta_x / 2
     data = _wrap_displacements(distances, max_distance)
-    return {"basis": TupleBasis(basis_x, basis_x), "data": data.astype(np.complex128)}
+    return {
+        "basis": TupleBasis(basis_x, basis_x),
+        "data": data.astype(np.complex128).reshape(-1),
+    }
 
 
 def get_displacements_matrix_x_stacked(
-- 
2.43.0


From d89d8c4c67469eb99d8492bac2d242ea69249930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 18/97] fix: plotting occupations shifted the eigenvalues of
 the states it was given

---
 .../state_vector/eigenvalue_list_plot.py                       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/surface_potential_analysis/state_vector/eigenvalue_list_plot.py b/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
index 86204d0..ef551dc 100644
--- a/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
+++ b/surface_potential_analysis/state_vector/eigenvalue_list_plot.py
@@ -99,8 +99,7 @@ def plot_eigenstate_occupations(
     """
     fig, ax = get_figure(ax)
 
-    energies = eigenstates["eigenvalue"]
-    energies -= np.min(energies)
+    energies = eigenstates["eigenvalue"] - np.min(eigenstates["eigenvalue"])
     occupation = np.exp(-np.abs(energies) / (temperature * Boltzmann))
     occupation /= np.sum(occupation)
 
-- 
2.43.0


From d732186c95c90212bffaf899056767310e3aa4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 19/97] fix: get_coherent_coordinates and spread plots
 normalised the given states in place

---
 surface_potential_analysis/state_vector/plot.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index e0aba67..74ed364 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1122,6 +1122,14 @@ def plot_averaged_occupation_1d_x(
     return fig, ax
 
 
+def _get_normalized_states(
+    states: StateVectorList[_B0Inv, _B0],
+) -> StateVectorList[_B0Inv, _B0]:
+    data = states["data"].reshape(states["basis"].shape)
+    data = data / np.linalg.norm(data, axis=1)[:, np.newaxis]
+    return {"basis": states["basis"], "data": data.ravel()}
+
+
 def _get_x_spread(
     states: StateVectorList[
         _B0Inv,
@@ -1151,11 +1159,7 @@ def _get_x_spread(
     """
     direction = tuple(1 if i == axis else 0 for i in range(states["basis"][1].ndim))
 
-    data = states["data"].reshape(states["basis"].shape)
-    data /= np.linalg.norm(data, axis=1)[:, np.newaxis]
-
-    states["data"] = data.ravel()
-    periodic_x = _get_periodic_x(states, direction)
+    periodic_x = _get_periodic_x(_get_normalized_states(states), direction)
     norm = np.abs(periodic_x["data"])
     q = 2 * np.pi / np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
     sigma_0 = np.sqrt(-(4 / q**2) * np.log(norm))
@@ -1181,6 +1185,7 @@ def get_coherent_coordinates(
     -------
     ValueList[TupleBasisLike[FundamentalBasis[Literal[3]], _B0Inv]]
     """
+    states = _get_normalized_states(states)
     sigma_0 = _get_x_spread(states, axis)
     x0 = _get_average_x_periodic(states, axis)
     k0 = _get_average_k(states, axis)
-- 
2.43.0


From 0eea54000f94fe90198284155d17eda484bc2eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 20/97] fix: average positions and momenta along an axis only
 worked in one dimension

---
 surface_potential_analysis/state_vector/plot.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index 74ed364..80c0901 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -992,7 +992,11 @@ def _get_average_x_periodic(
 
     return {
         "basis": periodic_x["basis"],
-        "data": (angle * states["basis"][1].delta_x_stacked[axis] / (2 * np.pi)),
+        "data": (
+            angle
+            * np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
+            / (2 * np.pi)
+        ),
     }
 
 
@@ -1012,7 +1016,9 @@ def _get_restored_x(
     return {
         "basis": periodic_x["basis"],
         "data": (
-            unravelled * states["basis"][1].delta_x_stacked[axis] / (2 * np.pi)
+            unravelled
+            * np.linalg.norm(states["basis"][1].delta_x_stacked[axis])
+            / (2 * np.pi)
         ).ravel(),
     }
 
@@ -1067,7 +1073,8 @@ def _get_x_operator(basis: _SBV0, axis: int) -> SingleBasisOperator[_SBV0]:
     return convert_diagonal_operator_to_basis(
         {
             "basis": TupleBasis(basis_x, basis_x),
-            "data": util.dx_stacked[axis] * util.stacked_nx_points[axis],
+            "data": np.linalg.norm(util.dx_stacked[axis])
+            * util.stacked_nx_points[axis],
         },
         TupleBasis(basis, basis),
     )
@@ -1287,7 +1294,8 @@ def _get_k_operator(basis: _SBV0, axis: int) -> SingleBasisOperator[_SBV0]:
     return convert_diagonal_operator_to_basis(
         {
             "basis": TupleBasis(basis_k, basis_k),
-            "data": util.dk_stacked[axis] * util.stacked_nk_points[axis],
+            "data": np.linalg.norm(util.dk_stacked[axis])
+            * util.stacked_nk_points[axis],
         },
         TupleBasis(basis, basis),
     )
-- 
2.43.0


From ecfde8c3504575104da3784576545b617ea9148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 21/97] fix: undo_truncate_potential only inverted
 truncate_potential for n=1

---
 surface_potential_analysis/potential/potential.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/potential/potential.py b/surface_potential_analysis/potential/potential.py
index ac1d199..d066f27 100644
--- a/surface_potential_analysis/potential/potential.py
+++ b/surface_potential_analysis/potential/potential.py
@@ -228,7 +228,10 @@ def undo_truncate_potential(
     data: Potential[_SB0], *, cutoff: float = 2e-17, n: int = 1, offset: float = 2e-18
 ) -> Potential[_SB0]:
     """Reverses truncate_potential."""
-    points = cutoff * (np.exp((data["data"] + offset) / cutoff) - 1) ** (1 / n) - offset
+    points = (
+        cutoff * (np.exp(((data["data"] + offset) / cutoff) ** n) - 1) ** (1 / n)
+        - offset
+    )
     return {"data": points, "basis": data["basis"]}  # type: ignore[return-value]
 
 
-- 
2.43.0


From 71453f0082bf612c893d2c31d62cae63e217eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:01 +0000
Subject: [PATCH 22/97] fix: potentials loaded from JSON held three dimensional
 rather than flat data

---
 surface_potential_analysis/potential/potential.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/potential/potential.py b/surface_potential_analysis/potential/potential.py
index d066f27..ed46e59 100644
--- a/surface_potential_analysis/potential/potential.py
+++ b/surface_potential_analysis/potential/potential.py
@@ -111,7 +111,7 @@ def load_potential_grid_json(
                 FundamentalPositionBasis(np.array(out["delta_x1"]), points.shape[1]),
                 FundamentalPositionBasis(np.array(out["delta_x2"]), points.shape[2]),
             ),
-            "data": np.array(out["points"]),
+            "data": points.reshape(-1),
         }
 
 
@@ -182,7 +182,7 @@ def load_uneven_potential_json(
                 FundamentalPositionBasis(np.array(out["delta_x1"]), points.shape[1]),
                 UnevenPotential3dZBasis(np.array(out["z_points"])),
             ),
-            "data": points,
+            "data": points.reshape(-1),
         }
 
 
-- 
2.43.0


From a68cda11e4a5865faa2a9d875c0807262a3f7103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:34 +0000
Subject: [PATCH 23/97] fix: the SHO subtracted hamiltonian passed the keyword
 only number of states by position

---
 .../hamiltonian_builder/sho_subtracted_basis.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py b/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py
index 38bb7e9..01af66e 100644
--- a/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py
+++ b/surface_potential_analysis/hamiltonian_builder/sho_subtracted_basis.py
@@ -141,7 +141,7 @@ class _SurfaceHamiltonianUtil(
                     self._potential["basis"][2].n,
                 ),
                 self._config,
-                self._resolution[2],
+                n=self._resolution[2],
             ),
         )
 
-- 
2.43.0


From a274e5eec4e0f811252225f96b0474a9714e0716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 24/97] fix: get_all_eigenstates paired energies with single
 amplitudes rather than states

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 1f745a7..cfda314 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -235,7 +235,7 @@ def get_all_eigenstates(
             "eigenvalue": e,
         }
         for (v, e, *offset) in zip(
-            converted["data"],
+            converted["data"].reshape(converted["basis"].shape),
             wavepacket["eigenvalue"],
             *util.stacked_nk_points,
             strict=True,
-- 
2.43.0


From c4ff23083b8c440c872356b13e53eb94862e9bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 25/97] fix: BlochBasis could not convert into the fundamental
 basis unless its states were given in a complete basis

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index cfda314..dde1702 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -696,7 +696,7 @@ class BlochBasis(
             axis=axis,
         )
 
-        k_shape = self.wavefunctions["basis"][1].shape
+        k_shape = self.wavefunctions["basis"][1].fundamental_shape
         list_shape = self.wavefunctions["basis"][0][1].shape
         ndim = len(k_shape)
 
-- 
2.43.0


From 2c6dd44ea7afe78cb444108486105ebd6b13d3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 26/97] fix: convert_wavepacket_to_shape labelled the bloch
 samples as positions

---
 surface_potential_analysis/wavepacket/conversion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/conversion.py b/surface_potential_analysis/wavepacket/conversion.py
index 55bfa59..867fb88 100644
--- a/surface_potential_analysis/wavepacket/conversion.py
+++ b/surface_potential_analysis/wavepacket/conversion.py
@@ -16,7 +16,7 @@ from surface_potential_analysis.basis.stacked_basis import (
     TupleBasisWithLengthLike,
 )
 from surface_potential_analysis.stacked_basis.build import (
-    fundamental_stacked_basis_from_shape,
+    fundamental_transformed_stacked_basis_from_shape,
 )
 from surface_potential_analysis.stacked_basis.conversion import (
     stacked_basis_as_fundamental_momentum_basis,
@@ -299,9 +299,9 @@ def convert_wavepacket_to_shape(
     )
     return {
         "basis": TupleBasis(
-            fundamental_stacked_basis_from_shape(shape), wavepacket["basis"][1]
+            fundamental_transformed_stacked_basis_from_shape(shape), wavepacket["basis"][1]
         ),
         "data": wavepacket["data"]
         .reshape(*old_shape, -1)[*slices, :]
-        .reshape(np.prod(shape), -1),
+        .reshape(-1),
     }
-- 
2.43.0


From bc01539591657ae283fe92bc64d0f8c27b535510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 27/97] fix: BlochBasis of truncated states reshaped the
 unfurled vectors to the truncated size

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index dde1702..bb46363 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -736,7 +736,7 @@ class BlochBasis(
         if self.vectors_basis.n < 100 * 90:
             np.testing.assert_allclose(
                 self.vectors_basis[1].__into_fundamental__(
-                    unshifted.reshape(vectors_in_basis.shape), axis
+                    unshifted.reshape(converted.shape), axis
                 ),
                 ExplicitStackedBasisWithLength(self.vectors).__into_fundamental__(
                     vectors, axis
@@ -745,7 +745,7 @@ class BlochBasis(
             )
 
         return self.vectors_basis[1].__into_fundamental__(
-            unshifted.reshape(vectors_in_basis.shape), axis
+            unshifted.reshape(converted.shape), axis
         )
 
     @property
-- 
2.43.0


From 13a319acdca42b225670dcad9bc71153f1a9395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 28/97] fix: get_bloch_states raised unless every bloch sample
 of the list was stored

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index bb46363..79b6682 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -488,7 +488,7 @@ def get_bloch_states(
         )
     )
     out = np.zeros(
-        (*wavepackets["basis"][0].shape, decompressed_basis.n), dtype=np.complex128
+        (*converted["basis"][0].shape, decompressed_basis.n), dtype=np.complex128
     )
 
     util = BasisUtil(converted["basis"][0][1])
-- 
2.43.0


From eb32c7a8f0ab50a8aee3bfd4cfb96ebc1b95dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 29/97] fix: hamiltonian between localized states was
 transposed

---
 .../wavepacket/localization_operator.py                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization_operator.py b/surface_potential_analysis/wavepacket/localization_operator.py
index 7da10f1..c2babe1 100644
--- a/surface_potential_analysis/wavepacket/localization_operator.py
+++ b/surface_potential_analysis/wavepacket/localization_operator.py
@@ -138,11 +138,11 @@ def get_localized_hamiltonian_from_eigenvalues(
     """
     converted = np.einsum(  # type: ignore lib
         "dic,cd,djc->dij",
-        operator["data"].reshape(-1, *operator["basis"][1].shape),
+        np.conj(operator["data"].reshape(-1, *operator["basis"][1].shape)),
         hamiltonian["data"].reshape(
             hamiltonian["basis"][0].n, hamiltonian["basis"][1].shape[0]
         ),
-        np.conj(operator["data"].reshape(-1, *operator["basis"][1].shape)),
+        operator["data"].reshape(-1, *operator["basis"][1].shape),
     )
     return {
         "basis": TupleBasis(
-- 
2.43.0


From 018b2d1bbb6cb871f16e4fdc9d18e488b9884796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 30/97] fix: full wannier hamiltonian had its bands and cells
 in the wrong order and conjugated phases

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 79b6682..1efd8f5 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -1000,10 +1000,9 @@ def get_full_wannier_hamiltonian(
         *hamiltonian["basis"][0].shape,
         -1,
     )
-    # is this correct...
-    # I think because H is real symmetric, this ultimately doesn't matter
-    data_stacked = np.fft.fftn(
-        np.fft.ifftn(
+    # The state translated by R has phase e^{ikR}, which is conjugated in the bra
+    data_stacked = np.fft.ifftn(
+        np.fft.fftn(
             hamiltonian_stacked,
             axes=tuple(range(hamiltonian["basis"][0].ndim)),
             norm="ortho",
@@ -1015,7 +1014,7 @@ def get_full_wannier_hamiltonian(
     )
     # Re order to match the correct basis
     data = np.einsum(  # type: ignore lib
-        "ijkl->ikjl",
+        "ijkl->kilj",
         data_stacked.reshape(
             hamiltonian["basis"][0].n,
             hamiltonian["basis"][0].n,
-- 
2.43.0


From f4f1b535ea80ae8b6fdbe28c0dd14c3a2b58f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 31/97] fix: wannier states of a truncated basis were not
 translated by whole unit cells

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index 1efd8f5..becf639 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -909,7 +909,10 @@ def get_wannier_states(
     # for each translation of the wannier functions
     for idx in range(operator["basis"][0].n):
         offset = util.get_stacked_index(idx)
-        shift = tuple(-n * o for (n, o) in zip(wavefunctions["basis"][1].shape, offset))
+        shift = tuple(
+            -n * o
+            for (n, o) in zip(wavefunctions["basis"][1].fundamental_shape, offset)
+        )
 
         tanslated = np.roll(
             converted_stacked, shift, axis=tuple(1 + x for x in range(util.ndim))
-- 
2.43.0


From fda77b6a1a2473af5154e89fd2f607f9fa082a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 32/97] fix: identity localization operator was labelled with
 the number of bloch samples rather than bands

---
 surface_potential_analysis/wavepacket/localization_operator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/localization_operator.py b/surface_potential_analysis/wavepacket/localization_operator.py
index c2babe1..41adb26 100644
--- a/surface_potential_analysis/wavepacket/localization_operator.py
+++ b/surface_potential_analysis/wavepacket/localization_operator.py
@@ -204,7 +204,7 @@ def get_identity_operator(
     return diagonal_operator_list_as_full(
         {
             "basis": TupleBasis(
-                basis[1], TupleBasis(FundamentalBasis(basis[1].n), basis[0])
+                basis[1], TupleBasis(FundamentalBasis(basis[0].n), basis[0])
             ),
             "data": np.ones(basis.n, dtype=np.complex128),
         }
-- 
2.43.0


From 44ed5fe4540a6ba049850de5e672555f5beaae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 33/97] fix: get_tight_binding_state took the unit cell from
 the basis of the whole wavepacket

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index becf639..ca3b867 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -318,7 +318,7 @@ def get_tight_binding_state(
     # Under the tight binding approximation all state vectors are equal.
     # The corresponding localized state is just the state at some index
     # truncated to a single unit cell
-    unit_cell_util = BasisUtil(wavepacket["basis"])
+    unit_cell_util = BasisUtil(wavepacket["basis"][1])
     relevant_idx = wrap_index_around_origin(
         wavepacket["basis"][1],
         unit_cell_util.fundamental_stacked_nx_points,
-- 
2.43.0


From 068853740530607d3b7ad8393e94e470bb2e7eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 34/97] fix: gaussian and exponential projections took the unit
 cell from the basis of the whole wavepacket

---
 .../wavepacket/localization/_projection.py      | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_projection.py b/surface_potential_analysis/wavepacket/localization/_projection.py
index 1e65bd1..585d3c3 100644
--- a/surface_potential_analysis/wavepacket/localization/_projection.py
+++ b/surface_potential_analysis/wavepacket/localization/_projection.py
@@ -298,15 +298,16 @@ def get_exponential_state(
     origin_stacked = (
         origin if isinstance(origin, tuple) else util.get_stacked_index(origin)
     )
-    origin_stacked = wrap_index_around_origin(wavepacket["basis"], origin_stacked)
+    origin_stacked = wrap_index_around_origin(wavepacket["basis"][1], origin_stacked)
 
     coordinates = wrap_index_around_origin(
         state_0["basis"], util.stacked_nx_points, origin=origin_stacked
     )
-    unit_cell_util = BasisUtil(wavepacket["basis"])
-    dx0 = coordinates[0] - origin_stacked[0] / unit_cell_util.fundamental_shape[0]
-    dx1 = coordinates[1] - origin_stacked[1] / unit_cell_util.fundamental_shape[1]
-    dx2 = coordinates[2] - origin_stacked[2] / unit_cell_util.fundamental_shape[2]
+    unit_cell_shape = wavepacket["basis"][1].fundamental_shape
+    dx = tuple(
+        (c - o) / w
+        for (c, o, w) in zip(coordinates, origin_stacked, unit_cell_shape, strict=True)
+    )
 
     out: StateVector[
         TupleBasisWithLengthLike[*tuple[FundamentalPositionBasis[Any, Any], ...]]
@@ -314,7 +315,7 @@ def get_exponential_state(
         "basis": state_0["basis"],
         "data": np.zeros_like(state_0["data"]),
     }
-    out["data"] = np.exp(-(dx0**2 + dx1**2 + dx2**2))
+    out["data"] = np.exp(-np.sum(np.square(dx), axis=(0)))
     out["data"] /= np.linalg.norm(out["data"])  # type: ignore can be float
     return out
 
@@ -389,12 +390,12 @@ def get_gaussian_states(
     origin_stacked = (
         origin if isinstance(origin, tuple) else util.get_stacked_index(origin)
     )
-    origin_stacked = wrap_index_around_origin(wavepacket["basis"], origin_stacked)
+    origin_stacked = wrap_index_around_origin(wavepacket["basis"][1], origin_stacked)
 
     coordinates = wrap_index_around_origin(
         basis, util.stacked_nx_points, origin=origin_stacked
     )
-    unit_cell_shape = (wavepacket["basis"]).shape
+    unit_cell_shape = wavepacket["basis"][1].fundamental_shape
     dx = tuple(
         (c - o) / w
         for (c, o, w) in zip(coordinates, origin_stacked, unit_cell_shape, strict=True)
-- 
2.43.0


From 9f4a540f24b6c2ea13859168c96ce3fa24ea0872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 35/97] fix: max and two point localization multiplied flat
 data by the phases as if it were stacked

---
 .../wavepacket/localization/_tight_binding.py          | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_tight_binding.py b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
index c8ea059..23f1510 100644
--- a/surface_potential_analysis/wavepacket/localization/_tight_binding.py
+++ b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
@@ -291,9 +291,10 @@ def localize_tightly_bound_wavepacket_two_point_max(
     # !         )
     # !     )
     # ! )
-    fixed_eigenvectors = wavepacket["data"] * phases[:, np.newaxis]
+    old_data = wavepacket["data"].reshape(wavepacket["basis"].shape)
+    fixed_eigenvectors = old_data * phases[:, np.newaxis]
 
-    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors}
+    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors.reshape(-1)}
 
 
 @timed
@@ -330,6 +331,7 @@ def localize_tightly_bound_wavepacket_max_point(
     global_phases = _get_global_phases(wavepacket, max_idx)
 
     phases = np.exp(-1j * (bloch_phases + global_phases - angle))
-    fixed_eigenvectors = wavepacket["data"] * phases[:, :, np.newaxis]
+    old_data = wavepacket["data"].reshape(wavepacket["basis"].shape)
+    fixed_eigenvectors = old_data * phases[:, np.newaxis]
 
-    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors}
+    return {"basis": wavepacket["basis"], "data": fixed_eigenvectors.reshape(-1)}
-- 
2.43.0


From 0d7712eab65de2490da0eb90e83f6e4116ba94c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 36/97] fix: position operator localization iterated over
 amplitudes rather than eigenstates

---
 .../wavepacket/localization/_operator.py                 | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/localization/_operator.py b/surface_potential_analysis/wavepacket/localization/_operator.py
index b5bac7a..a6a6015 100644
--- a/surface_potential_analysis/wavepacket/localization/_operator.py
+++ b/surface_potential_analysis/wavepacket/localization/_operator.py
@@ -105,13 +105,14 @@ def _localize_operator(
     ]
     operator_between_states = _get_operator_between_states(states, operator)
     eigenstates = calculate_eigenvectors_hermitian(operator_between_states)
+    stacked = wavepacket["data"].reshape(wavepacket["basis"].shape)
     return [
         {
             "basis": wavepacket["basis"],
             "eigenvalue": wavepacket["eigenvalue"],
-            "data": wavepacket["data"] * vector[:, np.newaxis],
+            "data": (stacked * vector[:, np.newaxis]).reshape(-1),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
 
 
@@ -172,7 +173,7 @@ def localize_position_operator_many_band(
             "basis": basis,
             "data": np.tensordot(vector, state_vectors, axes=(0, 0)),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
 
 
@@ -206,5 +207,5 @@ def localize_position_operator_many_band_individual(
             "basis": states[0]["basis"],
             "data": np.tensordot(vector, state_vectors, axes=(0, 0)),
         }
-        for vector in eigenstates["data"]
+        for vector in eigenstates["data"].reshape(eigenstates["basis"].shape)
     ]
-- 
2.43.0


From 7b46229c07f497ecc434679b79c972a706d676dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 37/97] fix: get_single_point_state_vectors raised or left
 bands empty unless the number of points was the square of the bands

---
 surface_potential_analysis/state_vector/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/state_vector/util.py b/surface_potential_analysis/state_vector/util.py
index c4ec939..e10ef0e 100644
--- a/surface_potential_analysis/state_vector/util.py
+++ b/surface_potential_analysis/state_vector/util.py
@@ -80,8 +80,8 @@ def get_single_point_state_vectors(
         get_fundamental_unfurled_basis(basis)
     )
     data = np.zeros((n_bands, converted.n), dtype=np.complex128)
-    for i, n in enumerate(range(0, basis[1].n, n_bands)):
-        data[i, n] = 1
+    for i in range(n_bands):
+        data[i, (i * basis[1].n) // n_bands] = 1
     return {
         "basis": TupleBasis(FundamentalBasis(n_bands), converted),
         "data": data.reshape(-1),
-- 
2.43.0


From 26112d2fe0cca2f7a50cf6a22923b754728437d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:00 +0000
Subject: [PATCH 38/97] fix: positions in the unit cell of a truncated basis
 were wrapped by its number of states

---
 .../wavepacket/get_eigenstate.py                  |  9 ++++++---
 .../wavepacket/localization/_projection.py        | 10 ++++++++--
 .../wavepacket/localization/_tight_binding.py     | 15 +++++++++++----
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index ca3b867..fb2ea6a 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -307,20 +307,23 @@ def get_tight_binding_state(
         get_wavepacket_state_vector(wavepacket, idx)
     )
     util = BasisUtil(state_0["basis"])
+    unit_cell_basis = stacked_basis_as_fundamental_position_basis(
+        wavepacket["basis"][1]
+    )
     if origin is None:
         idx_0: SingleStackedIndexLike = util.get_stacked_index(
             int(np.argmax(np.abs(state_0["data"]), axis=-1))
         )
         origin = wrap_index_around_origin(
-            wavepacket["basis"][1],
+            unit_cell_basis,
             idx_0,
         )
     # Under the tight binding approximation all state vectors are equal.
     # The corresponding localized state is just the state at some index
     # truncated to a single unit cell
-    unit_cell_util = BasisUtil(wavepacket["basis"][1])
+    unit_cell_util = BasisUtil(unit_cell_basis)
     relevant_idx = wrap_index_around_origin(
-        wavepacket["basis"][1],
+        unit_cell_basis,
         unit_cell_util.fundamental_stacked_nx_points,
         origin=origin,
     )
diff --git a/surface_potential_analysis/wavepacket/localization/_projection.py b/surface_potential_analysis/wavepacket/localization/_projection.py
index 585d3c3..90f5d84 100644
--- a/surface_potential_analysis/wavepacket/localization/_projection.py
+++ b/surface_potential_analysis/wavepacket/localization/_projection.py
@@ -298,7 +298,10 @@ def get_exponential_state(
     origin_stacked = (
         origin if isinstance(origin, tuple) else util.get_stacked_index(origin)
     )
-    origin_stacked = wrap_index_around_origin(wavepacket["basis"][1], origin_stacked)
+    origin_stacked = wrap_index_around_origin(
+        stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1]),
+        origin_stacked,
+    )
 
     coordinates = wrap_index_around_origin(
         state_0["basis"], util.stacked_nx_points, origin=origin_stacked
@@ -390,7 +393,10 @@ def get_gaussian_states(
     origin_stacked = (
         origin if isinstance(origin, tuple) else util.get_stacked_index(origin)
     )
-    origin_stacked = wrap_index_around_origin(wavepacket["basis"][1], origin_stacked)
+    origin_stacked = wrap_index_around_origin(
+        stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1]),
+        origin_stacked,
+    )
 
     coordinates = wrap_index_around_origin(
         basis, util.stacked_nx_points, origin=origin_stacked
diff --git a/surface_potential_analysis/wavepacket/localization/_tight_binding.py b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
index 23f1510..ca26c6d 100644
--- a/surface_potential_analysis/wavepacket/localization/_tight_binding.py
+++ b/surface_potential_analysis/wavepacket/localization/_tight_binding.py
@@ -186,7 +186,10 @@ def get_wavepacket_two_points(
     -------
     tuple[SingleStackedIndexLike, SingleStackedIndexLike]
     """
-    util = BasisUtil(wavepacket["basis"][1])
+    unit_cell_basis = stacked_basis_as_fundamental_position_basis(
+        wavepacket["basis"][1]
+    )
+    util = BasisUtil(unit_cell_basis)
     origin = (util.shape[0] * offset[0], util.shape[1] * offset[1], 0)
 
     converted = convert_state_vector_to_position_basis(
@@ -197,9 +200,9 @@ def get_wavepacket_two_points(
         SingleStackedIndexLike,
         converted_util.get_stacked_index(np.argmax(np.abs(converted["data"]), axis=-1)),
     )
-    idx_0 = wrap_index_around_origin(wavepacket["basis"][1], idx_0, origin=origin)
+    idx_0 = wrap_index_around_origin(unit_cell_basis, idx_0, origin=origin)
     idx_1 = get_x01_mirrored_index(idx_0)
-    idx_1 = wrap_index_around_origin(wavepacket["basis"][1], idx_1, origin=origin)
+    idx_1 = wrap_index_around_origin(unit_cell_basis, idx_1, origin=origin)
     return (idx_0, idx_1)
 
 
@@ -325,7 +328,11 @@ def localize_tightly_bound_wavepacket_max_point(
     )
     max_idx = cast(SingleFlatIndexLike, np.argmax(np.abs(converted["data"]), axis=-1))
     max_idx = BasisUtil(converted["basis"]).get_stacked_index(max_idx)
-    max_idx = wrap_index_around_origin(wavepacket["basis"][1], max_idx, axes=(0, 1))
+    max_idx = wrap_index_around_origin(
+        stacked_basis_as_fundamental_position_basis(wavepacket["basis"][1]),
+        max_idx,
+        axes=(0, 1),
+    )
 
     bloch_phases = _get_bloch_wavefunction_phases(wavepacket, max_idx)
     global_phases = _get_global_phases(wavepacket, max_idx)
-- 
2.43.0


From ea638b31daef2177a05ea8f390cd0cec5a23690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 39/97] fix: isotropic form of a complex diagonal kernel was
 the conjugate of the kernel and rejected

---
 surface_potential_analysis/kernel/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/kernel.py b/surface_potential_analysis/kernel/kernel.py
index 8928a73..b788186 100644
--- a/surface_potential_analysis/kernel/kernel.py
+++ b/surface_potential_analysis/kernel/kernel.py
@@ -243,7 +243,7 @@ def as_isotropic_kernel_from_diagonal(
     -------
     IsotropicNoiseKernel[_B0]
     """
-    data = kernel["data"].reshape(kernel["basis"][0].shape)[0]
+    data = kernel["data"].reshape(kernel["basis"][0].shape)[:, 0]
     out: IsotropicNoiseKernel[_B0] = {"basis": kernel["basis"][0][0], "data": data}
 
     if assert_isotropic:
-- 
2.43.0


From 0a1da18f30f824883392531ea07684312617799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 40/97] fix: isotropic kernels with small elements were
 rejected because of rounding errors

---
 surface_potential_analysis/kernel/kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/kernel.py b/surface_potential_analysis/kernel/kernel.py
index b788186..7aa1ea7 100644
--- a/surface_potential_analysis/kernel/kernel.py
+++ b/surface_potential_analysis/kernel/kernel.py
@@ -248,7 +248,9 @@ def as_isotropic_kernel_from_diagonal(
 
     if assert_isotropic:
         np.testing.assert_allclose(
-            as_diagonal_kernel_from_isotropic(out)["data"], kernel["data"]
+            as_diagonal_kernel_from_isotropic(out)["data"],
+            kernel["data"].ravel(),
+            atol=1e-7 * np.max(np.abs(kernel["data"])).item(),
         )
 
     return out
@@ -329,6 +331,7 @@ def as_isotropic_kernel_from_diagonal_stacked(
                 kernel["basis"][0].shape
             ),
             kernel["data"].reshape(kernel["basis"][0].shape),
+            atol=1e-7 * np.max(np.abs(kernel["data"])).item(),
         )
 
     return out
-- 
2.43.0


From de7b807de4e92e416edd7b7af49a44a55551bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 41/97] fix: eigenvalue decompositions rejected kernels for
 rounding errors (absolute or purely relative tolerances)

---
 surface_potential_analysis/kernel/solve/_eigenvalue.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/kernel/solve/_eigenvalue.py b/surface_potential_analysis/kernel/solve/_eigenvalue.py
index 8eb2509..a1a1598 100644
--- a/surface_potential_analysis/kernel/solve/_eigenvalue.py
+++ b/surface_potential_analysis/kernel/solve/_eigenvalue.py
@@ -60,10 +60,11 @@ def get_periodic_noise_operators_eigenvalue(
     )
     # Find the n^2 operators which are independent
     # I think this is always true
-    np.testing.assert_array_almost_equal(data, np.conj(np.transpose(data)))
+    atol = 1e-6 * np.max(np.abs(data)).item()
+    np.testing.assert_allclose(data, np.conj(np.transpose(data)), atol=atol)
 
     res = np.linalg.eigh(data)
-    np.testing.assert_array_almost_equal(
+    np.testing.assert_allclose(
         data,
         np.einsum(  # type: ignore unknown
             "ak,k,kb->ab",
@@ -71,6 +72,7 @@ def get_periodic_noise_operators_eigenvalue(
             res.eigenvalues,
             np.conj(np.transpose(res.eigenvectors)),
         ),
+        atol=atol,
     )
     # The original kernel has the noise operators as \ket{i}\bra{j}
     # When we diagonalize we have \hat{Z}'_\beta = U^\dagger_{\beta, \alpha} \hat{Z}_\alpha
@@ -113,8 +115,9 @@ def get_periodic_noise_operators_diagonal_eigenvalue(
     # for our finite temperature correction.
     # For isotropic noise, it is always possible to force this to be true
     # As long as we have evenly spaced k (we have to take symmetric and antisymmetric combinations)
+    atol = 1e-6 * np.max(np.abs(data)).item()
     np.testing.assert_allclose(
-        data, np.conj(np.transpose(data)), err_msg="kernel non hermitian"
+        data, np.conj(np.transpose(data)), atol=atol, err_msg="kernel non hermitian"
     )
     res = np.linalg.eigh(data)
 
@@ -127,6 +130,7 @@ def get_periodic_noise_operators_diagonal_eigenvalue(
             np.conj(np.transpose(res.eigenvectors)),
         ),
         rtol=1e-4,
+        atol=atol,
     )
     # The original kernel has the noise operators as \ket{i}\bra{j}
     # When we diagonalize we have \hat{Z}'_\beta = U^\dagger_{\beta, \alpha} \hat{Z}_\alpha
-- 
2.43.0


From fdad927ce0b6782e00a7a1c62aff3af5764cf0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 42/97] fix: isotropic kernel built from a function used
 beta(x' - x) rather than beta(x - x')

---
 surface_potential_analysis/kernel/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index df4b6d5..c112bbc 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -99,7 +99,7 @@ def build_isotropic_kernel_from_function(
     ]
     """
     displacements = get_displacements_matrix_x(basis)
-    correlation = fn(displacements["data"].reshape(displacements["basis"].shape)[0])
+    correlation = fn(displacements["data"].reshape(displacements["basis"].shape)[:, 0])
 
     return {"basis": displacements["basis"][0], "data": correlation.ravel()}
 
-- 
2.43.0


From 0501a5a974a5b84308d2a33a8b1ae94c183204d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 43/97] fix: truncate_diagonal_noise_kernel treated its
 diagonal operators as full operators

---
 surface_potential_analysis/kernel/build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/build.py b/surface_potential_analysis/kernel/build.py
index c112bbc..65a93c5 100644
--- a/surface_potential_analysis/kernel/build.py
+++ b/surface_potential_analysis/kernel/build.py
@@ -18,7 +18,7 @@ from surface_potential_analysis.kernel.kernel import (
     DiagonalNoiseKernel,
     IsotropicNoiseKernel,
     SingleBasisNoiseOperatorList,
-    get_diagonal_kernel_from_operators,
+    get_diagonal_kernel_from_diagonal_operators,
     get_full_kernel_from_operators,
 )
 from surface_potential_analysis.kernel.solve._eigenvalue import (
@@ -364,4 +364,4 @@ def truncate_diagonal_noise_kernel(
     operators = get_periodic_noise_operators_diagonal_eigenvalue(kernel)
 
     truncated = truncate_diagonal_noise_operator_list(operators, truncation)
-    return get_diagonal_kernel_from_operators(truncated)
+    return get_diagonal_kernel_from_diagonal_operators(truncated)
-- 
2.43.0


From 124256ce7bb2f9576c4013eddd5ad75f76308db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 44/97] fix: diagonal gaussian kernel took displacements
 between flat indices rather than along each axis

---
 surface_potential_analysis/kernel/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/gaussian.py b/surface_potential_analysis/kernel/gaussian.py
index b6aa791..82cfdc4 100644
--- a/surface_potential_analysis/kernel/gaussian.py
+++ b/surface_potential_analysis/kernel/gaussian.py
@@ -26,7 +26,7 @@ from surface_potential_analysis.kernel.kernel import (
     AxisKernel,
     DiagonalNoiseOperatorList,
     SingleBasisDiagonalNoiseOperatorList,
-    as_diagonal_kernel_from_isotropic,
+    as_diagonal_kernel_from_isotropic_stacked,
     get_diagonal_noise_operators_from_axis,
 )
 from surface_potential_analysis.kernel.solve._fft import (
@@ -159,7 +159,7 @@ def get_gaussian_noise_kernel(
     SingleBasisDiagonalNoiseKernel[ TupleBasisLike[FundamentalPositionBasis[Any, Literal[1]]] ]
         _description_
     """
-    return as_diagonal_kernel_from_isotropic(
+    return as_diagonal_kernel_from_isotropic_stacked(
         get_gaussian_isotropic_noise_kernel(basis, a, lambda_)
     )
 
-- 
2.43.0


From 6c92c1b191e892956a1939b12ef8ab270cd9882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 45/97] fix: explicit taylor expansion returned a different
 number of operators and coefficients

---
 surface_potential_analysis/kernel/solve/_taylor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index 16c2e30..c0dcb82 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -107,6 +107,7 @@ def get_periodic_noise_operators_explicit_taylor_expansion(
     # coefficients for the Taylor expansion of the trig terms
     coefficients = _get_periodic_coefficients_for_taylor_series(
         polynomial_coefficients=polynomial_coefficients,
+        n_terms=n_terms,
     )
     coefficients *= basis.n
 
-- 
2.43.0


From abfd42a3af0ebef86f34f74891f320a12e7ae414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 46/97] fix: taylor coefficients of more than ten cosines
 overflowed

---
 surface_potential_analysis/kernel/solve/_taylor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/kernel/solve/_taylor.py b/surface_potential_analysis/kernel/solve/_taylor.py
index c0dcb82..3036fc6 100644
--- a/surface_potential_analysis/kernel/solve/_taylor.py
+++ b/surface_potential_analysis/kernel/solve/_taylor.py
@@ -66,7 +66,8 @@ def _get_cos_coefficients_for_taylor_series(
     n_nonzero_terms = min(first_nonzero, n_terms)
     polynomial_coefficients = polynomial_coefficients[:n_nonzero_terms]
 
-    i = np.arange(0, n_nonzero_terms).reshape(1, -1)
+    # Note i ** (2 * m) overflows an integer
+    i = np.arange(0, n_nonzero_terms, dtype=np.float64).reshape(1, -1)
     m = np.arange(0, n_nonzero_terms).reshape(-1, 1)
     coefficients_prefactor = ((-1) ** m) / (factorial(2 * m))
     coefficients_matrix = coefficients_prefactor * (i ** (2 * m))
-- 
2.43.0


From 04a1f21300e6aff6294b514a727175ef4b069e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 47/97] fix: real isotropic fft decomposition returned
 mismatched operators and eigenvalues

---
 surface_potential_analysis/kernel/solve/_fft.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/solve/_fft.py b/surface_potential_analysis/kernel/solve/_fft.py
index ca40946..228debe 100644
--- a/surface_potential_analysis/kernel/solve/_fft.py
+++ b/surface_potential_analysis/kernel/solve/_fft.py
@@ -231,8 +231,12 @@ def get_periodic_noise_operators_real_isotropic_fft(
 
     fundamental_n = kernel["basis"].n if n is None else 2 * n + 1
 
+    n_frequencies = (fundamental_n // 2) + 1
     operators = get_periodic_operators_for_real_isotropic_noise(
-        kernel["basis"], fundamental_n=fundamental_n, assert_periodic=assert_periodic
+        kernel["basis"],
+        n=n_frequencies,
+        fundamental_n=fundamental_n,
+        assert_periodic=assert_periodic,
     )
 
     eigenvalues = _get_noise_eigenvalues_isotropic_fft(
@@ -243,12 +247,16 @@ def get_periodic_noise_operators_real_isotropic_fft(
         eigenvalues["data"][1::],
         eigenvalues["data"][1::][::-1],
         rtol=1e-8,
+        atol=1e-8 * np.max(np.abs(eigenvalues["data"])).item(),
     )
+    # The cos and sin operators represent both of the frequencies e^(+-ikx)
+    coefficients = eigenvalues["data"][:n_frequencies].copy()
+    coefficients[1 : (fundamental_n + 1) // 2] *= 2
 
     return {
         "basis": operators["basis"],
         "data": operators["data"],
-        "eigenvalue": eigenvalues["data"],
+        "eigenvalue": np.concatenate([coefficients, coefficients[:0:-1]]),
     }
 
 
-- 
2.43.0


From 8cb0973a562f12ae61cb966a542df645a7658182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 48/97] fix: axis kernels (displacements along one axis) only
 worked for a one dimensional lattice

---
 surface_potential_analysis/operator/build.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/build.py b/surface_potential_analysis/operator/build.py
index 4c029b6..f3f5c66 100644
--- a/surface_potential_analysis/operator/build.py
+++ b/surface_potential_analysis/operator/build.py
@@ -47,6 +47,13 @@ def _wrap_displacements(
     ).astype(np.float64)
 
 
+def _get_x_points_along_basis(
+    basis: BasisWithLengthLike[Any, Any, Any],
+) -> np.ndarray[tuple[int], np.dtype[np.float64]]:
+    util = BasisUtil(basis)
+    return np.linalg.norm(util.dx) * util.nx_points  # type: ignore[no-any-return]
+
+
 def get_displacements_x(
     basis: BasisWithLengthLike[Any, Any, Any], origin: float
 ) -> ValueList[FundamentalPositionBasis[Any, Any]]:
@@ -62,7 +69,7 @@ def get_displacements_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    distances = BasisUtil(basis_x).x_points.reshape(-1) - origin
+    distances = _get_x_points_along_basis(basis_x) - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
     data = _wrap_displacements(distances, max_distance)
     return {"basis": basis_x, "data": data.astype(np.complex128)}
@@ -166,7 +173,7 @@ def get_displacements_matrix_x(
     ValueList[FundamentalPositionBasis[Any, Any]]
     """
     basis_x = basis_as_fundamental_position_basis(basis)
-    x_points = BasisUtil(basis_x).x_points.reshape(-1)
+    x_points = _get_x_points_along_basis(basis_x)
     distances = x_points[:, np.newaxis] - x_points[np.newaxis, :] - origin
     max_distance = np.linalg.norm(basis_x.delta_x) / 2
     data = _wrap_displacements(distances, max_distance)
-- 
2.43.0


From 69fa1f88b8f9f7d5757447124fc83f3ef4eab72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 49/97] fix: allow the qutip Schrodinger solver enough internal
 steps for coarse time grids

---
 surface_potential_analysis/dynamics/schrodinger/solve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index 77e5f58..cd1ce2c 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -180,7 +180,8 @@ def solve_schrodinger_equation(
         options={
             "progress_bar": "enhanced",
             "store_states": True,
-            "nsteps": times.step,
+            # The solver chooses its own step size, this is only an upper limit
+            "nsteps": max(times.step, 1000000),
         },
     )
     return {
-- 
2.43.0


From 8e418673ca90cfea63df004573bc49c438756cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 50/97] fix: do not rescale unnormalized states in
 solve_schrodinger_equation

---
 surface_potential_analysis/dynamics/schrodinger/solve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index cd1ce2c..6e4af51 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -180,6 +180,7 @@ def solve_schrodinger_equation(
         options={
             "progress_bar": "enhanced",
             "store_states": True,
+            "normalize_output": False,
             # The solver chooses its own step size, this is only an upper limit
             "nsteps": max(times.step, 1000000),
         },
-- 
2.43.0


From 06e3d7d45fcd74197d23045ac80f0a1f65cc9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 51/97] fix: start solve_schrodinger_equation from time zero
 for offset time grids

---
 surface_potential_analysis/dynamics/schrodinger/solve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/schrodinger/solve.py b/surface_potential_analysis/dynamics/schrodinger/solve.py
index 6e4af51..95a124c 100644
--- a/surface_potential_analysis/dynamics/schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/schrodinger/solve.py
@@ -175,7 +175,8 @@ def solve_schrodinger_equation(
     result = qutip.sesolve(  # type: ignore lib
         hamiltonian_qobj,
         initial_state_qobj,
-        times.times,
+        # The initial state is the state at time zero
+        np.concatenate([[0.0], times.times]),
         e_ops=[],
         options={
             "progress_bar": "enhanced",
@@ -188,7 +189,7 @@ def solve_schrodinger_equation(
     return {
         "basis": TupleBasis(times, hamiltonian["basis"][0]),
         "data": np.array(
-            np.asarray([state.full().reshape(-1) for state in result.states]),  # type: ignore lib
+            np.asarray([state.full().reshape(-1) for state in result.states[1:]]),  # type: ignore lib
             dtype=np.complex128,
         ).reshape(-1),
     }
-- 
2.43.0


From 9184b2614f64e8533a6a195cb74284a7e5358cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 52/97] fix: collapse operators scaled by hbar rather than
 sqrt(hbar) in qutip solver

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 764070e..a1408d0 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -297,7 +297,7 @@ def solve_stochastic_schrodinger_equation(  # type: ignore bad overload
     initial_state_qobj = qutip.Qobj(initial_state["data"])
 
     sc_ops = [
-        qutip.Qobj(op["data"].reshape(op["basis"].shape) / hbar).to("CSR")
+        qutip.Qobj(op["data"].reshape(op["basis"].shape) / np.sqrt(hbar)).to("CSR")
         for op in collapse_operators
     ]
     result = qutip.ssesolve(
-- 
2.43.0


From 6ee79a9c616c0ba8e1576b34f11f4e23a7bc2bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 53/97] fix: solve_stochastic_schrodinger_equation_rust steps
 with the fundamental time step

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index a1408d0..20bf28d 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -397,7 +397,7 @@ def solve_stochastic_schrodinger_equation_rust(  # type: ignore bad overload
         SimulationConfig(
             n=times.n,
             step=times.step,
-            dt=times.dt,
+            dt=times.fundamental_dt,
             n_trajectories=n_trajectories,
             n_realizations=n_realizations,
             method="Euler",
-- 
2.43.0


From f9dd9ce6c7095e64e4a64511941c8f5b846f713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 54/97] fix: banded stochastic solver without collapse
 operators

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 20bf28d..b818d80 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -518,7 +518,7 @@ def solve_stochastic_schrodinger_equation_rust_banded(  # type: ignore bad overl
 
     # We get the best numerical performace if we set the norm of the largest collapse operators
     # to be one. This prevents us from accumulating large errors when multiplying state * dt * operator * conj_operator
-    max_norm = np.max(operators_norm)
+    max_norm = np.max(operators_norm) if operators_norm else np.float64(1)
     dt = (times.fundamental_dt * max_norm**2 / hbar).item()
 
     banded_collapse = _get_banded_operators(
-- 
2.43.0


From 1a84426d392723aafce554aae10945c8bea652ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 55/97] fix: get_collapse_operators_from_a_matrix zeroed the
 diagonal of its argument

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index b818d80..3f338c9 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -118,7 +118,7 @@ def get_collapse_operators_from_a_matrix(
     -------
     list[SingleBasisOperator[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[_L2Inv]]]]
     """
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     return [
         {
-- 
2.43.0


From 1e3ae5910e1c8163043f447006fb532cc0b6ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 56/97] fix: size of the operators in
 get_collapse_operators_from_function

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 3f338c9..1551ede 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -229,7 +229,7 @@ def get_collapse_operators_from_function(
                 (i1, j1) = (i0 + d1_stacked[0], j0 + d1_stacked[1])
                 j = np.ravel_multi_index((i1, j1, n1), (*shape, n_bands), mode="wrap")
 
-                data = np.zeros(shape, dtype=np.complex128)
+                data = np.zeros(array.shape, dtype=np.complex128)
                 data[i, j] = a_function(
                     int(n0), n1, (0, 0), (d1_stacked[0], d1_stacked[1])
                 )
-- 
2.43.0


From 9eea0cbc19f8fcbd780afd46415a894c73d2addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 57/97] fix: times of the states in
 solve_stochastic_schrodinger_equation_localized

---
 .../dynamics/stochastic_schrodinger/solve.py                 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 1551ede..3a96213 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -654,10 +654,11 @@ def solve_stochastic_schrodinger_equation_localized(  # type: ignore bad overloa
 
     for trajectory in range(n_trajectories):
         state = initial_state
-        for t in range(times.n):
+        data[trajectory, 0] = state["data"]
+        for t in range(1, times.n):
             result = solve_stochastic_schrodinger_equation(
                 state,
-                EvenlySpacedTimeBasis(2, times.step, 0, times.dt),
+                EvenlySpacedTimeBasis(2, times.step, 0, 2 * times.dt),
                 hamiltonian,
                 collapse_operators,
                 n_trajectories=n_realizations,
-- 
2.43.0


From 2e6ffbad12254ff254fffc2482d400a157a975be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 58/97] fix: rounding errors made the occupation of localized
 states negative

---
 .../dynamics/stochastic_schrodinger/solve.py                   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index 3a96213..bed94f2 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -601,7 +601,8 @@ def _select_random_localized_state(
     # Vectors representing the combination of states that diagonalizes rho
     eigenstates = calculate_eigenvectors_hermitian(op)
 
-    probabilities = eigenstates["eigenvalue"]
+    # The density matrix is positive, up to rounding errors
+    probabilities = np.clip(np.real(eigenstates["eigenvalue"]), 0, None)
     probabilities /= np.sum(probabilities)
 
     idx = rng.choice(probabilities.size, p=probabilities)
-- 
2.43.0


From 7cbe2d62afb42c263fe5a301347ee8afb39c5ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:09 +0000
Subject: [PATCH 59/97] fix: localized stochastic solver mixed the times of one
 realization, not the realizations

---
 .../dynamics/stochastic_schrodinger/solve.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
index bed94f2..3da36c7 100644
--- a/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
+++ b/surface_potential_analysis/dynamics/stochastic_schrodinger/solve.py
@@ -666,7 +666,7 @@ def solve_stochastic_schrodinger_equation_localized(  # type: ignore bad overloa
             )
             # Re-localize our state
             state = _select_random_localized_state(
-                get_state_along_axis(result, axes=(1,), idx=(1,))
+                get_state_along_axis(result, axes=(0,), idx=(1,))
             )
 
             data[trajectory, t] = state["data"]
-- 
2.43.0


From 8deed0c0204f6216d95c9f10f809a1a0de79854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 60/97] fix: get_jump_matrix_from_a_matrix used the pair of
 bases as the basis of the sites

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 5ae5e51..e81e237 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -93,8 +93,8 @@ def get_jump_matrix_from_a_matrix(
     -------
     TunnellingJumpMatrix[_L2Inv]
     """
-    n_bands = matrix["basis"][2].fundamental_n
-    util = BasisUtil(matrix["basis"])
+    n_bands = matrix["basis"][0][2].fundamental_n
+    util = BasisUtil(matrix["basis"][0])
     stacked = matrix["data"].reshape(*util.shape, *util.shape)
     data = np.zeros((n_bands, n_bands, 9), dtype=np.complex128)
     for n_0 in range(n_bands):
-- 
2.43.0


From 1c95484962d730984136ef25a873a4d02859c557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 61/97] fix: get_a_matrix_from_jump_matrix for default or
 reduced number of bands

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index e81e237..f420e4c 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -169,12 +169,12 @@ def get_a_matrix_from_jump_matrix(
     -------
     TunnellingAMatrix[ tuple[ FundamentalBasis[_L0Inv], FundamentalBasis[_L1Inv], TunnellingSimulationBandsBasis[int], ] ]
     """
-    n_bands = matrix["basis"].fundamental_n if n_bands is None else n_bands
+    n_bands = matrix["basis"][0].fundamental_n if n_bands is None else n_bands
     final_basis = get_basis_from_shape(shape, n_bands, matrix["basis"][0])
     final_util = BasisUtil(final_basis)
 
     (n_x0, n_x1) = shape
-    jump_stacked = matrix["data"].reshape(n_bands, n_bands, 9)
+    jump_stacked = matrix["data"].reshape(*matrix["basis"].shape, 9)
     array = np.zeros((*final_util.shape, *final_util.shape), dtype=np.complex128)
     for n_0 in range(n_bands):
         for n_1 in range(n_bands):
-- 
2.43.0


From 4df9fb6578c48155c2253fe902775935cd9766f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 62/97] fix: get_a_matrix_reduced_bands used the pair of bases
 as the basis of the sites

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index f420e4c..372a507 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -272,7 +272,7 @@ def get_a_matrix_reduced_bands(
     -------
     TunnellingMMatrix[tuple[_AX0Inv, _AX1Inv, TunnellingSimulationBandsBasis[_L1Inv]]]
     """
-    util = BasisUtil(matrix["basis"])
+    util = BasisUtil(matrix["basis"][0])
     a_basis = TupleBasis(
         matrix["basis"][0][0],
         matrix["basis"][0][1],
-- 
2.43.0


From a2c8860e43a0a20dc1cae18fdf7bbb22929729c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 63/97] fix: get_tunnelling_m_matrix zeroed the diagonal of its
 argument

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 372a507..7c8d2ae 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -329,7 +329,7 @@ def get_tunnelling_m_matrix(
     TunnellingMMatrix
     """
     matrix = matrix if n_bands is None else get_a_matrix_reduced_bands(matrix, n_bands)
-    data = matrix["data"].reshape(matrix["basis"].shape)
+    data = matrix["data"].reshape(matrix["basis"].shape).copy()
     np.fill_diagonal(data, 0)
     array = data.T - np.diag(np.sum(data, axis=1))
     return {"basis": matrix["basis"], "data": array}
-- 
2.43.0


From 9d558549cc2da5070e5e39e7deefd1ed7e88cfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 64/97] fix: density_matrix_as_probability returned the basis
 of the operator

---
 .../dynamics/incoherent_propagation/tunnelling_matrix.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
index 7c8d2ae..997252e 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/tunnelling_matrix.py
@@ -373,7 +373,7 @@ def density_matrix_as_probability(
     -------
     ProbabilityVector[_B0Inv]
     """
-    return {"basis": matrix["basis"], "data": np.real(matrix["data"])}  # type: ignore[typeddict-item]
+    return {"basis": matrix["basis"][0], "data": np.real(matrix["data"])}  # type: ignore[typeddict-item]
 
 
 def density_matrix_list_as_probabilities(
-- 
2.43.0


From ab2ba53a72643f7459c76835f6aa08c5bc277e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 65/97] fix: sum_probability returned a plain tuple as basis

---
 .../probability_vector/probability_vector.py                  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 5e5902d..d927cc1 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -146,7 +146,9 @@ def sum_probability(
     ProbabilityVector[Any]
     """
     axis = tuple(range(probability["basis"].ndim)) if axis is None else axis
-    basis = tuple(b for (i, b) in enumerate(probability["basis"]) if i not in axis)
+    basis = TupleBasis(
+        *tuple(b for (i, b) in enumerate(probability["basis"]) if i not in axis)
+    )
     return {
         "basis": basis,
         "data": (
-- 
2.43.0


From 9292966cb32b4faa16e1b2a303b0ac2c2860bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 66/97] fix: default axes of sum_probabilities

---
 .../probability_vector/probability_vector.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index d927cc1..c866910 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -175,7 +175,7 @@ def sum_probabilities(
     -------
     ProbabilityVectorList[Any, _L0Inv]
     """
-    axis = tuple(range(probabilities["basis"].ndim)) if axis is None else axis
+    axis = tuple(range(probabilities["basis"][1].ndim)) if axis is None else axis
     basis = TupleBasis(
         *tuple(b for (i, b) in enumerate(probabilities["basis"][1]) if i not in axis)
     )
-- 
2.43.0


From bfcaa4b7b0862802ca76af2f9619515d67ebfe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 67/97] fix: get_probability_along_axis for lists of more than
 one dimension

---
 .../probability_vector/probability_vector.py           | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index c866910..7a60f3a 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -114,16 +114,14 @@ def get_probability_along_axis(
     ProbabilityVector[_B0Inv]
     """
     ndim = probabilities["basis"][0].ndim
-    idx = tuple(0 for _ in range(ndim - 2)) if idx is None else idx
-    final_basis = TupleBasis(
-        *tuple(b for (i, b) in enumerate(probabilities["basis"][0]) if i in axes)
-    )
+    idx = tuple(0 for _ in range(ndim - len(axes))) if idx is None else idx
+    final_basis = TupleBasis(*tuple(probabilities["basis"][0][ax] for ax in axes))
 
     vector = get_data_in_axes(
-        probabilities["data"].reshape(probabilities["basis"].shape),
+        probabilities["data"].reshape(*probabilities["basis"][0].shape, -1),
         (*axes, ndim),
         idx,
-    ).reshape(*final_basis.shape, -1)
+    ).reshape(-1)
     return {
         "basis": TupleBasis(final_basis, probabilities["basis"][1]),
         "data": vector,
-- 
2.43.0


From acb668ef5d43357df4e5cd5aab7f920fadefaca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 68/97] fix: average_probabilities raised TypeError for every
 one dimensional list of weights

---
 .../probability_vector/probability_vector.py                   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/probability_vector/probability_vector.py b/surface_potential_analysis/probability_vector/probability_vector.py
index 7a60f3a..3d86177 100644
--- a/surface_potential_analysis/probability_vector/probability_vector.py
+++ b/surface_potential_analysis/probability_vector/probability_vector.py
@@ -240,7 +240,8 @@ def average_probabilities(
         "basis": TupleBasis(basis, probabilities["basis"][1]),
         "data": np.average(
             probabilities["data"].reshape(*old_basis.shape, -1),
-            axis=tuple(ax for ax in axis),
+            # numpy only accepts one dimensional weights along a single integer axis
+            axis=tuple(ax for ax in axis) if len(axis) != 1 else axis[0],
             weights=weights,
         ).reshape(-1),
     }
-- 
2.43.0


From ba8dc30a203a3a03c6767d9a5c2d2a67643194e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 69/97] fix: calculate_equilibrium_state_averaged_isf failed
 for every matrix

---
 .../dynamics/incoherent_propagation/isf.py               | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index d35fc80..242f880 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -96,7 +96,7 @@ def calculate_equilibrium_state_averaged_isf(
     -------
     EigenvalueList[_L0Inv]
     """
-    util = BasisUtil(matrix["basis"])
+    util = BasisUtil(matrix["basis"][0])
     eigenstates = calculate_tunnelling_eigenstates(matrix)
     equilibrium = get_equilibrium_state(eigenstates)
 
@@ -114,7 +114,7 @@ def calculate_equilibrium_state_averaged_isf(
         isf = calculate_isf_approximate_locations(
             initial_probability, final_probabilities, dk
         )
-        eigenvalues[band] = isf
+        eigenvalues[band] = isf["data"]
     isf_per_band: SingleBasisDiagonalOperator[
         TupleBasis[FundamentalBasis[int], ExplicitTimeBasis[_L0Inv]]
     ] = {
@@ -127,7 +127,10 @@ def calculate_equilibrium_state_averaged_isf(
     averaged = average_eigenvalues(
         isf_per_band, (0,), weights=np.abs(occupation_probabilities["data"])
     )
-    return {"basis": averaged["basis"][0][0], "data": averaged["data"]}
+    return {
+        "basis": TupleBasis(averaged["basis"][0][0], averaged["basis"][1][0]),
+        "data": averaged["data"],
+    }
 
 
 def calculate_equilibrium_initial_state_isf(
-- 
2.43.0


From cbb610df39ccc7b1d7f6afa9e67a584ab4cf11e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 70/97] fix: calculate_equilibrium_initial_state_isf failed for
 every matrix

---
 .../dynamics/incoherent_propagation/isf.py               | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index 242f880..948e6d4 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -154,9 +154,10 @@ def calculate_equilibrium_initial_state_isf(
     eigenstates = calculate_tunnelling_eigenstates(matrix)
 
     vectors = np.zeros(
-        (matrix["basis"].shape[2], times.size, matrix["basis"].n), dtype=np.complex128
+        (matrix["basis"][0].shape[2], times.size, matrix["basis"][0].n),
+        dtype=np.complex128,
     )
-    for band in range(matrix["basis"].shape[2]):
+    for band in range(matrix["basis"][0].shape[2]):
         initial_state = get_initial_pure_density_matrix_for_basis(
             matrix["basis"][0], (0, 0, band)
         )
@@ -168,7 +169,7 @@ def calculate_equilibrium_initial_state_isf(
     ] = {
         "basis": TupleBasis(
             TupleBasis(
-                FundamentalBasis(matrix["basis"].shape[2]), ExplicitTimeBasis(times)
+                FundamentalBasis(matrix["basis"][0].shape[2]), ExplicitTimeBasis(times)
             ),
             matrix["basis"][0],
         ),
@@ -179,7 +180,7 @@ def calculate_equilibrium_initial_state_isf(
     occupation_probabilities = sum_probability(
         density_matrix_as_probability(equilibrium), (0, 1)
     )
-    vector = np.zeros(matrix["basis"].shape, dtype=np.complex128)
+    vector = np.zeros(matrix["basis"][0].shape, dtype=np.float64)
     vector[0, 0, :] = occupation_probabilities["data"]
     initial: ProbabilityVector[_B0Inv] = {
         "basis": matrix["basis"][0],
-- 
2.43.0


From 0652513780ffb35829b001dbb3461b0c29c22277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:18 +0000
Subject: [PATCH 71/97] fix: get_rate_decomposition returned the states rather
 than the rates

---
 .../dynamics/incoherent_propagation/isf.py                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
index 948e6d4..3f7a362 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/isf.py
@@ -219,4 +219,4 @@ def get_rate_decomposition(
     """
     eigenstates = calculate_tunnelling_eigenstates(matrix)
     coefficients = get_operator_state_vector_decomposition(initial, eigenstates)
-    return RateDecomposition(eigenstates["data"], coefficients)
+    return RateDecomposition(eigenstates["eigenvalue"], coefficients)
-- 
2.43.0


From 68be3e1bcecfc8ccc8a740619baa8ae74a8d56d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 72/97] fix: fits of isf models stopped at the initial guess of
 the rates

---
 surface_potential_analysis/dynamics/isf.py | 49 ++++++++++++++--------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/surface_potential_analysis/dynamics/isf.py b/surface_potential_analysis/dynamics/isf.py
index 4e8e6f6..680878d 100644
--- a/surface_potential_analysis/dynamics/isf.py
+++ b/surface_potential_analysis/dynamics/isf.py
@@ -113,6 +113,11 @@ def calculate_isf_approximate_locations(
     }
 
 
+# The rates (in Hz) are fitted in units comparable to the other parameters,
+# otherwise the optimizer would stop at the initial guess
+_RATE_UNIT = 1e10
+
+
 @dataclass
 class ISF4VariableFit:
     """Result of fitting a double exponential to an ISF."""
@@ -180,15 +185,15 @@ def fit_isf_to_double_exponential(
 
     params, _ = scipy.optimize.curve_fit(  # type: ignore lib
         f,
-        isf["basis"][0].times,
+        isf["basis"][0].times * _RATE_UNIT,
         data,
-        p0=(0.5, 2e10, 0.5, 1e10),
+        p0=(0.5, 2e10 / _RATE_UNIT, 0.5, 1e10 / _RATE_UNIT),
         bounds=([0, 0, 0, 0], [1, np.inf, 1, np.inf]),
     )
     return ISF4VariableFit(
-        params[1],  # type: ignore lib
+        params[1] * _RATE_UNIT,  # type: ignore lib
         params[0],  # type: ignore lib
-        params[3],  # type: ignore lib
+        params[3] * _RATE_UNIT,  # type: ignore lib
         params[2],  # type: ignore lib
         1 - params[0] - params[2],  # type: ignore lib
     )
@@ -367,17 +372,17 @@ def fit_isf_to_fey_4_variable_model_110_fixed_ratio(  # noqa: PLR0913
 
     params, _ = scipy.optimize.curve_fit(  # type: ignore lib
         penalized_f,
-        times[valid_times],
+        times[valid_times] * _RATE_UNIT,
         data[valid_times],
-        p0=(1.4e9, lam / (1 + lam), 1 / (1 + lam), 0.05),
+        p0=(1.4e9 / _RATE_UNIT, lam / (1 + lam), 1 / (1 + lam), 0.05),
         bounds=([0, 0, 0, 0], [np.inf, np.inf, np.inf, 0.2]),
         maxfev=10000,
     )
     return ISFFey4VariableFit(
         a_dk,
-        params[0],  # type: ignore lib
+        params[0] * _RATE_UNIT,  # type: ignore lib
         params[1],  # type: ignore lib
-        lam * params[0],  # type: ignore lib
+        lam * params[0] * _RATE_UNIT,  # type: ignore lib
         params[2],  # type: ignore lib
         params[3],  # type: ignore lib
     )
@@ -434,17 +439,17 @@ def fit_isf_to_fey_4_variable_model_110(
 
     params, _ = scipy.optimize.curve_fit(  # type: ignore lib
         penalized_f,
-        times[valid_times],
+        times[valid_times] * _RATE_UNIT,
         data[valid_times],
-        p0=(1.4e9, 0.2, 0.7e9, 0.8, 0.05),
+        p0=(1.4e9 / _RATE_UNIT, 0.2, 0.7e9 / _RATE_UNIT, 0.8, 0.05),
         bounds=([0, 0, 0, 0, 0], [np.inf, np.inf, np.inf, np.inf, 0.2]),
         maxfev=10000,
     )
     return ISFFey4VariableFit(
         a_dk,
-        params[0],  # type: ignore lib
+        params[0] * _RATE_UNIT,  # type: ignore lib
         params[1],  # type: ignore lib
-        params[2],  # type: ignore lib
+        params[2] * _RATE_UNIT,  # type: ignore lib
         params[3],  # type: ignore lib
         params[4],  # type: ignore lib
     )
@@ -599,12 +604,16 @@ def fit_isf_to_fey_model_110(
 
     params, _ = scipy.optimize.curve_fit(  # type: ignore lib
         f,
-        isf["basis"][0].times,
+        isf["basis"][0].times * _RATE_UNIT,
         data,
-        p0=(1.4e9, 3e8),
+        p0=(1.4e9 / _RATE_UNIT, 3e8 / _RATE_UNIT),
         bounds=([0, 0], [np.inf, np.inf]),
     )
-    return ISFFeyModelFit(params[0], params[1], a_dk=a_dk)  # type: ignore lib
+    return ISFFeyModelFit(
+        params[0] * _RATE_UNIT,  # type: ignore lib
+        params[1] * _RATE_UNIT,  # type: ignore lib
+        a_dk=a_dk,
+    )
 
 
 def fit_isf_to_fey_model_112bar(
@@ -636,9 +645,13 @@ def fit_isf_to_fey_model_112bar(
 
     params, _ = scipy.optimize.curve_fit(  # type: ignore lib
         f,
-        isf["basis"][0].times,
+        isf["basis"][0].times * _RATE_UNIT,
         data,
-        p0=(2e10, 1e10),
+        p0=(2e10 / _RATE_UNIT, 1e10 / _RATE_UNIT),
         bounds=([0, 0], [np.inf, np.inf]),
     )
-    return ISFFeyModelFit(params[0], params[1], a_dk=a_dk)  # type: ignore lib
+    return ISFFeyModelFit(
+        params[0] * _RATE_UNIT,  # type: ignore lib
+        params[1] * _RATE_UNIT,  # type: ignore lib
+        a_dk=a_dk,
+    )
-- 
2.43.0


From ea6c784ca3b1db81f5c100cadf01a61334413ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 73/97] fix: convert_overlap_to_momentum_basis raised for every
 overlap

---
 surface_potential_analysis/overlap/conversion.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/surface_potential_analysis/overlap/conversion.py b/surface_potential_analysis/overlap/conversion.py
index f55523e..f6515a7 100644
--- a/surface_potential_analysis/overlap/conversion.py
+++ b/surface_potential_analysis/overlap/conversion.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, Literal, TypeVar
 
-import numpy as np
 
 from surface_potential_analysis.basis.basis_like import (
     BasisLike,
@@ -81,14 +80,6 @@ def convert_overlap_to_momentum_basis(
     -------
     OverlapMomentum[_L0Inv, _L1Inv, _L2Inv]
     """
-    transformed = np.fft.ifftn(
-        overlap["data"].reshape(overlap["basis"].shape),
-        axes=(0, 1, 2),
-        s=overlap["basis"].fundamental_shape,
-        norm="forward",
-    )
-    transformed.reshape(-1)
-
     return convert_overlap_to_basis(
         overlap, stacked_basis_as_fundamental_momentum_basis(overlap["basis"][0])
     )
-- 
2.43.0


From 12c9a6f48ef02037f0dd87a963f1e9640f0b1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 74/97] fix: overlap interpolation used the number of points of
 the first axis for all axes

---
 surface_potential_analysis/overlap/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/overlap/interpolation.py b/surface_potential_analysis/overlap/interpolation.py
index de9fc73..6a3a92a 100644
--- a/surface_potential_analysis/overlap/interpolation.py
+++ b/surface_potential_analysis/overlap/interpolation.py
@@ -69,7 +69,7 @@ def get_overlap_momentum_interpolator_k_fractions(
         overlap["basis"][0], util.stacked_nx_points, axes=(0, 1)
     )
     x_fractions = np.asarray(nx_points_wrapped, dtype=float)[:, :, np.newaxis]
-    x_fractions /= util.shape[0]
+    x_fractions /= np.asarray(util.shape, dtype=float)[:, np.newaxis, np.newaxis]
 
     def _interpolator(
         k_fractions: ArrayStackedIndexFractionLike[_S0Inv],
-- 
2.43.0


From f1613130de67a7fa7ff36f992537ff44d7ba558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 75/97] fix: angle average of the overlap counted the first
 angle twice

---
 surface_potential_analysis/overlap/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/overlap/interpolation.py b/surface_potential_analysis/overlap/interpolation.py
index 6a3a92a..2f59cd1 100644
--- a/surface_potential_analysis/overlap/interpolation.py
+++ b/surface_potential_analysis/overlap/interpolation.py
@@ -191,7 +191,7 @@ def get_angle_averaged_diagonal_overlap_function(
     -------
     np.ndarray[tuple[int], np.dtype[np.float_]]
     """
-    theta = np.linspace(0, 2 * np.pi, theta_samples)
+    theta = np.linspace(0, 2 * np.pi, theta_samples, endpoint=False)
     averages = list[np.float64]()
     for q in abs_q.ravel():
         k_points = q * np.array([np.cos(theta), np.sin(theta)])
-- 
2.43.0


From 3187d9da7eae16458bbebe9297b5f786b8eeb451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:33 +0000
Subject: [PATCH 76/97] fix: shift of the state vector list overlap carried
 over into the next axis

---
 surface_potential_analysis/overlap/calculation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/surface_potential_analysis/overlap/calculation.py b/surface_potential_analysis/overlap/calculation.py
index 260f90e..0929400 100644
--- a/surface_potential_analysis/overlap/calculation.py
+++ b/surface_potential_analysis/overlap/calculation.py
@@ -101,12 +101,14 @@ def calculate_state_vector_list_overlap(
     Overlap[TupleBasisLike[*tuple[FundamentalPositionBasis[Any, Any], ...]], _B1, _B1].
     """
     stacked = states["data"].reshape(states["basis"].shape)
-    shift = (
-        BasisUtil(states["basis"][1]).get_flat_index(shift, mode="wrap")
-        if isinstance(shift, tuple)
-        else shift
-    )
-    stacked_shifted = np.roll(stacked, shift, axis=(1))
+    if isinstance(shift, tuple):
+        # Shift periodically along each axis
+        shape = BasisUtil(states["basis"][1]).shape
+        stacked_shifted = np.roll(
+            stacked.reshape(-1, *shape), shift, axis=tuple(range(1, 1 + len(shape)))
+        ).reshape(stacked.shape)
+    else:
+        stacked_shifted = np.roll(stacked, shift, axis=(1))
     # stacked = i, j where i indexes the state and j indexes the position
     data = np.conj(stacked)[np.newaxis, :, :] * (stacked_shifted[:, np.newaxis, :])
     return {
-- 
2.43.0


From a8dfc76ce4ae7298653b065b0d617e93d7ecdaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 77/97] fix: cache entries only replace the file once
 completely written

---
 surface_potential_analysis/util/decorators.py | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/surface_potential_analysis/util/decorators.py b/surface_potential_analysis/util/decorators.py
index 23342c8..25c943b 100644
--- a/surface_potential_analysis/util/decorators.py
+++ b/surface_potential_analysis/util/decorators.py
@@ -2,15 +2,15 @@ from __future__ import annotations
 
 import datetime
 import pickle  # noqa: S403
-from collections.abc import Callable, Mapping
+import uuid
+from collections.abc import Callable, Iterator, Mapping
+from contextlib import contextmanager
 from functools import update_wrapper, wraps
-from typing import TYPE_CHECKING, Any, Generic, Literal, ParamSpec, TypeVar, overload
+from pathlib import Path
+from typing import Any, BinaryIO, Generic, Literal, ParamSpec, TypeVar, overload
 
 import numpy as np
 
-if TYPE_CHECKING:
-    from pathlib import Path
-
 _P = ParamSpec("_P")
 _R = TypeVar("_R")
 _RD = TypeVar("_RD", bound=Mapping[Any, Any])
@@ -44,6 +44,19 @@ def timed(f: Callable[_P, _R]) -> Callable[_P, _R]:
     return wrap  # type: ignore[return-value]
 
 
+@contextmanager
+def _open_atomic(path: Path) -> Iterator[BinaryIO]:
+    """Open a file for writing, which only replaces path once it is complete."""
+    path = Path(path)
+    temporary_path = path.with_name(f"{path.name}.{uuid.uuid4().hex}.tmp")
+    try:
+        with temporary_path.open("wb") as f:
+            yield f
+        temporary_path.replace(path)
+    finally:
+        temporary_path.unlink(missing_ok=True)
+
+
 @overload
 def npy_cached(
     path: Path | None,
@@ -100,7 +113,8 @@ def npy_cached(
             except FileNotFoundError:
                 arr = f(*args, **kw)
                 # Saving pickeld
-                np.save(cache_path, np.asanyarray(arr), allow_pickle=save_pickle)
+                with _open_atomic(cache_path) as f_out:
+                    np.save(f_out, np.asanyarray(arr), allow_pickle=save_pickle)
 
             return arr
 
@@ -147,7 +161,7 @@ class CachedFunction(Generic[_P, _RD]):
         obj = self.call_uncached(*args, **kw)
         cache_path = self._get_cache_path(*args, **kw)
         if cache_path is not None:
-            with cache_path.open("wb") as f:
+            with _open_atomic(cache_path) as f:
                 pickle.dump(obj, f, pickle.HIGHEST_PROTOCOL)
         return obj
 
-- 
2.43.0


From b716a2b380328f2cd358b400419bd4f6ee5bc5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 78/97] fix: 1d momentum plot picks its default slice from the
 converted data

---
 surface_potential_analysis/util/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 46bdf18..60c3250 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -269,7 +269,7 @@ def plot_data_1d_k(
     basis_k = stacked_basis_as_fundamental_momentum_basis(basis)
     converted_data = convert_vector(data, basis, basis_k)
 
-    idx = get_max_idx(basis_k, data, axes) if idx is None else idx
+    idx = get_max_idx(basis_k, converted_data, axes) if idx is None else idx
 
     coordinates = get_k_coordinates_in_axes(basis_k, axes, idx)
     data_in_axis = get_data_in_axes(converted_data.reshape(basis_k.shape), axes, idx)
-- 
2.43.0


From e059d7bbb54b29865388a90b85bba09c89751e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:30 +0000
Subject: [PATCH 79/97] fix: plot_diagonal_operator_along_diagonal draws on the
 given axes

---
 surface_potential_analysis/operator/plot.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/operator/plot.py b/surface_potential_analysis/operator/plot.py
index 2d087fe..7b6d25a 100644
--- a/surface_potential_analysis/operator/plot.py
+++ b/surface_potential_analysis/operator/plot.py
@@ -249,7 +249,11 @@ def plot_diagonal_operator_along_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     fig, ax, line = plot_data_1d_n(
-        TupleBasis(operator["basis"][0]), operator["data"], measure=measure, scale=scale
+        TupleBasis(operator["basis"][0]),
+        operator["data"],
+        ax=ax,
+        measure=measure,
+        scale=scale,
     )
 
     line.set_label(f"{measure} operator")
-- 
2.43.0


From f816ecfd3a8b903a874c6742518565050d35d3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:21 +0000
Subject: [PATCH 80/97] fix: the diagonal of an operator is plotted by index,
 not converted as a state

---
 surface_potential_analysis/operator/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/operator/plot.py b/surface_potential_analysis/operator/plot.py
index 7b6d25a..ef0cb2f 100644
--- a/surface_potential_analysis/operator/plot.py
+++ b/surface_potential_analysis/operator/plot.py
@@ -6,6 +6,7 @@ import numpy as np
 from matplotlib.axes import Axes
 from matplotlib.figure import Figure
 
+from surface_potential_analysis.basis.basis import FundamentalBasis
 from surface_potential_analysis.basis.basis_like import BasisLike
 from surface_potential_analysis.basis.stacked_basis import (
     StackedBasisWithVolumeLike,
@@ -249,7 +250,7 @@ def plot_diagonal_operator_along_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     fig, ax, line = plot_data_1d_n(
-        TupleBasis(operator["basis"][0]),
+        TupleBasis(FundamentalBasis(operator["basis"][0].n)),
         operator["data"],
         ax=ax,
         measure=measure,
@@ -285,7 +286,7 @@ def animate_diagonal_operator_list_along_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     return animate_data_through_list_1d_n(
-        TupleBasis(operator["basis"][1][0]),
+        TupleBasis(FundamentalBasis(operator["basis"][1][0].n)),
         operator["data"].reshape(operator["basis"][0].n, -1),
         ax=ax,
         scale=scale,
-- 
2.43.0


From 0491e7fcec58c9fcea76eb3c7a9388be726ba7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 81/97] fix: animation through the surface draws every plane,
 with the limits of its measure

---
 surface_potential_analysis/util/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/util/plot.py b/surface_potential_analysis/util/plot.py
index 60c3250..ac21e3e 100644
--- a/surface_potential_analysis/util/plot.py
+++ b/surface_potential_analysis/util/plot.py
@@ -639,9 +639,10 @@ def animate_data_through_surface_x(
             measured_data[:, :, i],
             shading="nearest",
         ),
-        data.shape[2],
+        measured_data.shape[2],
         ax=ax,
         scale=scale,
+        measure=measure,
         clim=clim,
     )
     ax.set_aspect("equal", adjustable="box")
-- 
2.43.0


From 32255f750b56f7d1cb6b06fb52c9a653367c5fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 82/97] fix: animate_potential_3d_x draws the potential
 converted to the position basis

---
 surface_potential_analysis/potential/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/potential/plot.py b/surface_potential_analysis/potential/plot.py
index 66a0f37..754e520 100644
--- a/surface_potential_analysis/potential/plot.py
+++ b/surface_potential_analysis/potential/plot.py
@@ -316,9 +316,9 @@ def animate_potential_3d_x(
     tuple[Figure, Axes, ArtistAnimation]
     """
     converted = convert_potential_to_position_basis(potential)
-    points = potential["data"].reshape(converted["basis"].shape)
+    points = converted["data"].reshape(converted["basis"].shape)
     fig, ax, ani = animate_data_through_surface_x(  # type: ignore[misc]
-        potential["basis"],
+        converted["basis"],
         points,
         axes,
         idx,
-- 
2.43.0


From c2b743ae957a030c5a98a0ac1ca51b43e238d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 83/97] fix: plot_average_isf_against_time passes the basis of
 an operator

---
 surface_potential_analysis/dynamics/isf_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/isf_plot.py b/surface_potential_analysis/dynamics/isf_plot.py
index 61ac6a4..6592cfa 100644
--- a/surface_potential_analysis/dynamics/isf_plot.py
+++ b/surface_potential_analysis/dynamics/isf_plot.py
@@ -102,7 +102,7 @@ def plot_average_isf_against_time(
     """
     averaged = average_eigenvalues(eigenvalues, (0,))
     return plot_isf_against_time(
-        {"basis": averaged["basis"][0][0], "data": averaged["data"]},
+        {"basis": averaged["basis"][0], "data": averaged["data"]},
         ax=ax,
         measure=measure,
         scale=scale,
-- 
2.43.0


From a30389d140b5c29f6a807c2131a548cb7dd6d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 84/97] fix: rate decomposition plot of fewer than 50 rates

---
 .../dynamics/incoherent_propagation/plot.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/incoherent_propagation/plot.py b/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
index 5310aec..3105a5b 100644
--- a/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
+++ b/surface_potential_analysis/dynamics/incoherent_propagation/plot.py
@@ -46,6 +46,6 @@ def plot_rate_decomposition_against_temperature(
     sorted_rates = np.take_along_axis(rate_constants, relevant_rates, axis=-1)[:, ::-1]
 
     coefficients = np.abs([rate.coefficients for rate in rates])
-    for i in range(50):
+    for i in range(min(50, sorted_rates.shape[1])):
         ax.plot(temperatures, sorted_rates[:, i])  # type: ignore lib
     return fig, ax
-- 
2.43.0


From f2aa734b23da064a9b2a74ba176704d0591d0905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 85/97] fix: momentum points in a plane are taken from that
 plane

---
 surface_potential_analysis/stacked_basis/plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/stacked_basis/plot.py b/surface_potential_analysis/stacked_basis/plot.py
index 0443cc5..6b83495 100644
--- a/surface_potential_analysis/stacked_basis/plot.py
+++ b/surface_potential_analysis/stacked_basis/plot.py
@@ -150,9 +150,9 @@ def plot_fundamental_k_in_plane_projected_2d(
     tuple[Figure, Axes, Line2D]
     """
     util = BasisUtil(basis)
-    points = util.fundamental_stacked_k_points.reshape(3, *util.fundamental_shape)[
-        slice_ignoring_axes(idx, axes)
-    ].reshape(3, -1)
+    points = util.fundamental_stacked_k_points.reshape(
+        basis.ndim, *util.fundamental_shape
+    )[slice_ignoring_axes(idx, (0, *[1 + ax for ax in axes]))].reshape(basis.ndim, -1)
     return plot_k_points_projected_2d(basis, axes, points, ax=ax)
 
 
-- 
2.43.0


From 43396438f7e141b74616b94fedd4a4374f3cb622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 86/97] fix: points at an index are drawn at their positions

---
 surface_potential_analysis/stacked_basis/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/stacked_basis/plot.py b/surface_potential_analysis/stacked_basis/plot.py
index 6b83495..a22713f 100644
--- a/surface_potential_analysis/stacked_basis/plot.py
+++ b/surface_potential_analysis/stacked_basis/plot.py
@@ -256,7 +256,7 @@ def plot_fundamental_x_at_index_projected_2d(
     util = BasisUtil(basis)
     idx = idx if isinstance(idx, tuple) else util.get_stacked_index(idx)
     points = (
-        np.array(util.fundamental_stacked_nx_points, dtype=np.float64)
+        np.array(util.fundamental_x_points_stacked)
         .reshape(util.ndim, *util.fundamental_shape)[:, *idx]
         .reshape(util.ndim, -1)
     )
-- 
2.43.0


From 15d64949269de85e6c516ceb8702c0d0ee284708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 87/97] fix: overlap plots along a path index the grid of the
 overlap

---
 surface_potential_analysis/overlap/plot.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/overlap/plot.py b/surface_potential_analysis/overlap/plot.py
index eabbf60..db4c029 100644
--- a/surface_potential_analysis/overlap/plot.py
+++ b/surface_potential_analysis/overlap/plot.py
@@ -172,7 +172,7 @@ def plot_overlap_along_path_k(
     fig, ax = get_figure(ax)
     converted = convert_overlap_to_momentum_basis(overlap)
 
-    points = converted["data"].reshape(converted["basis"].shape)[*path]
+    points = converted["data"].reshape(converted["basis"][0].shape)[*path]
     data = get_measured_data(points, measure)
     distances = calculate_cumulative_k_distances_along_path(
         converted["basis"][0], path, wrap_distances=wrap_distances
@@ -209,7 +209,7 @@ def plot_overlap_along_k_diagonal(
     tuple[Figure, Axes, Line2D]
     """
     path = np.array(
-        [[i, i, k2_ind] for i in range(overlap["basis"].fundamental_shape[0])]
+        [[i, i, k2_ind] for i in range(overlap["basis"][0].fundamental_shape[0])]
     ).T
 
     return plot_overlap_along_path_k(overlap, path, measure=measure, scale=scale, ax=ax)
@@ -244,7 +244,10 @@ def plot_overlap_along_k0(
     tuple[Figure, Axes, Line2D]
     """
     path = np.array(
-        [[i, k1_ind, k2_ind] for i in range(overlap["basis"].fundamental_shape[0])]
+        [
+            [i, k1_ind, k2_ind]
+            for i in range(overlap["basis"][0].fundamental_shape[0])
+        ]
     ).T
 
     return plot_overlap_along_path_k(overlap, path, measure=measure, scale=scale, ax=ax)
-- 
2.43.0


From 5911f1542945fbcc650e7adc39daee18a4db212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:03 +0000
Subject: [PATCH 88/97] fix: the size of a stacked basis without axes is an
 integer

---
 surface_potential_analysis/basis/stacked_basis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/surface_potential_analysis/basis/stacked_basis.py b/surface_potential_analysis/basis/stacked_basis.py
index f69a114..077d1b7 100644
--- a/surface_potential_analysis/basis/stacked_basis.py
+++ b/surface_potential_analysis/basis/stacked_basis.py
@@ -52,11 +52,11 @@ class StackedBasisLike(BasisLike[_FN0_co, _N0_co], Protocol[_N0_co, _FN0_co, _ND
 
     @property
     def n(self) -> _N0_co:
-        return cast(_N0_co, np.prod(self.shape).item())
+        return cast(_N0_co, np.prod(self.shape, dtype=int).item())
 
     @property
     def fundamental_n(self) -> _FN0_co:
-        return cast(_FN0_co, np.prod(self.fundamental_shape).item())
+        return cast(_FN0_co, np.prod(self.fundamental_shape, dtype=int).item())
 
     @property
     def shape(self) -> tuple[int, ...]:
@@ -81,11 +81,11 @@ class StackedBasisWithVolumeLike(
 
     @property
     def n(self) -> _N0_co:
-        return cast(_N0_co, np.prod(self.shape).item())
+        return cast(_N0_co, np.prod(self.shape, dtype=int).item())
 
     @property
     def fundamental_n(self) -> _FN0_co:
-        return cast(_FN0_co, np.prod(self.fundamental_shape).item())
+        return cast(_FN0_co, np.prod(self.fundamental_shape, dtype=int).item())
 
     @property
     def shape(self) -> tuple[int, ...]:
-- 
2.43.0


From a43c9d5f1e8ac6454770770847b815b9a182aa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:03 +0000
Subject: [PATCH 89/97] fix: title of the average occupation states the number
 of repeats

---
 surface_potential_analysis/dynamics/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/plot.py b/surface_potential_analysis/dynamics/plot.py
index f23a24b..ca9ef8b 100644
--- a/surface_potential_analysis/dynamics/plot.py
+++ b/surface_potential_analysis/dynamics/plot.py
@@ -104,7 +104,7 @@ def plot_average_probability_per_band(
 
     ax.set_title(  # type: ignore lib
         "Plot of occupation of each band against time,\n"
-        f"averaged over {len(probability)} repeats"
+        f"averaged over {probability["basis"][0][0].n} repeats"
     )
     return fig, ax, lines
 
-- 
2.43.0


From 891d2df5eae4ec128181b07fcb15b864f39c4c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:04 +0000
Subject: [PATCH 90/97] fix: a truncated noise sample is drawn from the
 operators that were kept

---
 surface_potential_analysis/kernel/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index 5118cd8..5a69a0d 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -306,12 +306,12 @@ def plot_diagonal_noise_operators_single_sample(  # noqa: PLR0913
     measured_potential = np.zeros(truncated["basis"][1][0].n, dtype=np.complex128)
     for i, factor in enumerate(factors):
         operator = select_diagonal_operator(
-            operators,
+            truncated,
             idx=i,
         )
         measured_potential += (
             factor
-            * np.lib.scimath.sqrt(operators["eigenvalue"][i] * hbar)
+            * np.lib.scimath.sqrt(truncated["eigenvalue"][i] * hbar)
             * operator["data"]
         )
 
-- 
2.43.0


From 6b8612dfc7917cf22db9ce94f403f427478c3acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:04 +0000
Subject: [PATCH 91/97] fix: plot of a noise sample creates its own axes when
 none are given

---
 surface_potential_analysis/kernel/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index 5a69a0d..7dcb408 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -317,6 +317,7 @@ def plot_diagonal_noise_operators_single_sample(  # noqa: PLR0913
 
     measured_potential -= measured_potential[0]
 
+    _, ax = get_figure(ax)
     ax.set_ylabel("Energy /J")  # type: ignore library type
 
     return plot_data_1d_x(
-- 
2.43.0


From 7e886fa89134b6ec91b2433257a1d39c58cdc8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:11 +0000
Subject: [PATCH 92/97] fix: the localized effective mass does not grow with
 the number of bloch phases

---
 surface_potential_analysis/wavepacket/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/plot.py b/surface_potential_analysis/wavepacket/plot.py
index 103be79..fc69a26 100644
--- a/surface_potential_analysis/wavepacket/plot.py
+++ b/surface_potential_analysis/wavepacket/plot.py
@@ -636,10 +636,11 @@ def get_wavepacket_localized_effective_mass(
     free_energy = _get_free_energy(wavefunctions["basis"][1], nx_points, axis)
     # By integrating explicitly we find
     # |E(\Delta x)| = (\Delta x)^{-3}(8\pi N + 4 \pi)
-    # we add an additional np.sqrt(wavepacket["basis"][0][1].n) * delta_x / (2 * np.pi)
-    # to account for the difference in fourier transform definitions
+    # we add an additional delta_x / (2 * np.pi) to account for the
+    # difference in fourier transform definitions, here the energy
+    # between localized states is the average over all bloch phases
     delta_x = np.linalg.norm(wavefunctions["basis"][1].delta_x_stacked[axis])
-    norm = np.sqrt(wavefunctions["basis"][0][1].n) * delta_x / (2 * np.pi)
+    norm = delta_x / (2 * np.pi)
     norm *= hbar**2 / 2
     effective_mass = norm * free_energy / actual_energy
     return {"basis": wavefunctions["basis"][0][0], "data": effective_mass}
-- 
2.43.0


From 8dbdff1160308994e4858bdb0d73c086719c6fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:11 +0000
Subject: [PATCH 93/97] fix: band occupations do not underflow to nan far from
 zero energy

---
 surface_potential_analysis/wavepacket/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surface_potential_analysis/wavepacket/plot.py b/surface_potential_analysis/wavepacket/plot.py
index fc69a26..6ff3a55 100644
--- a/surface_potential_analysis/wavepacket/plot.py
+++ b/surface_potential_analysis/wavepacket/plot.py
@@ -1105,7 +1105,8 @@ def get_wavepacket_band_occupation(
     ValueList[_B0]
     """
     eigenvalues = wavepacket["eigenvalue"].reshape(*wavepacket["basis"][0].shape)
-    occupations = np.exp(-eigenvalues / (temperature * Boltzmann))
+    relative_energies = eigenvalues - np.min(np.real(eigenvalues))
+    occupations = np.exp(-relative_energies / (temperature * Boltzmann))
     occupation_for_band = np.sum(occupations, axis=1) / np.sum(occupations)
     return {"basis": wavepacket["basis"][0][0], "data": occupation_for_band.ravel()}
 
-- 
2.43.0


From 2c23ca29609912f64233490602910e6f6175249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 94/97] fix: the average drift uses the momentum along the
 plotted axis

---
 surface_potential_analysis/state_vector/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/state_vector/plot.py b/surface_potential_analysis/state_vector/plot.py
index 80c0901..900de8e 100644
--- a/surface_potential_analysis/state_vector/plot.py
+++ b/surface_potential_analysis/state_vector/plot.py
@@ -1728,7 +1728,7 @@ def plot_average_drift_1d_x(
     tuple[Figure, Axes, Line2D]
     """
     restored_x = _get_restored_x(states, axes[0])
-    k_points = _get_average_k(states, axis=0)
+    k_points = _get_average_k(states, axes[0])
     drift = get_normalized_average_drift(restored_x, k_points)
 
     return plot_average_value_list_against_time(
-- 
2.43.0


From ee6cba6c139b83db8ca3922ba05f7b2d938677fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 95/97] fix: band locations taken from wavepackets are
 fractions of the unit cell

---
 surface_potential_analysis/dynamics/tunnelling_basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surface_potential_analysis/dynamics/tunnelling_basis.py b/surface_potential_analysis/dynamics/tunnelling_basis.py
index 99f6977..78036f2 100644
--- a/surface_potential_analysis/dynamics/tunnelling_basis.py
+++ b/surface_potential_analysis/dynamics/tunnelling_basis.py
@@ -64,7 +64,7 @@ class TunnellingSimulationBandsBasis(FundamentalBasis[_L0_co]):
         for i, w in enumerate(wavepacket_list_into_iter(wavepackets)):
             idx0, idx1 = get_wavepacket_two_points(w)
             location = np.average([idx0, idx1], axis=0)  # type: ignore lib
-            locations[:, i] = location[0:2]
+            locations[:, i] = location[0:2] / np.array(util.fundamental_shape[0:2])
         return cls(locations, tuple(util.delta_x_stacked[0:2, 0:2]))  # type: ignore[arg-type]
 
 
-- 
2.43.0


From 2d21cb86cdb820d3fc0375e36f0c847639bd817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 96/97] fix: kernel sparsity plot counts the smallest and
 largest values

---
 surface_potential_analysis/kernel/plot.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/surface_potential_analysis/kernel/plot.py b/surface_potential_analysis/kernel/plot.py
index 7dcb408..e0ef5cc 100644
--- a/surface_potential_analysis/kernel/plot.py
+++ b/surface_potential_analysis/kernel/plot.py
@@ -160,9 +160,8 @@ def plot_kernel_sparsity(
     operators = get_periodic_noise_operators_eigenvalue(kernel)
 
     data = get_measured_data(operators["eigenvalue"], measure)
-    bins = np.logspace(
-        np.log10(np.min(data)), np.log10(np.max(data)), 10000, dtype=np.float64
-    )
+    # geomspace includes both endpoints exactly, so no value is left out
+    bins = np.geomspace(np.min(data), np.max(data), 10000, dtype=np.float64)
     values, bins = np.histogram(data, bins=bins)
 
     cumulative = np.cumsum(values)
-- 
2.43.0


From 43c01e1f2e437b017a6b5710d7f63fa48de0ec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 97/97] fix: Bloch basis transform check is relative to the
 size of the vectors

---
 surface_potential_analysis/wavepacket/get_eigenstate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surface_potential_analysis/wavepacket/get_eigenstate.py b/surface_potential_analysis/wavepacket/get_eigenstate.py
index fb2ea6a..7a25295 100644
--- a/surface_potential_analysis/wavepacket/get_eigenstate.py
+++ b/surface_potential_analysis/wavepacket/get_eigenstate.py
@@ -644,7 +644,8 @@ class BlochBasis(
                 ExplicitStackedBasisWithLength(self.vectors).__from_fundamental__(
                     vectors, axis
                 ),
-                atol=1e-10,
+                # relative to the vectors, which may be in any unit
+                atol=1e-10 * max(1.0, np.max(np.abs(vectors)).item()),
             )
 
         return np.apply_along_axis(
@@ -744,7 +745,8 @@ class BlochBasis(
                 ExplicitStackedBasisWithLength(self.vectors).__into_fundamental__(
                     vectors, axis
                 ),
-                atol=1e-10,
+                # relative to the vectors, which may be in any unit
+                atol=1e-10 * max(1.0, np.max(np.abs(vectors)).item()),
             )
 
         return self.vectors_basis[1].__into_fundamental__(
-- 
2.43.0


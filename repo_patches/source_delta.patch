From 1e78a4075ede15413bbdfb5f1b59923b6c1ea286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:51 +0000
Subject: [PATCH 01/14] fix: tangent field of rotated one-dimensional patterns
 must be perpendicular to the gradient

---
 src/fmmax/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 4ca7784..358e74a 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -243,7 +243,7 @@ def _compute_tangent_field_no_batch(
     field = fft.ifft(fourier_field, expansion=expansion, shape=grid_shape, axis=-2)
 
     # Manually set the tangent field in the 1d case.
-    field_1d = jnp.stack([jnp.sin(grad_angle), jnp.cos(grad_angle)])
+    field_1d = jnp.stack([jnp.sin(grad_angle), -jnp.cos(grad_angle)])
     field = jnp.where(is_1d, field_1d, field)
     return normalize(field)
 
-- 
2.43.0


From b76772851993a175b42f6f65a8ba19f1c8bef095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:51 +0000
Subject: [PATCH 02/14] fix: detect and orient one-dimensional patterns with
 complex contrast

---
 src/fmmax/vector.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 358e74a..b0e36b6 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -15,6 +15,10 @@ from fmmax import basis, fft, utils
 # every point differs by less than this value from a reference value, the field is 1D.
 _ATOL_1D_FIELD_ANGLE = 1e-2
 
+# Points where the (normalized) field is smaller than this value are ignored when
+# determining whether a field is 1D.
+_ATOL_1D_FIELD_MAGNITUDE = 1e-5
+
 
 def compute_field_jones_direct(
     arr: jnp.ndarray,
@@ -336,16 +340,19 @@ def _is_1d_field(field: jnp.ndarray) -> Tuple[jnp.ndarray, jnp.ndarray]:
     """Determine whether the field varies in one direction only."""
     ref_field = _field_at_max_magnitude(field)
     assert ref_field.shape == (2,)
-    ref_angle = _angle(ref_field[0] + 1j * ref_field[1])
-    angle = _angle(field[..., 0] + 1j * field[..., 1])
+    # Where a field varies along one direction only, it is everywhere the product of
+    # a real unit vector and a (generally complex) scalar. Remove the phase of the
+    # scalar at the reference location to find the unit vector.
+    ref_phase = _angle(ref_field[0] ** 2 + ref_field[1] ** 2 + 0.0j) / 2
+    ref_vector = jnp.real(ref_field * jnp.exp(-1j * ref_phase))
+    ref_angle = _angle(ref_vector[0] + 1j * ref_vector[1])
     magnitude = jnp.squeeze(_field_magnitude(field), axis=-1)
+    perpendicular = jnp.abs(
+        field[..., 1] * jnp.cos(ref_angle) - field[..., 0] * jnp.sin(ref_angle)
+    )
     is_1d = jnp.all(
-        jnp.isclose(magnitude, 0.0)
-        | jnp.isclose(angle, ref_angle - 2 * jnp.pi, atol=_ATOL_1D_FIELD_ANGLE)
-        | jnp.isclose(angle, ref_angle - 1 * jnp.pi, atol=_ATOL_1D_FIELD_ANGLE)
-        | jnp.isclose(angle, ref_angle, atol=_ATOL_1D_FIELD_ANGLE)
-        | jnp.isclose(angle, ref_angle + 1 * jnp.pi, atol=_ATOL_1D_FIELD_ANGLE)
-        | jnp.isclose(angle, ref_angle + 2 * jnp.pi, atol=_ATOL_1D_FIELD_ANGLE)
+        (magnitude <= _ATOL_1D_FIELD_MAGNITUDE)
+        | (perpendicular <= _ATOL_1D_FIELD_ANGLE * magnitude)
     )
     # If one of the spatial dimensions is a singleton, the field is automatically 1D.
     assert field.ndim == 3
-- 
2.43.0


From cd04960843fc4e624985fecf3aad0a42db250787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:51 +0000
Subject: [PATCH 03/14] fix: make the tangent field loss twice differentiable
 at zero (avoids nan fields)

---
 src/fmmax/vector.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index b0e36b6..4ee461f 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -463,7 +463,7 @@ def _alignment_loss(
     """Compute loss that penalizes differences between `field` and `target_field`."""
     assert elementwise_alignment_loss_weight.ndim == field.ndim
     elementwise_loss = jnp.sum(
-        jnp.abs(field - target_field) ** 2, axis=-1, keepdims=True
+        _abs_squared(field - target_field), axis=-1, keepdims=True
     )
     return jnp.mean(elementwise_alignment_loss_weight * elementwise_loss)
 
@@ -500,7 +500,7 @@ def _fourier_loss(
     area = jnp.abs(jnp.linalg.det(basis_vectors))
 
     kt = jnp.linalg.norm(transverse_wavevectors, axis=-1) * jnp.sqrt(area)
-    return jnp.sum(jnp.abs(fourier_field) ** 2 * kt[..., jnp.newaxis] ** 2)
+    return jnp.sum(_abs_squared(fourier_field) * kt[..., jnp.newaxis] ** 2)
 
 
 def _smoothness_loss(
@@ -508,7 +508,12 @@ def _smoothness_loss(
 ) -> jnp.ndarray:
     """Compute loss associated with smoothness of `field`."""
     grads = _vector_field_forward_difference_gradient(field, basis_vectors)
-    return jnp.mean(jnp.abs(jnp.asarray(grads)) ** 2)
+    return jnp.mean(_abs_squared(jnp.asarray(grads)))
+
+
+def _abs_squared(x: jnp.ndarray) -> jnp.ndarray:
+    """Compute `abs(x)**2` in a manner that is twice differentiable where `x` is zero."""
+    return jnp.real(x * jnp.conj(x))
 
 
 # -------------------------------------------------------------------------------------
-- 
2.43.0


From cc509457f1a8c8ac3b9bf364adba9499fcfc067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:23 +0000
Subject: [PATCH 04/14] fix: support batched lattice vectors in reciprocal
 vectors, wavevectors, uniform eigensolves and tangent fields

---
 src/fmmax/basis.py  | 21 +++++++++++++++------
 src/fmmax/fmm.py    | 12 ++++++++++--
 src/fmmax/vector.py | 22 +++++++++++-----------
 3 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 882a636..097f4df 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -118,6 +118,7 @@ def generate_expansion(
 def reciprocal(lattice_vectors: LatticeVectors) -> LatticeVectors:
     """Computes the reciprocal vectors for the `basis`."""
     cross_product = _cross_product(lattice_vectors.u, lattice_vectors.v)
+    cross_product = cross_product[..., jnp.newaxis]
     uprime = (
         jnp.stack([lattice_vectors.v[..., 1], -lattice_vectors.v[..., 0]], axis=-1)
         / cross_product
@@ -228,10 +229,16 @@ def brillouin_zone_in_plane_wavevector(
         [
             2
             * jnp.pi
-            * (i * reciprocal_vectors.u[..., 0] + j * reciprocal_vectors.v[..., 0]),
+            * (
+                i * reciprocal_vectors.u[..., jnp.newaxis, jnp.newaxis, 0]
+                + j * reciprocal_vectors.v[..., jnp.newaxis, jnp.newaxis, 0]
+            ),
             2
             * jnp.pi
-            * (i * reciprocal_vectors.u[..., 1] + j * reciprocal_vectors.v[..., 1]),
+            * (
+                i * reciprocal_vectors.u[..., jnp.newaxis, jnp.newaxis, 1]
+                + j * reciprocal_vectors.v[..., jnp.newaxis, jnp.newaxis, 1]
+            ),
         ],
         axis=-1,
     )
@@ -254,12 +261,14 @@ def transverse_wavevectors(
     """
     reciprocal_vectors = primitive_lattice_vectors.reciprocal
     kx = in_plane_wavevector[..., 0, jnp.newaxis] + 2 * jnp.pi * (
-        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 0]
-        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 0]
+        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 0, jnp.newaxis]
+        + expansion.basis_coefficients[:, 1]
+        * reciprocal_vectors.v[..., 0, jnp.newaxis]
     )
     ky = in_plane_wavevector[..., 1, jnp.newaxis] + 2 * jnp.pi * (
-        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 1]
-        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 1]
+        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 1, jnp.newaxis]
+        + expansion.basis_coefficients[:, 1]
+        * reciprocal_vectors.v[..., 1, jnp.newaxis]
     )
     return jnp.stack([kx, ky], axis=-1)
 
diff --git a/src/fmmax/fmm.py b/src/fmmax/fmm.py
index e0e248c..2bc6245 100644
--- a/src/fmmax/fmm.py
+++ b/src/fmmax/fmm.py
@@ -412,7 +412,11 @@ def _eigensolve_uniform_isotropic_media(
         )
 
     batch_shape = jnp.broadcast_shapes(
-        wavelength.shape, in_plane_wavevector.shape[:-1], permittivity.shape[:-2]
+        wavelength.shape,
+        in_plane_wavevector.shape[:-1],
+        primitive_lattice_vectors.u.shape[:-1],
+        primitive_lattice_vectors.v.shape[:-1],
+        permittivity.shape[:-2],
     )
 
     num_eigenvalues = 2 * expansion.num_terms
@@ -607,7 +611,11 @@ def _eigensolve_uniform_general_anisotropic_media(
     )
 
     batch_shape = jnp.broadcast_shapes(
-        wavelength.shape, in_plane_wavevector.shape[:-1], permittivity_xx.shape[:-2]
+        wavelength.shape,
+        in_plane_wavevector.shape[:-1],
+        primitive_lattice_vectors.u.shape[:-1],
+        primitive_lattice_vectors.v.shape[:-1],
+        permittivity_xx.shape[:-2],
     )
     shape = batch_shape + (expansion.num_terms,)
 
diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 4ee461f..f5b2d13 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -9,7 +9,7 @@ from typing import Callable, Dict, List, Tuple
 import jax
 import jax.numpy as jnp
 
-from fmmax import basis, fft, utils
+from fmmax import basis, fft
 
 # Absolute tolerance for detecting whether a field is 1D. If the angle of the field at
 # every point differs by less than this value from a reference value, the field is 1D.
@@ -151,19 +151,19 @@ def compute_tangent_field(
         The normal field, `(tx, ty)`.
     """
     arr = jax.lax.stop_gradient(arr)
-    batch_shape = arr.shape[:-2]
-    arr = utils.atleast_nd(arr, n=3)
+    batch_shape = jnp.broadcast_shapes(
+        arr.shape[:-2],
+        primitive_lattice_vectors.u.shape[:-1],
+        primitive_lattice_vectors.v.shape[:-1],
+    )
+    arr = jnp.broadcast_to(arr, batch_shape + arr.shape[-2:])
     arr = arr.reshape((-1,) + arr.shape[-2:])
 
+    u = jnp.broadcast_to(primitive_lattice_vectors.u, batch_shape + (2,))
+    v = jnp.broadcast_to(primitive_lattice_vectors.v, batch_shape + (2,))
     primitive_lattice_vectors = basis.LatticeVectors(
-        u=jnp.broadcast_to(
-            primitive_lattice_vectors.u.reshape((-1, 2)),
-            (arr.shape[0], 2),
-        ),
-        v=jnp.broadcast_to(
-            primitive_lattice_vectors.v.reshape((-1, 2)),
-            (arr.shape[0], 2),
-        ),
+        u=u.reshape((-1, 2)),
+        v=v.reshape((-1, 2)),
     )
 
     field_fn = jax.vmap(
-- 
2.43.0


From 668c54950d3cda7c670814e7711b1a10d7aea10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:30 +0000
Subject: [PATCH 05/14] fix: complete and symmetric circular expansions for
 elongated and skewed lattices

---
 src/fmmax/basis.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 097f4df..14b226d 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -299,10 +299,23 @@ def _basis_coefficients_circular(
         The coefficients, with shape `(num_vectors, 2)`. The final axis gives the
         coefficient for the first and second vector in the basis.
     """
+    # Include all vectors lying within the circle with area equal to cross product
+    # of `u` and `v` scaled by `num_terms`.
+    cross_product = onp.abs(
+        _cross_product(primitive_lattice_vectors.u, primitive_lattice_vectors.v)
+    )
+    max_magnitude = onp.sqrt(approximate_num_terms * cross_product / onp.pi)
+
     # Generate candidate coefficients. These will include more coefficients than needed;
-    # subsequently we will filter based on magnitude.
-    g = onp.arange(-approximate_num_terms // 2, approximate_num_terms // 2 + 1)
-    G1, G2 = onp.meshgrid(g, g, indexing="ij")
+    # subsequently we will filter based on magnitude. The candidates are those within
+    # the parallelogram aligned with `u` and `v` which encloses the circle.
+    n1 = max_magnitude * onp.linalg.norm(primitive_lattice_vectors.v) / cross_product
+    n2 = max_magnitude * onp.linalg.norm(primitive_lattice_vectors.u) / cross_product
+    G1, G2 = onp.meshgrid(
+        onp.arange(-int(n1) - 1, int(n1) + 2),
+        onp.arange(-int(n2) - 1, int(n2) + 2),
+        indexing="ij",
+    )
     G1 = G1.flatten()
     G2 = G2.flatten()
 
@@ -313,15 +326,6 @@ def _basis_coefficients_circular(
     )
     magnitude = onp.linalg.norm(vectors, axis=-1)
 
-    # Include all vectors lying within the circle with area equal to cross product
-    # of `u` and `v` scaled by `num_terms`.
-    max_magnitude = onp.sqrt(
-        approximate_num_terms
-        * onp.abs(
-            _cross_product(primitive_lattice_vectors.u, primitive_lattice_vectors.v)
-        )
-        / onp.pi
-    )
     mask = magnitude < max_magnitude
 
     G1 = G1[mask]
-- 
2.43.0


From b680ed80621600431ae8463efffa6a3467d5f07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:30 +0000
Subject: [PATCH 06/14] fix: reject Brillouin grid shapes having any
 non-positive element

---
 src/fmmax/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 14b226d..12de8b5 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -211,7 +211,7 @@ def brillouin_zone_in_plane_wavevector(
     Returns:
         The in-plane wavevectors, with shape `brillouin_grid_shape + (2,)`.
     """
-    if len(brillouin_grid_shape) != 2 or brillouin_grid_shape < (1, 1):
+    if len(brillouin_grid_shape) != 2 or min(brillouin_grid_shape) < 1:
         raise ValueError(
             f"`brillouin_grid_shape` must be length-2 with positive values, "
             f"but got {brillouin_grid_shape}."
-- 
2.43.0


From b9b511dca8f33dc2a9fe54c69e08089f4ab20ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:30 +0000
Subject: [PATCH 07/14] fix: interpolate_permittivity for real-valued negative
 permittivity

---
 src/fmmax/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fmmax/utils.py b/src/fmmax/utils.py
index 9fd973b..5a08c9b 100644
--- a/src/fmmax/utils.py
+++ b/src/fmmax/utils.py
@@ -94,10 +94,14 @@ def interpolate_permittivity(
     Returns:
         The interpolated permittivity.
     """
-    n_solid = jnp.real(jnp.sqrt(permittivity_solid))
-    k_solid = jnp.imag(jnp.sqrt(permittivity_solid))
-    n_void = jnp.real(jnp.sqrt(permittivity_void))
-    k_void = jnp.imag(jnp.sqrt(permittivity_void))
+    # Ensure the permittivity is complex, since the square root of a real-valued
+    # negative permittivity is `nan`.
+    sqrt_solid = jnp.sqrt(jnp.asarray(permittivity_solid) + 0.0j)
+    sqrt_void = jnp.sqrt(jnp.asarray(permittivity_void) + 0.0j)
+    n_solid = jnp.real(sqrt_solid)
+    k_solid = jnp.imag(sqrt_solid)
+    n_void = jnp.real(sqrt_void)
+    k_void = jnp.imag(sqrt_void)
     n = density * n_solid + (1 - density) * n_void
     k = density * k_solid + (1 - density) * k_void
     return (n + 1j * k) ** 2
-- 
2.43.0


From 0c359f173f53d4b93d3d48e8d3dd5ed40aeba2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:30 +0000
Subject: [PATCH 08/14] fix: avoid singular rotations in anisotropic solves
 where the tangent field vanishes

---
 src/fmmax/fmm_matrices.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fmmax/fmm_matrices.py b/src/fmmax/fmm_matrices.py
index a022c50..e89cc2a 100644
--- a/src/fmmax/fmm_matrices.py
+++ b/src/fmmax/fmm_matrices.py
@@ -253,6 +253,8 @@ def transverse_permittivity_vector_anisotropic(
     """
     _transform = functools.partial(fft.fourier_convolution_matrix, expansion=expansion)
 
+    tx, ty = _nonzero_tangent_field(tx, ty)
+
     # Define the real-space and Fourier transformed rotation matrices. The rotation
     # matrix is defined such that T [Et, En]^T = [-Ey, Ex].
     (
@@ -344,6 +346,8 @@ def transverse_permeability_vector_anisotropic(
     """
     _transform = functools.partial(fft.fourier_convolution_matrix, expansion=expansion)
 
+    tx, ty = _nonzero_tangent_field(tx, ty)
+
     # Define the real-space and Fourier transformed rotation matrices. The rotation
     # matrix is defined such that T [Ht, Hn]^T = [Hx, Hy], and differs from that
     # used for the transverse permittivity calculation.
@@ -405,6 +409,15 @@ def transverse_permeability_vector_anisotropic(
     )
 
 
+def _nonzero_tangent_field(
+    tx: jnp.ndarray,
+    ty: jnp.ndarray,
+) -> Tuple[jnp.ndarray, jnp.ndarray]:
+    """Replaces `(tx, ty)` by an arbitrary unit vector where the field vanishes."""
+    is_zero = jnp.isclose(jnp.abs(tx) ** 2 + jnp.abs(ty) ** 2, 0)
+    return jnp.where(is_zero, 0.0, tx), jnp.where(is_zero, 1.0, ty)
+
+
 def _rotation_matrices(
     t00: jnp.ndarray,
     t01: jnp.ndarray,
-- 
2.43.0


From bfe3587ba0d04cc22ea8e197cb1b866d6273ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:30 +0000
Subject: [PATCH 09/14] fix: stack_s_matrix_scan for solve results with
 singleton leading dimensions

---
 src/fmmax/scattering.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fmmax/scattering.py b/src/fmmax/scattering.py
index 74be383..d7c8ed6 100644
--- a/src/fmmax/scattering.py
+++ b/src/fmmax/scattering.py
@@ -241,6 +241,14 @@ def stack_s_matrix_scan(
             f"{layer_solve_results.batch_shape[0]} and {layer_thicknesses.shape[0]}."
         )
 
+    # Some attributes may have a singleton leading dimension, e.g. the wavelength when
+    # it is shared by all the layers.
+    num_layers = len(layer_thicknesses)
+    layer_solve_results = tree_util.tree_map(
+        lambda x: jnp.broadcast_to(x, (num_layers,) + x.shape[1:]),
+        layer_solve_results,
+    )
+
     eye = utils.diag(
         jnp.ones(
             layer_solve_results.eigenvalues.shape[1:],
-- 
2.43.0


From 5c59aea0313e2a25c3a3739c0773608b22904397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:30 +0000
Subject: [PATCH 10/14] fix: honor force_x64_solve for the interface in
 redheffer_star_product

---
 src/fmmax/scattering.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fmmax/scattering.py b/src/fmmax/scattering.py
index d7c8ed6..f9a840e 100644
--- a/src/fmmax/scattering.py
+++ b/src/fmmax/scattering.py
@@ -294,7 +294,12 @@ def redheffer_star_product(
     force_x64_solve: bool = False,
 ) -> ScatteringMatrix:
     """Compute the Redheffer star product of two scattering matrices."""
-    a_extended = append_layer(a, b.start_layer_solve_result, b.start_layer_thickness)
+    a_extended = append_layer(
+        a,
+        b.start_layer_solve_result,
+        b.start_layer_thickness,
+        force_x64_solve=force_x64_solve,
+    )
     a11, a12, a21, a22 = a_extended.s11, a_extended.s12, a_extended.s21, a_extended.s22
     b11, b12, b21, b22 = b.s11, b.s12, b.s21, b.s22
 
-- 
2.43.0


From 0f4978a24342f31696c126d0cc9ab9a3c6c5d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:30 +0000
Subject: [PATCH 11/14] fix: Fourier transform along non-adjacent or reversed
 axes

---
 src/fmmax/fft.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fmmax/fft.py b/src/fmmax/fft.py
index eebac1b..719c02c 100644
--- a/src/fmmax/fft.py
+++ b/src/fmmax/fft.py
@@ -67,6 +67,7 @@ def fft(
         x: The array to be transformed.
         expansion: The field expansion to be used.
         axes: The axes to be transformed, with default being `(-2, -1)`, the final axes.
+            The first of these is replaced by the axis for the Fourier coefficients.
 
     Returns:
         The transformed `x`.
@@ -76,14 +77,13 @@ def fft(
 
     x_fft = jnp.fft.fft2(x, axes=axes, norm="forward")
 
-    leading_dims = len(x.shape[: axes[0]])
-    trailing_dims = len(x.shape[axes[1] + 1 :])
-    slices = (
-        [slice(None)] * leading_dims
-        + [expansion.basis_coefficients[:, 0], expansion.basis_coefficients[:, 1]]
-        + [slice(None)] * trailing_dims
-    )
-    return x_fft[tuple(slices)]
+    # Axes need not be adjacent. The Fourier coefficients axis is in the location of
+    # the first of the transformed axes.
+    x_fft = jnp.moveaxis(x_fft, axes, (-2, -1))
+    y = x_fft[
+        ..., expansion.basis_coefficients[:, 0], expansion.basis_coefficients[:, 1]
+    ]
+    return jnp.moveaxis(y, -1, min(axes))
 
 
 def ifft(
-- 
2.43.0


From 4d8965a399b7cc9c1b0098c0ea7511882d2f31b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:48 +0000
Subject: [PATCH 12/14] fix: reject in-plane wavevectors without two components
 in transverse_wavevectors

---
 src/fmmax/basis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 12de8b5..6f455a0 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -259,6 +259,12 @@ def transverse_wavevectors(
     Returns:
         The transverse wavevectors.
     """
+    if in_plane_wavevector.shape[-1] != 2:
+        raise ValueError(
+            f"`in_plane_wavevector` must have a trailing axis size of 2, but got "
+            f"shape {in_plane_wavevector.shape}"
+        )
+
     reciprocal_vectors = primitive_lattice_vectors.reciprocal
     kx = in_plane_wavevector[..., 0, jnp.newaxis] + 2 * jnp.pi * (
         expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 0, jnp.newaxis]
-- 
2.43.0


From 52ea3aae811b240143261eff7f66d66dfbef8824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:48 +0000
Subject: [PATCH 13/14] fix: validate the size of every amplitude, also in
 directional_poynting_flux

---
 src/fmmax/fields.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fmmax/fields.py b/src/fmmax/fields.py
index a59db09..c9c8691 100644
--- a/src/fmmax/fields.py
+++ b/src/fmmax/fields.py
@@ -87,10 +87,8 @@ def _validate_amplitudes_shape(
     amplitudes: Tuple[jnp.ndarray, ...], num_terms: int
 ) -> None:
     """Validates the shapes for the `amplitudes`."""
-    if (
-        amplitudes[0].ndim < 2
-        or amplitudes[0].shape[-2] != num_terms
-        or not utils.batch_compatible_shapes(*[a.shape for a in amplitudes])
+    if any([a.ndim < 2 or a.shape[-2] != num_terms for a in amplitudes]) or (
+        not utils.batch_compatible_shapes(*[a.shape for a in amplitudes])
     ):
         raise ValueError(
             f"All amplitudes must have matching shape `(..., {num_terms}, "
@@ -184,6 +182,11 @@ def directional_poynting_flux(
     Returns:
         The Poynting flux associated with the forward and backward eigenmodes.
     """
+    _validate_amplitudes_shape(
+        (forward_amplitude, backward_amplitude),
+        num_terms=2 * layer_solve_result.expansion.num_terms,
+    )
+
     eigenmode_flux = eigenmode_poynting_flux(layer_solve_result)
     fwd_flux_eigenmode = eigenmode_flux > 0
     fwd_flux_eigenmode = fwd_flux_eigenmode[..., jnp.newaxis]
-- 
2.43.0


From 4707c5748234d3123f15e69aa8f0b214dacaccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:55 +0000
Subject: [PATCH 14/14] fix: broadcast batch axes in matrix solves for layers
 and amplitudes with different batch dimensions

---
 src/fmmax/fields.py     |  2 +-
 src/fmmax/scattering.py |  2 +-
 src/fmmax/sources.py    |  4 ++--
 src/fmmax/utils.py      | 16 ++++++++++++++++
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/fmmax/fields.py b/src/fmmax/fields.py
index c9c8691..9d2d4ef 100644
--- a/src/fmmax/fields.py
+++ b/src/fmmax/fields.py
@@ -686,7 +686,7 @@ def amplitudes_interior(
         + s_matrix_before.s12 @ s_matrix_after.s22 @ backward_amplitude_N_end
     )
     forward_mat = jnp.eye(num) - s_matrix_before.s12 @ s_matrix_after.s21
-    forward_amplitude_i_start = jnp.linalg.solve(forward_mat, forward_rhs)
+    forward_amplitude_i_start = utils.matrix_solve(forward_mat, forward_rhs)
 
     # The interior backward-going wave amplitude can now be directly computed.
     backward_amplitude_i_end = (
diff --git a/src/fmmax/scattering.py b/src/fmmax/scattering.py
index f9a840e..764c938 100644
--- a/src/fmmax/scattering.py
+++ b/src/fmmax/scattering.py
@@ -611,4 +611,4 @@ def solve(a: jnp.ndarray, b: jnp.ndarray, *, force_x64_solve: bool) -> jnp.ndarr
     if force_x64_solve and jax.config.read("jax_enable_x64"):
         a = a.astype(jnp.promote_types(a.dtype, jnp.float64))
         b = b.astype(jnp.promote_types(b.dtype, jnp.float64))
-    return jnp.linalg.solve(a, b).astype(output_dtype)
+    return utils.matrix_solve(a, b).astype(output_dtype)
diff --git a/src/fmmax/sources.py b/src/fmmax/sources.py
index 117c5c9..e6a63bb 100644
--- a/src/fmmax/sources.py
+++ b/src/fmmax/sources.py
@@ -113,7 +113,7 @@ def amplitudes_for_fields(
 
     stacked_fields = jnp.concatenate([-ey, ex, hx, hy], axis=-2)
     matrix = fields.field_conversion_matrix(layer_solve_result)
-    amplitudes = jnp.linalg.solve(matrix, stacked_fields)
+    amplitudes = utils.matrix_solve(matrix, stacked_fields)
 
     fwd_amplitude, bwd_amplitude = jnp.split(amplitudes, indices_or_sections=2, axis=-2)
     return fwd_amplitude, bwd_amplitude
@@ -288,7 +288,7 @@ def amplitudes_for_source(
 
     # The matrix solve directly yields the forward-going wave amplitudes after the
     # source, and the backward-going wave amplitudes before the source.
-    ab = jnp.linalg.solve(matrix, pol)
+    ab = utils.matrix_solve(matrix, pol)
     fwd_amplitude_after_start, bwd_amplitude_before_end = jnp.split(ab, 2, axis=-2)
 
     # Other wave amplitudes are computed from the scattering matrices.
diff --git a/src/fmmax/utils.py b/src/fmmax/utils.py
index 5a08c9b..ed73349 100644
--- a/src/fmmax/utils.py
+++ b/src/fmmax/utils.py
@@ -60,6 +60,22 @@ def atleast_nd(x: jnp.ndarray, n: int) -> jnp.ndarray:
     return jnp.expand_dims(x, axis=dims_to_add)
 
 
+def matrix_solve(a: jnp.ndarray, b: jnp.ndarray) -> jnp.ndarray:
+    """Solves `A @ x = b` for matrices, with broadcasting of the leading batch axes.
+
+    Unlike `jnp.linalg.solve`, a matrix `b` having fewer dimensions than `a` is never
+    interpreted as a batch of vectors.
+
+    Args:
+        a: The coefficient matrix, with shape `(..., n, n)`.
+        b: The right hand side matrix, with shape `(..., n, m)`.
+
+    Returns:
+        The solution, with shape `(..., n, m)`.
+    """
+    return jnp.linalg.solve(a, atleast_nd(b, n=a.ndim))
+
+
 def absolute_axes(axes: Tuple[int, ...], ndim: int) -> Tuple[int, ...]:
     """Returns the absolute axes for given relative axes and number of array dimensions."""
     if not all(a in list(range(-ndim, ndim)) for a in axes):
-- 
2.43.0


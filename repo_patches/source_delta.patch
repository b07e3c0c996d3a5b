From b552ad94ef70ab420ad0c38fa8281f1ac04c68e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 01/76] fix: DirectProductCurl detects a leading 2D component
 by its tensor dimension

Comparing the split component operands' .dim (the distributor dimension, not that of the
component) raised AttributeError / picked the wrong branch for curls over DirectProduct(polar, z).
---
 dedalus/core/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 4547146..1d721ed 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3764,7 +3764,7 @@ class DirectProductCurl(Curl):
             az = 0
             uz, uh = comps
             cz, ch = coordsys.coordsystems
-        elif comps[0].dim == 2 and comps[1].dim == 1:
+        elif comps[0].tensorsig[index].dim == 2 and comps[1].tensorsig[index].dim == 1:
             az = 2
             uh, uz = comps
             ch, cz = coordsys.coordsystems
-- 
2.43.0


From 21e79275a8f829c781cbdb358275b7385a5e46e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:58 +0000
Subject: [PATCH 02/76] fix: split non-contiguous group elements into separate
 slices

Layout.local_groupset_slices took the bounding box of a group's elements along coupled axes.
With SphereBasis sizes where the folded triangular truncation leaves a gap in m at one colatitude
column (Ntheta > Nphi/2 with even Lmax) that box included elements of other ells, so ball and
shell transforms and operators acted on them with the wrong ell.
---
 dedalus/core/distributor.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index c4cc766..c1945e3 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -480,17 +480,17 @@ class Layout:
         for s in itertools.product(*slices):
             sliced_selections = selections[tuple(s)]
             if np.any(sliced_selections): # some elements match group
-                # assume selected groups are cartesian product, find left and right bounds
-                lefts = list(map(np.min, np.where(sliced_selections)))
-                rights = list(map(np.max, np.where(sliced_selections)))
-                # build multidimensional group slice
-                group_slice = []
-                for i in range(dim):
+                # assume selected groups are cartesian product, find bounds of each contiguous run along coupled axes
+                group_runs = []
+                for i, selected in enumerate(np.where(sliced_selections)):
                     if s[i] != slice(None):
-                        group_slice.append(s[i])
+                        group_runs.append([s[i]])
                     else:
-                        group_slice.append(slice(lefts[i], rights[i]+1))
-                group_slices.append(tuple(group_slice))
+                        selected = np.unique(selected)
+                        runs = np.split(selected, np.where(np.diff(selected) > 1)[0] + 1)
+                        group_runs.append([slice(run[0], run[-1]+1) for run in runs])
+                # build multidimensional group slices
+                group_slices.extend(itertools.product(*group_runs))
         return group_slices
 
     def slices(self, domain, scales):
-- 
2.43.0


From 75693ec52bf51b94d2778d6af2946ab8e76c02e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 03/76] fix: Cartesian and direct-product components select
 along the requested index

Indexing with None inserted a new axis instead of skipping the leading tensor axes, so components
(and divergences/traces built from them) along index > 0 returned wrong data.
---
 dedalus/core/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 1d721ed..216b9fb 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3354,7 +3354,7 @@ class CartesianComponent(CartCompBase):
         # Set output layout
         out.preset_layout(arg0.layout)
         # Copy specified comonent
-        take_comp = tuple([None] * self.index + [self.coord_subaxis])
+        take_comp = tuple([slice(None)] * self.index + [self.coord_subaxis])
         out.data[:] = arg0.data[take_comp]
 
 
@@ -3378,7 +3378,7 @@ class DirectProductComponent(CartCompBase):
         self.dtype = operand.dtype
         # Slicing for component
         comp_slice = slice(self.comp_subaxis, self.comp_subaxis+comp.dim)
-        self.comp_slices = tuple([None]*index + [comp_slice])
+        self.comp_slices = tuple([slice(None)]*index + [comp_slice])
 
     def check_conditions(self):
         """Check that operands are in a proper layout."""
-- 
2.43.0


From b456f15ba9e51656a9386cff599120f1b6fe14d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 04/76] fix: zero all unused modes in the half-complex FFT with
 Kmax = 0

The slice [Kmax+1:-Kmax] is empty for Kmax = 0, leaving uninitialised data in the plan's
temporary for grids or coefficient sizes that only hold the mean.
---
 dedalus/core/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index 00758fb..28a185c 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -610,7 +610,7 @@ class FFTWHalfComplexFFT(FFTWBase, RealFourierTransform):
         np.multiply(cdata_posfreq_cos, (1 / 2), temp_posfreq_cos)
         np.multiply(cdata_posfreq_msin, (1 / 2), temp_posfreq_msin)
         # Zero k > Kmax data
-        temp[axslice(axis, Kmax+1, -Kmax)] = 0
+        temp[axslice(axis, Kmax+1, self.N-Kmax)] = 0
 
     def forward(self, gdata, cdata, axis):
         """Apply forward transform along specified axis."""
-- 
2.43.0


From b444193c2f30a413703c87fef7f5992f76b98c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 05/76] fix: zero unused modes in fast cosine transforms with
 Kmax = 0

With a single grid point or a single coefficient the padding was not cleared, so the output kept
earlier buffer contents (forward) or uninitialised memory (backward).
---
 dedalus/core/transforms.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index 28a185c..e377c78 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -730,9 +730,9 @@ class FastCosineTransform(CosineTransform):
         if Kmax > 0:
             posfreq = axslice(axis, 1, Kmax+1)
             np.multiply(data_in[posfreq], self.forward_rescale_pos, data_out[posfreq])
-            if self.KM > Kmax:
-                badfreq = axslice(axis, Kmax+1, None)
-                data_out[badfreq] = 0
+        if self.KM > Kmax:
+            badfreq = axslice(axis, Kmax+1, None)
+            data_out[badfreq] = 0
 
     def resize_rescale_backward(self, data_in, data_out, axis, Kmax):
         """Resize by padding/trunction and rescale to unit amplitude."""
@@ -741,9 +741,9 @@ class FastCosineTransform(CosineTransform):
         if Kmax > 0:
             posfreq = axslice(axis, 1, Kmax+1)
             np.multiply(data_in[posfreq], self.backward_rescale_pos, data_out[posfreq])
-            if self.KN > Kmax:
-                badfreq = axslice(axis, Kmax+1, None)
-                data_out[badfreq] = 0
+        if self.KN > Kmax:
+            badfreq = axslice(axis, Kmax+1, None)
+            data_out[badfreq] = 0
 
 
 #@register_transform(basis.Cosine, 'scipy')
-- 
2.43.0


From e5810aece60e4bc9e07a5d201835d5fb843207a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 06/76] fix: drop all colatitude modes with m above the grid's
 resolution

With fewer colatitude points than |m| the truncation index was negative and wrapped around, so
unresolvable modes leaked into the coefficients and grid values.
---
 dedalus/core/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/transforms.py b/dedalus/core/transforms.py
index e377c78..7de66d8 100644
--- a/dedalus/core/transforms.py
+++ b/dedalus/core/transforms.py
@@ -1311,7 +1311,7 @@ class SWSHColatitudeTransform(NonSeparableTransform):
                 Yfull = np.zeros((Lmax+1-abs(m), self.Ntheta))
                 Yfull[Lmin-abs(m):, :] = (Y*weights).astype(np.float64)
                 # Zero higher coefficients than can be correctly computed with base Gauss quadrature
-                Yfull[self.Ntheta-abs(m):, :] = 0
+                Yfull[max(self.Ntheta-abs(m),0):, :] = 0
                 m_matrices[m] = np.asarray(Yfull, order='C')
         return m_matrices
 
@@ -1335,7 +1335,7 @@ class SWSHColatitudeTransform(NonSeparableTransform):
                 Yfull = np.zeros((self.Ntheta, Lmax+1-abs(m)))
                 Yfull[:, Lmin-abs(m):] = Y.T.astype(np.float64)
                 # Zero higher coefficients than can be correctly computed with base Gauss quadrature
-                Yfull[:, self.Ntheta-abs(m):] = 0
+                Yfull[:, max(self.Ntheta-abs(m),0):] = 0
                 m_matrices[m] = np.asarray(Yfull, order='C')
         return m_matrices
 
-- 
2.43.0


From 8fccedbdc5f22189f79bbaf9629e16ffb9a864b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 07/76] fix: colatitude interpolation leaves its operand's data
 unchanged

---
 dedalus/core/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index e7705f4..e64f068 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -5716,10 +5716,10 @@ class InterpolateColatitude(FutureLockedField, operators.Interpolate):
         out.preset_layout(layout)
         # Set output lock
         out.lock_axis_to_grid(colat_axis)
-        # Forward spin recombination
+        # Forward spin recombination (may overwrite its input, so pass a copy)
         arg_temp = np.zeros_like(arg.data)
         out_temp = np.zeros_like(out.data)
-        basis.forward_spin_recombination(arg.tensorsig, colat_axis, arg.data, arg_temp)
+        basis.forward_spin_recombination(arg.tensorsig, colat_axis, arg.data.copy(), arg_temp)
         # Loop over spin components
         S = basis.spin_weights(arg.tensorsig)
         for i, s in np.ndenumerate(S):
-- 
2.43.0


From 9f2f0cb02dba2f7cbf6079be5bd175b882bafb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 08/76] fix: adding a numpy scalar to a field ignores the
 scalar's dtype

---
 dedalus/core/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 64daa53..bc951b9 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -67,7 +67,7 @@ class Add(Future, metaclass=MultiClass):
         if any(isinstance(arg, Operand) for arg in args):
             dist = unify_attributes(args, 'dist', require=False)
             tensorsig = unify_attributes(args, 'tensorsig', require=False)
-            dtype = unify_attributes(args, 'dtype', require=False)
+            dtype = unify_attributes([arg for arg in args if isinstance(arg, Operand)], 'dtype') # Ignore dtypes of numpy scalars
             args = [Operand.cast(arg, dist, tensorsig, dtype) for arg in args]
             return args, kw
         # Cast all args to Array, if any present
-- 
2.43.0


From f594b97c8730f39b2cf47b721a4c6dfa61b6a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 09/76] fix: dividing a field by a numpy integer

---
 dedalus/core/field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index ac68dc5..70feef3 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -124,6 +124,8 @@ class Operand:
 
     def __truediv__(self, other):
         # Call: self / other
+        if isinstance(other, Number):
+            return (self * (1 / other))
         return (self * other**(-1))
 
     def __rtruediv__(self, other):
-- 
2.43.0


From 11864f1c015cce10659c91c0ded27fa651bb1cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 10/76] fix: radial, angular and azimuthal components accept
 negative indices

---
 dedalus/core/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 216b9fb..e01c7ff 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -2245,6 +2245,7 @@ class RadialComponent(Component, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
+        index = self.index
         tensorsig = operand.tensorsig
         self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
 
@@ -2270,6 +2271,7 @@ class AngularComponent(Component, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
+        index = self.index
         tensorsig = operand.tensorsig
         if isinstance(self.coordsys, coords.PolarCoordinates):
             self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
@@ -2303,6 +2305,7 @@ class AzimuthalComponent(Component, metaclass=MultiClass):
         super().__init__(operand, index=index, out=out)
         if not isinstance(self.coordsys, coords.PolarCoordinates):
             raise ValueError("Can only take the AzimuthalComponent of a PolarCoordinate vector")
+        index = self.index
         tensorsig = operand.tensorsig
         self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
 
-- 
2.43.0


From d5a2ff86c4094fe0c974df07ca8a5551210be4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 11/76] fix: converting between Jacobi bases of different sizes
 reads out of bounds

---
 dedalus/core/basis.py     | 6 +++---
 dedalus/core/operators.py | 6 ++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index e64f068..dddb6b2 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -672,11 +672,11 @@ class ConvertJacobi(operators.Convert, operators.SpectralOperator1D):
     @staticmethod
     @CachedMethod
     def _full_matrix(input_basis, output_basis):
-        N = input_basis.size
+        Nin, Nout = input_basis.size, output_basis.size
         a0, b0 = input_basis.a, input_basis.b
         a1, b1 = output_basis.a, output_basis.b
-        matrix = jacobi.conversion_matrix(N, a0, b0, a1, b1)
-        return matrix.tocsr()
+        matrix = jacobi.conversion_matrix(max(Nin, Nout), a0, b0, a1, b1)
+        return matrix.tocsr()[:Nout, :Nin]
 
 
 class ConvertConstantJacobi(operators.ConvertConstant, operators.SpectralOperator1D):
diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index e01c7ff..453ff65 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1592,6 +1592,9 @@ class Convert(SpectralOperator, metaclass=MultiClass):
         last_axis = self.last_axis
         last_is_coeff = not arg0.layout.grid_space[last_axis]
         last_is_local = arg0.layout.local[last_axis]
+        # Grids differ between different sizes
+        if self.input_basis.shape != self.output_basis.shape and not last_is_coeff:
+            return False
         # In coefficient space, require locality if coupled
         if last_is_coeff and self.subaxis_coupling[-1]:
             return last_is_local
@@ -1601,6 +1604,9 @@ class Convert(SpectralOperator, metaclass=MultiClass):
         """Require arguments to be in a proper layout."""
         arg0 = self.args[0]
         last_axis = self.last_axis
+        # Grids differ between different sizes
+        if self.input_basis.shape != self.output_basis.shape:
+            arg0.require_coeff_space(last_axis)
         last_is_coeff = not arg0.layout.grid_space[last_axis]
         # Require locality if non-separable or in grid space
         if last_is_coeff and self.subaxis_coupling[-1]:
-- 
2.43.0


From 266bcca8be7f6aa85396003ca53342876abccf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 12/76] fix: adding azimuthally symmetric fields to full fields
 in coefficient space

---
 dedalus/core/arithmetic.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index bc951b9..0238580 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -223,8 +223,18 @@ class AddFields(Add, FutureField):
         self.tensorsig = unify_attributes(self.args, 'tensorsig')
         self.dtype = np.result_type(*[arg.dtype for arg in self.args])
 
+    @CachedAttribute
+    def matching_shapes(self):
+        """Check whether arguments have matching coefficient shapes."""
+        arg0, arg1 = self.args
+        coeff_layout = self.dist.coeff_layout
+        return coeff_layout.global_shape(arg0.domain, scales=None) == coeff_layout.global_shape(arg1.domain, scales=None)
+
     def check_conditions(self):
         """Check that arguments are in a proper layout."""
+        # Broadcasting between bases of different shapes is only valid in grid space
+        if not self.matching_shapes and self.args[0].layout is not self.dist.grid_layout:
+            return False
         # All layouts must match
         layouts = set(arg.layout for arg in self.args)
         return (len(layouts) == 1)
@@ -240,6 +250,9 @@ class AddFields(Add, FutureField):
     def choose_layout(self):
         """Determine best target layout."""
         # OPTIMIZE: pick shortest absolute distance?
+        # Broadcasting between bases of different shapes is only valid in grid space
+        if not self.matching_shapes:
+            return self.dist.grid_layout
         # For now arbitrary pick first arg layout
         return self.args[0].layout
 
-- 
2.43.0


From fee4bb99fb9d41ead2e5a1856efb3d7596cd9538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:24 +0000
Subject: [PATCH 13/76] fix: ball subproblems depend on ell through the
 triangular truncation

---
 dedalus/core/basis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index dddb6b2..6b6e02c 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -4629,6 +4629,13 @@ class BallBasis(Spherical3DBasis, metaclass=CachedClass):
                                     self.backward_transform_radius]
         self.surface = self.S2_basis(radius=radius)
 
+    def matrix_dependence(self, matrix_coupling):
+        matrix_dependence = super().matrix_dependence(matrix_coupling)
+        # Triangular truncation: radial size depends on ell
+        if matrix_coupling[2]:
+            matrix_dependence[1] = True
+        return matrix_dependence
+
     def __eq__(self, other):
         if isinstance(other, BallBasis):
             if self.coordsys == other.coordsys:
-- 
2.43.0


From d78956182cefca860bce9a9d2ba9c9e25ec2c0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 14/76] fix: disk products with non-constant coefficients use
 all of the coefficient's modes

---
 dedalus/core/basis.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 6b6e02c..8712578 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -2565,20 +2565,21 @@ class DiskBasis(PolarBasis, metaclass=CachedClass):
         a_ncc = ncc_basis.alpha + ncc_basis.k
         b_ncc = regtotal_ncc
         N = ncc_basis.n_size(m)
+        N0 = ncc_basis.n_size(0)
         d = regtotal_ncc - abs(diff_regtotal)
         if (d >= 0) and (d % 2 == 0):
             J = arg_basis.operator_matrix('Z', m, spintotal_arg)
-            A, B = clenshaw.jacobi_recursion(N, a_ncc, b_ncc, J)
+            A, B = clenshaw.jacobi_recursion(N0, a_ncc, b_ncc, J)
             # assuming that we're doing ball for now...
             f0 = dedalus_sphere.zernike.polynomials(2, 1, a_ncc, b_ncc, 1)[0] * sparse.identity(N)
             prefactor = arg_basis.radius_multiplication_matrix(m, spintotal_arg, diff_regtotal, d)
             if ncc_basis.dtype == np.float64:
-                coeffs_filter = coeffs.ravel()[:2*N]
-                matrix_cos = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter[:N], A, B, f0, cutoff=cutoff)
-                matrix_msin = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter[N:], A, B, f0, cutoff=cutoff)
+                coeffs_filter = coeffs.ravel()[:2*N0]
+                matrix_cos = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter[:N0], A, B, f0, cutoff=cutoff)
+                matrix_msin = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter[N0:], A, B, f0, cutoff=cutoff)
                 matrix = sparse.bmat([[matrix_cos, -matrix_msin], [matrix_msin, matrix_cos]], format='csr')
             elif ncc_basis.dtype == np.complex128:
-                coeffs_filter = coeffs.ravel()[:N]
+                coeffs_filter = coeffs.ravel()[:N0]
                 matrix = prefactor @ clenshaw.matrix_clenshaw(coeffs_filter, A, B, f0, cutoff=cutoff)
         else:
             if ncc_basis.dtype == np.float64:
-- 
2.43.0


From 1fed35245b1c4285778b51aa56aba33ccde5b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 15/76] fix: evaluate curvilinear lifts of tensors and of
 high-order modes as their matrices do

---
 dedalus/core/basis.py | 65 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 8712578..ce12579 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -4948,7 +4948,64 @@ class PolarRadialInterpolate(operators.Interpolate, operators.PolarMOperator):
         return reshape_vector(basis.interpolation(m, spintotal, position), dim=2, axis=1)
 
 
-class LiftDisk(operators.Lift, operators.PolarMOperator):
+class LiftPolarOperate:
+    """Lift evaluation for polar bases, matching subproblem matrices."""
+
+    def operate(self, out):
+        """Perform operation."""
+        operand = self.args[0]
+        basis = self.output_basis
+        axis = self.last_axis
+        # Set output layout
+        out.preset_layout(operand.layout)
+        out.data[:] = 0
+        # Convert tau to spin first
+        temp = np.zeros_like(operand.data)
+        basis.forward_spin_recombination(operand.tensorsig, axis, operand.data.copy(), temp)
+        # Place into specified mode
+        slices = [slice(None) for i in range(out.data.ndim)]
+        axis += len(operand.tensorsig)
+        for m, mg_slice, mc_slice, n_slice in basis.m_maps(self.dist):
+            slices[axis-1] = mc_slice
+            slices[axis] = n_slice
+            vec_out = out.data[tuple(slices)]
+            slices[axis] = slice(None)
+            vec_in = temp[tuple(slices)]
+            if vec_in.size and vec_out.size:
+                vec_out[axslice(axis, self.n, self.n+1 or None)] = vec_in
+
+
+class LiftSphericalOperate:
+    """Lift evaluation for spherical bases, matching subproblem matrices."""
+
+    def operate(self, out):
+        """Perform operation."""
+        operand = self.args[0]
+        radial_basis = self.radial_basis
+        axis = self.last_axis
+        ell_maps = self.output_basis.ell_maps(self.dist)
+        # Set output layout
+        out.preset_layout(operand.layout)
+        out.data[:] = 0
+        # Convert tau from spin to regularity first
+        temp = operand.data.copy()
+        radial_basis.forward_regularity_recombination(operand.tensorsig, axis, temp, ell_maps=ell_maps)
+        # Place into specified mode
+        slices = [slice(None) for i in range(self.dist.dim)]
+        for regindex, regtotal in np.ndenumerate(radial_basis.regularity_classes(operand.tensorsig)):
+            for ell, m_ind, ell_ind in ell_maps:
+                if radial_basis.regularity_allowed(ell, regindex):
+                    slices[axis-2] = m_ind
+                    slices[axis-1] = ell_ind
+                    slices[axis] = radial_basis.n_slice(ell)
+                    vec_out = out.data[regindex][tuple(slices)]
+                    slices[axis] = slice(None)
+                    vec_in = temp[regindex][tuple(slices)]
+                    if vec_in.size and vec_out.size:
+                        vec_out[axslice(axis, self.n, self.n+1 or None)] = vec_in
+
+
+class LiftDisk(LiftPolarOperate, operators.Lift, operators.PolarMOperator):
 
     input_basis_type = (RealFourier, ComplexFourier)
     output_basis_type = DiskBasis
@@ -5000,7 +5057,7 @@ class LiftDisk(operators.Lift, operators.PolarMOperator):
             raise ValueError("This should never happen.")
 
 
-class LiftAnnulus(operators.Lift, operators.PolarMOperator):
+class LiftAnnulus(LiftPolarOperate, operators.Lift, operators.PolarMOperator):
 
     input_basis_type = (RealFourier, ComplexFourier)
     output_basis_type = AnnulusBasis
@@ -5051,7 +5108,7 @@ class LiftAnnulus(operators.Lift, operators.PolarMOperator):
             raise ValueError("This should never happen.")
 
 
-class LiftBall(operators.Lift, operators.SphericalEllOperator):
+class LiftBall(LiftSphericalOperate, operators.Lift, operators.SphericalEllOperator):
 
     input_basis_type = SphereBasis
     output_basis_type = BallBasis
@@ -5160,7 +5217,7 @@ class LiftBallRadius(operators.Lift, operators.SphericalEllOperator):
             raise ValueError("This should never happen.")
 
 
-class LiftShell(operators.Lift, operators.SphericalEllOperator):
+class LiftShell(LiftSphericalOperate, operators.Lift, operators.SphericalEllOperator):
 
     input_basis_type = SphereBasis
     output_basis_type = ShellBasis
-- 
2.43.0


From 36c51d2cee3020cb492793a9cb314eddcba6d244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 16/76] fix: order of ell modes in real sphere products with
 non-constant coefficients

---
 dedalus/core/basis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index ce12579..3aff951 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -3262,9 +3262,11 @@ class SphereBasis(SpinBasis, metaclass=CachedClass):
             matrix_cos[lmin_out:,lmin_arg:] = (prefactor @ clenshaw.matrix_clenshaw(coeffs_cos_filter, A, B, f0, cutoff=cutoff))[:N-lmin_out,:N-lmin_arg]
             matrix_msin = sparse.lil_matrix((N, N))
             matrix_msin[lmin_out:,lmin_arg:] = (prefactor @ clenshaw.matrix_clenshaw(coeffs_msin_filter, A, B, f0, cutoff=cutoff))[:N-lmin_out,:N-lmin_arg]
+            if arg_basis.ell_reversed(subproblem.dist)[m]:
+                # For second half of m's, ell's go in opposite direction within cos and msin parts
+                matrix_cos = matrix_cos[::-1, ::-1]
+                matrix_msin = matrix_msin[::-1, ::-1]
             matrix = sparse.bmat([[matrix_cos, -matrix_msin], [matrix_msin, matrix_cos]], format='csr')
-            if m >= arg_basis.mmax//4:
-                matrix = matrix[::-1, ::-1] #for second half of m's, ell's go in opposite direction
         elif ncc_basis.dtype == np.complex128:
             coeffs_filter = coeffs.ravel()[abs(spintotal_ncc):N0]
             # ell_min of data is based off |m|, but ell_min of matrix takes into account |s| and |m|
-- 
2.43.0


From 1013f0bf83239655c7f0ecc93ddc14e330f14f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 17/76] fix: curls nested in other Cartesian operators on the
 left-hand side

---
 dedalus/core/operators.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 453ff65..09ce421 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3726,7 +3726,15 @@ class CartesianCurl(Curl):
         self.domain = arg.domain
         self.tensorsig = arg.tensorsig
         self.dtype = arg.dtype
-        self.expression_matrices = arg.expression_matrices
+
+    def expression_matrices(self, subproblem, vars, **kw):
+        """Build expression matrices for a specific subproblem and variables."""
+        # Intercept calls to compute matrices over expressions
+        if self in vars:
+            size = subproblem.field_size(self)
+            matrix = sparse.identity(size, format='csr')
+            return {self: matrix}
+        return self.args[0].expression_matrices(subproblem, vars, **kw)
 
     def matrix_dependence(self, *vars):
         return self.args[0].matrix_dependence(*vars)
@@ -3813,7 +3821,15 @@ class DirectProductCurl(Curl):
         self.domain = arg.domain
         self.tensorsig = arg.tensorsig
         self.dtype = arg.dtype
-        self.expression_matrices = arg.expression_matrices
+
+    def expression_matrices(self, subproblem, vars, **kw):
+        """Build expression matrices for a specific subproblem and variables."""
+        # Intercept calls to compute matrices over expressions
+        if self in vars:
+            size = subproblem.field_size(self)
+            matrix = sparse.identity(size, format='csr')
+            return {self: matrix}
+        return self.args[0].expression_matrices(subproblem, vars, **kw)
 
     def matrix_dependence(self, *vars):
         return self.args[0].matrix_dependence(*vars)
-- 
2.43.0


From e22b8700157213fbf7ecc0ed5627b59a7b0f0529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 18/76] fix: spherical traces and transposes depend on ell in
 subproblem matrices

---
 dedalus/core/operators.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 09ce421..9c713a9 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1795,6 +1795,12 @@ class SphericalTrace(Trace):
         self.radius_axis = self.dist.get_axis(self.coordsys.coords[2])
         self.radial_basis = self.input_basis.get_radial_basis()
 
+    def matrix_dependence(self, *vars):
+        matrix_dependence = self.operand.matrix_dependence(*vars).copy()
+        # Regularity recombinations depend on ell
+        matrix_dependence[self.radius_axis-1] = True
+        return matrix_dependence
+
     def subproblem_matrix(self, subproblem):
         input_basis = self.input_basis
         radial_basis = self.radial_basis
@@ -1996,6 +2002,12 @@ class SphericalTransposeComponents(TransposeComponents):
         self.radius_axis = self.dist.get_axis(self.coordsys.coords[2])
         self.radial_basis = self.input_basis.get_radial_basis()
 
+    def matrix_dependence(self, *vars):
+        matrix_dependence = self.operand.matrix_dependence(*vars).copy()
+        # Regularity recombinations depend on ell
+        matrix_dependence[self.radius_axis-1] = True
+        return matrix_dependence
+
     def subproblem_matrix(self, subproblem):
         input_basis = self.input_basis
         radial_basis = self.radial_basis
-- 
2.43.0


From a8a07daddc14de101e2157151e184fd44f05151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 19/76] fix: grid shapes inferred from loaded data or filters
 are not increased by roundoff

---
 dedalus/core/field.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index 70feef3..a364945 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -763,12 +763,20 @@ class Field(Current):
         else:
             self[layout] = func(global_data[local_slices])
 
+    def _scales_from_grid_shape(self, shape):
+        """Determine scales producing specified global grid shape."""
+        shape = np.array(shape)
+        base_shape = np.array(self.dist.grid_layout.global_shape(self.domain, scales=1))
+        scales = shape / base_shape
+        # Prevent roundoff from increasing the grid shape when rounded up
+        return np.where(np.ceil(scales * base_shape) > shape, np.nextafter(scales, 0), scales)
+
     def load_from_global_grid_data(self, global_data, pre_slices=tuple(), func=None):
         """Load local grid data from array-like global grid data."""
         dim = self.dist.dim
         layout = self.dist.grid_layout
         # Set scales to match saved data
-        scales = np.array(global_data.shape[-dim:]) / np.array(layout.global_shape(self.domain, scales=1))
+        scales = self._scales_from_grid_shape(global_data.shape[-dim:])
         self.preset_scales(scales)
         # Extract local data from global data
         component_slices = tuple(slice(None) for cs in self.tensorsig)
@@ -961,8 +969,7 @@ class Field(Current):
         if shape is not None:
             if scales is not None:
                 raise ValueError("Specify either shape or scales.")
-            global_shape = self.dist.grid_layout.global_shape(self.domain, scales=1)
-            scales = np.array(shape) / global_shape
+            scales = self._scales_from_grid_shape(shape)
         # Low-pass filter by changing scales
         self.change_scales(scales)
         self.require_grid_space()
-- 
2.43.0


From 1f9aeb5fa6c2fad6ff4b95671b7b1b7a5922fe00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:58 +0000
Subject: [PATCH 20/76] fix: L2 norms of rank-2 tensors

---
 dedalus/core/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index a364945..df44ada 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -861,7 +861,7 @@ class Field(Current):
         elif rank == 1:
             self_inner_product = arithmetic.dot(np.conj(self), self)
         elif rank == 2:
-            self_inner_product = arithmetic.Trace(arithmetic.Dot(operators.Transpose(np.conj(self)), self))
+            self_inner_product = operators.Trace(arithmetic.DotProduct(operators.TransposeComponents(np.conj(self)), self))
         else:
             raise ValueError("Norms only implemented up to rank-2 tensors.")
         # Compute L2 norm
-- 
2.43.0


From d8950cd43b30d8cc9cd2b9386c8fef21500d1e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:58 +0000
Subject: [PATCH 21/76] fix: setting global data of tensor fields

---
 dedalus/core/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index df44ada..659f8fc 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -625,7 +625,8 @@ class Field(Current):
 
     def set_global_data(self, global_data):
         elements = self.layout.local_elements(self.domain, self.scales)
-        self.set_local_data(global_data[np.ix_(*elements)])
+        component_slices = tuple(slice(None) for cs in self.tensorsig)
+        self.set_local_data(global_data[component_slices + np.ix_(*elements)])
 
     def set_local_data(self, local_data):
         copyto(self.data, local_data)
-- 
2.43.0


From bb467803eaaf1911311e2a8cade486ae0633d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 22/76] fix: grouped forward transposes without communication
 reach the coefficient-side layout

---
 dedalus/core/distributor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index c1945e3..861c768 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -921,7 +921,7 @@ class Transpose:
             else:
                 # No communication: just update field layouts
                 for field in fields:
-                    field.preset_layout(self.layout1)
+                    field.preset_layout(self.layout0)
 
     # def increment_group(self, *fields):
     #     """Transpose group from layout0 to layout1."""
-- 
2.43.0


From f21212059529d2e19365b47443aa4ae088b072a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 23/76] fix: MPI transpose library follows the chunked block
 distribution

---
 dedalus/core/transposes.pyx | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/transposes.pyx b/dedalus/core/transposes.pyx
index 145b7ee..acbaa14 100644
--- a/dedalus/core/transposes.pyx
+++ b/dedalus/core/transposes.pyx
@@ -254,6 +254,8 @@ cdef class AlltoallvTranspose:
     ----------
     global_shape : ndarray of np.int32
         Global array shape
+    chunk_shape : ndarray of np.int32
+        Chunk shape for block distribution
     dtype : data type
         Data type
     axis : int
@@ -267,6 +269,7 @@ cdef class AlltoallvTranspose:
     cdef readonly int datasize, axis
     cdef readonly int N0, N1, N2, N3
     cdef readonly int[::1] global_shape
+    cdef readonly int[::1] chunk_shape
     cdef readonly int[::1] col_starts
     cdef readonly int[::1] row_starts
     cdef readonly int[::1] col_ends
@@ -284,10 +287,11 @@ cdef class AlltoallvTranspose:
     cdef readonly int local_col_count
     cdef readonly int local_row_count
 
-    def __init__(self, global_shape, dtype, axis, pycomm):
+    def __init__(self, global_shape, chunk_shape, dtype, axis, pycomm):
         logger.debug("Building MPI transpose plan for (dtype, gshape, axis) = (%s, %s, %s)" %(dtype, global_shape, axis))
         # Attributes
-        self.global_shape = global_shape = global_shape.astype(np.int32)
+        self.global_shape = global_shape = np.array(global_shape, dtype=np.int32)
+        self.chunk_shape = chunk_shape = np.array(chunk_shape, dtype=np.int32)
         self.datasize = {np.float64: 1, np.complex128: 2}[np.dtype(dtype).type]
         self.axis = axis
         self.pycomm = pycomm
@@ -296,9 +300,15 @@ cdef class AlltoallvTranspose:
         self.N1 = N1 = global_shape[axis]
         self.N2 = N2 = global_shape[axis+1]
         self.N3 = N3 = prod(global_shape[axis+2:]) * self.datasize
+        # Chunks
+        C1 = chunk_shape[axis]
+        C2 = chunk_shape[axis+1]
+        # Global number of chunks
+        CG1 = -(-global_shape[axis] // C1)  # ceil
+        CG2 = -(-global_shape[axis+1] // C2)  # ceil
         # Blocks
-        B1 = math.ceil(global_shape[axis] / pycomm.size)
-        B2 = math.ceil(global_shape[axis+1] / pycomm.size)
+        B1 = C1 * -(-CG1 // pycomm.size)
+        B2 = C2 * -(-CG2 // pycomm.size)
         # Starting indices
         ranks = np.arange(pycomm.size, dtype=np.int32)
         self.col_starts = col_starts = np.minimum(B2*ranks, global_shape[axis+1])
-- 
2.43.0


From 18b0dfcd6ff34292b33226bc7ca9b183ca6ec313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 24/76] fix: keep the sign of initial simulation times

---
 dedalus/core/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index c63a5fb..6066fb2 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -577,7 +577,7 @@ class InitialValueSolver(SolverBase):
             timestepper = timesteppers.schemes[timestepper]
         self.timestepper = timestepper(self)
         # Attributes
-        self.sim_time = self.initial_sim_time = problem.time.allreduce_data_max(layout='g')
+        self.sim_time = self.initial_sim_time = problem.time.allgather_data(layout='g').real.item()
         self.iteration = self.initial_iteration = 0
         self.warmup_iterations = warmup_iterations
         if np.isrealobj(self.dtype.type()):
-- 
2.43.0


From 01396b81541f9324f76993ed2646e04ef8f8df45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 25/76] fix: RKGFY can be selected by name

---
 dedalus/core/timesteppers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dedalus/core/timesteppers.py b/dedalus/core/timesteppers.py
index 81da4c1..f9d7734 100644
--- a/dedalus/core/timesteppers.py
+++ b/dedalus/core/timesteppers.py
@@ -724,6 +724,7 @@ class RKSMR(RungeKuttaIMEX):
                   [α1, β1+α2, β2+α3, β3]])
 
 
+@add_scheme
 class RKGFY(RungeKuttaIMEX):
     """2nd-order 2-stage scheme from Hollerbach and Marti"""
 
-- 
2.43.0


From f5df08176ef28b8f465c4f41d9d769d6f9eface6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 26/76] fix: solutions hold no stale data in modes outside the
 subproblems

---
 dedalus/core/solvers.py      | 4 ++--
 dedalus/core/timesteppers.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 6066fb2..9bef771 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -397,7 +397,7 @@ class LinearBoundaryValueSolver(SolverBase):
         for field in self.F:
             field.change_layout('c')
         for field in self.state:
-            field.preset_layout('c')
+            field['c'] = 0 # Clear modes outside the subproblems
         # Solve system for each subproblem
         for sp in subproblems:
             # Gather RHS
@@ -478,7 +478,7 @@ class NonlinearBoundaryValueSolver(SolverBase):
         for field in self.F:
             field.change_layout('c')
         for field in self.perturbations:
-            field.preset_layout('c')
+            field['c'] = 0 # Clear modes outside the subproblems
         # Solve system for each subproblem, updating perturbations
         for sp in self.subproblems:
             # Gather RHS
diff --git a/dedalus/core/timesteppers.py b/dedalus/core/timesteppers.py
index f9d7734..5342bd3 100644
--- a/dedalus/core/timesteppers.py
+++ b/dedalus/core/timesteppers.py
@@ -168,7 +168,7 @@ class MultistepIMEX:
         # Solve
         # Ensure coeff space before subsystem scatters
         for field in state_fields:
-            field.preset_layout('c')
+            field['c'] = 0 # Clear modes outside the subproblems
         for sp in subproblems:
             if update_LHS:
                 if STORE_EXPANDED_MATRICES:
@@ -626,7 +626,7 @@ class RungeKuttaIMEX:
             k_Hii = k * H[i,i]
             # Ensure coeff space before subsystem scatters
             for field in state_fields:
-                field.preset_layout('c')
+                field['c'] = 0 # Clear modes outside the subproblems
             for sp in subproblems:
                 # Construct LHS(n,i)
                 if update_LHS:
-- 
2.43.0


From 8e7f70e1f241951aa83eb81656f110ea99a105aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 27/76] fix: evolve can stop before or right at the end of the
 warmup

---
 dedalus/core/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 9bef771..4432ea8 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -755,13 +755,13 @@ class InitialValueSolver(SolverBase):
     def log_stats(self, format=".4g"):
         """Log timing statistics with specified string formatting (optional)."""
         self.run_time_end = self.wall_time
-        start_time = self.start_time_end
+        start_time = getattr(self, 'start_time_end', self.run_time_end) # No steps taken
         logger.info(f"Final iteration: {self.iteration}")
         logger.info(f"Final sim time: {self.sim_time}")
         logger.info(f"Setup time (init - iter 0): {start_time:{format}} sec")
         if self.profile:
             self.dump_profiles(self.run_profiler, "runtime")
-        if self.iteration >= self.initial_iteration + self.warmup_iterations:
+        if self.iteration > self.initial_iteration + self.warmup_iterations:
             warmup_time = self.warmup_time_end - self.warmup_time_start
             run_time = self.run_time_end - self.run_time_start
             profile_output_time = (self.warmup_time_start-self.start_time_end) + (self.run_time_start-self.warmup_time_end)
-- 
2.43.0


From e45676fbf65d3a089b2cd848d199ca2c0aeb4186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 28/76] fix: subproblem data follows fields to buffers beyond
 dealias scales

---
 dedalus/core/subsystems.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/subsystems.py b/dedalus/core/subsystems.py
index e684c00..0a30cde 100644
--- a/dedalus/core/subsystems.py
+++ b/dedalus/core/subsystems.py
@@ -319,8 +319,17 @@ class Subproblem:
             views.append(field_views)
         return buffer, views
 
-    @CachedMethod
     def _input_field_views(self, fields):
+        # Cached views are only valid for the persistent field buffers
+        if all(field.buffer is field._dealias_buffer for field in fields):
+            return self._cached_input_field_views(fields)
+        return self._build_input_field_views(fields)
+
+    @CachedMethod
+    def _cached_input_field_views(self, fields):
+        return self._build_input_field_views(fields)
+
+    def _build_input_field_views(self, fields):
         views = []
         for field, buffer_data in zip(fields, self._input_views):
             for buffer_view, field_slices in buffer_data:
@@ -328,8 +337,17 @@ class Subproblem:
                 views.append((buffer_view, field_view))
         return tuple(views)
 
-    @CachedMethod
     def _output_field_views(self, fields):
+        # Cached views are only valid for the persistent field buffers
+        if all(field.buffer is field._dealias_buffer for field in fields):
+            return self._cached_output_field_views(fields)
+        return self._build_output_field_views(fields)
+
+    @CachedMethod
+    def _cached_output_field_views(self, fields):
+        return self._build_output_field_views(fields)
+
+    def _build_output_field_views(self, fields):
         views = []
         for field, buffer_data in zip(fields, self._output_views):
             for buffer_view, field_slices in buffer_data:
-- 
2.43.0


From 3a71ba3b9ec508107c742f49f216e6ab5f41083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 29/76] fix: m=0 is not the template for other azimuthal modes
 in polar problems

---
 dedalus/core/coords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/coords.py b/dedalus/core/coords.py
index 39ffa2c..5967da9 100644
--- a/dedalus/core/coords.py
+++ b/dedalus/core/coords.py
@@ -261,7 +261,7 @@ class PolarCoordinates(SeparableIntertwiners, CurvilinearCoordinateSystem):
 
     spin_ordering = (-1, +1)
     dim = 2
-    default_nonconst_groups = (0, 0)
+    default_nonconst_groups = (1, 0) # m=0 has different validity
 
     def __init__(self, azimuth, radius):
         self.names = (azimuth, radius)
-- 
2.43.0


From 40bd8d02d99c394c7bb95077fa7147d676d6b6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 30/76] fix: low ell are not the template for spin components
 they do not hold

---
 dedalus/core/subsystems.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/subsystems.py b/dedalus/core/subsystems.py
index 0a30cde..307704a 100644
--- a/dedalus/core/subsystems.py
+++ b/dedalus/core/subsystems.py
@@ -12,6 +12,7 @@ from mpi4py import MPI
 import uuid
 from math import prod
 
+from .coords import S2Coordinates, SphericalCoordinates
 from .domain import Domain
 from ..tools.array import zeros_with_pattern, expand_pattern, sparse_block_diag, copyto, perm_matrix, drop_empty_rows, apply_sparse, assert_sparse_pinv
 from ..tools.cache import CachedAttribute, CachedMethod
@@ -124,8 +125,16 @@ class Subsystem:
         # Map non-dependent groups to group 1, since group 0 may have different truncation
         matrix_dependence = solver.matrix_dependence | solver.matrix_coupling
         change_group = (~matrix_dependence) & (np.array(group) != 0)
+        nonconst_groups = np.array(self.dist.default_nonconst_groups)
+        # Spin components also have different truncation for ell below the tensor rank
+        max_rank = max(len(var.tensorsig) for var in problem.variables)
+        for cs in self.dist.coordsystems:
+            if isinstance(cs, (S2Coordinates, SphericalCoordinates)):
+                axis = self.dist.get_axis(cs.colatitude)
+                if change_group[axis]:
+                    nonconst_groups[axis] = max(nonconst_groups[axis], min(group[axis], max_rank))
         matrix_group = np.array(group)
-        matrix_group[change_group] = np.array(self.dist.default_nonconst_groups)[change_group]
+        matrix_group[change_group] = nonconst_groups[change_group]
         self.matrix_group = tuple(matrix_group)
 
     def coeff_slices(self, domain):
-- 
2.43.0


From aa3bdf90480e86a04f19dbd3d97b228000f32d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 31/76] fix: solving selected subproblems keeps the solution of
 the others

---
 dedalus/core/solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 4432ea8..23ca918 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -397,7 +397,9 @@ class LinearBoundaryValueSolver(SolverBase):
         for field in self.F:
             field.change_layout('c')
         for field in self.state:
-            field['c'] = 0 # Clear modes outside the subproblems
+            field.change_layout('c') # Keep data of subproblems not being solved
+            if subproblems is self.subproblems:
+                field['c'] = 0 # Clear modes outside the subproblems
         # Solve system for each subproblem
         for sp in subproblems:
             # Gather RHS
-- 
2.43.0


From f343305a8bf17ce2bd781b24835c75f415a2cb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 32/76] fix: SparseInverse handles 1x1 matrices

---
 dedalus/libraries/matsolvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/libraries/matsolvers.py b/dedalus/libraries/matsolvers.py
index f301d4f..4de1d9f 100644
--- a/dedalus/libraries/matsolvers.py
+++ b/dedalus/libraries/matsolvers.py
@@ -224,7 +224,8 @@ class SparseInverse(SparseSolver):
     """Sparse inversion solve."""
 
     def __init__(self, matrix, solver=None):
-        self.matrix_inverse = spla.inv(matrix.tocsc())
+        # Rewrap since scipy returns a 1D array for 1x1 matrices
+        self.matrix_inverse = sp.csc_matrix(spla.inv(matrix.tocsc()))
 
     def solve(self, vector):
         return self.matrix_inverse @ vector
-- 
2.43.0


From dd6aad09ddcab18ff2b4e34f01e714227ceb737e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 33/76] fix: build_EVP linearizes around the IVP variables by
 default

---
 dedalus/core/problems.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index 5da537f..bb6a17c 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -421,6 +421,8 @@ class InitialValueProblem(ProblemBase):
             evp_eqn = EVP.add_equation((M + L - dF, 0))
             evp_eqn['valid_modes'][:] = eqn['valid_modes']
         # Add backgrounds to EVP namespace
+        if backgrounds is None:
+            backgrounds = variables
         for var in backgrounds:
             EVP.local_namespace[var.name] = var
         return EVP
-- 
2.43.0


From 7a936676b8d9377d258951d44cb99cdfefc50b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 34/76] fix: build_EVP accepts constant right-hand sides

---
 dedalus/core/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index bb6a17c..49384d9 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -411,7 +411,7 @@ class InitialValueProblem(ProblemBase):
                 for var, pert in zip(variables, perturbations):
                     L = L.replace(var, pert)
             # Take Frechet differential of F(X)
-            if F:
+            if isinstance(F, Operand):
                 if F.has(self.time):
                     raise UnsupportedEquationError("Cannot convert time-dependent IVP to EVP.")
                 dF = F.frechet_differential(variables=variables, perturbations=perturbations, backgrounds=backgrounds)
-- 
2.43.0


From d19f2b5504f68418ad3714ff1320d5050e567b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 35/76] fix: build_EVP keeps equation conditions

---
 dedalus/core/problems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/problems.py b/dedalus/core/problems.py
index 49384d9..f5654ac 100644
--- a/dedalus/core/problems.py
+++ b/dedalus/core/problems.py
@@ -418,7 +418,7 @@ class InitialValueProblem(ProblemBase):
             else:
                 dF = 0
             # Add linearized equation and copy valid modes
-            evp_eqn = EVP.add_equation((M + L - dF, 0))
+            evp_eqn = EVP.add_equation((M + L - dF, 0), condition=eqn['condition'])
             evp_eqn['valid_modes'][:] = eqn['valid_modes']
         # Add backgrounds to EVP namespace
         if backgrounds is None:
-- 
2.43.0


From b35f9ba3f3ee222e9f3ff7d01266a98fc86288af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 36/76] fix: complex targets of real sparse eigenvalue problems

---
 dedalus/tools/array.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index ab9caf8..0c07d85 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -424,7 +424,8 @@ def scipy_sparse_eigs(A, B, left, N, target, matsolver, **kw):
     solver = matsolver(C)
     def matvec(x):
         return solver.solve(B.dot(x))
-    D = spla.LinearOperator(dtype=A.dtype, shape=A.shape, matvec=matvec)
+    dtype = np.result_type(C.dtype, B.dtype) # Complex for complex targets
+    D = spla.LinearOperator(dtype=dtype, shape=A.shape, matvec=matvec)
     # Solve using scipy sparse algorithm
     evals, evecs = spla.eigs(D, k=N, which='LM', sigma=None, **kw)
     # Rectify eigenvalues
@@ -434,7 +435,7 @@ def scipy_sparse_eigs(A, B, left, N, target, matsolver, **kw):
         # Note: left_D is not equal to D^H
         def matvec_left(x):
             return solver.solve_H(B.conj().T.dot(x))
-        left_D = spla.LinearOperator(dtype=A.dtype, shape=A.shape, matvec=matvec_left)
+        left_D = spla.LinearOperator(dtype=dtype, shape=A.shape, matvec=matvec_left)
         # Solve using scipy sparse algorithm
         left_evals, left_evecs = spla.eigs(left_D, k=N, which='LM', sigma=None, **kw)
         # Rectify left eigenvalues
-- 
2.43.0


From 8215cfc4d569e47d84a386e3ec3ca4da395da8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 37/76] fix: solve_dense always sets the right eigenvectors

---
 dedalus/core/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 23ca918..8e39d6d 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -220,7 +220,7 @@ class EigenvalueSolver(SolverBase):
                 self.modified_left_eigenvectors /= np.conj(norms)
         else:
             self.eigenvalues, pre_eigenvectors = eig_output
-            self.eigenvectors = sp.pre_right @ pre_eigenvectors
+            self.right_eigenvectors = self.eigenvectors = sp.pre_right @ pre_eigenvectors
 
     def solve_sparse(self, subproblem, N, target, rebuild_matrices=False, left=False, normalize_left=True, raise_on_mismatch=True, v0=None, **kw):
         """
-- 
2.43.0


From 201efacd20333ad843c06c3a24af9ab9baade3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 38/76] fix: subsystem shapes with single-mode azimuthal bases

---
 dedalus/core/subsystems.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/subsystems.py b/dedalus/core/subsystems.py
index 307704a..52cb00a 100644
--- a/dedalus/core/subsystems.py
+++ b/dedalus/core/subsystems.py
@@ -150,8 +150,10 @@ class Subsystem:
         shape = []
         # Extract shape from slices
         coeff_slices = self.coeff_slices(domain)
-        for ax_slice, ax_size in zip(coeff_slices, domain.coeff_shape):
-            indices = ax_slice.indices(ax_size)
+        # Use allocated sizes, including full groups for bases with a single mode
+        coeff_sizes = self.dist.coeff_layout.local_shape(domain, scales=1)
+        for ax_slice, ax_size in zip(coeff_slices, coeff_sizes):
+            indices = ax_slice.indices(int(ax_size))
             shape.append(len(range(*indices)))
         return tuple(shape)
 
-- 
2.43.0


From 6aec037f1aa14132f593d1f70fd43ec9e7f10266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 39/76] fix: products of radial coefficients and constant
 unknowns in the ball

---
 dedalus/core/basis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 3aff951..d02fb6c 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -4330,7 +4330,9 @@ class Spherical3DBasis(MultidimensionalBasis):
             return ncc_basis._last_axis_component_ncc_matrix(subproblem, ncc_basis, arg_basis, out_basis, coeffs, *args, **kw)
         elif ncc_basis.shape[0:2] == (1, 1):
             # Scale to account for SWSH normalization? Is this right for all spins?
-            coeffs = coeffs / np.sqrt(2) # Need to add this back in once nccs can be non-radial bases?
+            # Constant arguments have no SWSH normalization, so the product keeps that of the NCC
+            if arg_basis is not None:
+                coeffs = coeffs / np.sqrt(2) # Need to add this back in once nccs can be non-radial bases?
             return ncc_basis.radial_basis._last_axis_component_ncc_matrix(subproblem, ncc_basis, arg_basis, out_basis, coeffs, *args, **kw)
         else:
             raise ValueError("Cannot build NCCs of non-radial fields.")
-- 
2.43.0


From 0f95d840d7849c8d4e25da9ccd98d535fbc83966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 40/76] fix: simulation-time output schedules starting at
 negative times

---
 dedalus/core/evaluator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index f500020..f9d5725 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -238,10 +238,10 @@ class Handler:
         self.iter = iter
         self.custom_schedule = custom_schedule
         self.tasks = []
-        # Set initial divisors to be -1 to trigger output on first iteration
-        self.last_wall_div = -1
-        self.last_sim_div = -1
-        self.last_iter_div = -1
+        # Set initial divisors to be -inf to trigger output on first iteration
+        self.last_wall_div = -np.inf
+        self.last_sim_div = -np.inf
+        self.last_iter_div = -np.inf
 
     def check_schedule(self, **kw):
         scheduled = False
-- 
2.43.0


From a29a50222f3b0dddc71d859503c99839bbf720a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 41/76] fix: evaluate the right-hand sides at every step, also
 when iterations restart

---
 dedalus/core/solvers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 8e39d6d..8dfa0b5 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -348,7 +348,7 @@ class LinearBoundaryValueSolver(SolverBase):
         self.subproblem_matsolvers = {}
         self.iteration = 0
         # Create RHS handler
-        F_handler = self.evaluator.add_system_handler(iter=1, group='F')
+        F_handler = self.evaluator.add_system_handler(custom_schedule=lambda **kw: True, group='F')
         for eq in problem.eqs:
             F_handler.add_task(eq['F'])
         F_handler.build_system()
@@ -451,7 +451,7 @@ class NonlinearBoundaryValueSolver(SolverBase):
             pert.valid_modes[:] = var.valid_modes
         self.iteration = 0
         # Create RHS handler
-        F_handler = self.evaluator.add_system_handler(iter=1, group='F')
+        F_handler = self.evaluator.add_system_handler(custom_schedule=lambda **kw: True, group='F')
         for eq in problem.eqs:
             F_handler.add_task(eq['F'])
         F_handler.build_system()
@@ -569,7 +569,7 @@ class InitialValueSolver(SolverBase):
         local_modes = sum([prod(sp.shape) for sp in self.subproblems])
         self.total_modes = self.dist.comm.allreduce(local_modes, op=MPI.SUM)
         # Create RHS handler
-        F_handler = self.evaluator.add_system_handler(iter=1, group='F')
+        F_handler = self.evaluator.add_system_handler(custom_schedule=lambda **kw: True, group='F')
         for eq in problem.eqs:
             F_handler.add_task(eq['F'])
         F_handler.build_system()
-- 
2.43.0


From a84348629476afd511518a19888827767ec4db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:25 +0000
Subject: [PATCH 42/76] fix: coefficient scales of file handler tasks

---
 dedalus/core/evaluator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index f9d5725..d3abe74 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -553,7 +553,10 @@ class H5FileHandlerBase(Handler):
                         data = basis.global_grids(self.dist, scales)[subaxis].ravel()
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
-                        data = layout.global_group_arrays(op.domain, scales)[subaxis]
+                        data = layout.global_group_arrays(op.domain, scales)[axis]
+                        if basis.dim == 1:
+                            # Groups only vary along the basis axis
+                            data = np.moveaxis(data, axis, 0).reshape((data.shape[axis], -1))[:, 0].copy()
                     scale_hash = hashlib.sha1(data).hexdigest()
                     lookup = f"{sn}_hash_{scale_hash}"
                     if lookup not in file['scales']:
-- 
2.43.0


From 0385f2af6abf6df6f7533e5161b5a636b823061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 43/76] fix: identify file handler sets by their exact names

---
 dedalus/core/evaluator.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index d3abe74..a8e3f7c 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -399,8 +399,9 @@ class H5FileHandlerBase(Handler):
 
         self.comm = comm = self.dist.comm_cart
         if comm.rank == 0:
-            set_pattern = '%s_s*' % (self.base_path.stem)
-            sets = list(self.base_path.glob(set_pattern))
+            # Find sets from the same handler, including set files and folders
+            set_pattern = re.compile(r"{}_s(\d+)(\.h5)?".format(re.escape(self.base_path.stem)))
+            sets = [path for path in self.base_path.glob('*') if set_pattern.fullmatch(path.name)]
             if mode == "overwrite":
                 for set in sets:
                     if set.is_dir():
@@ -410,13 +411,8 @@ class H5FileHandlerBase(Handler):
                 set_num = 1
                 total_write_num = 0
             elif mode == "append":
-                set_nums = []
                 if sets:
-                    for set in sets:
-                        m = re.match("{}_s(\d+)$".format(base_path.stem), set.stem)
-                        if m:
-                            set_nums.append(int(m.groups()[0]))
-                    max_set = max(set_nums)
+                    max_set = max(int(set_pattern.fullmatch(set.name).group(1)) for set in sets)
                     joined_file = base_path.joinpath("{}_s{}.h5".format(base_path.stem,max_set))
                     p0_file = base_path.joinpath("{0}_s{1}/{0}_s{1}_p0.h5".format(base_path.stem,max_set))
                     if os.path.exists(str(joined_file)):
@@ -492,7 +488,7 @@ class H5FileHandlerBase(Handler):
 
     @property
     def current_file(self):
-        return self.current_path.with_suffix('.h5')
+        return self.current_path.with_name(f"{self.current_path.name}.h5")
 
     def get_file(self, **kw):
         """Return current HDF5 file, creating if necessary."""
-- 
2.43.0


From 3df7c80e6efcc21c4ae0c476bf7a0c2090f4224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 44/76] fix: loading of constant axes and coefficient tasks to
 xarray

---
 dedalus/tools/post.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/dedalus/tools/post.py b/dedalus/tools/post.py
index 92c2f65..b0964b2 100644
--- a/dedalus/tools/post.py
+++ b/dedalus/tools/post.py
@@ -345,19 +345,25 @@ def merge_data(joint_file, proc_path):
 merge_virtual = lambda joint_file, virtual_path: merge_setup(joint_file, [virtual_path,], virtual=True)
 
 
-def dedalus_h5_to_xarray(dset):
+def dedalus_h5_to_xarray(dset, squeeze_constant=False):
     """Convert Dedalus HDF5 dataset to an Xarray DataArray."""
-    dims = [dim.label for dim in dset.dims]
+    # Drop constant dimensions
+    # Note: done before building array since constant dimensions share a name
+    kept_dims = [dim for dim in dset.dims if not (squeeze_constant and dim.label == 'constant')]
+    slices = tuple(0 if (squeeze_constant and dim.label == 'constant') else slice(None) for dim in dset.dims)
+    dims = [dim.label for dim in kept_dims]
     # Copy all coordinates
     coords = {}
-    for dim in dset.dims:
+    for dim in kept_dims:
         for name, coord in dim.items():
-            coords[name] = (dim.label, coord[:])
+            # Skip curvilinear coefficient groups, which vary over multiple dimensions
+            if coord.ndim == 1:
+                coords[name] = (dim.label, coord[:])
     # Add sim_time as dimensional coordinate for time
     coords[dims[0]] = (dims[0], dset.dims[0]['sim_time'][:])
     # Build dataarray
     name = dset.name.split('/')[-1]
-    return xarray.DataArray(dset[:], coords=coords, dims=dims, name=name)
+    return xarray.DataArray(dset[slices], coords=coords, dims=dims, name=name)
 
 
 def load_tasks_to_xarray(filename, tasks=None, squeeze_constant=True):
@@ -366,15 +372,8 @@ def load_tasks_to_xarray(filename, tasks=None, squeeze_constant=True):
         if tasks is None:
             tasks = list(file['tasks'].keys())
         dsets = [file['tasks'][task] for task in tasks]
-        arrays = [dedalus_h5_to_xarray(dset) for dset in dsets]
+        arrays = [dedalus_h5_to_xarray(dset, squeeze_constant=squeeze_constant) for dset in dsets]
     arrays = {array.name: array for array in arrays}
-    # Drop constant dimensions
-    if squeeze_constant:
-        for task in arrays:
-            array = arrays[task]
-            constant_axes = [i for i, name in enumerate(array.dims) if name == 'constant']
-            array = array.squeeze(axis=constant_axes, drop=True)
-            arrays[task] = array
     return arrays
 
 
-- 
2.43.0


From 887330f9a6756d01948cb292b8b50395a2676db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 45/76] fix: merging of virtual output files

---
 dedalus/tools/post.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/dedalus/tools/post.py b/dedalus/tools/post.py
index b0964b2..a3857e6 100644
--- a/dedalus/tools/post.py
+++ b/dedalus/tools/post.py
@@ -151,13 +151,12 @@ def merge_virtual_file(virtual_file_path, cleanup=False):
 
     # Create joint file, overwriting if it already exists
     with h5py.File(str(merged_file_path), mode='w') as merged_file:
-        # Setup joint file based on first process file (arbitrary)
         merge_virtual(merged_file, tmp_file_path)
     os.remove(tmp_file_path)
 
     # Cleanup after completed merge, if directed
     if cleanup:
-        folder = merged_file_path.parent.joinpath("{}/".format(virtual_file_path.stem))
+        folder = merged_file_path.with_suffix('')
         logger.info("cleaning up {}".format(folder))
         if os.path.isdir(folder):
             shutil.rmtree(folder)
@@ -342,7 +341,35 @@ def merge_data(joint_file, proc_path):
             joint_dset[slices] = proc_dset[:]
 
 
-merge_virtual = lambda joint_file, virtual_path: merge_setup(joint_file, [virtual_path,], virtual=True)
+def merge_virtual(joint_file, virtual_path):
+    """
+    Merge data from a virtual file into a joint file.
+
+    Parameters
+    ----------
+    joint_file : HDF5 file
+        Joint file
+    virtual_path : str or pathlib.Path
+        Path to a virtual file
+
+    """
+    with h5py.File(str(virtual_path), mode='r') as virtual_file:
+        # File metadata and scales
+        joint_file.attrs.update(virtual_file.attrs)
+        joint_scales = joint_file.create_group('scales')
+        for name, scale in virtual_file['scales'].items():
+            joint_scales.create_dataset(name=name, data=scale[()])
+            joint_scales[name].make_scale(scale.attrs['NAME'])
+        # Tasks
+        joint_tasks = joint_file.create_group('tasks')
+        for name, virtual_dset in virtual_file['tasks'].items():
+            joint_dset = joint_tasks.create_dataset(name=name, data=virtual_dset[()])
+            for attr in ['constant', 'grid_space', 'scales']:
+                joint_dset.attrs[attr] = virtual_dset.attrs[attr]
+            for i, dim in enumerate(virtual_dset.dims):
+                joint_dset.dims[i].label = dim.label
+                for scale in dim.values():
+                    joint_dset.dims[i].attach_scale(joint_file[scale.name])
 
 
 def dedalus_h5_to_xarray(dset, squeeze_constant=False):
-- 
2.43.0


From d2f7b646a94dfb5ada283491fac57255ed439a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 46/76] fix: grid scales of file handler tasks with different
 scales per axis

---
 dedalus/core/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index a8e3f7c..e566716 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -546,7 +546,8 @@ class H5FileHandlerBase(Handler):
                     subaxis = axis - self.dist.get_basis_axis(basis)
                     if layout.grid_space[axis]:
                         sn = basis.coordsys.coords[subaxis].name
-                        data = basis.global_grids(self.dist, scales)[subaxis].ravel()
+                        basis_scales = scales[axis-subaxis:axis-subaxis+basis.dim]
+                        data = basis.global_grids(self.dist, basis_scales)[subaxis].ravel()
                     else:
                         sn = 'k' + basis.coordsys.coords[subaxis].name
                         data = layout.global_group_arrays(op.domain, scales)[axis]
-- 
2.43.0


From b69bb2c3850092bf7a981d8fefb0128e9dfae600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 47/76] fix: grids of radial bases in file handler outputs

---
 dedalus/core/basis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index d02fb6c..5fa2ae8 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -3506,6 +3506,13 @@ class RegularityBasis(SpinRecombinationBasis, MultidimensionalBasis):
     def get_radial_basis(self):
         return self
 
+    def global_grids(self, dist, scales):
+        # Single points in constant directions
+        azimuth_axis = dist.get_basis_axis(self)
+        return (reshape_vector(np.array([0.]), dim=dist.dim, axis=azimuth_axis),
+                reshape_vector(np.array([np.pi/2]), dim=dist.dim, axis=azimuth_axis+1),
+                self.global_grid(dist, scales[2]))
+
     def global_grid(self, dist, scale):
         problem_grid = self._radius_grid(scale)
         radial_axis = dist.get_basis_axis(self) + 2
-- 
2.43.0


From 59ec447e5bf36e94db96d67b246133508f49853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 48/76] fix: CFL spacing of Chebyshev axes in direct products

---
 dedalus/core/basis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 5fa2ae8..501f4ec 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -6160,7 +6160,7 @@ class CartesianAdvectiveCFL(operators.AdvectiveCFL):
         velocity = self.operand
         coordsys = velocity.tensorsig[0]
         spacing = []
-        for i, c in enumerate(coordsys.coords):
+        for c in coordsys.coords:
             basis = velocity.domain.get_basis(c)
             if basis:
                 dealias = basis.dealias[0]
@@ -6168,7 +6168,8 @@ class CartesianAdvectiveCFL(operators.AdvectiveCFL):
                 N = basis.grid_shape((dealias,))[0]
             if isinstance(basis, Jacobi) and basis.a == -1/2 and basis.b == -1/2:
                 #Special case for ChebyshevT (a=b=-1/2)
-                local_elements = self.dist.grid_layout.local_elements(basis.domain(self.dist), scales=dealias)[i]
+                axis = self.dist.get_basis_axis(basis)
+                local_elements = self.dist.grid_layout.local_elements(basis.domain(self.dist), scales=dealias)[axis]
                 i = np.arange(N)[local_elements].reshape(axis_spacing.shape)
                 theta = np.pi * (i + 1/2) / N
                 axis_spacing[:] = dealias * basis.COV.stretch * np.sin(theta) * np.pi / N
-- 
2.43.0


From 8b7267be06f1117901a9103339570df941acf873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 49/76] fix: CFL operators overwriting cached grid spacings

---
 dedalus/core/basis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 501f4ec..b29fd24 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -6213,7 +6213,8 @@ class PolarAdvectiveCFL(operators.AdvectiveCFL):
         #Assumes velocity is a 2-length vector over polar coordinates
         basis   = self.input_basis
         dealias = basis.dealias
-        azimuth_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias)
+        # Copy to avoid modifying cached spacing
+        azimuth_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias).copy()
         if basis.mmax == 0:
             azimuth_spacing[:] = np.inf
         elif isinstance(basis, DiskBasis):
@@ -6241,7 +6242,8 @@ class S2AdvectiveCFL(operators.AdvectiveCFL):
         dealias = basis.dealias
         if r is None:
             r = basis.radius
-        s2_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias)
+        # Copy to avoid modifying cached spacing
+        s2_spacing = basis.local_grid_spacing(self.dist, 0, scales=dealias).copy()
         if basis.Lmax == 0:
             s2_spacing[:] = np.inf
         else:
-- 
2.43.0


From 06954b4a556d36df5ab1c30fdafb2c124853f709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 50/76] fix: CFL frequencies with constant axes on distributed
 grids

---
 dedalus/extras/flow_tools.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/dedalus/extras/flow_tools.py b/dedalus/extras/flow_tools.py
index bc6798b..f09cc5f 100644
--- a/dedalus/extras/flow_tools.py
+++ b/dedalus/extras/flow_tools.py
@@ -7,6 +7,7 @@ import numpy as np
 from mpi4py import MPI
 
 from dedalus.core import operators
+from dedalus.core.arithmetic import GhostBroadcaster
 
 import logging
 logger = logging.getLogger(__name__.split('.')[-1])
@@ -183,6 +184,7 @@ class CFL:
 
         self.reducer = GlobalArrayReducer(self.solver.dist.comm_cart)
         self.frequencies = self.solver.evaluator.add_dictionary_handler(iter=cadence)
+        self._broadcasters = {}
 
     def compute_dt(self):
         logger.warning("'CFL.compute_dt' is deprecated. Use 'CFL.compute_timestep' instead.")
@@ -198,7 +200,7 @@ class CFL:
             if (iteration-1) <= self.solver.initial_iteration:
                 return self.stored_dt
             # Sum across frequencies for each local grid point
-            local_freqs = sum(np.abs(field['g']) for field in self.frequencies.fields.values())
+            local_freqs = sum(self._local_frequency_data())
             # Compute new timestep from max frequency across all grid points
             max_global_freq = self.reducer.global_max(local_freqs)
             if max_global_freq == 0.:
@@ -213,6 +215,19 @@ class CFL:
                 self.stored_dt = dt
         return self.stored_dt
 
+    def _local_frequency_data(self):
+        """Local frequency magnitudes, broadcast over distributed dimensions where only some are constant."""
+        fields = self.frequencies.fields
+        broadcast_dims = np.any([field.domain.nonconstant for field in fields.values()], axis=0)
+        data = []
+        for name, field in fields.items():
+            field.require_grid_space()
+            key = (name, tuple(broadcast_dims))
+            if key not in self._broadcasters:
+                self._broadcasters[key] = GhostBroadcaster(field.domain, field.dist.grid_layout, broadcast_dims)
+            data.append(np.abs(self._broadcasters[key].cast(field)))
+        return data
+
     def add_frequency(self, freq):
         """Add an on-grid frequency."""
         self.frequencies.add_task(freq, layout='g', scales=freq.domain.dealias)
-- 
2.43.0


From 5546c7a5aeca2aebadcca723d9da8d972a36be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 51/76] fix: race between processes assigning and merging
 virtual files

---
 dedalus/tools/post.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/tools/post.py b/dedalus/tools/post.py
index a3857e6..df33003 100644
--- a/dedalus/tools/post.py
+++ b/dedalus/tools/post.py
@@ -130,6 +130,8 @@ def merge_virtual_analysis(base_path, cleanup=False):
     """
     set_path = pathlib.Path(base_path)
     virtual_file_paths = get_assigned_sets(set_path, distributed=False)
+    # Wait for all processes to be assigned sets before moving any files
+    MPI.COMM_WORLD.Barrier()
     for virtual_file_path in virtual_file_paths:
         merge_virtual_file(virtual_file_path, cleanup=cleanup)
 
-- 
2.43.0


From 9073b837488b4cbbbadf4c1fb67d95fcb542896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 52/76] fix: conversion of constants to polar bases with a
 distributed radius

---
 dedalus/core/operators.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 9c713a9..2673732 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1705,9 +1705,10 @@ class ConvertConstant(Convert):
             last_is_local = arg0.layout.local[last_axis]
             return last_is_coeff or last_is_local
         else:
-            # Require last axis in coeff space
+            # Require last axis in coeff space, and local for matrix application
             last_is_coeff = not arg0.layout.grid_space[self.last_axis]
-            return last_is_coeff
+            last_is_local = arg0.layout.local[self.last_axis]
+            return last_is_coeff and (last_is_local or not isinstance(self, PolarMOperator))
 
     def enforce_conditions(self):
         """Require arguments to be in a proper layout."""
@@ -1718,8 +1719,10 @@ class ConvertConstant(Convert):
             if arg0.layout.grid_space[last_axis]:
                 arg0.require_local(last_axis)
         else:
-            # Require last axis in coeff space
+            # Require last axis in coeff space, and local for matrix application
             arg0.require_coeff_space(self.last_axis)
+            if isinstance(self, PolarMOperator):
+                arg0.require_local(self.last_axis)
 
 
 @alias("trace")
-- 
2.43.0


From 342afb09d45f91afb65bfbcc2ad6c3e9b106db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 53/76] fix: evaluator transforming fields outside its current
 layout

---
 dedalus/core/evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index e566716..12c8778 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -120,6 +120,8 @@ class Evaluator:
             next_index = next(oscillate_indices)
             # Transform fields
             fields = self.get_fields(tasks)
+            # Skip fields computed in other layouts, which will move when their layout is reached
+            fields = [f for f in fields if f.layout.index == current_index]
             if current_index < next_index:
                 self.dist.paths[current_index].increment(fields)
             else:
-- 
2.43.0


From 037c58090284651b8e9c1113bd84424dc746b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:36 +0000
Subject: [PATCH 54/76] fix: stale arguments after interrupted evaluations

---
 dedalus/core/evaluator.py | 47 ++++++++++++++++++++++++---------------
 dedalus/core/future.py    | 16 ++++++++++++-
 2 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 12c8778..ecd07c6 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -11,7 +11,7 @@ import numpy as np
 import hashlib
 from math import prod
 
-from .future import FutureField, FutureLockedField
+from .future import Future, FutureField, FutureLockedField
 from .field import Field, LockedField
 from .operators import Copy
 from ..tools.cache import CachedAttribute
@@ -102,6 +102,34 @@ class Evaluator:
         tasks = [t for h in handlers for t in h.tasks]
         for task in tasks:
             task['out'] = None
+        try:
+            self.complete_tasks(tasks, id=id)
+        except BaseException:
+            # Don't reuse partially evaluated tasks in later evaluations
+            for task in tasks:
+                if isinstance(task['operator'], Future):
+                    task['operator'].abandon()
+            raise
+
+        # Transform all outputs to coefficient layout to dealias
+        outputs = OrderedSet([t['out'] for h in handlers for t in h.tasks if not isinstance(t['out'], LockedField)])
+        self.require_coeff_space(outputs)
+
+        # Copy redundant outputs so processing is independent
+        outputs = set()
+        for handler in handlers:
+            for task in handler.tasks:
+                if task['out'] in outputs:
+                    task['out'] = task['out'].copy()
+                else:
+                    outputs.add(task['out'])
+
+        # Process
+        for handler in handlers:
+            handler.process(**kw)
+
+    def complete_tasks(self, tasks, id):
+        """Evaluate tasks together, moving through layouts until all are finished."""
 
         # Attempt initial evaluation
         tasks = self.attempt_tasks(tasks, id=id)
@@ -130,23 +158,6 @@ class Evaluator:
             # Attempt evaluation
             tasks = self.attempt_tasks(tasks, id=id)
 
-        # Transform all outputs to coefficient layout to dealias
-        outputs = OrderedSet([t['out'] for h in handlers for t in h.tasks if not isinstance(t['out'], LockedField)])
-        self.require_coeff_space(outputs)
-
-        # Copy redundant outputs so processing is independent
-        outputs = set()
-        for handler in handlers:
-            for task in handler.tasks:
-                if task['out'] in outputs:
-                    task['out'] = task['out'].copy()
-                else:
-                    outputs.add(task['out'])
-
-        # Process
-        for handler in handlers:
-            handler.process(**kw)
-
     def require_coeff_space(self, fields):
         """Move all fields to coefficient layout."""
         coeff_layout = self.dist.coeff_layout
diff --git a/dedalus/core/future.py b/dedalus/core/future.py
index 58f9cd9..dee8715 100644
--- a/dedalus/core/future.py
+++ b/dedalus/core/future.py
@@ -96,6 +96,13 @@ class Future(Operand):
         """Restore original arguments."""
         self.args = list(self.original_args)
 
+    def abandon(self):
+        """Discard all partially evaluated arguments after an interrupted evaluation."""
+        self.reset()
+        for arg in self.args:
+            if isinstance(arg, Future):
+                arg.abandon()
+
     def atoms(self, *types):
         """Gather all leaf-operands of specified types."""
         atoms = OrderedSet()
@@ -148,7 +155,14 @@ class Future(Operand):
 
     def evaluate(self, id=None, force=True):
         """Recursively evaluate operation."""
-
+        try:
+            return self._evaluate(id=id, force=force)
+        except BaseException:
+            # Don't reuse partially evaluated arguments in later evaluations
+            self.abandon()
+            raise
+
+    def _evaluate(self, id=None, force=True):
         # Check storage
         if self.store_last and (id is not None):
             if id == self.last_id:
-- 
2.43.0


From c2fa6cb26a58f6c8308bf5721db8d6b60d3d8741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 55/76] fix: expansion of products

---
 dedalus/core/arithmetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index 0238580..cdd25a4 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -333,11 +333,11 @@ class Product(Future):
         """Expand expression over specified variables."""
         if self.has(*vars):
             # Expand arguments
-            args = [arg.expand(*vars) for arg in self.args]
+            args = [arg.expand(*vars) if isinstance(arg, Operand) else arg for arg in self.args]
             # Sum over cartesian product of sums including specified variables
             arg_sets = [arg.args if (isinstance(arg, Add) and arg.has(*vars)) else [arg] for arg in args]
             arg_sets = itertools.product(*arg_sets)
-            return sum(self.new_operand(*args) for args in arg_sets)
+            return sum(self.new_operands(*args) for args in arg_sets)
         else:
             return self
 
-- 
2.43.0


From 49866cc5f39db254e96698ddcae855756b731247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 56/76] fix: nested replacement of operator types

---
 dedalus/core/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 2673732..3b57949 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -694,7 +694,7 @@ class LinearOperator(FutureField):
             return new
         # Check base and call with replaced arguments
         elif isinstance(old, type) and isinstance(self, old):
-            new_operand = self.operand.replace(new, old)
+            new_operand = self.operand.replace(old, new)
             return new(new_operand)
         # Call with replaced arguments
         else:
-- 
2.43.0


From 08ca2791e43db36abc3fcaf8125ade71d18fc93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 57/76] fix: splitting and substitution under averages

---
 dedalus/core/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index 3b57949..fee7680 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -1283,6 +1283,9 @@ class Average(LinearOperator, metaclass=MultiClass):
         self.tensorsig = operand.tensorsig
         self.dtype = operand.dtype
 
+    def new_operand(self, operand, **kw):
+        return Average(operand, self.coord, **kw)
+
 
 # # CHECK NEW
 # @parseable('filter', 'f')
-- 
2.43.0


From b3a61b708763e19dbe27a6db3fc6008bc8ebbe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 58/76] fix: Cartesian components of zero

---
 dedalus/core/operators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index fee7680..ff4e5e4 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -3322,6 +3322,12 @@ class CartCompBase(LinearOperator, metaclass=MultiClass):
 
     name = 'Comp'
 
+    @classmethod
+    def _preprocess_args(cls, operand, index, comp, out=None):
+        if isinstance(operand, Number):
+            raise SkipDispatchException(output=0)
+        return [operand, index, comp], {'out': out}
+
     @classmethod
     def _check_args(cls, operand, index, comp, out=None):
         # Dispatch by coordinate system
-- 
2.43.0


From 24ae52d2bd96fce6b899d463130aee7408b43795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 59/76] fix: linear boundary value solvers hanging when some
 processes hold no subproblems

---
 dedalus/core/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 8dfa0b5..81096c6 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -387,7 +387,8 @@ class LinearBoundaryValueSolver(SolverBase):
             sp_to_build = subproblems
         else:
             sp_to_build = [sp for sp in subproblems if sp not in self.subproblem_matsolvers]
-        if sp_to_build:
+        # Build collectively, since NCCs are communicated and some processes may have nothing to build
+        if self.dist.comm.allreduce(len(sp_to_build), op=MPI.SUM):
             self.build_matrices(sp_to_build, ['L'])
             for sp in sp_to_build:
                 self.subproblem_matsolvers[sp] = self.matsolver(sp.L_min, self)
-- 
2.43.0


From fa741cec3b2e21f356c554885664ec96a938df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:29 +0000
Subject: [PATCH 60/76] fix: TypeError when a matrix solver overrides solver
 options

---
 dedalus/core/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 81096c6..72c5380 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -112,7 +112,7 @@ class SolverBase:
         # Process option overrides from matsolver
         for key, value in matsolver.config.items():
             if getattr(self, key, None) is not value:
-                logger.info("matsolver overriding solver option '%i' with '%s'" %(key, value))
+                logger.info("matsolver overriding solver option '%s' with '%s'" %(key, value))
                 setattr(self, key, value)
         # Setup subsystems and subproblems without building matrices
         self.subsystems = subsystems.build_subsystems(self)
-- 
2.43.0


From 514a30eaa9c5593028a4da9c29fbf0d40ea0dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 61/76] fix: intervals of zero or infinite length accepted as
 bases

---
 dedalus/core/basis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index b29fd24..81a55d8 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -455,6 +455,8 @@ class Jacobi(IntervalBasis, metaclass=CachedClass):
         bounds = tuple(bounds)
         if len(bounds) != 2:
             raise ValueError("Jacobi bounds must have length 2.")
+        if bounds[0] == bounds[1]:
+            raise ValueError("Jacobi bounds must be distinct.")
         # a: float
         a = float(a)
         # b: float
@@ -834,6 +836,8 @@ class FourierBase(IntervalBasis):
         bounds = tuple(bounds)
         if len(bounds) != 2:
             raise ValueError("Fourier bounds must have length 2.")
+        if bounds[0] == bounds[1]:
+            raise ValueError("Fourier bounds must be distinct.")
         # dealias: length-1 tuple
         if isinstance(dealias, (int, float)):
             dealias = (dealias,)
-- 
2.43.0


From 1c87eaeb7e26df7a19c575e884e07ce2054b4edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 62/76] fix: lifts onto modes the output basis does not have
 were accepted

---
 dedalus/core/basis.py     | 2 ++
 dedalus/core/operators.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index 81a55d8..e688bba 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -810,6 +810,8 @@ class LiftJacobi(operators.Lift, operators.Copy):
     def build_polynomial(dist, basis, n):
         if n < 0:
             n += basis.size
+        if not 0 <= n < basis.size:
+            raise ValueError("Lift mode is out of range.")
         P = dist.Field(bases=basis)
         axis = dist.get_basis_axis(basis)
         P['c'][axslice(axis, n, n+1)] = 1
diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index ff4e5e4..d8ad408 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -4333,6 +4333,8 @@ class Lift(LinearOperator, metaclass=MultiClass):
     def __init__(self, operand, output_basis, n, out=None):
         if n >= 0:
             raise ValueError("Only negative mode specifiers allowed.")
+        if n < -output_basis.shape[-1]:
+            raise ValueError("Lift mode is out of range.")
         SpectralOperator.__init__(self, operand, out=out)
         self.n = n
         # SpectralOperator requirements
-- 
2.43.0


From ab6ff22bc94571158c76ab5a52ad7bf7a68f9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 63/76] fix: repeated coordinate names accepted

---
 dedalus/core/coords.py      | 6 ++++++
 dedalus/core/distributor.py | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/dedalus/core/coords.py b/dedalus/core/coords.py
index 5967da9..c74efbc 100644
--- a/dedalus/core/coords.py
+++ b/dedalus/core/coords.py
@@ -211,6 +211,8 @@ class S2Coordinates(SeparableIntertwiners, CurvilinearCoordinateSystem):
 
     def __init__(self, azimuth, colatitude):
         self.names = (azimuth, colatitude)
+        if len(set(self.names)) < len(self.names):
+            raise ValueError("Must specify unique names.")
         self.azimuth = AzimuthalCoordinate(azimuth, cs=self)
         self.colatitude = Coordinate(colatitude, cs=self)
         self.coords = (self.azimuth, self.colatitude)
@@ -265,6 +267,8 @@ class PolarCoordinates(SeparableIntertwiners, CurvilinearCoordinateSystem):
 
     def __init__(self, azimuth, radius):
         self.names = (azimuth, radius)
+        if len(set(self.names)) < len(self.names):
+            raise ValueError("Must specify unique names.")
         self.azimuth = AzimuthalCoordinate(azimuth, cs=self)
         self.radius = Coordinate(radius, cs=self)
         self.coords = (self.azimuth, self.radius)
@@ -328,6 +332,8 @@ class SphericalCoordinates(CurvilinearCoordinateSystem):
 
     def __init__(self, azimuth, colatitude, radius):
         self.names = (azimuth, colatitude, radius)
+        if len(set(self.names)) < len(self.names):
+            raise ValueError("Must specify unique names.")
         self.azimuth = AzimuthalCoordinate(azimuth, cs=self)
         self.colatitude = Coordinate(colatitude, cs=self)
         self.radius = Coordinate(radius, cs=self)
diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index 861c768..5bc1503 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -86,6 +86,8 @@ class Distributor:
         # Get coords
         self.coords = sum((cs.coords for cs in coordsystems), ())
         self.coordsystems = coordsystems
+        if len(set(coord.name for coord in self.coords)) < len(self.coords):
+            raise ValueError("Must specify unique coordinate names.")
         # Defaults
         if comm is None:
             comm = MPI.COMM_WORLD
-- 
2.43.0


From 04c86ee1db4dfdc032ecee00d9861e14d6162b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 64/76] fix: scales of the wrong length or sign accepted

---
 dedalus/core/distributor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/distributor.py b/dedalus/core/distributor.py
index 5bc1503..046db37 100644
--- a/dedalus/core/distributor.py
+++ b/dedalus/core/distributor.py
@@ -194,8 +194,10 @@ class Distributor:
         if isinstance(scales, numbers.Number):
             scales = (scales,) * self.dim
         scales = tuple(scales)
-        if 0 in scales:
-            raise ValueError("Scales must be nonzero.")
+        if len(scales) != self.dim:
+            raise ValueError("Scales must have length %i." %self.dim)
+        if not all(scale > 0 for scale in scales):
+            raise ValueError("Scales must be positive.")
         return scales
 
     def get_transform_object(self, axis):
-- 
2.43.0


From f5519a66feb93b369e6e19fe275c5d7360778f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 65/76] fix: stale right-hand sides when a second solver is
 built from the same problem

---
 dedalus/core/evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index ecd07c6..858391b 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -373,7 +373,9 @@ class SystemHandler(Handler):
     def process(self, **kw):
         """Gather fields into system."""
         #self.system.gather()
-        pass
+        # Task outputs may have been reset by another system with the same tasks
+        for i, task in enumerate(self.tasks):
+            self.fields[i] = task['out']
 
 
 class H5FileHandlerBase(Handler):
-- 
2.43.0


From 60e4e586a46610291861f29b0b99a51890b4c47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 66/76] fix: field data destroyed by assignments that cannot be
 carried out

---
 dedalus/core/field.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/dedalus/core/field.py b/dedalus/core/field.py
index 659f8fc..907cba2 100644
--- a/dedalus/core/field.py
+++ b/dedalus/core/field.py
@@ -589,14 +589,21 @@ class Field(Current):
 
     def __setitem__(self, key, data):
         """Set data viewed in a specified layout and scales."""
-        if isinstance(key, tuple):
-            layout, scales = key
-            self.preset_scales(scales)
-        else:
-            layout = key
-        layout = self.dist.get_layout_object(layout)
-        self.preset_layout(layout)
-        copyto(self.data, data)
+        init_buffer, init_scales, init_layout = self.buffer, self.scales, self.layout
+        try:
+            if isinstance(key, tuple):
+                layout, scales = key
+                self.preset_scales(scales)
+            else:
+                layout = key
+            layout = self.dist.get_layout_object(layout)
+            self.preset_layout(layout)
+            copyto(self.data, data)
+        except Exception:
+            # Keep previous data if the new data cannot be set
+            self.buffer, self.scales = init_buffer, init_scales
+            self.preset_layout(init_layout)
+            raise
 
     def get_basis(self, coord):
         return self.domain.get_basis(coord)
-- 
2.43.0


From 4d906ab321253f22d5b8f0ac625151e6d752be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 67/76] fix: radial components of Cartesian vectors returned
 the wrong component

---
 dedalus/core/operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedalus/core/operators.py b/dedalus/core/operators.py
index d8ad408..2bd3c74 100644
--- a/dedalus/core/operators.py
+++ b/dedalus/core/operators.py
@@ -2269,6 +2269,8 @@ class RadialComponent(Component, metaclass=MultiClass):
 
     def __init__(self, operand, index=0, out=None):
         super().__init__(operand, index=index, out=out)
+        if not isinstance(self.coordsys, (coords.PolarCoordinates, coords.SphericalCoordinates)):
+            raise ValueError("Can only take the RadialComponent of a PolarCoordinates or SphericalCoordinates vector")
         index = self.index
         tensorsig = operand.tensorsig
         self.tensorsig = tuple( tensorsig[:index] + tensorsig[index+1:] )
-- 
2.43.0


From 66a58b41eace8d0a94b02646417221dbf888aaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 68/76] fix: clock and fields changed by loading states with
 missing fields

---
 dedalus/core/solvers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/solvers.py b/dedalus/core/solvers.py
index 72c5380..94e9903 100644
--- a/dedalus/core/solvers.py
+++ b/dedalus/core/solvers.py
@@ -655,6 +655,10 @@ class InitialValueSolver(SolverBase):
         path = pathlib.Path(path)
         logger.info("Loading solver state from: {}".format(path))
         with h5py.File(str(path), mode='r') as file:
+            # Check for missing fields before loading anything
+            for field in self.state:
+                if field.name not in file['tasks'] and not allow_missing:
+                    raise IOError(f"Field '{field.name}' not found in savefile. Set allow_missing=True to ignore this error.")
             # Load solver attributes
             write = file['scales']['write_number'][index]
             dt = file['scales']['timestep'][index]
@@ -669,10 +673,8 @@ class InitialValueSolver(SolverBase):
             for field in self.state:
                 if field.name in file['tasks']:
                     field.load_from_hdf5(file, index)
-                elif allow_missing:
-                    logger.warning(f"Field '{field.name}' not found in savefile.")
                 else:
-                    raise IOError(f"Field '{field.name}' not found in savefile. Set allow_missing=True to ignore this error.")
+                    logger.warning(f"Field '{field.name}' not found in savefile.")
         return write, dt
 
     def enforce_hermitian_symmetry(self, fields):
-- 
2.43.0


From 8ccd125112d47e15928ecfbeae2b3ed4f7460a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 69/76] fix: random fills with shape parameters

---
 dedalus/tools/random_arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/tools/random_arrays.py b/dedalus/tools/random_arrays.py
index 2efe0ed..25bb95c 100644
--- a/dedalus/tools/random_arrays.py
+++ b/dedalus/tools/random_arrays.py
@@ -112,7 +112,7 @@ class ChunkedRandomArray(IndexArray):
         Other keywords passed to the distribution method.
     """
 
-    def __init__(self, shape, seed=None, chunk_size=2**20, distribution='uniform', **kw):
+    def __init__(self, shape, /, seed=None, chunk_size=2**20, distribution='uniform', **kw):
         super().__init__(shape)
         self.seed = seed
         self.chunk_size = chunk_size
-- 
2.43.0


From 5aa76405a09aa4a6a539cf7e5983dac299d08a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:41 +0000
Subject: [PATCH 70/76] fix: results of sparse products lost for strided
 outputs

---
 dedalus/tools/array.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index 0c07d85..71e5c13 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -199,7 +199,12 @@ def apply_sparse(matrix, array, axis, out=None, check_shapes=False, num_threads=
     if matrix_data.dtype != out.dtype:
         matrix_data = matrix_data.astype(out.dtype)
     # Call cython routine
-    cython_linalg.apply_csr(matrix.indptr, matrix.indices, matrix_data, array, out, axis, num_threads)
+    if out.flags.c_contiguous:
+        cython_linalg.apply_csr(matrix.indptr, matrix.indices, matrix_data, array, out, axis, num_threads)
+    else:
+        temp = np.empty(out.shape, dtype=out.dtype)
+        cython_linalg.apply_csr(matrix.indptr, matrix.indices, matrix_data, array, temp, axis, num_threads)
+        np.copyto(out, temp)
     return out
 
 
-- 
2.43.0


From f3dc633d8f8e627bc4e25b61e1a69920c3b90236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:41 +0000
Subject: [PATCH 71/76] fix: AttributeError solving with matrices whose format
 was never checked

---
 dedalus/tools/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index 71e5c13..315f6bf 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -216,7 +216,7 @@ def solve_upper_sparse(matrix, rhs, axis, out=None, check_shapes=False, num_thre
     # Check matrix
     if not isinstance(matrix, sparse.csr_matrix):
         raise ValueError("Matrix must be in CSR format.")
-    if not matrix._has_canonical_format: # avoid property hook (without underscore)
+    if not getattr(matrix, '_has_canonical_format', False): # avoid property hook (without underscore)
         matrix.sum_duplicates()
     # Setup output = rhs
     if out is None:
-- 
2.43.0


From a315094a0682f0cedb75771a35813cf1efe53bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:41 +0000
Subject: [PATCH 72/76] fix: upper triangular solves losing results without
 contiguous outputs

---
 dedalus/tools/array.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dedalus/tools/array.py b/dedalus/tools/array.py
index 315f6bf..4c93094 100644
--- a/dedalus/tools/array.py
+++ b/dedalus/tools/array.py
@@ -220,7 +220,7 @@ def solve_upper_sparse(matrix, rhs, axis, out=None, check_shapes=False, num_thre
         matrix.sum_duplicates()
     # Setup output = rhs
     if out is None:
-        out = np.copy(rhs)
+        out = np.array(rhs, order='C')
     elif out is not rhs:
         np.copyto(out, rhs)
     # Promote datatypes
@@ -234,7 +234,13 @@ def solve_upper_sparse(matrix, rhs, axis, out=None, check_shapes=False, num_thre
         if not (matrix.shape[0] == matrix.shape[1] == rhs.shape[axis]):
             raise ValueError("Matrix shape mismatch.")
     # Call cython routine
-    cython_linalg.solve_upper_csr(matrix.indptr, matrix.indices, matrix_data, out, axis, num_threads)
+    if out.flags.c_contiguous:
+        cython_linalg.solve_upper_csr(matrix.indptr, matrix.indices, matrix_data, out, axis, num_threads)
+    else:
+        temp = np.array(out, order='C')
+        cython_linalg.solve_upper_csr(matrix.indptr, matrix.indices, matrix_data, temp, axis, num_threads)
+        np.copyto(out, temp)
+    return out
 
 
 def csr_matvec(A_csr, x_vec, out_vec):
-- 
2.43.0


From 30c13fc6e6f7ee11cce666f07ef71024e5bd4a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:47 +0000
Subject: [PATCH 73/76] fix: appending output failed after a run was
 interrupted during the first write of a set

---
 dedalus/core/evaluator.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 858391b..410bdfc 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -427,18 +427,25 @@ class H5FileHandlerBase(Handler):
                 total_write_num = 0
             elif mode == "append":
                 if sets:
-                    max_set = max(int(set_pattern.fullmatch(set.name).group(1)) for set in sets)
-                    joined_file = base_path.joinpath("{}_s{}.h5".format(base_path.stem,max_set))
-                    p0_file = base_path.joinpath("{0}_s{1}/{0}_s{1}_p0.h5".format(base_path.stem,max_set))
-                    if os.path.exists(str(joined_file)):
-                        with h5py.File(str(joined_file),'r') as testfile:
-                            last_write_num = testfile['/scales/write_number'][-1]
-                    elif os.path.exists(str(p0_file)):
-                        with h5py.File(str(p0_file),'r') as testfile:
-                            last_write_num = testfile['/scales/write_number'][-1]
-                    else:
-                        last_write_num = 0
-                        logger.warning("Cannot determine write num from files. Restarting count.")
+                    set_nums = [int(set_pattern.fullmatch(set.name).group(1)) for set in sets]
+                    max_set = max(set_nums)
+                    last_write_num = 0
+                    for set_num in sorted(set_nums, reverse=True):
+                        joined_file = base_path.joinpath("{}_s{}.h5".format(base_path.stem,set_num))
+                        p0_file = base_path.joinpath("{0}_s{1}/{0}_s{1}_p0.h5".format(base_path.stem,set_num))
+                        if os.path.exists(str(joined_file)):
+                            with h5py.File(str(joined_file),'r') as testfile:
+                                write_nums = testfile['/scales/write_number'][:]
+                        elif os.path.exists(str(p0_file)):
+                            with h5py.File(str(p0_file),'r') as testfile:
+                                write_nums = testfile['/scales/write_number'][:]
+                        else:
+                            logger.warning("Cannot determine write num from files. Restarting count.")
+                            break
+                        # Continue to previous set if interrupted during the first write of this set
+                        if write_nums.size:
+                            last_write_num = write_nums[-1]
+                            break
                 else:
                     max_set = 0
                     last_write_num = 0
@@ -525,7 +532,7 @@ class H5FileHandlerBase(Handler):
         # Metadeta
         file.attrs['set_number'] = self.set_num
         file.attrs['handler_name'] = self.name
-        file.attrs['writes'] = self.file_write_num
+        file.attrs['writes'] = 0
         # Scales
         file.create_group('scales')
         file['scales'].create_dataset(name='constant', data=np.zeros(1), dtype=np.float64)
-- 
2.43.0


From ccc73c79d822e16b1b5d5af88755a2d57563395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:47 +0000
Subject: [PATCH 74/76] fix: close virtual joint files only after the process
 files they refer to

---
 dedalus/core/evaluator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dedalus/core/evaluator.py b/dedalus/core/evaluator.py
index 410bdfc..f89d160 100644
--- a/dedalus/core/evaluator.py
+++ b/dedalus/core/evaluator.py
@@ -779,12 +779,13 @@ class H5VirtualFileHandler(H5FileHandlerBase):
     def close_file(self, file):
         """Close current HDF5 file after processing."""
         joint_file, proc_file = file
-        # Close joint file on root process
-        if self.comm.rank == 0:
-            joint_file.close()
         # Close process files on nonempty processes
         if not self.empty:
             proc_file.close()
+        # Close joint file on root process after all process files, so that it only lists complete writes
+        self.comm.Barrier()
+        if self.comm.rank == 0:
+            joint_file.close()
 
     def create_current_file(self):
         """Generate and setup new HDF5 file."""
-- 
2.43.0


From e8d1dd1260e85b54c37ea0c7231b9791e1a7c6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:47 +0000
Subject: [PATCH 75/76] fix: matrices of disk and ball lifts failed for groups
 without the lifted mode

---
 dedalus/core/basis.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dedalus/core/basis.py b/dedalus/core/basis.py
index e688bba..8414a89 100644
--- a/dedalus/core/basis.py
+++ b/dedalus/core/basis.py
@@ -5068,7 +5068,9 @@ class LiftDisk(LiftPolarOperate, operators.Lift, operators.PolarMOperator):
         if spinindex_in == spinindex_out:
             n_size = self.output_basis.n_size(m)
             matrix = np.zeros((n_size, 1))
-            matrix[self.n, 0] = 1
+            # Leave zero if the lifted mode is truncated for this group
+            if -n_size <= self.n:
+                matrix[self.n, 0] = 1
             return matrix
         else:
             raise ValueError("This should never happen.")
@@ -5174,7 +5176,9 @@ class LiftBall(LiftSphericalOperate, operators.Lift, operators.SphericalEllOpera
         if regindex_in == regindex_out:
             n_size = self.output_basis.n_size(m)
             matrix = np.zeros((n_size, 1))
-            matrix[self.n, 0] = 1
+            # Leave zero if the lifted mode is truncated for this group
+            if -n_size <= self.n:
+                matrix[self.n, 0] = 1
             return matrix
         else:
             raise ValueError("This should never happen.")
-- 
2.43.0


From 24f09a861120d470029b6021a75ace1348def84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:00 +0000
Subject: [PATCH 76/76] fix: reject products of fields with different grid
 sizes on all ranks alike

---
 dedalus/core/arithmetic.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dedalus/core/arithmetic.py b/dedalus/core/arithmetic.py
index cdd25a4..d649378 100644
--- a/dedalus/core/arithmetic.py
+++ b/dedalus/core/arithmetic.py
@@ -557,7 +557,17 @@ class Product(Future):
         ncc_coupling = ncc.domain.nonconstant
         return ncc_coupling | operand_coupling
 
+    @CachedMethod
+    def check_grid_shapes(self):
+        """Check that argument grids match along their common axes."""
+        # Local shapes may match, or broadcast, even if the grids differ
+        layout = self.dist.grid_layout
+        shape0, shape1 = [layout.global_shape(arg.domain, arg.domain.dealias) for arg in self.args]
+        if any(n0 != n1 and 1 not in (n0, n1) for n0, n1 in zip(shape0, shape1)):
+            raise ValueError(f"Cannot multiply fields with different grid shapes: {shape0} and {shape1}.")
+
     def check_conditions(self):
+        self.check_grid_shapes()
         layout0 = self.args[0].layout
         layout1 = self.args[1].layout
         # Fields must be in grid layout
@@ -565,6 +575,7 @@ class Product(Future):
         return all(layout0.grid_space) and (layout0 is layout1)
 
     def enforce_conditions(self):
+        self.check_grid_shapes()
         # Fields must be in grid layout
         # Just do full grid space for now
         for arg in self.args:
-- 
2.43.0


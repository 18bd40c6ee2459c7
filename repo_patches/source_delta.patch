From 9b4c5e0ee4b25e89a2e8b3bb9ee417e27e90c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:54 +0000
Subject: [PATCH 01/43] fix: use boolean masks in SingleBlockBasisExpansion (a
 single-element basis raised RuntimeError)

---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index 53d4ea2..185bce4 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -58,10 +58,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
         sampled_basis = torch.Tensor(basis.sample_masked(points, mask=mask)).permute(2, 0, 1, 3)
 
         # DEPRECATED FROM PyTorch 1.2
-        # PyTorch 1.2 suggests using BoolTensor instead of ByteTensor for boolean indexing
-        # but BoolTensor have been introduced only in PyTorch 1.2
-        # Hence, for the moment we use ByteTensor
-        mask = mask.astype(np.uint8)
+        mask = mask.astype(bool)
         mask = torch.tensor(mask)
 
         # normalize the basis
@@ -77,7 +74,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
         sampled_basis = sampled_basis[norms, ...]
         
         full_mask = torch.zeros_like(mask)
-        full_mask[mask] = norms.to(torch.uint8)
+        full_mask[mask] = norms
         self._mask = full_mask
 
         self.attributes = [attr for b, attr in enumerate(attributes) if norms[b]]
-- 
2.43.0


From c45e2c31ea9627ca7f995473967146c54178f026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:54 +0000
Subject: [PATCH 02/43] fix: compare the reflection axis in the equality of the
 flip+rotation kernel bases

---
 e2cnn/kernels/irreps_basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index f4af163..493ee43 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -881,7 +881,7 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
@@ -1063,7 +1063,7 @@ class R2FlipsContinuousRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
             return False
-- 
2.43.0


From a552eee785f1972b7d8000808dbdf87988cdff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:55 +0000
Subject: [PATCH 03/43] fix: kernel bases with different numbers of elements
 are unequal (equality raised ValueError)

---
 e2cnn/kernels/basis.py        |  6 +++++-
 e2cnn/kernels/irreps_basis.py | 10 ++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/e2cnn/kernels/basis.py b/e2cnn/kernels/basis.py
index edd6cbc..59c3e8b 100644
--- a/e2cnn/kernels/basis.py
+++ b/e2cnn/kernels/basis.py
@@ -220,7 +220,11 @@ class GaussianRadialProfile(KernelBasis):
 
     def __eq__(self, other):
         if isinstance(other, GaussianRadialProfile):
-            return np.allclose(self.radii, other.radii) and np.allclose(self.sigma, other.sigma)
+            return (
+                self.radii.shape == other.radii.shape
+                and np.allclose(self.radii, other.radii)
+                and np.allclose(self.sigma, other.sigma)
+            )
         else:
             return False
     
diff --git a/e2cnn/kernels/irreps_basis.py b/e2cnn/kernels/irreps_basis.py
index 493ee43..954a17d 100644
--- a/e2cnn/kernels/irreps_basis.py
+++ b/e2cnn/kernels/irreps_basis.py
@@ -174,6 +174,8 @@ class R2FlipsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         else:
@@ -434,6 +436,8 @@ class R2DiscreteRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2DiscreteRotationsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
@@ -623,6 +627,8 @@ class R2ContinuousRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2ContinuousRotationsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
@@ -881,6 +887,8 @@ class R2FlipsDiscreteRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
@@ -1063,6 +1071,8 @@ class R2FlipsContinuousRotationsSolution(IrrepBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
+        elif self.dim != other.dim:
+            return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         elif hasattr(self, "s") and not np.allclose(self.s, other.s):
-- 
2.43.0


From b87e0c4100ae3395f8d7df215b18088f047a1740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:55 +0000
Subject: [PATCH 04/43] fix: G-spaces with different reflection axes are not
 equal

---
 e2cnn/gspaces/r2/flip2d_on_r2.py    | 2 +-
 e2cnn/gspaces/r2/fliprot2d_on_r2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/gspaces/r2/flip2d_on_r2.py b/e2cnn/gspaces/r2/flip2d_on_r2.py
index eddcbfc..712f9aa 100644
--- a/e2cnn/gspaces/r2/flip2d_on_r2.py
+++ b/e2cnn/gspaces/r2/flip2d_on_r2.py
@@ -196,7 +196,7 @@ class Flip2dOnR2(GeneralOnR2):
 
     def __eq__(self, other):
         if isinstance(other, Flip2dOnR2):
-            return self.fibergroup == other.fibergroup
+            return self.fibergroup == other.fibergroup and self.axis == other.axis
         else:
             return False
 
diff --git a/e2cnn/gspaces/r2/fliprot2d_on_r2.py b/e2cnn/gspaces/r2/fliprot2d_on_r2.py
index 4702c21..4738dd9 100644
--- a/e2cnn/gspaces/r2/fliprot2d_on_r2.py
+++ b/e2cnn/gspaces/r2/fliprot2d_on_r2.py
@@ -295,7 +295,7 @@ class FlipRot2dOnR2(GeneralOnR2):
 
     def __eq__(self, other):
         if isinstance(other, FlipRot2dOnR2):
-            return self.fibergroup == other.fibergroup
+            return self.fibergroup == other.fibergroup and self.axis == other.axis
         else:
             return False
     
-- 
2.43.0


From d4092e7831cee091cc5a0f5c6d40fbc8d96258fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:51 +0000
Subject: [PATCH 05/43] fix: equality of diffop bases accounts for the
 discretization and the reflection axis

---
 e2cnn/diffops/basis.py           |  4 ++--
 e2cnn/diffops/irreps_basis.py    | 24 ++++++++++++------------
 e2cnn/diffops/steerable_basis.py |  2 ++
 3 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/e2cnn/diffops/basis.py b/e2cnn/diffops/basis.py
index e23ad7f..f34f726 100644
--- a/e2cnn/diffops/basis.py
+++ b/e2cnn/diffops/basis.py
@@ -195,7 +195,7 @@ class LaplaceProfile(DiffopBasis):
 
     def __eq__(self, other):
         if isinstance(other, LaplaceProfile):
-            return self.max_power == other.max_power
+            return self.max_power == other.max_power and self.disc == other.disc
         else:
             return False
 
@@ -284,7 +284,7 @@ class TensorBasis(DiffopBasis):
 
     def __eq__(self, other):
         if isinstance(other, TensorBasis):
-            return self.basis1 == other.basis1 and self.basis2 == other.basis2
+            return self.basis1 == other.basis1 and self.basis2 == other.basis2 and self.disc == other.disc
         else:
             return False
 
diff --git a/e2cnn/diffops/irreps_basis.py b/e2cnn/diffops/irreps_basis.py
index 2077fab..48e00dd 100644
--- a/e2cnn/diffops/irreps_basis.py
+++ b/e2cnn/diffops/irreps_basis.py
@@ -128,7 +128,7 @@ class R2FlipsSolution(DiffopBasis):
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert
+            return self.mu == other.mu and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(self.invert))
@@ -351,10 +351,10 @@ class R2DiscreteRotationsSolution(DiffopBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
-        elif hasattr(self, "s") and not np.allclose(self.s, other.s):
+        elif hasattr(self, "s") and not np.array_equal(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert
+            return self.mu == other.mu and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(str(self.invert)))
@@ -579,14 +579,14 @@ class R2FlipsDiscreteRotationsSolution(DiffopBasis):
         return attr
 
     def __eq__(self, other):
-        if not isinstance(other, R2DiscreteRotationsSolution):
+        if not isinstance(other, R2FlipsDiscreteRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
-        elif hasattr(self, "s") and not np.allclose(self.s, other.s):
+        elif hasattr(self, "s") and not np.array_equal(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert
+            return self.mu == other.mu and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(self.invert))
@@ -730,10 +730,10 @@ class R2ContinuousRotationsSolution(DiffopBasis):
             return False
         elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
             return False
-        elif hasattr(self, "s") and not np.allclose(self.s, other.s):
+        elif hasattr(self, "s") and not np.array_equal(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert
+            return self.mu == other.mu and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(str(self.invert)))
@@ -888,12 +888,12 @@ class R2FlipsContinuousRotationsSolution(DiffopBasis):
     def __eq__(self, other):
         if not isinstance(other, R2FlipsContinuousRotationsSolution):
             return False
-        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep:
+        elif self.in_irrep != other.in_irrep or self.out_irrep != other.out_irrep or self.axis != other.axis:
             return False
-        elif hasattr(self, "s") and not np.allclose(self.s, other.s):
+        elif hasattr(self, "s") and not np.array_equal(self.s, other.s):
             return False
         else:
-            return np.allclose(self.mu, other.mu) and self.invert == other.invert
+            return self.mu == other.mu and self.invert == other.invert and self.disc == other.disc
 
     def __hash__(self):
         return (hash(self.in_irrep) + hash(self.out_irrep) + hash(str(self.mu)) + hash(self.invert))
diff --git a/e2cnn/diffops/steerable_basis.py b/e2cnn/diffops/steerable_basis.py
index 1823bed..5a7f8b3 100644
--- a/e2cnn/diffops/steerable_basis.py
+++ b/e2cnn/diffops/steerable_basis.py
@@ -240,6 +240,8 @@ class SteerableDiffopBasis(DiffopBasis):
             return False
         elif self.in_repr != other.in_repr or self.out_repr != other.out_repr:
             return False
+        elif self.disc != other.disc:
+            return False
         else:
             sbk1 = sorted(self.irreps_bases.keys())
             sbk2 = sorted(other.irreps_bases.keys())
-- 
2.43.0


From bd08198eb6eab01986ea5af6c9e55eed0974cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:29 +0000
Subject: [PATCH 06/43] fix: key the cached kernel/diffop bases by all the
 arguments they depend on

---
 e2cnn/gspaces/r2/general_r2.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/e2cnn/gspaces/r2/general_r2.py b/e2cnn/gspaces/r2/general_r2.py
index b0f6f8a..e59619b 100644
--- a/e2cnn/gspaces/r2/general_r2.py
+++ b/e2cnn/gspaces/r2/general_r2.py
@@ -114,16 +114,16 @@ class GeneralOnR2(GSpace):
         key["rings"] = tuple(rings)
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
             
             basis = self._basis_generator(in_repr, out_repr, rings, sigma, **kwargs)
        
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
 
     def build_diffop_basis(self,
                            in_repr: Representation,
@@ -185,18 +185,20 @@ class GeneralOnR2(GSpace):
         
         # build the key
         key = dict(**kwargs)
+        key["max_power"] = max_power
+        key["discretization"] = discretization
         key = tuple(sorted(key.items()))
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
             
             basis = self._diffop_basis_generator(in_repr, out_repr, max_power, discretization, **kwargs)
        
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
     
     @abstractmethod
     def _basis_generator(self,
-- 
2.43.0


From 3e3dc89267d13ca99c0300b4514c56a79b2e258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:29 +0000
Subject: [PATCH 07/43] fix: do not confuse (or fail to compare)
 representations that share a name

---
 e2cnn/group/representation.py | 2 +-
 e2cnn/nn/field_type.py        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 1647f25..19b2f48 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -331,8 +331,8 @@ class Representation:
         
         return (self.name == other.name
                 and self.group == other.group
-                and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.irreps == other.irreps
+                and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.supported_nonlinearities == other.supported_nonlinearities)
     
     def __repr__(self) -> str:
diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index da617b9..d844605 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -266,10 +266,10 @@ class FieldType:
         # restrict each different base representation in the fiber representation
         restricted_reprs = {}
         for r in self._unique_representations:
-            restricted_reprs[r.name] = self.gspace.fibergroup.restrict_representation(id, r)
+            restricted_reprs[r] = self.gspace.fibergroup.restrict_representation(id, r)
     
         # for each field, retrieve the corresponding restricted representation
-        fields = [restricted_reprs[r.name] for r in self.representations]
+        fields = [restricted_reprs[r] for r in self.representations]
     
         # build the restricted fiber representation
         rrepr = FieldType(subspace, fields)
-- 
2.43.0


From e58631c6f0315886560d0299672b73a658b94ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:34 +0000
Subject: [PATCH 08/43] fix: evaluate_output_shape of R2Conv and R2Diffop with
 a tuple padding

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 6 ++++--
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 51c760b..890116e 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -400,8 +400,10 @@ class R2Conv(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        ph, pw = self.padding if isinstance(self.padding, tuple) else (self.padding, self.padding)
+
+        ho = math.floor((hi + 2 * ph - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        wo = math.floor((wi + 2 * pw - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return b, self.out_type.size, ho, wo
         
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 1b63ae2..1f71d29 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -505,8 +505,10 @@ class R2Diffop(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        ph, pw = self.padding if isinstance(self.padding, tuple) else (self.padding, self.padding)
+
+        ho = math.floor((hi + 2 * ph - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        wo = math.floor((wi + 2 * pw - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From 029d39242751086b5179cee6a18ab949d1c8659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:34 +0000
Subject: [PATCH 09/43] fix: R2ConvTransposed.evaluate_output_shape used the
 formula of the non-transposed convolution

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index 2abfea9..e086e0e 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -250,8 +250,8 @@ class R2ConvTransposed(EquivariantModule):
     
         b, c, hi, wi = input_shape
         
-        ho = math.floor((hi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
-        wo = math.floor((wi + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+        ho = (hi - 1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
+        wo = (wi - 1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From eddba35b34002b94c9903c3206315e2ec49fdc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:34 +0000
Subject: [PATCH 10/43] fix: R2ConvTransposed.export dropped output_padding

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index e086e0e..c91fbae 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -369,6 +369,7 @@ class R2ConvTransposed(EquivariantModule):
                                        self.out_type.size,
                                        self.kernel_size,
                                        padding=self.padding,
+                                       output_padding=self.output_padding,
                                        stride=self.stride,
                                        dilation=self.dilation,
                                        groups=self.groups,
-- 
2.43.0


From 11c591114b4992d1fb49aed1c86fdea221d8aff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:34 +0000
Subject: [PATCH 11/43] fix: export of padding modes was refused on torch >= 2
 because of the version check

---
 e2cnn/nn/modules/r2_conv/r2convolution.py | 2 +-
 e2cnn/nn/modules/r2_conv/r2diffop.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 890116e..73181cd 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -513,7 +513,7 @@ class R2Conv(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 1f71d29..23807ca 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -618,7 +618,7 @@ class R2Diffop(EquivariantModule):
 
         if self.padding_mode not in ['zeros']:
             x, y = torch.__version__.split('.')[:2]
-            if int(x) < 1 or int(y) < 5:
+            if (int(x), int(y)) < (1, 5):
                 if self.padding_mode == 'circular':
                     raise ImportError(
                         "'{}' padding mode had some issues in old `torch` versions. Therefore, we only support conversion from version 1.5 but only version {} is installed.".format(
-- 
2.43.0


From 2228642237dc8b1f9bfbd759869c8f26deefb188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:31 +0000
Subject: [PATCH 12/43] fix: GeometricTensor.split modified the caller's list
 of breaks

---
 e2cnn/nn/geometric_tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 457fb07..9f22665 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -277,7 +277,8 @@ class GeometricTensor:
         if breaks is None:
             breaks = list(range(1, len(self.type)))
             
-        breaks.append(len(self.type))
+        # do not modify the list passed by the caller
+        breaks = list(breaks) + [len(self.type)]
         
         # final list of tensors
         tensors = []
-- 
2.43.0


From 0171e62ece5a6104a2b2f61057f0c28e500a4c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:31 +0000
Subject: [PATCH 13/43] fix: induction from SO(2) to O(2) used the removed
 np.float alias

---
 e2cnn/group/groups/o2group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 13051e9..06df144 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -445,7 +445,7 @@ class O2(Group):
             
             size = P.size
             
-            v = np.zeros((repr.size, size), dtype=np.float)
+            v = np.zeros((repr.size, size), dtype=float)
 
             def build_commuting_matrix(rho, t):
                 k = rho.attributes["frequency"]
-- 
2.43.0


From 1b90f259a65a629a688ac332c8760c7293c622ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:31 +0000
Subject: [PATCH 14/43] fix: quarter turns whose angle carries rounding errors
 are exact grid rotations

---
 e2cnn/gspaces/r2/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/gspaces/r2/utils.py b/e2cnn/gspaces/r2/utils.py
index 126bfef..2d3f6f7 100644
--- a/e2cnn/gspaces/r2/utils.py
+++ b/e2cnn/gspaces/r2/utils.py
@@ -6,11 +6,11 @@ from scipy.ndimage import rotate
 
 def rotate_array(x, angle):
     k = 2 * angle / np.pi
-    if k.is_integer():
+    if np.isclose(k, np.round(k), rtol=0., atol=1e-9):
         # Rotations by 180 and 270 degrees seem to be not perfect using `ndimage.rotate` and can therefore
         # make some tests fail.
         # For this reason, we use `np.rot90` to perform rotations by multiples of 90 degrees without interpolation
-        return np.rot90(x, k, axes=(-2, -1))
+        return np.rot90(x, int(np.round(k)), axes=(-2, -1))
     else:
         return rotate(x, angle * 180.0 / np.pi, (-2, -1), reshape=False, order=2)
 
-- 
2.43.0


From b177089ae866dcc34d33769b3122e41f82e735d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:31 +0000
Subject: [PATCH 15/43] fix: diffops.load_cache discarded the loaded cache

---
 e2cnn/diffops/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/e2cnn/diffops/utils.py b/e2cnn/diffops/utils.py
index 8a0ffe5..b907390 100644
--- a/e2cnn/diffops/utils.py
+++ b/e2cnn/diffops/utils.py
@@ -37,6 +37,7 @@ def load_cache(path: str = "./.e2cnn_cache/diffops.pickle"):
         path (str, optional): the path to the file with discretizations.
         
     """
+    global _DIFFOP_CACHE
     if os.path.exists(path):
         print("Loading cached Diffops")
         with open(path, "rb") as f:
-- 
2.43.0


From b2cd3ce05087f82171ba66f3e2244bf69e951983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:31 +0000
Subject: [PATCH 16/43] fix: evaluate_output_shape of the pointwise pooling
 layers (ceil_mode, missing dilation, adaptive output size)

---
 e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py | 2 +-
 e2cnn/nn/modules/pooling/pointwise_adaptive_max.py | 2 +-
 e2cnn/nn/modules/pooling/pointwise_avg.py          | 9 +++++++--
 e2cnn/nn/modules/pooling/pointwise_max.py          | 5 +++++
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py b/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
index e44d2a9..75c83fb 100644
--- a/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_adaptive_avg.py
@@ -78,7 +78,7 @@ class PointwiseAdaptiveAvgPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        return b, self.out_type.size, self.output_size, self.output_size
+        return (b, self.out_type.size) + tuple(self.output_size)
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
diff --git a/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py b/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
index 403b611..079a4dc 100644
--- a/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_adaptive_max.py
@@ -78,7 +78,7 @@ class PointwiseAdaptiveMaxPool(EquivariantModule):
     
         b, c, hi, wi = input_shape
 
-        return b, self.out_type.size, self.output_size, self.output_size
+        return (b, self.out_type.size) + tuple(self.output_size)
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
diff --git a/e2cnn/nn/modules/pooling/pointwise_avg.py b/e2cnn/nn/modules/pooling/pointwise_avg.py
index ce26012..4e8e818 100644
--- a/e2cnn/nn/modules/pooling/pointwise_avg.py
+++ b/e2cnn/nn/modules/pooling/pointwise_avg.py
@@ -102,12 +102,17 @@ class PointwiseAvgPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
-        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
+        ho = (hi + 2 * self.padding[0] - self.kernel_size[0]) / self.stride[0] + 1
+        wo = (wi + 2 * self.padding[1] - self.kernel_size[1]) / self.stride[1] + 1
         
         if self.ceil_mode:
             ho = math.ceil(ho)
             wo = math.ceil(wo)
+            # the last pooling window has to start inside the input or the left padding
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
         else:
             ho = math.floor(ho)
             wo = math.floor(wo)
diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index cbc9e92..28c4fdc 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -119,6 +119,11 @@ class PointwiseMaxPool(EquivariantModule):
         if self.ceil_mode:
             ho = math.ceil(ho)
             wo = math.ceil(wo)
+            # the last pooling window has to start inside the input or the left padding
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
         else:
             ho = math.floor(ho)
             wo = math.floor(wo)
-- 
2.43.0


From e1fec00e9bbe577d631764808b831112b9f8ee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:31 +0000
Subject: [PATCH 17/43] fix: NormMaxPool with ceil_mode=True

---
 e2cnn/nn/modules/pooling/norm_max.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/e2cnn/nn/modules/pooling/norm_max.py b/e2cnn/nn/modules/pooling/norm_max.py
index 41113a0..371092a 100644
--- a/e2cnn/nn/modules/pooling/norm_max.py
+++ b/e2cnn/nn/modules/pooling/norm_max.py
@@ -221,10 +221,20 @@ class NormMaxPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = math.floor(
-            (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1)
-        wo = math.floor(
-            (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1)
+        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
+        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
+
+        if self.ceil_mode:
+            ho = math.ceil(ho)
+            wo = math.ceil(wo)
+            # the last pooling window has to start inside the input or the left padding
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
+        else:
+            ho = math.floor(ho)
+            wo = math.floor(wo)
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From dc1dc3933b49b4b6cbefa89533314788d5e23a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:31 +0000
Subject: [PATCH 18/43] fix: PointwiseMaxPoolAntialiased.evaluate_output_shape
 ignored the padding of the blurring filter

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index 28c4fdc..f17a122 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -240,6 +240,22 @@ class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type)
 
+    def evaluate_output_shape(self, input_shape: Tuple[int, int, int, int]) -> Tuple[int, int, int, int]:
+        assert len(input_shape) == 4
+        assert input_shape[1] == self.in_type.size
+
+        b, c, hi, wi = input_shape
+
+        # max-pooling with stride 1
+        hi = hi + 2 * self.padding[0] - self.kernel_size[0] + 1
+        wi = wi + 2 * self.padding[1] - self.kernel_size[1] + 1
+
+        # strided convolution with the blurring filter
+        ho = (hi + 2 * self._pad[0] - self.filter.shape[-2]) // self.stride[0] + 1
+        wo = (wi + 2 * self._pad[1] - self.filter.shape[-1]) // self.stride[1] + 1
+
+        return b, self.out_type.size, ho, wo
+
     def export(self):
         r"""
         Export this module to a normal PyTorch :class:`torch.nn.MaxPool2d` module and set to "eval" mode.
-- 
2.43.0


From 0012e952a0db8cda29ed47b47d3cb24923f00345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:57 +0000
Subject: [PATCH 19/43] fix: PointwiseMaxPool.export dropped ceil_mode

---
 e2cnn/nn/modules/pooling/pointwise_max.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/pooling/pointwise_max.py b/e2cnn/nn/modules/pooling/pointwise_max.py
index f17a122..05173cd 100644
--- a/e2cnn/nn/modules/pooling/pointwise_max.py
+++ b/e2cnn/nn/modules/pooling/pointwise_max.py
@@ -143,7 +143,8 @@ class PointwiseMaxPool(EquivariantModule):
     
         self.eval()
     
-        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation).eval()
+        return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation,
+                                  ceil_mode=self.ceil_mode).eval()
 
 
 class PointwiseMaxPoolAntialiased(PointwiseMaxPool):
-- 
2.43.0


From ac11839df0231c2276403cbc4c967c4219d7275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:57 +0000
Subject: [PATCH 20/43] fix: R2Upsampling.export dropped the output size

---
 e2cnn/nn/modules/r2upsampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/e2cnn/nn/modules/r2upsampling.py b/e2cnn/nn/modules/r2upsampling.py
index 7d82754..9a776f4 100644
--- a/e2cnn/nn/modules/r2upsampling.py
+++ b/e2cnn/nn/modules/r2upsampling.py
@@ -201,12 +201,14 @@ class R2Upsampling(EquivariantModule):
         
         if self._align_corners is not None:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
                 align_corners=self._align_corners
             )
         else:
             upsample = torch.nn.Upsample(
+                size=self._size,
                 scale_factor=self._scale_factor,
                 mode=self._mode,
             )
-- 
2.43.0


From bcc5d22d8d4b580ddd6f624d80b1f659f62bb3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:57 +0000
Subject: [PATCH 21/43] fix: MultipleModule.evaluate_output_shape raised
 TypeError

---
 e2cnn/nn/modules/merge_module.py    | 2 +-
 e2cnn/nn/modules/multiple_module.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 5350d6e..5b3a6b7 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -123,7 +123,7 @@ class MergeModule(EquivariantModule):
             
             out_shape[1] += os[1]
         
-        return out_shape
+        return tuple(out_shape)
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
         pass
\ No newline at end of file
diff --git a/e2cnn/nn/modules/multiple_module.py b/e2cnn/nn/modules/multiple_module.py
index b417951..5cdb067 100644
--- a/e2cnn/nn/modules/multiple_module.py
+++ b/e2cnn/nn/modules/multiple_module.py
@@ -126,7 +126,7 @@ class MultipleModule(EquivariantModule):
         
         branches_shapes = self.branching.evaluate_output_shape(input_shape)
         
-        out_shape = self.merging.evaluate_output_shape(branches_shapes)
+        out_shape = self.merging.evaluate_output_shape(**branches_shapes)
         
         return out_shape
 
-- 
2.43.0


From a39c0f9963b7072debe3b7e5af5050fd2a4703ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:57 +0000
Subject: [PATCH 22/43] fix: MergeModule modified the caller's list of modules

---
 e2cnn/nn/modules/merge_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index 5b3a6b7..bc055e7 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -41,6 +41,9 @@ class MergeModule(EquivariantModule):
         
         labels = []
         
+        # do not modify the list passed by the caller
+        modules = list(modules)
+        
         for i in range(len(modules)):
             if isinstance(modules[i][1], str):
                 modules[i] = (modules[i][0], [modules[i][1]])
-- 
2.43.0


From c4515e3eb4ba89b0535b1a97a97898ac71e2b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:12 +0000
Subject: [PATCH 23/43] fix: FieldDropout with p=1 produced NaNs

---
 e2cnn/nn/modules/dropout/field.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index 9082c0d..98b1167 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -32,11 +32,15 @@ def dropout_field(input: torch.Tensor, p: float, training: bool, inplace: bool):
         mask = mask.uniform_() > p
         mask = mask.to(torch.float)
         
+        # when p == 1 the mask is zero everywhere and there is nothing to rescale
+        if p < 1.:
+            mask = mask / (1. - p)
+        
         if inplace:
-            input *= mask / (1. - p)
+            input *= mask
             return input
         else:
-            return input * mask / (1. - p)
+            return input * mask
     else:
         return input
 
-- 
2.43.0


From 206f27eca0853a6f94dbc59e4008c3a1732f6f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:12 +0000
Subject: [PATCH 24/43] fix: in-place FieldDropout had no effect on
 non-contiguous fields

---
 e2cnn/nn/modules/dropout/field.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/dropout/field.py b/e2cnn/nn/modules/dropout/field.py
index 98b1167..9f3175d 100644
--- a/e2cnn/nn/modules/dropout/field.py
+++ b/e2cnn/nn/modules/dropout/field.py
@@ -159,8 +159,11 @@ class FieldDropout(EquivariantModule):
             else:
                 # otherwise we have to use indexing
                 out = dropout_field(input[:, indices, ...].view(shape), self.p, self.training, self.inplace)
-                if not self.inplace:
-                    shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
+                shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
+                if self.inplace:
+                    # indexing returned a copy
+                    input[:, indices, ...] = out.view(shape)
+                else:
                     output[:, indices, ...] = out.view(shape)
             
         if self.inplace:
-- 
2.43.0


From b34adaf0c86e6ebda018edeea6c388745c131622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:24 +0000
Subject: [PATCH 25/43] fix: reset_parameters of the norm batch-norm layers
 (failed with affine=False, randomised the scales)

---
 e2cnn/nn/modules/batchnormalization/induced_norm.py | 7 ++++---
 e2cnn/nn/modules/batchnormalization/norm.py         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/induced_norm.py b/e2cnn/nn/modules/batchnormalization/induced_norm.py
index d3996ba..888b4da 100644
--- a/e2cnn/nn/modules/batchnormalization/induced_norm.py
+++ b/e2cnn/nn/modules/batchnormalization/induced_norm.py
@@ -152,9 +152,10 @@ class InducedNormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.fill_(1)
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
diff --git a/e2cnn/nn/modules/batchnormalization/norm.py b/e2cnn/nn/modules/batchnormalization/norm.py
index f952953..01267f8 100644
--- a/e2cnn/nn/modules/batchnormalization/norm.py
+++ b/e2cnn/nn/modules/batchnormalization/norm.py
@@ -139,9 +139,10 @@ class NormBatchNorm(EquivariantModule):
 
     def reset_parameters(self):
         self.reset_running_stats()
-        for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.uniform_()
+        if self.affine:
+            for s in self._order:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From b87fb4bbae6abb3b303e6bcc1ebe25f3d656b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:42 +0000
Subject: [PATCH 26/43] fix: map of SO(2)/O(2) elements to a finite subgroup
 returned unreduced indices (e.g. -1 or N)

---
 e2cnn/group/groups/o2group.py  | 4 ++--
 e2cnn/group/groups/so2group.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index 06df144..f57885d 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -209,7 +209,7 @@ class O2(Group):
                 # child_mapping = lambda e, order=order: None if (e[0] != 0 or not divides(2.*np.pi/order, e[1])) else \
                 #                                        int(round(e[1] * order / (2.*np.pi)))
                 child_mapping = lambda e, order=order: None if (e[0] != 0 or not utils.cycle_isclose(e[1], 0., 2.*np.pi/order)) else \
-                    int(round(e[1] * order / (2.*np.pi)))
+                    int(round(e[1] * order / (2.*np.pi))) % order
 
             elif id[0] is not None and id[1] > 1:
                 # take the elements of the group generated by "2pi/order" and "2pi/k f"
@@ -217,7 +217,7 @@ class O2(Group):
 
                 parent_mapping = lambda e, order=order, axis=axis: (e[0], e[1] * 2. * np.pi / order + e[0]*axis)
                 child_mapping = lambda e, order=order, axis=axis: None if not utils.cycle_isclose(e[1] - e[0]*axis, 0., 2.*np.pi/order) else \
-                    (e[0], int(round((e[1] - e[0]*axis) * order / (2. * np.pi))))
+                    (e[0], int(round((e[1] - e[0]*axis) * order / (2. * np.pi))) % order)
             else:
                 raise ValueError(f"id '{id}' not recognized")
 
diff --git a/e2cnn/group/groups/so2group.py b/e2cnn/group/groups/so2group.py
index 62e0542..db9755b 100644
--- a/e2cnn/group/groups/so2group.py
+++ b/e2cnn/group/groups/so2group.py
@@ -143,7 +143,7 @@ class SO2(Group):
             sg = CyclicGroup(order)
             parent_mapping = lambda e, order=order: e*2*np.pi/order
             # child_mapping = lambda e, order=order: None if divmod(e, 2.*np.pi/order)[1] > 1e-15 else int(round(e * order / (2.*np.pi)))
-            child_mapping = lambda e, order=order: None if not utils.cycle_isclose(e, 0., 2.*np.pi/order) else int(round(e * order / (2.*np.pi)))
+            child_mapping = lambda e, order=order: None if not utils.cycle_isclose(e, 0., 2.*np.pi/order) else int(round(e * order / (2.*np.pi))) % order
 
             self._subgroups[id] = sg, parent_mapping, child_mapping
     
-- 
2.43.0


From a82412c581be11d5cb445bd0e4b9084476d36b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:48 +0000
Subject: [PATCH 27/43] fix: restriction to O(2)/SO(2) subgroups failed for
 irreps beyond the frequency the subgroup was first built with

---
 e2cnn/group/groups/o2group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/e2cnn/group/groups/o2group.py b/e2cnn/group/groups/o2group.py
index f57885d..f6d7d30 100644
--- a/e2cnn/group/groups/o2group.py
+++ b/e2cnn/group/groups/o2group.py
@@ -258,6 +258,8 @@ class O2(Group):
         if id[0] is not None and id[1] == -1:
             
             change_of_basis = np.eye(irr.size)
+            # the subgroup instance could have been built before the irreps of this group were extended
+            sg.irrep(irr.attributes["flip_frequency"], irr.attributes["frequency"])
             irreps.append(irr.name)
 
             if irr.size == 2:
@@ -266,7 +268,7 @@ class O2(Group):
 
         elif id[0] is None and id[1] == -1:
             f = irr.attributes["frequency"]
-            irreps.append(f"irrep_{f}")
+            irreps.append(sg.irrep(f).name)
             change_of_basis = np.eye(irr.size)
             
         elif id[0] is not None and id[1] == 1:
-- 
2.43.0


From cd3861bb5f2ca3a90cb8da21c8e28a6f21c93419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:55 +0000
Subject: [PATCH 28/43] fix: offset-limited bases repeated their solutions with
 negative frequencies

---
 e2cnn/kernels/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/kernels/utils.py b/e2cnn/kernels/utils.py
index 37c19a4..d7109ee 100644
--- a/e2cnn/kernels/utils.py
+++ b/e2cnn/kernels/utils.py
@@ -34,7 +34,7 @@ def offset_iterator(base_frequency, N, maximum_offset=None, maximum_frequency=No
             min_offset = (minimum_frequency - base_frequency) / N
             max_offset = (maximum_frequency - base_frequency) / N
         else:
-            min_offset = -10000
+            min_offset = (minimum_frequency - base_frequency) / N if non_negative else -10000
             max_offset = 10000
             
         if maximum_offset is not None:
-- 
2.43.0


From 2ec678db8309e2f833ace801b8eed1baa83ef962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:53 +0000
Subject: [PATCH 29/43] fix: GeometricTensor indexing with out-of-range
 integers or slices

---
 e2cnn/nn/geometric_tensor.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/e2cnn/nn/geometric_tensor.py b/e2cnn/nn/geometric_tensor.py
index 9f22665..6324d54 100644
--- a/e2cnn/nn/geometric_tensor.py
+++ b/e2cnn/nn/geometric_tensor.py
@@ -471,6 +471,8 @@ class GeometricTensor:
         for i in range(len(expanded_idxs)):
             if isinstance(expanded_idxs[i], int):
                 idx = expanded_idxs[i]
+                if i == 1 and not -idx_max[i] <= idx < idx_max[i]:
+                    raise IndexError(f"field index {idx} is out of bounds for a type with {idx_max[i]} fields")
                 if idx < 0:
                     # convert a negative index into a positive index
                     idx = idx_max[i] + idx
@@ -487,13 +489,7 @@ class GeometricTensor:
             # contiguous slice over the channels.
             # The slice will start from the first channel of the first field and will stop at the last channel
             # of the last field
-            start = expanded_idxs[1].start if expanded_idxs[1].start is not None else 0
-            stop = expanded_idxs[1].stop if expanded_idxs[1].stop is not None else len(self.type)
-            channel_idxs = slice(
-                self.type.fields_start[start],
-                self.type.fields_end[stop-1],
-                1
-            )
+            start, stop, _ = expanded_idxs[1].indices(len(self.type))
             
             if start == 0 and stop == len(self.type):
                 # if all the fields are retrieved by this index, the resulting tensor has the same field
@@ -503,7 +499,11 @@ class GeometricTensor:
                 # otherwise, only a subset of the fields are preserved
                 type = FieldType(self.type.gspace, self.type.representations[expanded_idxs[1]])
                 
-            expanded_idxs[1] = channel_idxs
+            expanded_idxs[1] = slice(
+                self.type.fields_start[start],
+                self.type.fields_end[stop-1],
+                1
+            )
 
         else:
             # If the index over the fields is not a slice or it is not a contiguous slice, we need to convert it
-- 
2.43.0


From b9328aac8376d235f101d5c9c9ae7562fffaecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:53 +0000
Subject: [PATCH 30/43] fix: FieldType shared the caller's list of
 representations

---
 e2cnn/nn/field_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/field_type.py b/e2cnn/nn/field_type.py
index d844605..16f6f62 100644
--- a/e2cnn/nn/field_type.py
+++ b/e2cnn/nn/field_type.py
@@ -74,7 +74,7 @@ class FieldType:
         self.gspace = gspace
         
         # list: List of representations of each feature field composing the feature space of this type
-        self.representations = representations
+        self.representations = list(representations)
         
         # int: size of the field associated to this type.
         # as the representation associated to the field is the direct sum of the representations
-- 
2.43.0


From b608f0bfffb602e9d4ecec70fa563f3e37f657a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:40 +0000
Subject: [PATCH 31/43] fix: direct sums with a change of basis claimed to
 support basis-dependent non-linearities

---
 e2cnn/group/representation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 19b2f48..3a9043f 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -456,6 +456,7 @@ def directsum(reprs: List[e2cnn.group.Representation],
         cob_inv[p:p + r.size, p:p + r.size] = r.change_of_basis_inv
         p += r.size
 
+    Q = change_of_basis
     if change_of_basis is not None:
         change_of_basis = change_of_basis @ cob
         change_of_basis_inv = sp.linalg.inv(change_of_basis)
@@ -465,6 +466,10 @@ def directsum(reprs: List[e2cnn.group.Representation],
 
     supported_nonlinearities = set.intersection(*[r.supported_nonlinearities for r in reprs])
     
+    if Q is not None:
+        # a generic change of basis only preserves the non-linearities which do not depend on the basis chosen
+        supported_nonlinearities &= {'gated', 'norm'} if np.allclose(Q @ Q.T, np.eye(size)) else {'gated'}
+    
     return Representation(group, name, irreps, change_of_basis, supported_nonlinearities, change_of_basis_inv=change_of_basis_inv)
 
 
-- 
2.43.0


From 0e84dc558ffb5da47b896f20f035e5af1c2dea44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:49 +0000
Subject: [PATCH 32/43] fix: VectorFieldNonLinearity accepted groups of order
 2, which have no vector fields, and failed at run time

---
 e2cnn/nn/modules/nonlinearities/vectorfield.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/nonlinearities/vectorfield.py b/e2cnn/nn/modules/nonlinearities/vectorfield.py
index 41054b6..2e4d8b7 100644
--- a/e2cnn/nn/modules/nonlinearities/vectorfield.py
+++ b/e2cnn/nn/modules/nonlinearities/vectorfield.py
@@ -32,7 +32,8 @@ class VectorFieldNonLinearity(EquivariantModule):
         """
         assert isinstance(in_type.gspace, GeneralOnR2)
         
-        assert in_type.gspace.fibergroup.order() > 1
+        # the output vector fields require a 2-dimensional frequency-1 irrep
+        assert in_type.gspace.fibergroup.order() > 2
         
         for r in in_type.representations:
             assert 'vectorfield' in r.supported_nonlinearities,\
-- 
2.43.0


From fb3846c194a02c086aedac17ebc108f94cd68fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:42 +0000
Subject: [PATCH 33/43] fix: decomposition of representations of groups with
 more than 10 elements (missed a solution, failed on trivial ones)

---
 e2cnn/group/representation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 3a9043f..0887198 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -1080,7 +1080,7 @@ def null(A: Union[np.matrix, sparse.linalg.LinearOperator],
     """
     Compute _bases for the Kernel space of the matrix A.
 
-    If ``use_sparse`` is ``True``, :meth:`scipy.sparse.linalg.svds` is used;
+    If ``use_sparse`` is ``True``, :meth:`scipy.linalg.eigh` is used on the Gram matrix of ``A``;
     otherwise, :meth:`scipy.linalg.svd` is used.
 
     Moreover, if the input is a sparse matrix, ``use_sparse`` has to be set to ``True``.
@@ -1095,7 +1095,11 @@ def null(A: Union[np.matrix, sparse.linalg.LinearOperator],
 
     """
     if use_sparse:
-        u, s, vh = slinalg.svds(A, k=min(A.shape) - 1)
+        # `svds` can not compute all the singular vectors (it misses one of the smallest, i.e. one of the solutions, and
+        # fails on a zero matrix), so compute them from the (small) Gram matrix
+        s, v = linalg.eigh((A.T @ A).toarray())
+        s, vh = np.sqrt(np.maximum(s, 0.)), v.T
+        eps = max(eps, 1e-6)
     else:
         u, s, vh = linalg.svd(A)
     
-- 
2.43.0


From ec4c85a82770276d4432ee5351bcd1e8a9f950fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:41 +0000
Subject: [PATCH 34/43] fix: GNormBatchNorm failed on non-contiguous inputs

---
 e2cnn/nn/modules/batchnormalization/gnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/gnorm.py b/e2cnn/nn/modules/batchnormalization/gnorm.py
index 5dfbc52..1ad0dd5 100644
--- a/e2cnn/nn/modules/batchnormalization/gnorm.py
+++ b/e2cnn/nn/modules/batchnormalization/gnorm.py
@@ -257,9 +257,9 @@ class GNormBatchNorm(EquivariantModule):
                 normalized = torch.einsum("ds,bcsxy->bcdxy", (cob, normalized))
                 
             if not self._contiguous[name]:
-                output[:, indices, ...] = normalized.view(b, -1, h, w)
+                output[:, indices, ...] = normalized.reshape(b, -1, h, w)
             else:
-                output[:, indices[0]:indices[1], ...] = normalized.view(b, -1, h, w)
+                output[:, indices[0]:indices[1], ...] = normalized.reshape(b, -1, h, w)
 
             # if self._contiguous[name]:
             #     slice2 = output[:, indices[0]:indices[1], ...]
-- 
2.43.0


From 1e91f5628a2f6e50f44b0978a37562199904e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:10 +0000
Subject: [PATCH 35/43] fix: MergeModule failed when its first module takes
 several inputs

---
 e2cnn/nn/modules/merge_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/merge_module.py b/e2cnn/nn/modules/merge_module.py
index bc055e7..b08974d 100644
--- a/e2cnn/nn/modules/merge_module.py
+++ b/e2cnn/nn/modules/merge_module.py
@@ -55,7 +55,8 @@ class MergeModule(EquivariantModule):
             labels += modules[i][1]
         
         self.in_type = None
-        self.gspace = modules[0][0].in_type.gspace
+        in_type = modules[0][0].in_type
+        self.gspace = (in_type[0] if isinstance(in_type, tuple) else in_type).gspace
         
         out_repr = []
         
-- 
2.43.0


From 2529be46d3a58f6bfcb242a6e8c4c194ae5ad9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:09 +0000
Subject: [PATCH 36/43] fix: states of layers with interleaved fields could not
 be loaded (overlapping index buffers)

---
 e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
index 21e7b20..ba58993 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
@@ -138,8 +138,8 @@ class BlocksBasisExpansion(BasisExpansion):
 
             else:
                 out_indices, in_indices = torch.meshgrid([_out_indices[io_pair[1]], _in_indices[io_pair[0]]])
-                in_indices = in_indices.reshape(-1)
-                out_indices = out_indices.reshape(-1)
+                in_indices = in_indices.reshape(-1).contiguous()
+                out_indices = out_indices.reshape(-1).contiguous()
                 
                 # register the indices tensors and the bases tensors as parameters of this module
                 self.register_buffer('in_indices_{}'.format(io_pair), in_indices)
-- 
2.43.0


From 2414dd30da4619b5930e4c12e5cb0a384f462dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:16 +0000
Subject: [PATCH 37/43] fix: states of grouped transposed convolutions could
 not be loaded (placeholder of the expanded bias had the size of one group)

---
 e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
index c91fbae..e9c4ee4 100644
--- a/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2_transposed_convolution.py
@@ -145,7 +145,7 @@ class R2ConvTransposed(EquivariantModule):
                 
                 self.register_buffer("bias_expansion", bias_expansion)
                 self.bias = Parameter(torch.zeros(trivials), requires_grad=True)
-                self.register_buffer("expanded_bias", torch.zeros(out_type.size))
+                self.register_buffer("expanded_bias", torch.zeros(self.out_type.size))
             else:
                 self.bias = None
                 self.expanded_bias = None
-- 
2.43.0


From f8f0cab78341d853671104801c47d45fc0b0c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:21 +0000
Subject: [PATCH 38/43] fix: ConcatenatedNonLinearity built a different output
 type at every use of the same representation

---
 e2cnn/nn/modules/nonlinearities/concatenated.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/e2cnn/nn/modules/nonlinearities/concatenated.py b/e2cnn/nn/modules/nonlinearities/concatenated.py
index 4df1959..261a7c7 100644
--- a/e2cnn/nn/modules/nonlinearities/concatenated.py
+++ b/e2cnn/nn/modules/nonlinearities/concatenated.py
@@ -16,6 +16,9 @@ import math
 
 __all__ = ["ConcatenatedNonLinearity"]
 
+# the output representations already built, indexed by the input representation
+_built_representations = {}
+
 
 class ConcatenatedNonLinearity(EquivariantModule):
     
@@ -168,9 +171,9 @@ class ConcatenatedNonLinearity(EquivariantModule):
         # the name of the new representation
         name = "concatenated_{}".format(representation.name)
         
-        if name in group.representations:
+        if representation in _built_representations:
             # if the representation has already been built, return it
-            r = group.representations[name]
+            r = _built_representations[representation]
         else:
             # otherwise, build the new representation
             
@@ -230,6 +233,7 @@ class ConcatenatedNonLinearity(EquivariantModule):
             
             # build the output representation
             r = build_from_discrete_group_representation(rep, name, group, supported_nonlinearities=nonlinearities)
+            _built_representations[representation] = r
         
         return r
 
-- 
2.43.0


From 1744c7584d327f7ef1412aee49fba61870a47683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:45 +0000
Subject: [PATCH 39/43] fix: equality of basis expansions (raised for different
 sampling points, ignored the sizes) and hash consistent with it

---
 e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py      | 3 +++
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
index ba58993..5661cc8 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_blocks.py
@@ -373,6 +373,9 @@ class BlocksBasisExpansion(BasisExpansion):
         if self.dimension() != other.dimension():
             return False
     
+        if (self._input_size, self._output_size, self.S) != (other._input_size, other._output_size, other.S):
+            return False
+    
         if self._representations_pairs != other._representations_pairs:
             return False
     
diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index 185bce4..fcd4791 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -129,6 +129,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
         if isinstance(other, SingleBlockBasisExpansion):
             return (
                     self.basis == other.basis and
+                    self.sampled_basis.shape == other.sampled_basis.shape and
                     torch.allclose(self.sampled_basis, other.sampled_basis) and
                     (self._mask == other._mask).all()
             )
@@ -136,7 +137,7 @@ class SingleBlockBasisExpansion(BasisExpansion):
             return False
 
     def __hash__(self):
-        return 10000 * hash(self.basis) + 100 * hash(self.sampled_basis) + hash(self._mask)
+        return 10000 * hash(self.basis) + 100 * hash(self.sampled_basis.shape) + hash(self._mask.numpy().tobytes())
 
 
 # dictionary storing references to already built basis tensors
-- 
2.43.0


From 0df00c1ab248ddc9d877c54982104fda363cecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:47 +0000
Subject: [PATCH 40/43] fix: converting or moving a layer converted the cached
 basis of all the layers sharing it

---
 e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
index fcd4791..02acab2 100644
--- a/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
+++ b/e2cnn/nn/modules/r2_conv/basisexpansion_singleblock.py
@@ -4,6 +4,7 @@ from .basisexpansion import BasisExpansion
 
 from typing import Callable, Dict, List, Iterable, Union
 
+import copy
 import torch
 import numpy as np
 
@@ -177,7 +178,11 @@ def block_basisexpansion(basis: Basis,
         if key not in _stored_filters:
             _stored_filters[key] = SingleBlockBasisExpansion(basis, points, basis_filter)
         
-        return _stored_filters[key]
+        # the stored tensors are shared among layers: return a copy with its own references to them, such that
+        # converting or moving a layer (e.g. `.double()` or `.to(device)`) does not affect the other ones
+        block = copy.copy(_stored_filters[key])
+        block._buffers = block._buffers.copy()
+        return block
     
     else:
         return SingleBlockBasisExpansion(basis, points, basis_filter)
-- 
2.43.0


From 351051ba066244383ff9ac28fe0c332ae386e68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:00 +0000
Subject: [PATCH 41/43] fix: training an exported layer changed the layer it
 was exported from (shared tensors)

---
 e2cnn/nn/modules/batchnormalization/inner.py | 2 +-
 e2cnn/nn/modules/r2_conv/r2convolution.py    | 4 ++--
 e2cnn/nn/modules/r2_conv/r2diffop.py         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/e2cnn/nn/modules/batchnormalization/inner.py b/e2cnn/nn/modules/batchnormalization/inner.py
index 145d36d..3c95a80 100644
--- a/e2cnn/nn/modules/batchnormalization/inner.py
+++ b/e2cnn/nn/modules/batchnormalization/inner.py
@@ -200,7 +200,7 @@ class InnerBatchNorm(EquivariantModule):
             
             batchnorm.running_var.data[start:end] = bn.running_var.data.view(n, 1).expand(n, s).reshape(-1)
             batchnorm.running_mean.data[start:end] = bn.running_mean.data.view(n, 1).expand(n, s).reshape(-1)
-            batchnorm.num_batches_tracked.data = bn.num_batches_tracked.data
+            batchnorm.num_batches_tracked.data = bn.num_batches_tracked.data.clone()
 
             if num_batches_tracked is None:
                 num_batches_tracked = bn.num_batches_tracked.data
diff --git a/e2cnn/nn/modules/r2_conv/r2convolution.py b/e2cnn/nn/modules/r2_conv/r2convolution.py
index 73181cd..adbfbb6 100644
--- a/e2cnn/nn/modules/r2_conv/r2convolution.py
+++ b/e2cnn/nn/modules/r2_conv/r2convolution.py
@@ -541,9 +541,9 @@ class R2Conv(EquivariantModule):
                                bias=has_bias)
 
         # set the filter and the bias
-        conv.weight.data = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data = _bias.data
+            conv.bias.data = _bias.data.clone()
         
         return conv
 
diff --git a/e2cnn/nn/modules/r2_conv/r2diffop.py b/e2cnn/nn/modules/r2_conv/r2diffop.py
index 23807ca..3b3895b 100644
--- a/e2cnn/nn/modules/r2_conv/r2diffop.py
+++ b/e2cnn/nn/modules/r2_conv/r2diffop.py
@@ -646,9 +646,9 @@ class R2Diffop(EquivariantModule):
                                bias=has_bias)
 
         # set the filter and the bias
-        conv.weight.data = _filter.data
+        conv.weight.data = _filter.data.clone()
         if has_bias:
-            conv.bias.data = _bias.data
+            conv.bias.data = _bias.data.clone()
         
         return conv
 
-- 
2.43.0


From c9632468c2cfcca3dff03fcbcefff8aeb53d4fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:10 +0000
Subject: [PATCH 42/43] fix: store_cache accepts a file name without a
 directory

---
 e2cnn/diffops/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/e2cnn/diffops/utils.py b/e2cnn/diffops/utils.py
index b907390..c044849 100644
--- a/e2cnn/diffops/utils.py
+++ b/e2cnn/diffops/utils.py
@@ -57,7 +57,8 @@ def store_cache(path: str = "./.e2cnn_cache/diffops.pickle"):
         
     """
     directory = os.path.dirname(path)
-    os.makedirs(directory, exist_ok=True)
+    if directory:
+        os.makedirs(directory, exist_ok=True)
     with open(path, "w+b") as f:
         pickle.dump(_DIFFOP_CACHE, f)
 
-- 
2.43.0


From 51c629bbecbd8993ea11313311345957fe7d7d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:22 +0000
Subject: [PATCH 43/43] fix: the search for an orthogonal intertwiner restarts
 when the solver divides by zero

---
 e2cnn/group/representation.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/e2cnn/group/representation.py b/e2cnn/group/representation.py
index 0887198..4c32d50 100644
--- a/e2cnn/group/representation.py
+++ b/e2cnn/group/representation.py
@@ -1145,11 +1145,19 @@ def find_orthogonal_matrix(basis: np.ndarray, shape):
     
     solver = TrustRegions(mingradnorm=1e-10, logverbosity=0)
     
-    Xopt = solver.solve(problem)  # , x=x) #, Delta_bar=np.sqrt(basis.shape[1])*2)
-    
-    c = cost(Xopt)
-    
-    sys.stdout = old_stdout  # sys.__stdout__
+    try:
+        for attempt in range(100):
+            try:
+                Xopt = solver.solve(problem)  # , x=x) #, Delta_bar=np.sqrt(basis.shape[1])*2)
+                break
+            except ZeroDivisionError:
+                # the solver divides by zero if it hits a stationary point exactly: start from another random point
+                if attempt == 99:
+                    raise
+        
+        c = cost(Xopt)
+    finally:
+        sys.stdout = old_stdout  # sys.__stdout__
     
     # print('TrustRegions, Final Error:', c)
     # print('Weights:', Xopt)
-- 
2.43.0


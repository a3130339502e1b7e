From af3a69a81e2b58f3c0de846cc67da59303a0ed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:11 +0000
Subject: [PATCH 01/25] fix: apply the three-body cutoff to all three sides of
 a triple

---
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index d692a13..dec3582 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -153,7 +153,7 @@ def get_atm_dispersion(
     ang = torch.where(
         mask_triples
         * (r2ij <= cutoff2)
-        * (r2jk <= cutoff2)
+        * (r2ik <= cutoff2)
         * (r2jk <= cutoff2),
         0.375 * s / r5 + 1.0 / r3,
         torch.tensor(0.0, **dd),
-- 
2.43.0


From 9cce5ac5ba26dd122c9230790d8918f30e3467fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:11 +0000
Subject: [PATCH 02/25] fix: use the critical radius in optimised-power damping

---
 src/tad_dftd4/damping/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index f4eefec..7956a91 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -481,7 +481,7 @@ class OptimisedPowerDamping(Damping):
         rb = distances**bet
 
         # t6 = rb / (rb * r2**3 + ab * r0ij**6)
-        return rb / (rb * distances**order + ab * distances**order)
+        return rb / (rb * distances**order + ab * radius**order)
 
 
 class ZDamping(Damping):
-- 
2.43.0


From 6629128b94bef761eda7f615c6c9eaf90a8b23b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:11 +0000
Subject: [PATCH 03/25] fix: invert the radius-to-distance ratio of zero
 damping for pairs

---
 src/tad_dftd4/damping/functions.py    | 2 +-
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 7956a91..1b20a4f 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -367,7 +367,7 @@ class ZeroDamping(Damping):
             rs = rs9
 
         # rs6 * r0ij / r1 = rs6 * rvdw(i,j) / sqrt(r2)
-        t_n = rs * storch.divide(distances, radii)
+        t_n = rs * storch.divide(radii, distances)
 
         f_n = 1.0 / (1.0 + 6.0 * t_n**alp_n)
 
diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index dec3582..1daedfe 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -133,10 +133,10 @@ def get_atm_dispersion(
     fdamp = torch.where(
         mask_triples,
         damping_function(
-            r0,
             # dividing by tiny numbers leads to huge numbers, which result in
             # NaN's upon exponentiation in the subsequent step
             torch.where(mask_triples, r1, one),
+            r0,
             order=9,
             alp=alp / 3.0,
             only_damping=True,
-- 
2.43.0


From 3bfd2a3a4cbdd0bdb826a54c603ee751843b72b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:11 +0000
Subject: [PATCH 04/25] fix: look up functional names case-insensitively in
 get_params

---
 src/tad_dftd4/damping/parameters/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/parameters/loader.py b/src/tad_dftd4/damping/parameters/loader.py
index 0be7c12..4d0f25b 100644
--- a/src/tad_dftd4/damping/parameters/loader.py
+++ b/src/tad_dftd4/damping/parameters/loader.py
@@ -101,7 +101,7 @@ def get_params(
         disp_method_section = default_section["parameter"]
     else:
         func_section = table["parameter"]
-        if functional not in func_section:
+        if functional.casefold() not in func_section:
             raise KeyError(
                 f"Functional '{functional!r}' not found in damping parameters."
             )
-- 
2.43.0


From 1e1429625b7357814728195418d226882d6d8183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:11 +0000
Subject: [PATCH 05/25] fix: resolve the default variant before it is looked up
 in get_params

---
 src/tad_dftd4/damping/parameters/loader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tad_dftd4/damping/parameters/loader.py b/src/tad_dftd4/damping/parameters/loader.py
index 4d0f25b..667f65c 100644
--- a/src/tad_dftd4/damping/parameters/loader.py
+++ b/src/tad_dftd4/damping/parameters/loader.py
@@ -88,6 +88,10 @@ def get_params(
     method = DispersionMethod(method)
     table = _load(method)
 
+    # Get default variant if not specified
+    if variant is None:
+        variant = table["default"][method.value][0]
+
     if functional in (None, "default"):
         default_section = table["default"]
 
@@ -113,10 +117,6 @@ def get_params(
                 f"for '{functional!r}'."
             )
 
-    # Get default variant if not specified
-    if variant is None:
-        variant = table["default"][method.value][0]
-
     variant_section = disp_method_section[method.value]
     if variant not in variant_section:
         raise KeyError(
-- 
2.43.0


From 863e1f8619d9718883866186d082a898bc8b76cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:33 +0000
Subject: [PATCH 06/25] fix: resolve D4S polarizabilities by atom instead of
 averaging over the molecule

---
 src/tad_dftd4/model/d4s.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 539dab0..55ef782 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -307,13 +307,15 @@ class D4SModel(BaseModel):
             Weighted polarizabilities of shape ``(..., nat, 23)``.
         """
         mask = real_atoms(self.numbers)
-        nat = mask.sum(dim=-1, keepdim=True)
+        nat = mask.sum(dim=-1)[..., None, None]
 
         a = self._get_alpha()
 
-        # Since we sum over one of the atom dimensions here, we need to
-        # divide by the number of atoms.
-        return einsum("...mnr,...nrw->...mw", gw, a) / nat
+        # Average over the partner dimension (real atoms only): sum over the
+        # partners and divide by the number of atoms.
+        return (
+            einsum("...m,...mnr,...nrw->...nw", mask.type(a.dtype), gw, a) / nat
+        )
 
 
 class D4SDebug(D4SModel):
-- 
2.43.0


From f6ef16f665cba836f003dc14751c95aa68d9094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:59 +0000
Subject: [PATCH 07/25] fix: return atom-resolved static polarizabilities for
 D4S

---
 src/tad_dftd4/model/base.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index db64219..5ed6dbc 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -45,7 +45,6 @@ from abc import abstractmethod
 import torch
 from tad_mctc import storch
 from tad_mctc.convert import any_to_tensor
-from tad_mctc.math import einsum
 from tad_mctc.typing import Literal, Tensor, TensorLike, overload
 
 from .. import data
@@ -298,8 +297,8 @@ class BaseModel(TensorLike):
         Tensor
             Polarizabilities of shape ``(..., nat)``.
         """
-        # (..., n, r) * (..., n, r) -> (..., n)
-        return einsum("...nr,...nr->...n", weights, self._get_alpha()[..., 0])
+        # first frequency is the static limit: (..., n, 23) -> (..., n)
+        return self.get_weighted_pols(weights)[..., 0]
 
     ###################
     # Private methods #
-- 
2.43.0


From 470f0932eacb1303abfac3b9c9c07228c3c6f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:21 +0000
Subject: [PATCH 08/25] fix: keep atomic numbers integer when changing a
 model's dtype or device

---
 src/tad_dftd4/model/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index 5ed6dbc..dcb96d1 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -149,6 +149,17 @@ class BaseModel(TensorLike):
         self.wf = self._get_wf() if wf is None else any_to_tensor(wf, **self.dd)
         self.rc6 = self._get_refc6() if rc6 is None else rc6
 
+    def _clone_tensorlike(
+        self,
+        *,
+        device: torch.device | None = None,
+        dtype: torch.dtype | None = None,
+    ) -> BaseModel:
+        """Clone with new device and dtype, but keep integer atomic numbers."""
+        new = super()._clone_tensorlike(device=device, dtype=dtype)
+        new.numbers = self.numbers.to(new.device)
+        return new
+
     ####################
     # Abstract methods #
     ####################
-- 
2.43.0


From ce86d7cd359d126fa13a192661387738773accf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:14 +0000
Subject: [PATCH 09/25] fix: accept one total charge for a batch and one per
 system for any batch shape

---
 src/tad_dftd4/disp.py            |  8 +++++++-
 src/tad_dftd4/dispersion/base.py |  6 +++++-
 src/tad_dftd4/utils.py           | 33 +++++++++++++++++++++++++++++++-
 3 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index 62436c5..83f59ce 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -37,6 +37,7 @@ from .dispersion import Disp
 from .dispersion.d4 import D4ATMApprox
 from .dispersion.twobody import TwoBodyTerm
 from .model import D4Model, ModelInst, ModelKey
+from .utils import expand_charge
 
 __all__ = ["dftd4", "get_properties"]
 
@@ -187,7 +188,12 @@ def get_properties(
         charge = any_to_tensor(charge, **dd)
 
     cn = cn_d4(numbers, positions)
-    q = get_eeq_charges(numbers, positions, charge, cutoff=cutoff.cn_eeq)
+    q = get_eeq_charges(
+        numbers,
+        positions,
+        expand_charge(charge, numbers),
+        cutoff=cutoff.cn_eeq,
+    )
 
     model = D4Model(numbers, **dd)
     weights = model.weight_references(cn, q)
diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index 7d4fd34..cc57fb8 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -33,6 +33,7 @@ from tad_mctc.typing import DD, Any, CNFunc, Tensor, TensorLike
 from ..cutoff import Cutoff
 from ..damping import Damping, Param
 from ..model import ModelInst, ModelKey
+from ..utils import expand_charge
 
 
 class DispTerm(TensorLike, ABC):
@@ -403,7 +404,10 @@ class Disp(TensorLike):
             from tad_multicharge import get_eeq_charges
 
             q = get_eeq_charges(
-                numbers, positions, charge, cutoff=cutoff.cn_eeq
+                numbers,
+                positions,
+                expand_charge(charge, numbers),
+                cutoff=cutoff.cn_eeq,
             )
 
         if q is not None:
diff --git a/src/tad_dftd4/utils.py b/src/tad_dftd4/utils.py
index b7700df..9b714e1 100644
--- a/src/tad_dftd4/utils.py
+++ b/src/tad_dftd4/utils.py
@@ -27,7 +27,13 @@ import torch
 from tad_mctc.math import einsum
 from tad_mctc.typing import Tensor
 
-__all__ = ["trapzd", "trapzd_atm", "trapzd_noref", "is_exceptional"]
+__all__ = [
+    "trapzd",
+    "trapzd_atm",
+    "trapzd_noref",
+    "expand_charge",
+    "is_exceptional",
+]
 
 
 def trapzd(pol1: Tensor, pol2: Tensor | None = None) -> Tensor:
@@ -205,6 +211,31 @@ def trapzd_atm(pol: Tensor) -> Tensor:
     return thopi * einsum("...ijkw,w->...ijk", pol, weights)
 
 
+def expand_charge(charge: Tensor, numbers: Tensor) -> Tensor:
+    """
+    Bring the total charge into the shape ``(..., 1)`` of the EEQ solver.
+
+    Parameters
+    ----------
+    charge : Tensor
+        Total charge: one value for all systems or one value per system.
+    numbers : Tensor
+        Atomic numbers for all atoms in the system of shape ``(..., nat)``.
+
+    Returns
+    -------
+    Tensor
+        Total charge of shape ``(..., 1)``. Any other shape is left untouched.
+    """
+    batch = numbers.shape[:-1]
+
+    if charge.ndim == 0:
+        return charge.expand(*batch, 1)
+    if charge.shape == batch:
+        return charge.unsqueeze(-1)
+    return charge
+
+
 def is_exceptional(x: Tensor, dtype: torch.dtype) -> Tensor:
     """
     Check if a tensor is exceptional (``NaN`` or too large).
-- 
2.43.0


From 1ed152dadaf6b683bca05611aecc76a93e80bd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:10 +0000
Subject: [PATCH 10/25] fix: keep weight gradients finite when all reference
 Gaussians underflow

---
 src/tad_dftd4/model/d4.py  | 9 +++++++--
 src/tad_dftd4/model/d4s.py | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/tad_dftd4/model/d4.py b/src/tad_dftd4/model/d4.py
index 8463e20..3487121 100644
--- a/src/tad_dftd4/model/d4.py
+++ b/src/tad_dftd4/model/d4.py
@@ -203,15 +203,20 @@ class D4Model(BaseModel):
             torch.tensor(1e-300, device=self.device, dtype=torch.double),
         )
 
+        # All Gaussians underflow far beyond the reference CNs. The division must
+        # not see this norm, because its backward pass would produce NaNs.
+        underflow = mask & (norm < 1e-300)
+        safe_norm = torch.where(underflow, torch.ones_like(norm), norm)
+
         # back to real dtype
-        gw_temp = (expw / norm).type(self.dtype)
+        gw_temp = (expw / safe_norm).type(self.dtype)
 
         # maximum reference CN for each atom
         maxcn = torch.max(refcn, dim=-1, keepdim=True)[0]
 
         # prevent division by 0 and small values
         gw = torch.where(
-            is_exceptional(gw_temp, self.dtype),
+            underflow | is_exceptional(gw_temp, self.dtype),
             torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),
             gw_temp,
         )
diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 55ef782..f88ced2 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -222,15 +222,20 @@ class D4SModel(BaseModel):
             torch.tensor(1e-300, device=self.device, dtype=torch.double),
         )
 
+        # All Gaussians underflow far beyond the reference CNs. The division must
+        # not see this norm, because its backward pass would produce NaNs.
+        underflow = mask & (norm < 1e-300)
+        safe_norm = torch.where(underflow, torch.ones_like(norm), norm)
+
         # back to real dtype
-        gw_temp = (expw / norm).type(self.dtype)
+        gw_temp = (expw / safe_norm).type(self.dtype)
 
         # maximum reference CN for each atom
         maxcn = torch.max(refcn, dim=-1, keepdim=True)[0]
 
         # prevent division by 0 and small values
         gw = torch.where(
-            is_exceptional(gw_temp, self.dtype),
+            underflow | is_exceptional(gw_temp, self.dtype),
             torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),
             gw_temp,
         )
-- 
2.43.0


From c73f1bb1adaf10ff444bdddd1d382cdbc5a63c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:34 +0000
Subject: [PATCH 11/25] fix: accept a scalar weighting factor and batches in
 the D4S weighting

---
 src/tad_dftd4/model/d4s.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index f88ced2..ef70075 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -194,7 +194,8 @@ class D4SModel(BaseModel):
         # ordering of the zeta function. Inserting in `-2` does not work!
         #
         # (..., n1, nref) * (..., n1, nref) * (n1, n2) -> (..., n2, n1, nref)
-        arg = einsum("...mnr,...mnr,...nm->...mnr", -dcn, dcn, self.wf)
+        wf = self.wf.expand(*_refc.shape[:-1], _refc.shape[-2])
+        arg = einsum("...mnr,...mnr,...nm->...mnr", -dcn, dcn, wf)
         tmp = torch.where(mask, torch.exp(arg), zero_double)
 
         # Gaussian weighting function part 2: tmp^(igw)
@@ -332,5 +333,5 @@ class D4SDebug(D4SModel):
 
     def _get_wf(self) -> Tensor:
         """Pairwise weighting factor."""
-        s = self.numbers.size(0)
-        return torch.full((s, s), WF_DEFAULT, **self.dd)
+        shape = (*self.numbers.shape, self.numbers.shape[-1])
+        return torch.full(shape, WF_DEFAULT, **self.dd)
-- 
2.43.0


From e3b444beb8a0c41c336fd75260944f617a858fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 12/25] fix: keep the charge scaling finite for vanishing
 effective charge

---
 src/tad_dftd4/model/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index dcb96d1..abd900c 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -336,10 +336,15 @@ class BaseModel(TensorLike):
         eps = torch.tensor(torch.finfo(self.dtype).eps, **self.dd)
         ga = torch.tensor(self.ga, **self.dd)
 
+        # The exponential overflows for vanishing or negative `qmod`, which gives
+        # NaN in the backward pass although this branch is not selected.
+        mask = qmod > eps
+        qmod = torch.where(mask, qmod, torch.ones_like(qmod))
+
         scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))
 
         return torch.where(
-            qmod > 0.0,
+            mask,
             torch.exp(ga * (1.0 - scale)),
             torch.exp(ga),
         )
@@ -365,11 +370,14 @@ class BaseModel(TensorLike):
         eps = torch.tensor(torch.finfo(self.dtype).eps, **self.dd)
         ga = torch.tensor(self.ga, **self.dd)
 
+        mask = qmod > eps
+        qmod = torch.where(mask, qmod, torch.ones_like(qmod))
+
         scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))
         zeta = torch.exp(ga * (1.0 - scale))
 
         return torch.where(
-            qmod > 0.0,
+            mask,
             -ga * gam * scale * zeta * storch.divide(qref, qmod**2),
             torch.tensor(0.0, **self.dd),
         )
-- 
2.43.0


From 5ded360a44b5007fc280ea72e66ac33027c39910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:02 +0000
Subject: [PATCH 13/25] fix: keep parameter derivatives finite by not damping
 masked pairs at zero distance or radius

---
 src/tad_dftd4/dispersion/twobody.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index b168dd2..dbe5a08 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -137,11 +137,13 @@ def dispersion2(
     if cutoff is None:
         cutoff = torch.tensor(defaults.D4_DISP2_CUTOFF, **dd)
 
+    # The damping functions overflow for vanishing distances or radii, which
+    # gives NaN in the backward pass although these pairs are masked out later.
+    one = torch.tensor(1.0, **dd)
+
     mask = real_pairs(numbers, mask_diagonal=True)
     distances = torch.where(
-        mask,
-        storch.cdist(positions, positions, p=2),
-        torch.tensor(torch.finfo(positions.dtype).eps, **dd),
+        mask, storch.cdist(positions, positions, p=2), one
     )
 
     qq = 3 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)
@@ -156,6 +158,8 @@ def dispersion2(
     else:
         raise ValueError(f"Unknown radius type: {damping_function.radius_type}")
 
+    radii = torch.where(mask, radii, one)
+
     t6 = torch.where(
         mask * (distances <= cutoff),
         damping_function(distances, radii, 6, **param),
-- 
2.43.0


From 5264f326052c56170c7b5e5f336f76c1e1bd85c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:17 +0000
Subject: [PATCH 14/25] fix: avoid underflow in the analytical CN derivative of
 the weights

---
 src/tad_dftd4/model/d4.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/model/d4.py b/src/tad_dftd4/model/d4.py
index 3487121..b1998e9 100644
--- a/src/tad_dftd4/model/d4.py
+++ b/src/tad_dftd4/model/d4.py
@@ -254,9 +254,12 @@ class D4Model(BaseModel):
             # no mask needed here, already masked in `dexpw`
             dnorm = torch.sum(dexpw, dim=-1, keepdim=True)
 
-            _dgw = (dexpw - expw * dnorm / norm) / norm
+            # divide first, the product of two small numbers underflows
+            _dgw = (dexpw - expw * (dnorm / norm)) / norm
             dgw = torch.where(
-                is_exceptional(_dgw, self.dtype), zero, _dgw.type(self.dtype)
+                underflow | is_exceptional(_dgw, self.dtype),
+                zero,
+                _dgw.type(self.dtype),
             )
 
             outputs.append(zeta * dgw)
-- 
2.43.0


From b37e21cfcfc7ab301902a2be5d981e75c579d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:00 +0000
Subject: [PATCH 15/25] fix: reject van der Waals radii that are not pairwise

---
 src/tad_dftd4/dispersion/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index cc57fb8..cda63b3 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -381,7 +381,7 @@ class Disp(TensorLike):
 
         if rvdw is None:
             rvdw = self.get_rvdw(numbers)
-        if numbers.shape != rvdw.shape[:-1]:
+        if (*numbers.shape, numbers.shape[-1]) != rvdw.shape:
             raise ValueError(
                 f"Shape of van der Waals radii ({rvdw.shape}) is not "
                 f"consistent with atomic numbers ({numbers.shape}).",
-- 
2.43.0


From e53be761d927eaec48f446d992e42f40d04f5fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:14 +0000
Subject: [PATCH 16/25] fix: do not share the list of terms between a method
 and its converted copy

---
 src/tad_dftd4/dispersion/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index cda63b3..80d4713 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -213,6 +213,17 @@ class Disp(TensorLike):
             kw = {} if kw is None else kw.copy()
             self.register(term_cls(**kw))
 
+    def _clone_tensorlike(
+        self,
+        *,
+        device: torch.device | None = None,
+        dtype: torch.dtype | None = None,
+    ) -> Disp:
+        """Clone with new device and dtype, but do not share the terms."""
+        new = super()._clone_tensorlike(device=device, dtype=dtype)
+        new.terms = list(self.terms)
+        return new
+
     def register(self, term: DispTerm) -> None:
         self.terms.append(term)
 
-- 
2.43.0


From cbd798a124b0d56e5d5d2234b79c63818f47a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:40 +0000
Subject: [PATCH 17/25] fix: add the C10 energy out of place so that the energy
 can be vectorised over s10

---
 src/tad_dftd4/dispersion/twobody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index dbe5a08..8a183ef 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -198,7 +198,7 @@ def dispersion2(
         else:
             e10 = torch.sum(c10 * t10, dim=-1)
 
-        edisp += param["s10"] * e10
+        edisp = edisp + param["s10"] * e10
 
     if as_matrix is True:
         return -edisp
-- 
2.43.0


From c0a1db1261898a6e0b8695d1268c0040e7533722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:02 +0000
Subject: [PATCH 18/25] fix: keep forces finite for very large separations in
 single precision by masking pairs and triples outside the cutoff before
 damping

---
 src/tad_dftd4/dispersion/threebody.py | 14 ++++++++++----
 src/tad_dftd4/dispersion/twobody.py   | 18 +++++++++---------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index 1daedfe..163b67d 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -122,6 +122,15 @@ def get_atm_dispersion(
     r2ij = distances.unsqueeze(-1)
     r2ik = distances.unsqueeze(-2)
     r2jk = distances.unsqueeze(-3)
+
+    # mask early, as the backward pass overflows for very large distances
+    mask_triples = (
+        mask_triples
+        * (r2ij <= cutoff2)
+        * (r2ik <= cutoff2)
+        * (r2jk <= cutoff2)
+    )
+
     r2 = r2ij * r2ik * r2jk
     r1 = torch.sqrt(r2)
     # add epsilon to avoid zero division later
@@ -151,10 +160,7 @@ def get_atm_dispersion(
     )
 
     ang = torch.where(
-        mask_triples
-        * (r2ij <= cutoff2)
-        * (r2ik <= cutoff2)
-        * (r2jk <= cutoff2),
+        mask_triples,
         0.375 * s / r5 + 1.0 / r3,
         torch.tensor(0.0, **dd),
     )
diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index 8a183ef..2f9313f 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -137,14 +137,14 @@ def dispersion2(
     if cutoff is None:
         cutoff = torch.tensor(defaults.D4_DISP2_CUTOFF, **dd)
 
-    # The damping functions overflow for vanishing distances or radii, which
-    # gives NaN in the backward pass although these pairs are masked out later.
+    # The damping functions overflow for vanishing distances or radii and for
+    # very large distances, which gives NaN in the backward pass although these
+    # pairs are masked out later.
     one = torch.tensor(1.0, **dd)
 
-    mask = real_pairs(numbers, mask_diagonal=True)
-    distances = torch.where(
-        mask, storch.cdist(positions, positions, p=2), one
-    )
+    distances = storch.cdist(positions, positions, p=2)
+    mask = real_pairs(numbers, mask_diagonal=True) * (distances <= cutoff)
+    distances = torch.where(mask, distances, one)
 
     qq = 3 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)
     c8 = c6 * qq
@@ -161,12 +161,12 @@ def dispersion2(
     radii = torch.where(mask, radii, one)
 
     t6 = torch.where(
-        mask * (distances <= cutoff),
+        mask,
         damping_function(distances, radii, 6, **param),
         zero,
     )
     t8 = torch.where(
-        mask * (distances <= cutoff),
+        mask,
         damping_function(distances, radii, 8, **param),
         zero,
     )
@@ -188,7 +188,7 @@ def dispersion2(
     if "s10" in param:
         c10 = c6 * torch.pow(qq, 2) * 49.0 / 40.0
         t10 = torch.where(
-            mask * (distances <= cutoff),
+            mask,
             damping_function(distances, radii, 10, **param),
             zero,
         )
-- 
2.43.0


From bf449d152fd5d33e38e34d324027c900131aaf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:32 +0000
Subject: [PATCH 19/25] fix: honour only_damping in rational, modified-zero and
 optimised-power damping

---
 src/tad_dftd4/damping/functions.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 1b20a4f..cb5eebd 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -302,7 +302,12 @@ class RationalDamping(Damping):
         assert a1 is not None and a2 is not None
 
         radius = a1 * torch.sqrt(radii) + a2
-        return 1.0 / (distances.pow(order) + radius.pow(order))
+        damped = 1.0 / (distances.pow(order) + radius.pow(order))
+
+        if only_damping is True:
+            return distances.pow(order) * damped
+
+        return damped
 
 
 class ZeroDamping(Damping):
@@ -431,6 +436,10 @@ class MZeroDamping(Damping):
 
         # f6 / r6
         fn = 1.0 / (1.0 + 6.0 * t_n ** (-alp_n))
+
+        if only_damping is True:
+            return fn
+
         return storch.divide(fn, distances**order)
 
 
@@ -481,7 +490,12 @@ class OptimisedPowerDamping(Damping):
         rb = distances**bet
 
         # t6 = rb / (rb * r2**3 + ab * r0ij**6)
-        return rb / (rb * distances**order + ab * radius**order)
+        damped = rb / (rb * distances**order + ab * radius**order)
+
+        if only_damping is True:
+            return distances**order * damped
+
+        return damped
 
 
 class ZDamping(Damping):
-- 
2.43.0


From ba7a4ce81c6e8a40f3fd2e555f341cd07def067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:48 +0000
Subject: [PATCH 20/25] fix: reject total charges that are resolved by atom

---
 src/tad_dftd4/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/utils.py b/src/tad_dftd4/utils.py
index 9b714e1..e1b5382 100644
--- a/src/tad_dftd4/utils.py
+++ b/src/tad_dftd4/utils.py
@@ -225,7 +225,7 @@ def expand_charge(charge: Tensor, numbers: Tensor) -> Tensor:
     Returns
     -------
     Tensor
-        Total charge of shape ``(..., 1)``. Any other shape is left untouched.
+        Total charge of shape ``(..., 1)``.
     """
     batch = numbers.shape[:-1]
 
@@ -233,6 +233,11 @@ def expand_charge(charge: Tensor, numbers: Tensor) -> Tensor:
         return charge.expand(*batch, 1)
     if charge.shape == batch:
         return charge.unsqueeze(-1)
+    if charge.shape[-1] != 1:
+        raise ValueError(
+            f"Shape of total charge ({charge.shape}) is not consistent with "
+            f"atomic numbers ({numbers.shape}).",
+        )
     return charge
 
 
-- 
2.43.0


From 0eebbd6fe85500f9d302e1fd0aebab276ba26fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:34 +0000
Subject: [PATCH 21/25] fix: reject positions without three Cartesian
 components

---
 src/tad_dftd4/disp.py            | 6 ++++++
 src/tad_dftd4/dispersion/base.py | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index 83f59ce..6aedd0a 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -179,6 +179,12 @@ def get_properties(
     """
     dd: DD = {"device": positions.device, "dtype": positions.dtype}
 
+    if (*numbers.shape, 3) != positions.shape:
+        raise ValueError(
+            f"Shape of positions ({positions.shape}) is not consistent "
+            f"with atomic numbers ({numbers.shape}).",
+        )
+
     if cutoff is None:
         cutoff = Cutoff(**dd)
 
diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index 80d4713..68008a2 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -363,7 +363,7 @@ class Disp(TensorLike):
 
         charge = any_to_tensor(charge, **dd)
 
-        if numbers.shape != positions.shape[:-1]:
+        if (*numbers.shape, 3) != positions.shape:
             raise ValueError(
                 f"Shape of positions ({positions.shape}) is not consistent "
                 f"with atomic numbers ({numbers.shape}).",
-- 
2.43.0


From 371e28a84a78b4c3d6ac0d47ec52d26050580203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:27 +0000
Subject: [PATCH 22/25] fix: keep second derivatives with respect to alp finite
 by not damping masked triples at zero radius

---
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index 163b67d..3b6edc7 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -145,7 +145,7 @@ def get_atm_dispersion(
             # dividing by tiny numbers leads to huge numbers, which result in
             # NaN's upon exponentiation in the subsequent step
             torch.where(mask_triples, r1, one),
-            r0,
+            torch.where(mask_triples, r0, one),
             order=9,
             alp=alp / 3.0,
             only_damping=True,
-- 
2.43.0


From 1f0e326d994fdc62a45d99661af5e87ed2fa4845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:01 +0000
Subject: [PATCH 23/25] fix: return zero instead of NaN D4S polarizabilities
 for batch members without atoms

---
 src/tad_dftd4/model/d4s.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index ef70075..5283207 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -313,7 +313,7 @@ class D4SModel(BaseModel):
             Weighted polarizabilities of shape ``(..., nat, 23)``.
         """
         mask = real_atoms(self.numbers)
-        nat = mask.sum(dim=-1)[..., None, None]
+        nat = mask.sum(dim=-1).clamp(min=1)[..., None, None]
 
         a = self._get_alpha()
 
-- 
2.43.0


From d5c410c235625b29bc143fdf34b233b62b96768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:30 +0000
Subject: [PATCH 24/25] fix: keep mixed second derivatives of optimised-power
 damping at zero exponent

---
 src/tad_dftd4/damping/functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index cb5eebd..839d478 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -484,10 +484,13 @@ class OptimisedPowerDamping(Damping):
             )
 
         radius = a1 * torch.sqrt(radii) + a2
-        ab = radius**bet
+
+        # `pow` loses the mixed derivatives with respect to base and exponent if
+        # the exponent is exactly zero, hence x**bet = exp(bet * log(x))
+        ab = torch.exp(torch.xlogy(bet, radius))
 
         # r2**(bet * 0.5)
-        rb = distances**bet
+        rb = torch.exp(torch.xlogy(bet, distances))
 
         # t6 = rb / (rb * r2**3 + ab * r0ij**6)
         damped = rb / (rb * distances**order + ab * radius**order)
-- 
2.43.0


From cbda2d1c2248548214d14162c7feb9da4de2aa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:09 +0000
Subject: [PATCH 25/25] fix: convert the total charge in the precision of the
 positions, not of the global default

---
 src/tad_dftd4/disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index 6aedd0a..7cd630a 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -137,7 +137,7 @@ def dftd4(
     return disp.calculate(
         numbers,
         positions,
-        any_to_tensor(charge),
+        any_to_tensor(charge, **dd),
         param,
         cutoff=cutoff,
         q=q,
-- 
2.43.0


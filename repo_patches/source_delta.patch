From 1557fdd8d6888f71eeec3546e8a98f7c18cc4ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 01/52] fix: integer room sizes, positions and trajectories are
 promoted to floating point

Room.shoebox(size=[6, 4, 3], beta=[0.9] * 6) cast beta to int64 zeros and integer
trajectories/positions made the simulation run in an integer dtype.
---
 src/torchrir/models/room.py     |  6 +++---
 src/torchrir/sim/ism/prepare.py |  4 +++-
 src/torchrir/util/tensor.py     | 12 ++++++++++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/models/room.py b/src/torchrir/models/room.py
index 3dec243..03cf6e2 100644
--- a/src/torchrir/models/room.py
+++ b/src/torchrir/models/room.py
@@ -8,7 +8,7 @@ from typing import Optional, Sequence
 import torch
 from torch import Tensor
 
-from ..util.tensor import as_tensor, ensure_dim
+from ..util.tensor import as_tensor, ensure_dim, ensure_floating
 
 
 @dataclass(frozen=True)
@@ -29,7 +29,7 @@ class Room:
 
     def __post_init__(self) -> None:
         """Validate room size and reflection parameters."""
-        size = ensure_dim(self.size)
+        size = ensure_floating(ensure_dim(self.size))
         if not torch.all(torch.isfinite(size)):
             raise ValueError("room size must contain finite values")
         if torch.any(size <= 0):
@@ -212,7 +212,7 @@ def _validate_orientation(
 
 
 def _normalize_entity_positions(positions: Tensor, *, name: str) -> Tensor:
-    pos = as_tensor(positions)
+    pos = ensure_floating(as_tensor(positions))
     if pos.ndim == 1:
         pos = pos.unsqueeze(0)
     if pos.ndim != 2 or pos.shape[1] not in (2, 3):
diff --git a/src/torchrir/sim/ism/prepare.py b/src/torchrir/sim/ism/prepare.py
index 3afce79..e03ba71 100644
--- a/src/torchrir/sim/ism/prepare.py
+++ b/src/torchrir/sim/ism/prepare.py
@@ -9,7 +9,7 @@ from torch import Tensor
 
 from ...models import MicrophoneArray, Room, Source
 from ...util.device import infer_device_dtype, resolve_device
-from ...util.tensor import as_tensor, ensure_dim
+from ...util.tensor import as_tensor, ensure_dim, floating_dtype
 from .helpers import _prepare_entities
 
 
@@ -44,6 +44,7 @@ def _prepare_static_tensors(
     device, dtype = infer_device_dtype(
         src_pos, mic_pos, room.size, device=device, dtype=dtype
     )
+    dtype = floating_dtype(dtype)
     src_pos = as_tensor(src_pos, device=device, dtype=dtype)
     mic_pos = as_tensor(mic_pos, device=device, dtype=dtype)
     if src_ori is not None:
@@ -89,6 +90,7 @@ def _prepare_dynamic_tensors(
     device, dtype = infer_device_dtype(
         src_traj, mic_traj, room.size, device=device, dtype=dtype
     )
+    dtype = floating_dtype(dtype)
     src_traj = as_tensor(src_traj, device=device, dtype=dtype)
     mic_traj = as_tensor(mic_traj, device=device, dtype=dtype)
 
diff --git a/src/torchrir/util/tensor.py b/src/torchrir/util/tensor.py
index 4e7da48..afd273e 100644
--- a/src/torchrir/util/tensor.py
+++ b/src/torchrir/util/tensor.py
@@ -29,6 +29,18 @@ def as_tensor(
     return torch.as_tensor(value, device=device, dtype=dtype)
 
 
+def floating_dtype(dtype: torch.dtype) -> torch.dtype:
+    """Return dtype, or the default floating dtype for integer/bool dtypes."""
+    if dtype.is_floating_point or dtype.is_complex:
+        return dtype
+    return torch.get_default_dtype()
+
+
+def ensure_floating(value: Tensor) -> Tensor:
+    """Promote integer/bool tensors to the default floating dtype."""
+    return value.to(floating_dtype(value.dtype))
+
+
 def ensure_dim(size: Tensor) -> Tensor:
     """Validate room size dimensionality (2D or 3D)."""
     if size.ndim != 1 or size.numel() not in (2, 3):
-- 
2.43.0


From 5782cc3ffff8f17817102219a1e3ee0b3d5881db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 02/52] fix: Sabine helpers accept integer room sizes

An integer size tensor truncated every coefficient to 0 (or 1).
---
 src/torchrir/util/acoustics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/util/acoustics.py b/src/torchrir/util/acoustics.py
index 1d4b15a..7102e93 100644
--- a/src/torchrir/util/acoustics.py
+++ b/src/torchrir/util/acoustics.py
@@ -8,7 +8,7 @@ from typing import Optional
 import torch
 from torch import Tensor
 
-from .tensor import as_tensor, ensure_dim, extend_size
+from .tensor import as_tensor, ensure_dim, ensure_floating, extend_size
 
 _DEF_SPEED_OF_SOUND = 343.0
 
@@ -33,7 +33,7 @@ def estimate_beta_from_t60(
     """
     if t60 <= 0:
         raise ValueError("t60 must be positive")
-    size = as_tensor(size, device=device, dtype=dtype)
+    size = ensure_floating(as_tensor(size, device=device, dtype=dtype))
     size = ensure_dim(size)
     dim = size.numel()
     if dim == 2:
@@ -69,7 +69,7 @@ def estimate_t60_from_beta(
         t60 = estimate_t60_from_beta(torch.tensor([6.0, 4.0, 3.0]), beta=torch.full((6,), 0.9))
         ```
     """
-    size = as_tensor(size, device=device, dtype=dtype)
+    size = ensure_floating(as_tensor(size, device=device, dtype=dtype))
     size = ensure_dim(size)
     beta = as_tensor(beta, device=size.device, dtype=size.dtype)
     dim = size.numel()
-- 
2.43.0


From 6b19cc24006ba7d6ecd984a9a4b009fa70d05b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 03/52] fix: microphone arrays accept integer centers

Integer centers truncated the offsets (binaural mics coincided, circles collapsed).
---
 src/torchrir/geometry/arrays.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index 9c8f75f..bfb60af 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -8,7 +8,7 @@ from typing import Sequence
 import torch
 from torch import Tensor
 
-from ..util.tensor import as_tensor
+from ..util.tensor import as_tensor, ensure_floating
 
 
 def binaural_array(
@@ -19,7 +19,7 @@ def binaural_array(
     dtype: torch.dtype | None = None,
 ) -> Tensor:
     """Create a two-mic binaural layout around a center point."""
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     dim = center_t.numel()
     offset_vec = torch.zeros((dim,), device=center_t.device, dtype=center_t.dtype)
     offset_vec[0] = offset
@@ -43,7 +43,7 @@ def linear_array(
         raise ValueError("num must be positive")
     if spacing <= 0:
         raise ValueError("spacing must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     dim = center_t.numel()
     if direction is None:
         if axis < 0 or axis >= dim:
@@ -82,7 +82,7 @@ def circular_array(
         raise ValueError("num must be positive")
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     dim = center_t.numel()
 
     angles = torch.linspace(
@@ -139,7 +139,7 @@ def polyhedron_array(
     """Create a regular polyhedron microphone array (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     if center_t.numel() != 3:
         raise ValueError("polyhedron arrays require 3D centers")
     vertices = _polyhedron_vertices(kind, device=center_t.device, dtype=center_t.dtype)
@@ -159,7 +159,7 @@ def eigenmike_em32(
     """Create the mh acoustics Eigenmike em32 geometry (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     if center_t.numel() != 3:
         raise ValueError("Eigenmike em32 requires a 3D center")
     theta_deg = torch.tensor(
@@ -257,7 +257,7 @@ def eigenmike_em64(
     """Create the mh acoustics Eigenmike em64 geometry (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = ensure_floating(as_tensor(center, device=device, dtype=dtype))
     if center_t.numel() != 3:
         raise ValueError("Eigenmike em64 requires a 3D center")
     theta_deg = torch.tensor(
-- 
2.43.0


From d18210f97be0e7a84429562d0479e42e30dbadcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 04/52] fix: circular_array accepts a normal along -x

The reference axis was only swapped for +x, so normal=(-1, 0, 0) gave NaN positions.
---
 src/torchrir/geometry/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index bfb60af..5151447 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -413,7 +413,7 @@ def _basis_from_normal(normal: Tensor) -> tuple[Tensor, Tensor]:
         raise ValueError("normal must be a 3D vector")
     n = normal / torch.linalg.norm(normal)
     ref = torch.tensor([1.0, 0.0, 0.0], device=normal.device, dtype=normal.dtype)
-    if torch.allclose(n, ref):
+    if torch.allclose(n.abs(), ref):
         ref = torch.tensor([0.0, 1.0, 0.0], device=normal.device, dtype=normal.dtype)
     basis_x = torch.cross(n, ref)
     basis_x = basis_x / torch.linalg.norm(basis_x)
-- 
2.43.0


From 1ab4f2bc01f3f2bc0044d392caca3d63f6c55800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 05/52] fix: coincident source and mic no longer give NaN with
 directivity

---
 src/torchrir/sim/ism/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/sim/ism/helpers.py b/src/torchrir/sim/ism/helpers.py
index 7a8a4ad..a04f5ee 100644
--- a/src/torchrir/sim/ism/helpers.py
+++ b/src/torchrir/sim/ism/helpers.py
@@ -76,5 +76,6 @@ def _select_orientation(orientation: Tensor, idx: int, count: int, dim: int) ->
 def _cos_between(vec: Tensor, orientation: Tensor) -> Tensor:
     """Compute cosine between direction vectors and orientation."""
     orientation = normalize_orientation(orientation)
-    unit = vec / torch.linalg.norm(vec, dim=-1, keepdim=True)
+    norm = torch.linalg.norm(vec, dim=-1, keepdim=True)
+    unit = vec / torch.where(norm > 0, norm, torch.ones_like(norm))
     return torch.sum(unit * orientation, dim=-1)
-- 
2.43.0


From cb92ed9af2436c088fd124151e4c751d19847de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 06/52] fix: mic orientations passed as an argument must match
 the number of mics

A mismatching count was silently truncated for a single mic or failed inside broadcasting.
---
 src/torchrir/sim/ism/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/sim/ism/api.py b/src/torchrir/sim/ism/api.py
index b10ea98..17971d6 100644
--- a/src/torchrir/sim/ism/api.py
+++ b/src/torchrir/sim/ism/api.py
@@ -91,6 +91,8 @@ def simulate_rir(
 
     n_src = src_pos.shape[0]
     n_mic = mic_pos.shape[0]
+    if mic_dir is not None and mic_dir.ndim != 1 and mic_dir.shape != (n_mic, dim):
+        raise ValueError("mic orientation must match number of mics")
     rir = torch.zeros((n_src, n_mic, nsample), device=device, dtype=dtype)
     fdl = cfg.frac_delay_length
     fdl2 = (fdl - 1) // 2
@@ -192,6 +194,8 @@ def simulate_dynamic_rir(
 
     n_src = src_traj.shape[1]
     n_mic = mic_traj.shape[1]
+    if mic_dir is not None and mic_dir.ndim != 1 and mic_dir.shape != (n_mic, dim):
+        raise ValueError("mic orientation must match number of mics")
     rirs = torch.zeros(
         (src_traj.shape[0], n_src, n_mic, nsample), device=device, dtype=dtype
     )
-- 
2.43.0


From 3374cab3ab052a27f0bf763038da196894d917c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 07/52] fix: "omnidirectional" and upper-case "OMNI" need no
 orientation

---
 src/torchrir/sim/directivity.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/sim/directivity.py b/src/torchrir/sim/directivity.py
index ab44109..d4da1c3 100644
--- a/src/torchrir/sim/directivity.py
+++ b/src/torchrir/sim/directivity.py
@@ -29,5 +29,12 @@ def split_directivity(directivity: str | tuple[str, str]) -> tuple[str, str]:
     if isinstance(directivity, (list, tuple)):
         if len(directivity) != 2:
             raise ValueError("directivity tuple must have length 2")
-        return directivity[0], directivity[1]
-    return directivity, directivity
+        return _canonical(directivity[0]), _canonical(directivity[1])
+    pattern = _canonical(directivity)
+    return pattern, pattern
+
+
+def _canonical(pattern: str) -> str:
+    """Lower-case a pattern name and map the omni alias to "omni"."""
+    name = pattern.lower()
+    return "omni" if name == "omnidirectional" else name
-- 
2.43.0


From 20b78f280f1bc6aa8b01be42aacc7581829a9676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 08/52] fix: diffuse tail no longer overwrites the last sample
 of RIRs shorter than tdiff

---
 src/torchrir/sim/ism/diffuse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/sim/ism/diffuse.py b/src/torchrir/sim/ism/diffuse.py
index 7344676..69251ea 100644
--- a/src/torchrir/sim/ism/diffuse.py
+++ b/src/torchrir/sim/ism/diffuse.py
@@ -23,8 +23,8 @@ def _apply_diffuse_tail(
 ) -> Tensor:
     """Apply a diffuse reverberation tail after tdiff."""
     nsample = rir.shape[-1]
-    tdiff_idx = min(nsample - 1, int(math.floor(tdiff * room.fs)))
-    if tdiff_idx <= 0:
+    tdiff_idx = int(math.floor(tdiff * room.fs))
+    if tdiff_idx <= 0 or tdiff_idx >= nsample:
         return rir
     tail_len = nsample - tdiff_idx
     t = torch.arange(tail_len, device=rir.device, dtype=rir.dtype) / room.fs
-- 
2.43.0


From 530cbce5c06eee58f26cfff5d0cc2c936a635e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 09/52] fix: linear_trajectory with a single step returns the
 start instead of NaN

---
 src/torchrir/geometry/trajectories.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/trajectories.py b/src/torchrir/geometry/trajectories.py
index 1affd23..4822305 100644
--- a/src/torchrir/geometry/trajectories.py
+++ b/src/torchrir/geometry/trajectories.py
@@ -8,7 +8,9 @@ from torch import Tensor
 
 def linear_trajectory(start: Tensor, end: Tensor, steps: int) -> Tensor:
     """Create a linear trajectory between start and end."""
+    if steps <= 0:
+        raise ValueError("steps must be positive")
     return torch.stack(
-        [start + (end - start) * t / (steps - 1) for t in range(steps)],
+        [start + (end - start) * t / max(steps - 1, 1) for t in range(steps)],
         dim=0,
     )
-- 
2.43.0


From 9023eeb7db593a9aed078c215c1fd17dfff78b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 10/52] fix: ISMSimulator passes source/mic orientations for
 dynamic scenes

Directional DynamicScenes always failed with 'orientation required'.
---
 src/torchrir/sim/simulators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/sim/simulators.py b/src/torchrir/sim/simulators.py
index c48ecd7..795756a 100644
--- a/src/torchrir/sim/simulators.py
+++ b/src/torchrir/sim/simulators.py
@@ -76,6 +76,10 @@ class ISMSimulator:
                 nsample=self.nsample,
                 tmax=self.tmax,
                 directivity=self.directivity,
+                orientation=(
+                    normalized_scene.sources.orientation,
+                    normalized_scene.mics.orientation,
+                ),
                 config=cfg,
                 device=self.device,
                 dtype=self.dtype,
-- 
2.43.0


From 8ceecdc6135a4817691cf79d6f7b48e5c2d11717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 11/52] fix: kernel caches filled under inference_mode stay
 usable with autograd

A first call under torch.inference_mode() cached inference tensors and every later
differentiable simulation in the process failed.
---
 src/torchrir/sim/ism/accumulate.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/torchrir/sim/ism/accumulate.py b/src/torchrir/sim/ism/accumulate.py
index 6529d0d..a3bb85d 100644
--- a/src/torchrir/sim/ism/accumulate.py
+++ b/src/torchrir/sim/ism/accumulate.py
@@ -128,7 +128,8 @@ def _get_fdl_grid(fdl: int, *, device: torch.device, dtype: torch.dtype) -> Tens
     key = (fdl, str(device), dtype)
     cached = _FDL_GRID_CACHE.get(key)
     if cached is None:
-        cached = torch.arange(fdl, device=device, dtype=dtype)
+        with torch.inference_mode(False):
+            cached = torch.arange(fdl, device=device, dtype=dtype)
         _FDL_GRID_CACHE[key] = cached
     return cached
 
@@ -138,7 +139,8 @@ def _get_fdl_offsets(fdl: int, *, device: torch.device) -> Tensor:
     cached = _FDL_OFFSETS_CACHE.get(key)
     if cached is None:
         fdl2 = (fdl - 1) // 2
-        cached = torch.arange(fdl, device=device, dtype=torch.int64) - fdl2
+        with torch.inference_mode(False):
+            cached = torch.arange(fdl, device=device, dtype=torch.int64) - fdl2
         _FDL_OFFSETS_CACHE[key] = cached
     return cached
 
@@ -147,7 +149,8 @@ def _get_fdl_window(fdl: int, *, device: torch.device, dtype: torch.dtype) -> Te
     key = (fdl, str(device), dtype)
     cached = _FDL_WINDOW_CACHE.get(key)
     if cached is None:
-        cached = torch.hann_window(fdl, periodic=False, device=device, dtype=dtype)
+        with torch.inference_mode(False):
+            cached = torch.hann_window(fdl, periodic=False, device=device, dtype=dtype)
         _FDL_WINDOW_CACHE[key] = cached
     return cached
 
@@ -162,7 +165,8 @@ def _get_sinc_lut(
         return cached
     fdl2 = (fdl - 1) // 2
     lut_size = (fdl + 1) * lut_gran + 1
-    n = torch.linspace(-fdl2 - 1, fdl2 + 1, lut_size, device=device, dtype=dtype)
-    cached = torch.sinc(n)
+    with torch.inference_mode(False):
+        n = torch.linspace(-fdl2 - 1, fdl2 + 1, lut_size, device=device, dtype=dtype)
+        cached = torch.sinc(n)
     _SINC_LUT_CACHE[key] = cached
     return cached
-- 
2.43.0


From edc3709f674adbd68f3396db53658f3506d3def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:55 +0000
Subject: [PATCH 12/52] fix: Room rejects non-finite fs and c, and a NaN t60

NaN values slipped through the <= 0 checks and produced silent or wrong RIRs.
---
 src/torchrir/models/room.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/models/room.py b/src/torchrir/models/room.py
index 03cf6e2..2e573e7 100644
--- a/src/torchrir/models/room.py
+++ b/src/torchrir/models/room.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 from dataclasses import dataclass, replace
+import math
 from typing import Optional, Sequence
 
 import torch
@@ -35,13 +36,13 @@ class Room:
         if torch.any(size <= 0):
             raise ValueError("room size must be strictly positive")
         object.__setattr__(self, "size", size)
-        if self.fs <= 0:
+        if not math.isfinite(self.fs) or self.fs <= 0:
             raise ValueError("fs must be positive")
-        if self.c <= 0:
+        if not math.isfinite(self.c) or self.c <= 0:
             raise ValueError("c must be positive")
         if self.beta is not None and self.t60 is not None:
             raise ValueError("beta and t60 are mutually exclusive")
-        if self.t60 is not None and self.t60 <= 0:
+        if self.t60 is not None and not self.t60 > 0:
             raise ValueError("t60 must be positive")
         if self.beta is not None:
             beta = as_tensor(self.beta, dtype=size.dtype).view(-1)
-- 
2.43.0


From 63b494b3a93aa90d9e26d050abe712db16a69e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:56 +0000
Subject: [PATCH 13/52] fix: DynamicConvolver checks hop and the number of
 source signals

---
 src/torchrir/signal/dynamic.py  | 6 +++++-
 src/torchrir/signal/internal.py | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index 2b8da0d..3380af5 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -13,7 +13,7 @@ from typing import Optional
 import torch
 from torch import Tensor
 
-from .internal import _ensure_dynamic_rirs, _ensure_signal
+from .internal import _ensure_dynamic_rirs, _ensure_signal, _match_sources
 from .static import fft_convolve
 
 
@@ -56,8 +56,11 @@ class DynamicConvolver:
 
 
 def _convolve_dynamic_hop(signal: Tensor, rirs: Tensor, hop: int) -> Tensor:
+    if hop <= 0:
+        raise ValueError("hop must be positive")
     signal = _ensure_signal(signal)
     rirs = _ensure_dynamic_rirs(rirs, signal)
+    signal = _match_sources(signal, rirs.shape[1])
     return _convolve_dynamic_rir_hop(signal, rirs, hop)
 
 
@@ -70,6 +73,7 @@ def _convolve_dynamic_trajectory(
 ) -> Tensor:
     signal = _ensure_signal(signal)
     rirs = _ensure_dynamic_rirs(rirs, signal)
+    signal = _match_sources(signal, rirs.shape[1])
     return _convolve_dynamic_rir_trajectory(signal, rirs, timestamps=timestamps, fs=fs)
 
 
diff --git a/src/torchrir/signal/internal.py b/src/torchrir/signal/internal.py
index faca6e5..509e65f 100644
--- a/src/torchrir/signal/internal.py
+++ b/src/torchrir/signal/internal.py
@@ -45,3 +45,10 @@ def _ensure_dynamic_rirs(rirs: Tensor, signal: Tensor) -> Tensor:
         "rirs must have shape (T, rir_len), (T, n_mic, rir_len), "
         "or (T, n_src, n_mic, rir_len)"
     )
+
+
+def _match_sources(signal: Tensor, n_src: int) -> Tensor:
+    """Share a single signal between all sources, or require one per source."""
+    if signal.shape[0] not in (1, n_src):
+        raise ValueError("signal source count does not match rirs")
+    return signal.expand(n_src, -1)
-- 
2.43.0


From 31a33168631398f66fe806e50807881d46a345e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 14/52] fix: DynamicConvolver rejects disordered timestamps and
 ignores steps after the signal's end

---
 src/torchrir/signal/dynamic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index 3380af5..1aa12a9 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -114,6 +114,8 @@ def _convolve_dynamic_rir_trajectory(
     if timestamps is not None:
         if fs is None:
             raise ValueError("fs must be provided when timestamps are used")
+        if fs <= 0:
+            raise ValueError("fs must be positive")
         ts = torch.as_tensor(
             timestamps,
             device=signal.device,
@@ -123,7 +125,10 @@ def _convolve_dynamic_rir_trajectory(
             raise ValueError("timestamps must be 1D and match number of RIR steps")
         if ts[0].item() != 0:
             raise ValueError("first timestamp must be 0")
-        w_ini = (ts * fs).to(torch.long)
+        if not torch.isfinite(ts).all() or (ts[1:] < ts[:-1]).any():
+            raise ValueError("timestamps must be finite and non-decreasing")
+        # Steps that begin after the end of the signal own no samples.
+        w_ini = torch.clamp((ts * fs).to(torch.long), max=n_samples)
     else:
         step_fs = n_samples / t_steps
         ts_dtype = torch.float32 if signal.device.type == "mps" else torch.float64
-- 
2.43.0


From 7eac48eb205367869197e8e085799c52b4148a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 15/52] fix: position samplers return shape (0, dim) for num=0

---
 src/torchrir/geometry/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index 2725621..a36ce0b 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -24,7 +24,7 @@ def sample_positions(
     for _ in range(num):
         point = [rng.uniform(low[i], high[i]) for i in range(dim)]
         coords.append(point)
-    return torch.tensor(coords, dtype=torch.float32)
+    return torch.tensor(coords, dtype=torch.float32).reshape(-1, dim)
 
 
 def sample_positions_with_z_range(
@@ -83,7 +83,7 @@ def sample_positions_min_distance(
             coords.append(point)
     if len(coords) < num:
         raise RuntimeError("failed to sample positions with requested minimum distance")
-    return torch.tensor(coords, dtype=torch.float32)
+    return torch.tensor(coords, dtype=torch.float32).reshape(-1, dim)
 
 
 def clamp_positions(
-- 
2.43.0


From 00314908673f54652edfa9dfbbdd87d7b561f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 16/52] fix: position samplers honour a z_range that is a
 single height

---
 src/torchrir/geometry/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index a36ce0b..ea9a83e 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -42,7 +42,7 @@ def sample_positions_with_z_range(
     z_min, z_max = z_range
     z_low = max(margin, float(z_min))
     z_high = min(float(room_size[2].item()) - margin, float(z_max))
-    if z_high <= z_low:
+    if z_high < z_low:
         return positions
     z_vals = [rng.uniform(z_low, z_high) for _ in range(num)]
     positions[:, 2] = torch.tensor(z_vals, dtype=positions.dtype)
@@ -76,7 +76,7 @@ def sample_positions_min_distance(
             z_min, z_max = z_range
             z_low = max(margin, float(z_min))
             z_high = min(float(room_size[2].item()) - margin, float(z_max))
-            if z_high > z_low:
+            if z_high >= z_low:
                 point[2] = rng.uniform(z_low, z_high)
         dist = torch.linalg.norm(torch.tensor(point) - center).item()
         if dist >= min_distance:
-- 
2.43.0


From af31311d2b14d61ff9b344fe05ff726d84ffa92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 17/52] fix: clamp_positions keeps the margin for integer room
 sizes

---
 src/torchrir/geometry/sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index ea9a83e..f3d185b 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -8,6 +8,8 @@ from typing import List
 import torch
 from torch import Tensor
 
+from ..util.tensor import ensure_floating
+
 
 def sample_positions(
     *,
@@ -90,6 +92,7 @@ def clamp_positions(
     positions: Tensor, room_size: Tensor, margin: float = 0.1
 ) -> Tensor:
     """Clamp positions to remain inside the room with a margin."""
+    room_size = ensure_floating(room_size)
     min_v = torch.full_like(room_size, margin)
     max_v = room_size - margin
     return torch.max(torch.min(positions, max_v), min_v)
-- 
2.43.0


From 6e62534332ea6d5ebe2043221851701bdd336b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 18/52] fix: saving channel-first audio with more than 8
 channels no longer swaps axes

---
 src/torchrir/io/audio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 2a9ea63..db12b5e 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -115,7 +115,9 @@ def _save_audio(
         max_val = float(audio.abs().max().item()) if audio.numel() else 0.0
         if max_val > 0:
             audio = audio / max_val * peak
-    if audio.ndim == 2 and audio.shape[0] <= 8:
+    if audio.ndim == 2 and (
+        audio.shape[0] <= 8 or audio.shape[0] <= audio.shape[1]
+    ):
         audio = audio.transpose(0, 1)
     if subtype is None:
         # Backward-compatible fallback for tensors that carry custom attrs.
-- 
2.43.0


From 08c09cdaf4d1312232732fd69c4dae9dd4c5471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:32 +0000
Subject: [PATCH 19/52] fix: the subtype carried by a tensor is read before
 detach drops it

---
 src/torchrir/io/audio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index db12b5e..d02e4fd 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -108,6 +108,9 @@ def _save_audio(
     """Save a mono or multi-channel audio file to disk."""
     import soundfile as sf
 
+    if subtype is None:
+        # Backward-compatible fallback for tensors that carry custom attrs.
+        subtype = getattr(audio, "_torchrir_subtype", None)
     audio = audio.detach().cpu().to(torch.float32)
     if normalize:
         if peak <= 0:
@@ -119,9 +122,6 @@ def _save_audio(
         audio.shape[0] <= 8 or audio.shape[0] <= audio.shape[1]
     ):
         audio = audio.transpose(0, 1)
-    if subtype is None:
-        # Backward-compatible fallback for tensors that carry custom attrs.
-        subtype = getattr(audio, "_torchrir_subtype", None)
     sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype)
 
 
-- 
2.43.0


From 520c14fa2d5114f7e85f5e8ada0df800a4bc11d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 20/52] fix: wav-only savers write wav for .wave paths and
 explicit format='wav'

---
 src/torchrir/io/__init__.py | 8 +++++---
 src/torchrir/io/audio.py    | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/io/__init__.py b/src/torchrir/io/__init__.py
index b695348..b383e4a 100644
--- a/src/torchrir/io/__init__.py
+++ b/src/torchrir/io/__init__.py
@@ -28,7 +28,7 @@ class AudioBackend:
 
     name: str
     load: Callable[[Path, str], Tuple[Tensor, int]]
-    save: Callable[[Path, Tensor, int, bool, float, str | None], None]
+    save: Callable[[Path, Tensor, int, bool, float, str | None, str | None], None]
     info: Callable[[Path], AudioInfo]
 
 
@@ -43,6 +43,7 @@ def _soundfile_save(
     normalize: bool,
     peak: float,
     subtype: str | None,
+    format: str | None,
 ) -> None:
     _save_audio(
         path,
@@ -51,6 +52,7 @@ def _soundfile_save(
         normalize=normalize,
         peak=peak,
         subtype=subtype,
+        format=format,
     )
 
 
@@ -153,7 +155,7 @@ def save_wav(
             "Use torchrir.io.audio.save_audio for non-wav formats."
         )
     backend_impl = _resolve_backend(backend)
-    backend_impl.save(path, audio, sample_rate, normalize, peak, subtype)
+    backend_impl.save(path, audio, sample_rate, normalize, peak, subtype, "WAV")
 
 
 def info_wav(
@@ -202,7 +204,7 @@ def save_audio(
     """Save an audio file in any format supported by the backend."""
 
     backend_impl = _resolve_backend(backend)
-    backend_impl.save(path, audio, sample_rate, normalize, peak, subtype)
+    backend_impl.save(path, audio, sample_rate, normalize, peak, subtype, None)
 
 
 def info_audio(
diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index d02e4fd..5f441ad 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -104,6 +104,7 @@ def _save_audio(
     normalize: bool = True,
     peak: float = 1.0,
     subtype: str | None = None,
+    format: str | None = None,
 ) -> None:
     """Save a mono or multi-channel audio file to disk."""
     import soundfile as sf
@@ -122,7 +123,7 @@ def _save_audio(
         audio.shape[0] <= 8 or audio.shape[0] <= audio.shape[1]
     ):
         audio = audio.transpose(0, 1)
-    sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype)
+    sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype, format=format)
 
 
 def save(
@@ -160,6 +161,7 @@ def save(
         normalize=normalize,
         peak=peak,
         subtype=subtype,
+        format="WAV",
     )
 
 
-- 
2.43.0


From 34b5e39bdd0772ed65114559ec68a38d020000f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 21/52] fix: torchrir.io.__all__ lists every public name again

---
 src/torchrir/io/__init__.py | 24 ------------------------
 1 file changed, 24 deletions(-)

diff --git a/src/torchrir/io/__init__.py b/src/torchrir/io/__init__.py
index b383e4a..1e996ff 100644
--- a/src/torchrir/io/__init__.py
+++ b/src/torchrir/io/__init__.py
@@ -304,27 +304,3 @@ __all__ = [
     "save_wav",
     "set_audio_backend",
 ]
-
-
-__all__ = [
-    "AudioData",
-    "AudioBackend",
-    "build_metadata",
-    "get_audio_backend",
-    "info",
-    "info_audio",
-    "info_wav",
-    "list_audio_backends",
-    "load",
-    "load_audio",
-    "load_audio_data",
-    "load_wav",
-    "save_scene_audio",
-    "save_scene_metadata",
-    "save_audio",
-    "save_audio_data",
-    "save_metadata_json",
-    "save",
-    "save_wav",
-    "set_audio_backend",
-]
-- 
2.43.0


From 6fbf14a9966735883987c19fe54eaf8a4d114d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 22/52] fix: unnormalised wav audio outside [-1, 1] is stored
 as float instead of clipped

---
 src/torchrir/io/audio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 5f441ad..7ef3865 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -119,6 +119,10 @@ def _save_audio(
         max_val = float(audio.abs().max().item()) if audio.numel() else 0.0
         if max_val > 0:
             audio = audio / max_val * peak
+    elif subtype is None and audio.numel() and audio.abs().max() > 1:
+        # Integer PCM would clip; only wav has a float subtype to fall back to.
+        wav = format == "WAV" or path.suffix.lower() == ".wav"
+        subtype = "FLOAT" if wav else None
     if audio.ndim == 2 and (
         audio.shape[0] <= 8 or audio.shape[0] <= audio.shape[1]
     ):
-- 
2.43.0


From fdcaddd3893b4208613249011f6141221c54ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 23/52] fix: metadata spacing is exact for arrays with more
 than 25 microphones

---
 src/torchrir/io/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/io/metadata.py b/src/torchrir/io/metadata.py
index e851224..d803dd9 100644
--- a/src/torchrir/io/metadata.py
+++ b/src/torchrir/io/metadata.py
@@ -192,7 +192,9 @@ def _array_attributes(mics: MicrophoneArray) -> ArrayAttributes:
     center = pos.mean(dim=0)
     spacing = None
     if n_mic >= 2:
-        dists = torch.cdist(pos, pos)
+        dists = torch.cdist(
+            pos, pos, compute_mode="donot_use_mm_for_euclid_dist"
+        )
         dists = dists[dists > 0]
         if dists.numel() > 0:
             spacing = float(dists.min().item())
-- 
2.43.0


From 70b575d8786d6b048984d3360848a5dc022fb7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 24/52] fix: archives with device nodes or FIFOs are rejected

---
 src/torchrir/datasets/_archive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index 469032c..7ac2edd 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -13,6 +13,8 @@ def safe_extractall(tar: tarfile.TarFile, dest: Path) -> None:
     for member in tar.getmembers():
         if member.issym() or member.islnk():
             raise ValueError(f"archive contains links, which are not allowed: {member.name}")
+        if not (member.isreg() or member.isdir()):
+            raise ValueError(f"archive contains a special file: {member.name}")
 
         target = (root / member.name).resolve()
         if os.path.commonpath([str(root), str(target)]) != str(root):
-- 
2.43.0


From 5de1e5de7a17cc627525feecf26d3c4bec171d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 25/52] fix: download=True does not download again when the
 corpus is already there

---
 src/torchrir/datasets/cmu_arctic.py  | 2 ++
 src/torchrir/datasets/librispeech.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index c59f12a..88eaaa6 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -103,6 +103,8 @@ class CmuArcticDataset(BaseDataset):
 
     def _download_and_extract(self) -> None:
         """Download and extract the speaker archive if needed."""
+        if self._dataset_dir.exists():
+            return
         self._base_dir.mkdir(parents=True, exist_ok=True)
         archive_path = self._base_dir / self._archive_name
         url = f"{BASE_URL}/{self._archive_name}"
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index ee10fbd..7e00e16 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -131,6 +131,8 @@ class LibriSpeechDataset(BaseDataset):
 
     def _download_and_extract(self) -> None:
         """Download and extract the subset archive if needed."""
+        if self._subset_dir.exists():
+            return
         self.root.mkdir(parents=True, exist_ok=True)
         archive_path = self.root / self._archive_name
         url = f"{BASE_URL}/{self._archive_name}"
-- 
2.43.0


From 9c1fd450807b94be7b4f3d52cc79397475403945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 26/52] fix: interrupted or corrupt extraction never leaves a
 partial dataset behind

---
 src/torchrir/datasets/_archive.py    | 34 ++++++++++++++++++++++++++++
 src/torchrir/datasets/cmu_arctic.py  |  9 ++++----
 src/torchrir/datasets/librispeech.py |  9 ++++----
 3 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index 7ac2edd..e247a59 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import os
+import shutil
 import tarfile
 from pathlib import Path
 
@@ -21,3 +22,36 @@ def safe_extractall(tar: tarfile.TarFile, dest: Path) -> None:
             raise ValueError(f"unsafe archive member path: {member.name}")
 
     tar.extractall(root)
+
+
+def extract_dataset(tar: tarfile.TarFile, dest: Path, dataset_dir: Path) -> None:
+    """Extract an archive so that dataset_dir appears only once it is complete.
+
+    Members are extracted to a staging directory inside dest and moved into place
+    afterwards, dataset_dir last, so an interrupted run leaves no partial dataset.
+    """
+    tar.getmembers()
+    # Read to the end of the stream: checks the checksums of the compressed data.
+    while tar.fileobj.read(1 << 20):
+        pass
+    root = dest.resolve()
+    staging = dest / f".{dataset_dir.name}.extracting"
+    shutil.rmtree(staging, ignore_errors=True)
+    staging.mkdir(parents=True)
+    try:
+        safe_extractall(tar, staging)
+        staged = staging / dataset_dir.relative_to(dest)
+        if not staged.is_dir():
+            raise tarfile.ReadError(f"archive does not contain {staged.name}")
+        for dirpath, dirnames, filenames in os.walk(staging):
+            here = Path(dirpath)
+            out = dest / here.relative_to(staging)
+            if not out.resolve().is_relative_to(root):
+                raise ValueError(f"unsafe archive member path: {out}")
+            out.mkdir(parents=True, exist_ok=True)
+            dirnames[:] = [name for name in dirnames if here / name != staged]
+            for name in filenames:
+                (here / name).replace(out / name)
+        staged.replace(dataset_dir)
+    finally:
+        shutil.rmtree(staging, ignore_errors=True)
diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index 88eaaa6..23b21bc 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import logging
 import tarfile
 import urllib.request
+import zlib
 from dataclasses import dataclass
 from pathlib import Path
 from typing import List, Tuple
@@ -12,7 +13,7 @@ from typing import List, Tuple
 import torch
 
 from .attribution import DatasetAttribution, attribution_for
-from ._archive import safe_extractall
+from ._archive import extract_dataset
 from .base import BaseDataset
 from ..io.audio import load
 
@@ -116,14 +117,14 @@ class CmuArcticDataset(BaseDataset):
             logger.info("Extracting %s", archive_path)
             try:
                 with tarfile.open(archive_path, "r:bz2") as tar:
-                    safe_extractall(tar, self._base_dir)
-            except (tarfile.ReadError, EOFError, OSError) as exc:
+                    extract_dataset(tar, self._base_dir, self._dataset_dir)
+            except (tarfile.TarError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
                 _download(url, archive_path)
                 with tarfile.open(archive_path, "r:bz2") as tar:
-                    safe_extractall(tar, self._base_dir)
+                    extract_dataset(tar, self._base_dir, self._dataset_dir)
 
     def sentences(self) -> List[CmuArcticSentence]:
         """Parse all sentence metadata."""
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index 7e00e16..45009fc 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import logging
 import tarfile
 import urllib.request
+import zlib
 from dataclasses import dataclass
 from pathlib import Path
 from typing import List, Tuple
@@ -12,7 +13,7 @@ from typing import List, Tuple
 import torch
 
 from .attribution import DatasetAttribution, attribution_for
-from ._archive import safe_extractall
+from ._archive import extract_dataset
 from .base import BaseDataset
 from ..io.audio import load_audio
 
@@ -144,14 +145,14 @@ class LibriSpeechDataset(BaseDataset):
             logger.info("Extracting %s", archive_path)
             try:
                 with tarfile.open(archive_path, "r:gz") as tar:
-                    safe_extractall(tar, self.root)
-            except (tarfile.ReadError, EOFError, OSError) as exc:
+                    extract_dataset(tar, self.root, self._subset_dir)
+            except (tarfile.TarError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
                 _download(url, archive_path)
                 with tarfile.open(archive_path, "r:gz") as tar:
-                    safe_extractall(tar, self.root)
+                    extract_dataset(tar, self.root, self._subset_dir)
 
     def attribution_info(self) -> DatasetAttribution:
         """Return attribution and license information for LibriSpeech."""
-- 
2.43.0


From 734bce171ca7264fcb4cb8a23306e42b2ea28d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 27/52] fix: LibriSpeech sentence order does not depend on the
 file system

---
 src/torchrir/datasets/librispeech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index 45009fc..29540b1 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -102,7 +102,7 @@ class LibriSpeechDataset(BaseDataset):
         search_root = (
             self._speaker_dir if self._speaker_dir is not None else self._subset_dir
         )
-        for trans_path in search_root.rglob("*.trans.txt"):
+        for trans_path in sorted(search_root.rglob("*.trans.txt")):
             chapter_dir = trans_path.parent
             speaker_id = chapter_dir.parent.name
             chapter_id = chapter_dir.name
-- 
2.43.0


From 5785fa8c175e142bedf2accac128223759461a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 28/52] fix: LibriSpeech items carry their speaker when no
 speaker was selected

---
 src/torchrir/datasets/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/datasets/base.py b/src/torchrir/datasets/base.py
index 7d646d5..b1c8ff1 100644
--- a/src/torchrir/datasets/base.py
+++ b/src/torchrir/datasets/base.py
@@ -60,6 +60,8 @@ class BaseDataset(Dataset[DatasetItem]):
         sentence = sentences[idx]
         audio, sample_rate = self.load_audio(sentence.utterance_id)
         speaker = getattr(self, "speaker", None)
+        if speaker is None:
+            speaker = getattr(sentence, "speaker_id", None)
         text = getattr(sentence, "text", None)
         return DatasetItem(
             audio=audio,
-- 
2.43.0


From 02b947fb9e5444c2ea5ab2f70c524b0cec0dae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:21 +0000
Subject: [PATCH 29/52] fix: a speaker with only empty utterances raises
 instead of looping forever

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 2 ++
 src/torchrir/datasets/utils.py              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index ac3c1b6..ad43855 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -391,6 +391,8 @@ def _load_fixed_length_signal(
 
     while total < target_samples:
         if idx >= len(local):
+            if total == 0:
+                raise RuntimeError("No audio available in selected speaker dataset")
             rng_py.shuffle(local)
             idx = 0
         sentence = local[idx]
diff --git a/src/torchrir/datasets/utils.py b/src/torchrir/datasets/utils.py
index 75b1940..13a6347 100644
--- a/src/torchrir/datasets/utils.py
+++ b/src/torchrir/datasets/utils.py
@@ -74,6 +74,8 @@ def load_dataset_sources(
 
         while target_samples is None or total < target_samples:
             if idx >= len(sentences):
+                if total == 0:
+                    raise RuntimeError(f"no audio found for speaker {speaker}")
                 rng.shuffle(sentences)
                 idx = 0
             sentence = sentences[idx]
-- 
2.43.0


From a5124002e04d0c9bd4c25ff06f02498ce9c3057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 30/52] fix: dynamic dataset mixtures are scaled with their
 sources so that they never clip

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index ad43855..5e3bf5a 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -409,7 +409,8 @@ def _load_fixed_length_signal(
 def _normalize_sources(
     stems: list[np.ndarray], *, peak_limit: float = 0.99
 ) -> list[np.ndarray]:
-    peak = max(float(np.max(np.abs(stem))) for stem in stems)
+    mixture = np.sum(np.stack(stems, axis=0), axis=0)
+    peak = max(float(np.max(np.abs(signal))) for signal in [*stems, mixture])
     if peak <= 0.0 or peak <= peak_limit:
         return stems
     scale = peak_limit / peak
-- 
2.43.0


From 6e65134702626d6809091e2cef7ee053bd970793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:52 +0000
Subject: [PATCH 31/52] fix: a rejected dynamic dataset request leaves the
 existing dataset in place

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 43 +++++++++++++++++----
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 5e3bf5a..82afa95 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -499,18 +499,17 @@ def build_dynamic_cmu_arctic_dataset(
         raise ValueError("duration_sec must be > 0")
     if rir_samples <= 0:
         raise ValueError("rir_samples must be > 0")
+    if max_order < 0:
+        raise ValueError("max_order must be >= 0")
 
     min_source_distance_m = 1.8
     move_start_sec = float(duration_sec) * move_start_ratio
     move_end_sec = float(duration_sec) * move_end_ratio
 
-    if dataset_root.exists():
-        if not overwrite:
-            raise FileExistsError(
-                f"Dataset root already exists: {dataset_root}. Use overwrite=True."
-            )
-        shutil.rmtree(dataset_root)
-    dataset_root.mkdir(parents=True, exist_ok=True)
+    if dataset_root.exists() and not overwrite:
+        raise FileExistsError(
+            f"Dataset root already exists: {dataset_root}. Use overwrite=True."
+        )
 
     rng = np.random.default_rng(seed)
     rng_py = random.Random(seed)
@@ -559,6 +558,36 @@ def build_dynamic_cmu_arctic_dataset(
     )
     convolver = DynamicConvolver(mode="trajectory")
 
+    # Reject infeasible placements before an existing dataset is replaced.
+    probe_rng = np.random.default_rng(seed)
+    probe_mic_center = mic_center_arr
+    if randomize_mic_center:
+        probe_mic_center = _sample_random_mic_center(
+            rng=probe_rng,
+            room_size=room_size_arr,
+            source_margin=source_margin_arr,
+            min_source_distance_m=min_source_distance_m,
+            array_radius_m=radius,
+        )
+    _build_constrained_source_positions(
+        rng=probe_rng,
+        room_size=room_size_arr,
+        mic_center=probe_mic_center,
+        margin=source_margin_arr,
+        n_sources=n_sources,
+        n_moving_sources=n_moving_sources,
+        duration_sec=float(duration_sec),
+        move_start_ratio=move_start_ratio,
+        move_end_ratio=move_end_ratio,
+        moving_speed_min=moving_speed_min,
+        moving_speed_max=moving_speed_max,
+        min_radius_m=min_source_distance_m,
+    )
+
+    if dataset_root.exists():
+        shutil.rmtree(dataset_root)
+    dataset_root.mkdir(parents=True, exist_ok=True)
+
     for scene_idx in range(n_scenes):
         scene_id = f"scene_{scene_idx:04d}"
         scene_dir = dataset_root / scene_id
-- 
2.43.0


From dac005ff24b8072f404318ecd56a64640db59594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:36 +0000
Subject: [PATCH 32/52] fix: dynamic scene plots accept integer trajectories

---
 src/torchrir/viz/scene.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/viz/scene.py b/src/torchrir/viz/scene.py
index 1743c24..fd39303 100644
--- a/src/torchrir/viz/scene.py
+++ b/src/torchrir/viz/scene.py
@@ -8,7 +8,7 @@ import torch
 from torch import Tensor
 
 from ..models import MicrophoneArray, Room, Source
-from ..util.tensor import as_tensor, ensure_dim
+from ..util.tensor import as_tensor, ensure_dim, ensure_floating
 from .utils import _add_axes_annotation, _ensure_default_mpl_style
 
 _MIC_COLOR = "tab:orange"
@@ -225,7 +225,7 @@ def _extract_positions(
         pos = entity.positions
     else:
         pos = entity
-    pos = as_tensor(pos)
+    pos = ensure_floating(as_tensor(pos))
     if pos.ndim == 1:
         pos = pos.unsqueeze(0)
     return pos
@@ -260,7 +260,7 @@ def _scatter_positions(
 
 def _as_trajectory(traj: Tensor | Sequence) -> Tensor:
     """Validate and normalize a trajectory tensor."""
-    traj = as_tensor(traj)
+    traj = ensure_floating(as_tensor(traj))
     if traj.ndim != 3:
         raise ValueError("trajectory must be of shape (T, N, dim)")
     return traj
-- 
2.43.0


From 8315a5f19c139c8e4c515d4f52810ca4bbc2e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:46 +0000
Subject: [PATCH 33/52] fix: failing plots and animations close the figures
 they opened

---
 src/torchrir/viz/animation.py |  3 +++
 src/torchrir/viz/scene.py     |  8 +++++++-
 src/torchrir/viz/utils.py     | 37 ++++++++++++++++++++++++++++-------
 3 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index c333e6f..7e0e0ce 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -14,6 +14,7 @@ import torch
 
 from .utils import (
     _add_axes_annotation,
+    _close_figures_on_error,
     _ensure_default_mpl_style,
     _positions_to_cpu,
     _to_cpu,
@@ -29,6 +30,7 @@ _MP4_FIGSIZE_INCHES = (_MP4_WIDTH_PX / _MP4_DPI, _MP4_HEIGHT_PX / _MP4_DPI)
 _VIDEO_FONT_SIZE_PT = 24.0
 
 
+@_close_figures_on_error
 def animate_scene_gif(
     *,
     out_path: Path,
@@ -74,6 +76,7 @@ def animate_scene_gif(
     return out_path
 
 
+@_close_figures_on_error
 def animate_scene_mp4(
     *,
     out_path: Path,
diff --git a/src/torchrir/viz/scene.py b/src/torchrir/viz/scene.py
index fd39303..65e1394 100644
--- a/src/torchrir/viz/scene.py
+++ b/src/torchrir/viz/scene.py
@@ -9,11 +9,16 @@ from torch import Tensor
 
 from ..models import MicrophoneArray, Room, Source
 from ..util.tensor import as_tensor, ensure_dim, ensure_floating
-from .utils import _add_axes_annotation, _ensure_default_mpl_style
+from .utils import (
+    _add_axes_annotation,
+    _close_figures_on_error,
+    _ensure_default_mpl_style,
+)
 
 _MIC_COLOR = "tab:orange"
 
 
+@_close_figures_on_error
 def plot_scene_static(
     *,
     room: Room | Sequence[float] | Tensor,
@@ -58,6 +63,7 @@ def plot_scene_static(
     return ax
 
 
+@_close_figures_on_error
 def plot_scene_dynamic(
     *,
     room: Room | Sequence[float] | Tensor,
diff --git a/src/torchrir/viz/utils.py b/src/torchrir/viz/utils.py
index e9dba86..79f2744 100644
--- a/src/torchrir/viz/utils.py
+++ b/src/torchrir/viz/utils.py
@@ -2,8 +2,9 @@
 
 from __future__ import annotations
 
+import functools
 from pathlib import Path
-from typing import Any, Optional, Sequence
+from typing import Any, Callable, Optional, Sequence, TypeVar
 
 import torch
 
@@ -12,6 +13,26 @@ _MM_PER_INCH = 25.4
 _STATIC_FIGSIZE_INCHES = (160.0 / _MM_PER_INCH, 100.0 / _MM_PER_INCH)
 _STATIC_SAVE_DPI = 300
 
+_F = TypeVar("_F", bound=Callable[..., Any])
+
+
+def _close_figures_on_error(func: _F) -> _F:
+    """Close the figures opened by ``func`` when it raises."""
+
+    @functools.wraps(func)
+    def wrapper(*args: Any, **kwargs: Any) -> Any:
+        import matplotlib.pyplot as plt
+
+        before = set(plt.get_fignums())
+        try:
+            return func(*args, **kwargs)
+        except BaseException:
+            for num in set(plt.get_fignums()) - before:
+                plt.close(num)
+            raise
+
+    return wrapper  # type: ignore[return-value]
+
 
 def _ensure_default_mpl_style() -> None:
     """Apply the default torchrir.viz matplotlib style once per process.
@@ -76,12 +97,14 @@ def _save_axes(ax: Any, path: Path, *, show: bool) -> None:
     import matplotlib.pyplot as plt
 
     fig = ax.figure
-    fig.set_size_inches(*_STATIC_FIGSIZE_INCHES)
-    fig.tight_layout()
-    fig.savefig(path, dpi=_STATIC_SAVE_DPI)
-    if show:
-        plt.show()
-    plt.close(fig)
+    try:
+        fig.set_size_inches(*_STATIC_FIGSIZE_INCHES)
+        fig.tight_layout()
+        fig.savefig(path, dpi=_STATIC_SAVE_DPI)
+        if show:
+            plt.show()
+    finally:
+        plt.close(fig)
 
 
 def _add_axes_annotation(
-- 
2.43.0


From f59e4976b0488e7622ae0d0209f85381df377c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:56 +0000
Subject: [PATCH 34/52] fix: temporary mux files are removed when muxing raises

---
 src/torchrir/viz/animation.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index 7e0e0ce..563e058 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -343,8 +343,16 @@ def _add_stereo_audio_to_mp4(
 
     tmp_audio = video_path.with_name(video_path.stem + "_tmp_audio.wav")
     tmp_video = video_path.with_name(video_path.stem + "_tmp_mux.mp4")
-    sf.write(tmp_audio, stereo, int(sample_rate))
+    try:
+        sf.write(tmp_audio, stereo, int(sample_rate))
+        _run_mux(ffmpeg, video_path, tmp_audio, tmp_video)
+    finally:
+        for tmp_path in (tmp_audio, tmp_video):
+            if tmp_path.exists():
+                tmp_path.unlink()
 
+
+def _run_mux(ffmpeg: str, video_path: Path, tmp_audio: Path, tmp_video: Path) -> None:
     cmd = [
         ffmpeg,
         "-y",
@@ -372,8 +380,3 @@ def _add_stereo_audio_to_mp4(
         )
     else:
         tmp_video.replace(video_path)
-
-    if tmp_audio.exists():
-        tmp_audio.unlink()
-    if tmp_video.exists():
-        tmp_video.unlink()
-- 
2.43.0


From 637edfe0ab26a6787f225d83f7b9b207b2c973dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:41 +0000
Subject: [PATCH 35/52] fix: calling setup_logging again updates the level and
 format of its handler

---
 src/torchrir/logging.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index 5d2692c..fd0aeb2 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -7,6 +7,10 @@ import logging
 from typing import Optional
 
 
+class _Handler(logging.StreamHandler):
+    """Stream handler installed, and later reconfigured, by setup_logging."""
+
+
 @dataclass(frozen=True)
 class LoggingConfig:
     """Configuration for torchrir logging.
@@ -52,11 +56,13 @@ def setup_logging(config: LoggingConfig, *, name: str = "torchrir") -> logging.L
     level = config.resolve_level()
     logger.setLevel(level)
     logger.propagate = config.propagate
-    if not logger.handlers:
-        handler = logging.StreamHandler()
+    handler = next((h for h in logger.handlers if isinstance(h, _Handler)), None)
+    if handler is None and not logger.handlers:
+        handler = _Handler()
+        logger.addHandler(handler)
+    if handler is not None:
         handler.setLevel(level)
         handler.setFormatter(logging.Formatter(config.format, datefmt=config.datefmt))
-        logger.addHandler(handler)
     return logger
 
 
-- 
2.43.0


From 57641e50607b9358179bb5066d014216edcaed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:49 +0000
Subject: [PATCH 36/52] fix: get_logger namespaces names that merely start with
 torchrir

---
 src/torchrir/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index fd0aeb2..dfcc5e8 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -76,7 +76,7 @@ def get_logger(name: Optional[str] = None) -> logging.Logger:
     """
     if not name:
         return logging.getLogger("torchrir")
-    if name.startswith("torchrir"):
+    if name == "torchrir" or name.startswith("torchrir."):
         return logging.getLogger(name)
     return logging.getLogger(f"torchrir.{name}")
 
-- 
2.43.0


From ee21c9117878e725ccd34957c6ad236ae0fd4862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:58 +0000
Subject: [PATCH 37/52] fix: resolve_device handles mps:N and indexed devices
 in any letter case

---
 src/torchrir/util/device.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/util/device.py b/src/torchrir/util/device.py
index 4df5f00..8c9e2d6 100644
--- a/src/torchrir/util/device.py
+++ b/src/torchrir/util/device.py
@@ -41,18 +41,18 @@ def resolve_device(
 
     if dev.startswith("cuda"):
         if torch.cuda.is_available():
-            return torch.device(device)
+            return torch.device(dev)
         warnings.warn("CUDA not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
-    if dev == "mps":
+    if dev == "mps" or dev.startswith("mps:"):
         if torch.backends.mps.is_available():
-            return torch.device("mps")
+            return torch.device(dev)
         warnings.warn("MPS not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
     if dev == "cpu":
         return torch.device("cpu")
 
-    return torch.device(device)
+    return torch.device(dev)
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From 3a5042a4eae5ca4c32371c460272ca74129ccb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 38/52] fix: 3-D animations label their sources instead of
 raising

---
 src/torchrir/viz/animation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index 563e058..0327c10 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -220,7 +220,9 @@ def _build_scene_animation(
     source_texts = []
     if annotate_sources:
         for idx in range(view_src_traj.shape[1]):
-            text = ax.text(0.0, 0.0, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
+            text = ax.text(
+                *([0.0] * view_dim), f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT
+            )
             source_texts.append(text)
 
     ax.legend(loc="best", fontsize=_VIDEO_FONT_SIZE_PT)
-- 
2.43.0


From 6e67c46d7d1853fd17e6ac1865431996b8ee0e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 39/52] fix: the RIR high-pass accepts responses shorter than
 its default padding

---
 src/torchrir/sim/ism/hpf.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/sim/ism/hpf.py b/src/torchrir/sim/ism/hpf.py
index b7af5d5..e905c6b 100644
--- a/src/torchrir/sim/ism/hpf.py
+++ b/src/torchrir/sim/ism/hpf.py
@@ -37,6 +37,13 @@ def _design_hpf_sos(fs: float, fc: float, kwargs: dict[str, Any]) -> np.ndarray:
     )
 
 
+def _padlen(sos: np.ndarray, n: int) -> int:
+    """Edge padding of sosfiltfilt: scipy's default, limited by the signal length."""
+    ntaps = 2 * len(sos) + 1
+    ntaps -= min(int((sos[:, 2] == 0).sum()), int((sos[:, 5] == 0).sum()))
+    return max(0, min(3 * ntaps, n - 1))
+
+
 def apply_rir_hpf(rir: Tensor, fs: float, cfg: SimulationConfig) -> Tensor:
     """Apply pyroomacoustics-style IIR high-pass filtering to RIRs."""
     if not cfg.rir_hpf_enable:
@@ -52,6 +59,7 @@ def apply_rir_hpf(rir: Tensor, fs: float, cfg: SimulationConfig) -> Tensor:
 
     sos = _design_hpf_sos(fs, cfg.rir_hpf_fc, cfg.rir_hpf_kwargs)
     rir_np = rir.detach().cpu().to(torch.float64).numpy()
-    filtered = sosfiltfilt(sos, rir_np, axis=-1)
-    filtered = np.ascontiguousarray(filtered)
+    padlen = _padlen(sos, rir_np.shape[-1])
+    filtered = sosfiltfilt(sos, rir_np, axis=-1, padlen=padlen)
+    filtered = filtered.copy(order="C")
     return torch.as_tensor(filtered, device=rir.device, dtype=rir.dtype)
-- 
2.43.0


From 6490be8b98c6e0b5756ed1cc639cb35166f23bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 40/52] fix: treat a dataset archive without its end marker as
 damaged

A download cut between two members of a multi-stream archive was extracted
and presented as the complete corpus.
---
 src/torchrir/datasets/_archive.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index e247a59..15ea817 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -31,6 +31,9 @@ def extract_dataset(tar: tarfile.TarFile, dest: Path, dataset_dir: Path) -> None
     afterwards, dataset_dir last, so an interrupted run leaves no partial dataset.
     """
     tar.getmembers()
+    if tar.fileobj.tell() < tar.offset + tarfile.BLOCKSIZE:
+        # No end-of-archive block: the archive was cut between two members.
+        raise tarfile.ReadError("unexpected end of archive")
     # Read to the end of the stream: checks the checksums of the compressed data.
     while tar.fileobj.read(1 << 20):
         pass
-- 
2.43.0


From 252d12e5e3d6a1a624ec1a2ec7a19829b6b0f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 41/52] fix: the Scene deprecation warning points at the caller

---
 src/torchrir/models/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/models/scene.py b/src/torchrir/models/scene.py
index 0e5c1c4..d554b68 100644
--- a/src/torchrir/models/scene.py
+++ b/src/torchrir/models/scene.py
@@ -96,7 +96,7 @@ class Scene:
             "Scene is deprecated and will be removed in a future release. "
             "Use StaticScene or DynamicScene.",
             DeprecationWarning,
-            stacklevel=2,
+            stacklevel=3,  # past the dataclass-generated __init__
         )
         self._validate_internal()
 
-- 
2.43.0


From 8e1b59802ce294b2ce59b03f356df0395867833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 42/52] fix: a speaker listed twice is not picked twice for one
 scene

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 82afa95..677301a 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -479,7 +479,7 @@ def build_dynamic_cmu_arctic_dataset(
     room_size_arr = _as_triplet(room_size, name="room_size")
     mic_center_arr = _as_triplet(mic_center, name="mic_center")
     source_margin_arr = _as_triplet(source_margin, name="source_margin")
-    speakers_list = [str(speaker) for speaker in speakers]
+    speakers_list = list(dict.fromkeys(str(speaker) for speaker in speakers))
 
     if n_scenes <= 0:
         raise ValueError("n_scenes must be > 0")
@@ -491,7 +491,7 @@ def build_dynamic_cmu_arctic_dataset(
         )
     if n_sources > len(speakers_list):
         raise ValueError(
-            f"n_sources ({n_sources}) must be <= number of provided speakers ({len(speakers_list)})"
+            f"n_sources ({n_sources}) must be <= number of distinct speakers ({len(speakers_list)})"
         )
     if trajectory_steps <= 0:
         raise ValueError("trajectory_steps must be > 0")
-- 
2.43.0


From b02e31a5f90fd34cbdb6d2a3b85801b98f71293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:01 +0000
Subject: [PATCH 43/52] fix: reject unusable dataset requests before replacing
 a dataset

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 677301a..ef51021 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -18,6 +18,7 @@ from __future__ import annotations
 import argparse
 import json
 import logging
+import operator
 from pathlib import Path
 import random
 import shutil
@@ -481,6 +482,10 @@ def build_dynamic_cmu_arctic_dataset(
     source_margin_arr = _as_triplet(source_margin, name="source_margin")
     speakers_list = list(dict.fromkeys(str(speaker) for speaker in speakers))
 
+    n_scenes, n_sources = operator.index(n_scenes), operator.index(n_sources)
+    n_moving_sources = operator.index(n_moving_sources)
+    trajectory_steps = operator.index(trajectory_steps)
+    rir_samples, max_order = operator.index(rir_samples), operator.index(max_order)
     if n_scenes <= 0:
         raise ValueError("n_scenes must be > 0")
     if n_sources <= 0:
@@ -523,6 +528,8 @@ def build_dynamic_cmu_arctic_dataset(
         if not test_ids:
             raise RuntimeError(f"No utterances found for speaker '{speaker}'")
         _, sr = ds.load_audio(test_ids[0].utterance_id)
+        if not any(ds.load_audio(s.utterance_id)[0].numel() > 0 for s in test_ids):
+            raise RuntimeError(f"No audio found for speaker '{speaker}'")
         if sample_rate is None:
             sample_rate = int(sr)
         elif int(sr) != sample_rate:
@@ -558,7 +565,7 @@ def build_dynamic_cmu_arctic_dataset(
     )
     convolver = DynamicConvolver(mode="trajectory")
 
-    # Reject infeasible placements before an existing dataset is replaced.
+    # Reject infeasible or non-finite placements before an existing dataset is replaced.
     probe_rng = np.random.default_rng(seed)
     probe_mic_center = mic_center_arr
     if randomize_mic_center:
@@ -584,6 +591,10 @@ def build_dynamic_cmu_arctic_dataset(
         min_radius_m=min_source_distance_m,
     )
 
+    MicrophoneArray.from_positions(
+        (base_mic_positions + probe_mic_center[None, :]).tolist(), dtype=torch.float64
+    )
+
     if dataset_root.exists():
         shutil.rmtree(dataset_root)
     dataset_root.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 5c42624ec194fc10f5b249235df704e5d4f822f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 44/52] fix: compute trajectory segment starts in integers

t * (n_samples / t_steps) can round to just below an integer, so a segment
started one sample before floor(t * n_samples / t_steps).
---
 src/torchrir/signal/dynamic.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index 1aa12a9..cf76395 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -130,11 +130,8 @@ def _convolve_dynamic_rir_trajectory(
         # Steps that begin after the end of the signal own no samples.
         w_ini = torch.clamp((ts * fs).to(torch.long), max=n_samples)
     else:
-        step_fs = n_samples / t_steps
-        ts_dtype = torch.float32 if signal.device.type == "mps" else torch.float64
-        w_ini = (
-            torch.arange(t_steps, device=signal.device, dtype=ts_dtype) * step_fs
-        ).to(torch.long)
+        w_ini = torch.arange(t_steps, device=signal.device, dtype=torch.long)
+        w_ini = w_ini * n_samples // t_steps
 
     w_ini = torch.cat(
         [w_ini, torch.tensor([n_samples], device=signal.device, dtype=torch.long)]
-- 
2.43.0


From 8658e154ca86e5db0f1c55ab7b17c6267f39ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 45/52] fix: divide exactly in estimate_image_counts_from_tmax

A Python scalar divided by a tensor is the scalar times the rounded
reciprocal, so a time covered by a whole number of rooms (343 m, 7 m walls)
could get one image too many.
---
 src/torchrir/util/acoustics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/util/acoustics.py b/src/torchrir/util/acoustics.py
index 7102e93..1346bda 100644
--- a/src/torchrir/util/acoustics.py
+++ b/src/torchrir/util/acoustics.py
@@ -140,7 +140,8 @@ def estimate_image_counts_from_tmax(
     """
     if tmax <= 0:
         raise ValueError("tmax must be positive")
-    size = as_tensor(room_size)
+    size = ensure_floating(as_tensor(room_size))
     size = ensure_dim(size)
-    n = torch.ceil((tmax * c) / size).to(torch.int64)
+    # Not scalar / size: torch multiplies by the rounded reciprocal there.
+    n = torch.ceil(torch.full_like(size, tmax * c) / size).to(torch.int64)
     return n
-- 
2.43.0


From ab01a806934f5a5b0a1f6a2c4f0c4c129dd2a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 46/52] fix: dataset stems as short as one sample or as long as
 there are microphones keep their channels

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index ef51021..2fc7ce6 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -422,17 +422,17 @@ def _to_time_channel_audio(
     audio: np.ndarray | torch.Tensor, *, n_mics: int
 ) -> np.ndarray:
     data = np.asarray(audio, dtype=np.float64)
-    data = np.squeeze(data)
 
     if data.ndim == 1:
         return data[:, None]
     if data.ndim != 2:
         raise ValueError(f"Unexpected audio ndim: {data.ndim}, shape={data.shape}")
 
-    if data.shape[1] == n_mics:
-        return data
+    # Channels first, as the convolver returns them, wins when both axes match.
     if data.shape[0] == n_mics:
         return data.T
+    if data.shape[1] == n_mics:
+        return data
 
     raise ValueError(
         "Could not infer time/channel axes for convolved signal with "
-- 
2.43.0


From 0ff76d67d0ee85cada468915ca85f571f0fde961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:07 +0000
Subject: [PATCH 47/52] fix: timestamps far beyond the end of the signal own no
 samples instead of overflowing

---
 src/torchrir/signal/dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index cf76395..3421c92 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -128,7 +128,7 @@ def _convolve_dynamic_rir_trajectory(
         if not torch.isfinite(ts).all() or (ts[1:] < ts[:-1]).any():
             raise ValueError("timestamps must be finite and non-decreasing")
         # Steps that begin after the end of the signal own no samples.
-        w_ini = torch.clamp((ts * fs).to(torch.long), max=n_samples)
+        w_ini = torch.clamp(ts * fs, max=n_samples).to(torch.long)
     else:
         w_ini = torch.arange(t_steps, device=signal.device, dtype=torch.long)
         w_ini = w_ini * n_samples // t_steps
-- 
2.43.0


From d1ee4336c3c3906668ed4a25e326aaa03175ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:02 +0000
Subject: [PATCH 48/52] fix: reject a non-finite fs for timestamps

---
 src/torchrir/signal/dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index 3421c92..d799bc8 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -114,7 +114,7 @@ def _convolve_dynamic_rir_trajectory(
     if timestamps is not None:
         if fs is None:
             raise ValueError("fs must be provided when timestamps are used")
-        if fs <= 0:
+        if not math.isfinite(fs) or fs <= 0:
             raise ValueError("fs must be positive")
         ts = torch.as_tensor(
             timestamps,
-- 
2.43.0


From c4dea495c8db4cec414a78f2dd85e7dd3632355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:32 +0000
Subject: [PATCH 49/52] fix: orientation vectors of any non-zero length are
 brought to unit length

---
 src/torchrir/util/orientation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/torchrir/util/orientation.py b/src/torchrir/util/orientation.py
index d88154f..54d9afa 100644
--- a/src/torchrir/util/orientation.py
+++ b/src/torchrir/util/orientation.py
@@ -8,6 +8,9 @@ from torch import Tensor
 
 def normalize_orientation(orientation: Tensor, *, eps: float = 1e-8) -> Tensor:
     """Normalize orientation vectors with numerical stability."""
+    # Scale first: the squares of very short or long vectors leave the float range.
+    scale = orientation.abs().amax(dim=-1, keepdim=True)
+    orientation = orientation / torch.where(scale > 0, scale, torch.ones_like(scale))
     norm = torch.linalg.norm(orientation, dim=-1, keepdim=True)
     norm = torch.clamp(norm, min=eps)
     return orientation / norm
-- 
2.43.0


From ddbaf26a5de9f1e672223f36d4ea0c7a0e5154a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 50/52] fix: array directions and normals of any length are
 brought to unit length and zero ones rejected

---
 src/torchrir/geometry/arrays.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index 5151447..2ef70b3 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -58,7 +58,7 @@ def linear_array(
         )
         if direction_vec.numel() != dim:
             raise ValueError("direction must match center dimensionality")
-        direction_vec = direction_vec / torch.linalg.norm(direction_vec)
+        direction_vec = _unit_vector(direction_vec, "direction")
 
     offsets = (
         torch.arange(num, device=center_t.device, dtype=center_t.dtype)
@@ -408,10 +408,19 @@ def eigenmike_em64(
     )
 
 
+def _unit_vector(vector: Tensor, name: str) -> Tensor:
+    scale = vector.abs().max()
+    if not bool(torch.isfinite(scale)) or float(scale) == 0.0:
+        raise ValueError(f"{name} must be a finite non-zero vector")
+    # Scale first: the squares of very short or long vectors leave the float range.
+    scaled = vector / scale
+    return scaled / torch.linalg.norm(scaled)
+
+
 def _basis_from_normal(normal: Tensor) -> tuple[Tensor, Tensor]:
     if normal.numel() != 3:
         raise ValueError("normal must be a 3D vector")
-    n = normal / torch.linalg.norm(normal)
+    n = _unit_vector(normal, "normal")
     ref = torch.tensor([1.0, 0.0, 0.0], device=normal.device, dtype=normal.dtype)
     if torch.allclose(n.abs(), ref):
         ref = torch.tensor([0.0, 1.0, 0.0], device=normal.device, dtype=normal.dtype)
-- 
2.43.0


From 9b5dfa4d1fec36385b82a41ce6409a125cdb1305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:48 +0000
Subject: [PATCH 51/52] fix: plot tensors that require grad or live on another
 device

---
 src/torchrir/viz/scene.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/viz/scene.py b/src/torchrir/viz/scene.py
index 65e1394..c8fb7d5 100644
--- a/src/torchrir/viz/scene.py
+++ b/src/torchrir/viz/scene.py
@@ -13,6 +13,7 @@ from .utils import (
     _add_axes_annotation,
     _close_figures_on_error,
     _ensure_default_mpl_style,
+    _to_cpu,
 )
 
 _MIC_COLOR = "tab:orange"
@@ -231,7 +232,7 @@ def _extract_positions(
         pos = entity.positions
     else:
         pos = entity
-    pos = ensure_floating(as_tensor(pos))
+    pos = ensure_floating(_to_cpu(pos))
     if pos.ndim == 1:
         pos = pos.unsqueeze(0)
     return pos
@@ -266,7 +267,7 @@ def _scatter_positions(
 
 def _as_trajectory(traj: Tensor | Sequence) -> Tensor:
     """Validate and normalize a trajectory tensor."""
-    traj = ensure_floating(as_tensor(traj))
+    traj = ensure_floating(_to_cpu(traj))
     if traj.ndim != 3:
         raise ValueError("trajectory must be of shape (T, N, dim)")
     return traj
-- 
2.43.0


From 7907e8765e039426ff45c4393bedd4284501bb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 52/52] fix: reject non-finite positions, trajectories and
 orientations given as raw tensors

---
 src/torchrir/sim/ism/validate.py | 9 +++++++++
 src/torchrir/util/orientation.py | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/torchrir/sim/ism/validate.py b/src/torchrir/sim/ism/validate.py
index f055ac3..74c2ab3 100644
--- a/src/torchrir/sim/ism/validate.py
+++ b/src/torchrir/sim/ism/validate.py
@@ -86,11 +86,18 @@ def _validate_dynamic_args(
     return nsample
 
 
+def _require_finite(value: Tensor, name: str) -> None:
+    if not bool(torch.isfinite(value).all()):
+        raise ValueError(f"{name} must contain finite values")
+
+
 def _validate_pos_shapes(src_pos: Tensor, mic_pos: Tensor, dim: int) -> None:
     if src_pos.ndim != 2 or src_pos.shape[1] != dim:
         raise ValueError("sources must be of shape (n_src, dim)")
     if mic_pos.ndim != 2 or mic_pos.shape[1] != dim:
         raise ValueError("mics must be of shape (n_mic, dim)")
+    _require_finite(src_pos, "sources")
+    _require_finite(mic_pos, "mics")
 
 
 def _validate_traj_shapes(src_traj: Tensor, mic_traj: Tensor, dim: int) -> None:
@@ -104,3 +111,5 @@ def _validate_traj_shapes(src_traj: Tensor, mic_traj: Tensor, dim: int) -> None:
         raise ValueError("src_traj must match room dimension")
     if mic_traj.shape[2] != dim:
         raise ValueError("mic_traj must match room dimension")
+    _require_finite(src_traj, "src_traj")
+    _require_finite(mic_traj, "mic_traj")
diff --git a/src/torchrir/util/orientation.py b/src/torchrir/util/orientation.py
index 54d9afa..3ec9cdb 100644
--- a/src/torchrir/util/orientation.py
+++ b/src/torchrir/util/orientation.py
@@ -18,6 +18,8 @@ def normalize_orientation(orientation: Tensor, *, eps: float = 1e-8) -> Tensor:
 
 def orientation_to_unit(orientation: Tensor, dim: int) -> Tensor:
     """Convert orientation representation to unit vectors in 2D/3D."""
+    if not bool(torch.isfinite(orientation).all()):
+        raise ValueError("orientation must contain finite values")
     if dim == 2:
         if orientation.ndim == 0:
             angle = orientation
-- 
2.43.0


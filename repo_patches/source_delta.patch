From dda0e763d99e9bdc1491bfb5784745b3f5fd1002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 01/38] fix: reject source-count mismatches and non-positive
 hops in hop convolution

Extra signal sources were silently dropped, a negative hop returned silence
and a single signal for several sources raised IndexError.
---
 src/torchrir/signal/dynamic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index 2b8da0d..a0b54ca 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -77,6 +77,13 @@ def _convolve_dynamic_rir_hop(signal: Tensor, rirs: Tensor, hop: int) -> Tensor:
     """Dynamic convolution using fixed hop-size segments."""
     t_steps, n_src, n_mic, rir_len = rirs.shape
 
+    if hop <= 0:
+        raise ValueError("hop must be positive")
+    if signal.shape[0] not in (1, n_src):
+        raise ValueError("signal source count does not match rirs")
+    if signal.shape[0] == 1 and n_src > 1:
+        signal = signal.expand(n_src, -1)
+
     frames = math.ceil(signal.shape[1] / hop)
     frames = min(frames, t_steps)
 
-- 
2.43.0


From a163921488f7238db05199a24b5a91e576fee3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 02/38] fix: reject decreasing timestamps in trajectory
 convolution

Single-tap responses with a decreasing or out-of-range timestamp silently
lost segments instead of failing.
---
 src/torchrir/signal/dynamic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/torchrir/signal/dynamic.py b/src/torchrir/signal/dynamic.py
index a0b54ca..fc53ba4 100644
--- a/src/torchrir/signal/dynamic.py
+++ b/src/torchrir/signal/dynamic.py
@@ -138,6 +138,8 @@ def _convolve_dynamic_rir_trajectory(
         [w_ini, torch.tensor([n_samples], device=signal.device, dtype=torch.long)]
     )
     w_len = w_ini[1:] - w_ini[:-1]
+    if int(w_len.min().item()) < 0:
+        raise ValueError("timestamps must be non-decreasing and within the signal")
 
     if signal.device.type in ("cuda", "mps"):
         return _convolve_dynamic_rir_trajectory_batched(
-- 
2.43.0


From 11703b0fdc418ba4c23ccdd5b697ec0810108f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 03/38] fix: keep integer inputs as floating-point values in
 rooms, devices and trajectories

Integer sizes truncated reflection coefficients to 0 and integer positions
failed in the simulator; the deprecated Scene refused list trajectories.
---
 src/torchrir/models/room.py     | 10 +++++-----
 src/torchrir/models/scene.py    | 10 +++++++---
 src/torchrir/sim/ism/helpers.py |  4 ++--
 src/torchrir/sim/ism/prepare.py |  6 +++---
 src/torchrir/util/tensor.py     | 13 +++++++++++++
 5 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/torchrir/models/room.py b/src/torchrir/models/room.py
index 3dec243..60ff278 100644
--- a/src/torchrir/models/room.py
+++ b/src/torchrir/models/room.py
@@ -8,7 +8,7 @@ from typing import Optional, Sequence
 import torch
 from torch import Tensor
 
-from ..util.tensor import as_tensor, ensure_dim
+from ..util.tensor import as_float_tensor, as_tensor, ensure_dim
 
 
 @dataclass(frozen=True)
@@ -29,7 +29,7 @@ class Room:
 
     def __post_init__(self) -> None:
         """Validate room size and reflection parameters."""
-        size = ensure_dim(self.size)
+        size = ensure_dim(as_float_tensor(self.size))
         if not torch.all(torch.isfinite(size)):
             raise ValueError("room size must contain finite values")
         if torch.any(size <= 0):
@@ -78,7 +78,7 @@ class Room:
             room = Room.shoebox(size=[6.0, 4.0, 3.0], fs=16000, beta=[0.9] * 6)
             ```
         """
-        size_t = as_tensor(size, device=device, dtype=dtype)
+        size_t = as_float_tensor(size, device=device, dtype=dtype)
         size_t = ensure_dim(size_t)
         beta_t = None
         if beta is not None:
@@ -212,7 +212,7 @@ def _validate_orientation(
 
 
 def _normalize_entity_positions(positions: Tensor, *, name: str) -> Tensor:
-    pos = as_tensor(positions)
+    pos = as_float_tensor(positions)
     if pos.ndim == 1:
         pos = pos.unsqueeze(0)
     if pos.ndim != 2 or pos.shape[1] not in (2, 3):
@@ -231,6 +231,6 @@ def _normalize_entity_orientation(
 ) -> Optional[Tensor]:
     if orientation is None:
         return None
-    ori = as_tensor(orientation)
+    ori = as_float_tensor(orientation)
     _validate_orientation(ori, n_entities=n_entities, dim=dim, name=name)
     return ori
diff --git a/src/torchrir/models/scene.py b/src/torchrir/models/scene.py
index 0e5c1c4..389834b 100644
--- a/src/torchrir/models/scene.py
+++ b/src/torchrir/models/scene.py
@@ -10,7 +10,7 @@ import torch
 from torch import Tensor
 
 from .room import MicrophoneArray, Room, Source
-from ..util.tensor import as_tensor
+from ..util.tensor import as_float_tensor
 
 
 @dataclass(frozen=True)
@@ -54,8 +54,8 @@ class DynamicScene:
     mic_traj: Tensor
 
     def __post_init__(self) -> None:
-        src_traj = as_tensor(self.src_traj)
-        mic_traj = as_tensor(self.mic_traj)
+        src_traj = as_float_tensor(self.src_traj)
+        mic_traj = as_float_tensor(self.mic_traj)
         object.__setattr__(self, "src_traj", src_traj)
         object.__setattr__(self, "mic_traj", mic_traj)
         self._validate_internal()
@@ -98,6 +98,10 @@ class Scene:
             DeprecationWarning,
             stacklevel=2,
         )
+        if self.src_traj is not None:
+            object.__setattr__(self, "src_traj", as_float_tensor(self.src_traj))
+        if self.mic_traj is not None:
+            object.__setattr__(self, "mic_traj", as_float_tensor(self.mic_traj))
         self._validate_internal()
 
     def _validate_internal(self) -> None:
diff --git a/src/torchrir/sim/ism/helpers.py b/src/torchrir/sim/ism/helpers.py
index 7a8a4ad..1083414 100644
--- a/src/torchrir/sim/ism/helpers.py
+++ b/src/torchrir/sim/ism/helpers.py
@@ -10,7 +10,7 @@ from torch import Tensor
 from ...models import MicrophoneArray, Room, Source
 from ...util.acoustics import estimate_beta_from_t60
 from ...util.orientation import normalize_orientation, orientation_to_unit
-from ...util.tensor import as_tensor
+from ...util.tensor import as_float_tensor, as_tensor
 
 
 def _prepare_entities(
@@ -35,7 +35,7 @@ def _prepare_entities(
             ori = orientation[0] if which == "source" else orientation[1]
         else:
             ori = orientation
-    pos = as_tensor(pos, device=device, dtype=dtype)
+    pos = as_float_tensor(pos, device=device, dtype=dtype)
     if ori is not None:
         ori = as_tensor(ori, device=device, dtype=dtype)
     return pos, ori
diff --git a/src/torchrir/sim/ism/prepare.py b/src/torchrir/sim/ism/prepare.py
index 3afce79..6ed6867 100644
--- a/src/torchrir/sim/ism/prepare.py
+++ b/src/torchrir/sim/ism/prepare.py
@@ -9,7 +9,7 @@ from torch import Tensor
 
 from ...models import MicrophoneArray, Room, Source
 from ...util.device import infer_device_dtype, resolve_device
-from ...util.tensor import as_tensor, ensure_dim
+from ...util.tensor import as_float_tensor, as_tensor, ensure_dim
 from .helpers import _prepare_entities
 
 
@@ -84,8 +84,8 @@ def _prepare_dynamic_tensors(
     if isinstance(device, str):
         device = resolve_device(device)
 
-    src_traj = as_tensor(src_traj, device=device, dtype=dtype)
-    mic_traj = as_tensor(mic_traj, device=device, dtype=dtype)
+    src_traj = as_float_tensor(src_traj, device=device, dtype=dtype)
+    mic_traj = as_float_tensor(mic_traj, device=device, dtype=dtype)
     device, dtype = infer_device_dtype(
         src_traj, mic_traj, room.size, device=device, dtype=dtype
     )
diff --git a/src/torchrir/util/tensor.py b/src/torchrir/util/tensor.py
index 4e7da48..3078b81 100644
--- a/src/torchrir/util/tensor.py
+++ b/src/torchrir/util/tensor.py
@@ -29,6 +29,19 @@ def as_tensor(
     return torch.as_tensor(value, device=device, dtype=dtype)
 
 
+def as_float_tensor(
+    value: Tensor | Iterable[float] | Iterable[Iterable[float]] | float | int,
+    *,
+    device: Optional[torch.device | str] = None,
+    dtype: Optional[torch.dtype] = None,
+) -> Tensor:
+    """Like `as_tensor`, but integer inputs become the default floating dtype."""
+    out = as_tensor(value, device=device, dtype=dtype)
+    if not out.is_floating_point():
+        out = out.to(torch.get_default_dtype())
+    return out
+
+
 def ensure_dim(size: Tensor) -> Tensor:
     """Validate room size dimensionality (2D or 3D)."""
     if size.ndim != 1 or size.numel() not in (2, 3):
-- 
2.43.0


From e7416253ebffb2d03f3f0f388f023b851a25ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 04/38] fix: use the scene's orientations when simulating a
 dynamic scene

---
 src/torchrir/sim/simulators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/sim/simulators.py b/src/torchrir/sim/simulators.py
index c48ecd7..795756a 100644
--- a/src/torchrir/sim/simulators.py
+++ b/src/torchrir/sim/simulators.py
@@ -76,6 +76,10 @@ class ISMSimulator:
                 nsample=self.nsample,
                 tmax=self.tmax,
                 directivity=self.directivity,
+                orientation=(
+                    normalized_scene.sources.orientation,
+                    normalized_scene.mics.orientation,
+                ),
                 config=cfg,
                 device=self.device,
                 dtype=self.dtype,
-- 
2.43.0


From 46e57910de03ae0a701a2308c6f3fcf624882f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 05/38] fix: treat every omnidirectional alias as needing no
 orientation

---
 src/torchrir/sim/directivity.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/sim/directivity.py b/src/torchrir/sim/directivity.py
index ab44109..538d821 100644
--- a/src/torchrir/sim/directivity.py
+++ b/src/torchrir/sim/directivity.py
@@ -29,5 +29,10 @@ def split_directivity(directivity: str | tuple[str, str]) -> tuple[str, str]:
     if isinstance(directivity, (list, tuple)):
         if len(directivity) != 2:
             raise ValueError("directivity tuple must have length 2")
-        return directivity[0], directivity[1]
-    return directivity, directivity
+        return _fold_omni(directivity[0]), _fold_omni(directivity[1])
+    return _fold_omni(directivity), _fold_omni(directivity)
+
+
+def _fold_omni(pattern: str) -> str:
+    """Spell every omnidirectional alias as "omni" (needs no orientation)."""
+    return "omni" if pattern.lower() in ("omni", "omnidirectional") else pattern
-- 
2.43.0


From 80e301241798d9f8ebbea5f0290cfb18eac2a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 06/38] fix: reject more microphone orientations than
 microphones

With a single microphone the extra orientations were silently ignored.
---
 src/torchrir/sim/ism/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/torchrir/sim/ism/api.py b/src/torchrir/sim/ism/api.py
index b10ea98..bb86595 100644
--- a/src/torchrir/sim/ism/api.py
+++ b/src/torchrir/sim/ism/api.py
@@ -91,6 +91,8 @@ def simulate_rir(
 
     n_src = src_pos.shape[0]
     n_mic = mic_pos.shape[0]
+    if mic_dir is not None and mic_dir.ndim == 2 and mic_dir.shape[0] not in (1, n_mic):
+        raise ValueError("mic orientation must match number of mics")
     rir = torch.zeros((n_src, n_mic, nsample), device=device, dtype=dtype)
     fdl = cfg.frac_delay_length
     fdl2 = (fdl - 1) // 2
@@ -192,6 +194,8 @@ def simulate_dynamic_rir(
 
     n_src = src_traj.shape[1]
     n_mic = mic_traj.shape[1]
+    if mic_dir is not None and mic_dir.ndim == 2 and mic_dir.shape[0] not in (1, n_mic):
+        raise ValueError("mic orientation must match number of mics")
     rirs = torch.zeros(
         (src_traj.shape[0], n_src, n_mic, nsample), device=device, dtype=dtype
     )
-- 
2.43.0


From 613f0b4686b3c3c7a22c97056f5c82a98af568aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 07/38] fix: reject NaN sampling rate, sound speed and
 reverberation time

---
 src/torchrir/models/room.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/models/room.py b/src/torchrir/models/room.py
index 60ff278..bf091e8 100644
--- a/src/torchrir/models/room.py
+++ b/src/torchrir/models/room.py
@@ -35,13 +35,13 @@ class Room:
         if torch.any(size <= 0):
             raise ValueError("room size must be strictly positive")
         object.__setattr__(self, "size", size)
-        if self.fs <= 0:
+        if not self.fs > 0:
             raise ValueError("fs must be positive")
-        if self.c <= 0:
+        if not self.c > 0:
             raise ValueError("c must be positive")
         if self.beta is not None and self.t60 is not None:
             raise ValueError("beta and t60 are mutually exclusive")
-        if self.t60 is not None and self.t60 <= 0:
+        if self.t60 is not None and not self.t60 > 0:
             raise ValueError("t60 must be positive")
         if self.beta is not None:
             beta = as_tensor(self.beta, dtype=size.dtype).view(-1)
-- 
2.43.0


From 4d5082d0bfb2535ada6cf4085b2770e93c883837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 08/38] fix: leave responses shorter than the tail onset
 untouched

With an explicit sample count ending before the onset the last image-source
sample was replaced by noise.
---
 src/torchrir/sim/ism/diffuse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/sim/ism/diffuse.py b/src/torchrir/sim/ism/diffuse.py
index 7344676..69251ea 100644
--- a/src/torchrir/sim/ism/diffuse.py
+++ b/src/torchrir/sim/ism/diffuse.py
@@ -23,8 +23,8 @@ def _apply_diffuse_tail(
 ) -> Tensor:
     """Apply a diffuse reverberation tail after tdiff."""
     nsample = rir.shape[-1]
-    tdiff_idx = min(nsample - 1, int(math.floor(tdiff * room.fs)))
-    if tdiff_idx <= 0:
+    tdiff_idx = int(math.floor(tdiff * room.fs))
+    if tdiff_idx <= 0 or tdiff_idx >= nsample:
         return rir
     tail_len = nsample - tdiff_idx
     t = torch.arange(tail_len, device=rir.device, dtype=rir.dtype) / room.fs
-- 
2.43.0


From 4f10ab33f1c40e8f4ee87ce9ba05bd8a4c5f5ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 09/38] fix: apply the diffuse tail when only a sample count is
 given

An explicit tail onset was silently ignored without tmax.
---
 src/torchrir/sim/ism/api.py     | 2 +-
 src/torchrir/sim/ism/diffuse.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/sim/ism/api.py b/src/torchrir/sim/ism/api.py
index bb86595..9b6ba4f 100644
--- a/src/torchrir/sim/ism/api.py
+++ b/src/torchrir/sim/ism/api.py
@@ -129,7 +129,7 @@ def simulate_rir(
         )
         _accumulate_rir_batch(rir, sample_chunk, attenuation_chunk, cfg)
 
-    if tdiff is not None and tmax is not None and tdiff < tmax:
+    if tdiff is not None and (tmax is None or tdiff < tmax):
         rir = _apply_diffuse_tail(rir, room, beta, tdiff, tmax, seed=cfg.seed)
     rir = apply_rir_hpf(rir, room.fs, cfg)
     return rir
diff --git a/src/torchrir/sim/ism/diffuse.py b/src/torchrir/sim/ism/diffuse.py
index 69251ea..0d847cf 100644
--- a/src/torchrir/sim/ism/diffuse.py
+++ b/src/torchrir/sim/ism/diffuse.py
@@ -17,7 +17,7 @@ def _apply_diffuse_tail(
     room: Room,
     beta: Tensor,
     tdiff: float,
-    tmax: float,
+    tmax: Optional[float],
     *,
     seed: Optional[int] = None,
 ) -> Tensor:
-- 
2.43.0


From b9a89776dd99a4100c01764a691130f57d17e60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:57 +0000
Subject: [PATCH 10/38] fix: detect damaged dataset archives by their checksum
 and re-download them

---
 src/torchrir/datasets/_archive.py    | 7 +++++++
 src/torchrir/datasets/cmu_arctic.py  | 3 ++-
 src/torchrir/datasets/librispeech.py | 3 ++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index 469032c..f4b848e 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -19,3 +19,10 @@ def safe_extractall(tar: tarfile.TarFile, dest: Path) -> None:
             raise ValueError(f"unsafe archive member path: {member.name}")
 
     tar.extractall(root)
+    _verify_checksum(tar)
+
+
+def _verify_checksum(tar: tarfile.TarFile) -> None:
+    """Read the rest of a compressed stream, whose trailer carries its checksum."""
+    while tar.fileobj is not None and tar.fileobj.read(1024 * 1024):
+        pass
diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index c59f12a..a7d0951 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import logging
 import tarfile
 import urllib.request
+import zlib
 from dataclasses import dataclass
 from pathlib import Path
 from typing import List, Tuple
@@ -115,7 +116,7 @@ class CmuArcticDataset(BaseDataset):
             try:
                 with tarfile.open(archive_path, "r:bz2") as tar:
                     safe_extractall(tar, self._base_dir)
-            except (tarfile.ReadError, EOFError, OSError) as exc:
+            except (tarfile.ReadError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index ee10fbd..cc25df9 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import logging
 import tarfile
 import urllib.request
+import zlib
 from dataclasses import dataclass
 from pathlib import Path
 from typing import List, Tuple
@@ -143,7 +144,7 @@ class LibriSpeechDataset(BaseDataset):
             try:
                 with tarfile.open(archive_path, "r:gz") as tar:
                     safe_extractall(tar, self.root)
-            except (tarfile.ReadError, EOFError, OSError) as exc:
+            except (tarfile.ReadError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 if archive_path.exists():
                     archive_path.unlink()
-- 
2.43.0


From 745b951830ce01fb7817a5c9d63cb32743e838fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:40 +0000
Subject: [PATCH 11/38] fix: keep concurrent dataset downloads from publishing
 each other's partial files

---
 src/torchrir/datasets/cmu_arctic.py  | 17 +++++++----------
 src/torchrir/datasets/librispeech.py | 17 +++++++----------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index a7d0951..a35bb27 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import logging
 import tarfile
 import urllib.request
+import uuid
 import zlib
 from dataclasses import dataclass
 from pathlib import Path
@@ -118,8 +119,6 @@ class CmuArcticDataset(BaseDataset):
                     safe_extractall(tar, self._base_dir)
             except (tarfile.ReadError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
-                if archive_path.exists():
-                    archive_path.unlink()
                 _download(url, archive_path)
                 with tarfile.open(archive_path, "r:bz2") as tar:
                     safe_extractall(tar, self._base_dir)
@@ -162,23 +161,21 @@ class CmuArcticDataset(BaseDataset):
 def _download(url: str, dest: Path, retries: int = 1) -> None:
     """Download a file with retry and resume-safe temp file."""
     for attempt in range(retries + 1):
+        # A name of its own keeps concurrent runs from overwriting each other.
+        tmp_path = dest.with_name(f"{dest.name}.{uuid.uuid4().hex}.part")
         try:
-            _stream_download(url, dest)
+            _stream_download(url, dest, tmp_path)
             return
         except Exception as exc:
-            if dest.exists():
-                dest.unlink()
             if attempt >= retries:
                 raise
             logger.warning("Download failed (%s); retrying...", exc)
+        finally:
+            tmp_path.unlink(missing_ok=True)
 
 
-def _stream_download(url: str, dest: Path) -> None:
+def _stream_download(url: str, dest: Path, tmp_path: Path) -> None:
     """Stream a URL to disk with a progress indicator."""
-    tmp_path = dest.with_suffix(dest.suffix + ".part")
-    if tmp_path.exists():
-        tmp_path.unlink()
-
     with urllib.request.urlopen(url) as response:
         total = response.length or 0
         downloaded = 0
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index cc25df9..2a831fd 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -5,6 +5,7 @@ from __future__ import annotations
 import logging
 import tarfile
 import urllib.request
+import uuid
 import zlib
 from dataclasses import dataclass
 from pathlib import Path
@@ -146,8 +147,6 @@ class LibriSpeechDataset(BaseDataset):
                     safe_extractall(tar, self.root)
             except (tarfile.ReadError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
-                if archive_path.exists():
-                    archive_path.unlink()
                 _download(url, archive_path)
                 with tarfile.open(archive_path, "r:gz") as tar:
                     safe_extractall(tar, self.root)
@@ -160,23 +159,21 @@ class LibriSpeechDataset(BaseDataset):
 def _download(url: str, dest: Path, retries: int = 1) -> None:
     """Download a file with retry and resume-safe temp file."""
     for attempt in range(retries + 1):
+        # A name of its own keeps concurrent runs from overwriting each other.
+        tmp_path = dest.with_name(f"{dest.name}.{uuid.uuid4().hex}.part")
         try:
-            _stream_download(url, dest)
+            _stream_download(url, dest, tmp_path)
             return
         except Exception as exc:
-            if dest.exists():
-                dest.unlink()
             if attempt >= retries:
                 raise
             logger.warning("Download failed (%s); retrying...", exc)
+        finally:
+            tmp_path.unlink(missing_ok=True)
 
 
-def _stream_download(url: str, dest: Path) -> None:
+def _stream_download(url: str, dest: Path, tmp_path: Path) -> None:
     """Stream a URL to disk with a progress indicator."""
-    tmp_path = dest.with_suffix(dest.suffix + ".part")
-    if tmp_path.exists():
-        tmp_path.unlink()
-
     with urllib.request.urlopen(url) as response:
         total = response.length or 0
         downloaded = 0
-- 
2.43.0


From ef84329fc3e20971165fd8f3039dc4eef98a6d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 12/38] fix: publish extracted datasets only once complete

---
 src/torchrir/datasets/_archive.py    | 41 ++++++++++++++++++++++++++--
 src/torchrir/datasets/cmu_arctic.py  | 12 ++++----
 src/torchrir/datasets/librispeech.py |  8 ++----
 3 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/torchrir/datasets/_archive.py b/src/torchrir/datasets/_archive.py
index f4b848e..b82f1e3 100644
--- a/src/torchrir/datasets/_archive.py
+++ b/src/torchrir/datasets/_archive.py
@@ -4,12 +4,20 @@ from __future__ import annotations
 
 import os
 import tarfile
+import tempfile
 from pathlib import Path
 
 
 def safe_extractall(tar: tarfile.TarFile, dest: Path) -> None:
     """Extract a tar archive while rejecting unsafe paths and links."""
     root = dest.resolve()
+    _check_members(tar, root)
+    tar.extractall(root)
+    _verify_checksum(tar)
+
+
+def _check_members(tar: tarfile.TarFile, root: Path) -> None:
+    """Raise if any member is a link or would land outside ``root``."""
     for member in tar.getmembers():
         if member.issym() or member.islnk():
             raise ValueError(f"archive contains links, which are not allowed: {member.name}")
@@ -18,8 +26,37 @@ def safe_extractall(tar: tarfile.TarFile, dest: Path) -> None:
         if os.path.commonpath([str(root), str(target)]) != str(root):
             raise ValueError(f"unsafe archive member path: {member.name}")
 
-    tar.extractall(root)
-    _verify_checksum(tar)
+
+def extract_dataset(archive: Path, mode: str, dest: Path, dataset_dir: Path) -> None:
+    """Extract a dataset archive so that ``dataset_dir`` appears only when complete."""
+    with (
+        tarfile.open(archive, mode) as tar,
+        tempfile.TemporaryDirectory(prefix=".extract-", dir=dest) as staging,
+    ):
+        _check_members(tar, dest.resolve())
+        safe_extractall(tar, Path(staging))
+        _publish(Path(staging), dest, dataset_dir)
+        staged = Path(staging) / dataset_dir.relative_to(dest)
+        if staged.is_dir():
+            try:
+                staged.rename(dataset_dir)
+            except OSError:
+                # A concurrent run published the same data first.
+                if not dataset_dir.is_dir():
+                    raise
+
+
+def _publish(src: Path, dest: Path, dataset_dir: Path) -> None:
+    """Move everything except ``dataset_dir`` to its final place."""
+    for item in src.iterdir():
+        target = dest / item.name
+        if target == dataset_dir:
+            continue
+        if item.is_dir():
+            target.mkdir(exist_ok=True)
+            _publish(item, target, dataset_dir)
+        else:
+            item.replace(target)
 
 
 def _verify_checksum(tar: tarfile.TarFile) -> None:
diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index a35bb27..9eb3120 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -14,7 +14,7 @@ from typing import List, Tuple
 import torch
 
 from .attribution import DatasetAttribution, attribution_for
-from ._archive import safe_extractall
+from ._archive import extract_dataset
 from .base import BaseDataset
 from ..io.audio import load
 
@@ -115,13 +115,15 @@ class CmuArcticDataset(BaseDataset):
         if not self._dataset_dir.exists():
             logger.info("Extracting %s", archive_path)
             try:
-                with tarfile.open(archive_path, "r:bz2") as tar:
-                    safe_extractall(tar, self._base_dir)
+                extract_dataset(
+                    archive_path, "r:bz2", self._base_dir, self._dataset_dir
+                )
             except (tarfile.ReadError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 _download(url, archive_path)
-                with tarfile.open(archive_path, "r:bz2") as tar:
-                    safe_extractall(tar, self._base_dir)
+                extract_dataset(
+                    archive_path, "r:bz2", self._base_dir, self._dataset_dir
+                )
 
     def sentences(self) -> List[CmuArcticSentence]:
         """Parse all sentence metadata."""
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index 2a831fd..1c50712 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -14,7 +14,7 @@ from typing import List, Tuple
 import torch
 
 from .attribution import DatasetAttribution, attribution_for
-from ._archive import safe_extractall
+from ._archive import extract_dataset
 from .base import BaseDataset
 from ..io.audio import load_audio
 
@@ -143,13 +143,11 @@ class LibriSpeechDataset(BaseDataset):
         if not self._subset_dir.exists():
             logger.info("Extracting %s", archive_path)
             try:
-                with tarfile.open(archive_path, "r:gz") as tar:
-                    safe_extractall(tar, self.root)
+                extract_dataset(archive_path, "r:gz", self.root, self._subset_dir)
             except (tarfile.ReadError, EOFError, OSError, zlib.error) as exc:
                 logger.warning("Extraction failed (%s); re-downloading.", exc)
                 _download(url, archive_path)
-                with tarfile.open(archive_path, "r:gz") as tar:
-                    safe_extractall(tar, self.root)
+                extract_dataset(archive_path, "r:gz", self.root, self._subset_dir)
 
     def attribution_info(self) -> DatasetAttribution:
         """Return attribution and license information for LibriSpeech."""
-- 
2.43.0


From 956b6b54b9f5a3395b75104604934f8de92a765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 13/38] fix: do not fetch the archive of a dataset that is
 already extracted

---
 src/torchrir/datasets/cmu_arctic.py  | 2 ++
 src/torchrir/datasets/librispeech.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/torchrir/datasets/cmu_arctic.py b/src/torchrir/datasets/cmu_arctic.py
index 9eb3120..f601505 100644
--- a/src/torchrir/datasets/cmu_arctic.py
+++ b/src/torchrir/datasets/cmu_arctic.py
@@ -105,6 +105,8 @@ class CmuArcticDataset(BaseDataset):
 
     def _download_and_extract(self) -> None:
         """Download and extract the speaker archive if needed."""
+        if self._dataset_dir.exists():
+            return
         self._base_dir.mkdir(parents=True, exist_ok=True)
         archive_path = self._base_dir / self._archive_name
         url = f"{BASE_URL}/{self._archive_name}"
diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index 1c50712..8f5a0a7 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -133,6 +133,8 @@ class LibriSpeechDataset(BaseDataset):
 
     def _download_and_extract(self) -> None:
         """Download and extract the subset archive if needed."""
+        if self._subset_dir.exists():
+            return
         self.root.mkdir(parents=True, exist_ok=True)
         archive_path = self.root / self._archive_name
         url = f"{BASE_URL}/{self._archive_name}"
-- 
2.43.0


From b39ccd7d0e136adfbd3957ac9eff65c5392ebe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 14/38] fix: list LibriSpeech utterances in an order
 independent of directory enumeration

---
 src/torchrir/datasets/librispeech.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/librispeech.py b/src/torchrir/datasets/librispeech.py
index 8f5a0a7..2fdd029 100644
--- a/src/torchrir/datasets/librispeech.py
+++ b/src/torchrir/datasets/librispeech.py
@@ -103,7 +103,7 @@ class LibriSpeechDataset(BaseDataset):
         search_root = (
             self._speaker_dir if self._speaker_dir is not None else self._subset_dir
         )
-        for trans_path in search_root.rglob("*.trans.txt"):
+        for trans_path in sorted(search_root.rglob("*.trans.txt")):
             chapter_dir = trans_path.parent
             speaker_id = chapter_dir.parent.name
             chapter_id = chapter_dir.name
-- 
2.43.0


From c9844ced543e5fa9f354c983c290c03ec010cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 15/38] fix: give dataset items their own speaker when no
 speaker was selected

---
 src/torchrir/datasets/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/base.py b/src/torchrir/datasets/base.py
index 7d646d5..042c673 100644
--- a/src/torchrir/datasets/base.py
+++ b/src/torchrir/datasets/base.py
@@ -59,7 +59,7 @@ class BaseDataset(Dataset[DatasetItem]):
         sentences = self._get_sentences()
         sentence = sentences[idx]
         audio, sample_rate = self.load_audio(sentence.utterance_id)
-        speaker = getattr(self, "speaker", None)
+        speaker = getattr(sentence, "speaker_id", None) or getattr(self, "speaker", None)
         text = getattr(sentence, "text", None)
         return DatasetItem(
             audio=audio,
-- 
2.43.0


From 68bb64342c7aaeeb5b292ca1d7e3c2161414e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:48 +0000
Subject: [PATCH 16/38] fix: keep array centres given as integers from
 truncating the array

---
 src/torchrir/geometry/arrays.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index 9c8f75f..4a45554 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -8,7 +8,7 @@ from typing import Sequence
 import torch
 from torch import Tensor
 
-from ..util.tensor import as_tensor
+from ..util.tensor import as_float_tensor, as_tensor
 
 
 def binaural_array(
@@ -19,7 +19,7 @@ def binaural_array(
     dtype: torch.dtype | None = None,
 ) -> Tensor:
     """Create a two-mic binaural layout around a center point."""
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     dim = center_t.numel()
     offset_vec = torch.zeros((dim,), device=center_t.device, dtype=center_t.dtype)
     offset_vec[0] = offset
@@ -43,7 +43,7 @@ def linear_array(
         raise ValueError("num must be positive")
     if spacing <= 0:
         raise ValueError("spacing must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     dim = center_t.numel()
     if direction is None:
         if axis < 0 or axis >= dim:
@@ -82,7 +82,7 @@ def circular_array(
         raise ValueError("num must be positive")
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     dim = center_t.numel()
 
     angles = torch.linspace(
@@ -139,7 +139,7 @@ def polyhedron_array(
     """Create a regular polyhedron microphone array (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
         raise ValueError("polyhedron arrays require 3D centers")
     vertices = _polyhedron_vertices(kind, device=center_t.device, dtype=center_t.dtype)
@@ -159,7 +159,7 @@ def eigenmike_em32(
     """Create the mh acoustics Eigenmike em32 geometry (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
         raise ValueError("Eigenmike em32 requires a 3D center")
     theta_deg = torch.tensor(
@@ -257,7 +257,7 @@ def eigenmike_em64(
     """Create the mh acoustics Eigenmike em64 geometry (3D only)."""
     if radius <= 0:
         raise ValueError("radius must be positive")
-    center_t = as_tensor(center, device=device, dtype=dtype)
+    center_t = as_float_tensor(center, device=device, dtype=dtype)
     if center_t.numel() != 3:
         raise ValueError("Eigenmike em64 requires a 3D center")
     theta_deg = torch.tensor(
-- 
2.43.0


From e7ea503c4adbd46650197176d9f6667302ce64e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:49 +0000
Subject: [PATCH 17/38] fix: circular arrays with a normal along the negative x
 axis

---
 src/torchrir/geometry/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/arrays.py b/src/torchrir/geometry/arrays.py
index 4a45554..0dd1ef6 100644
--- a/src/torchrir/geometry/arrays.py
+++ b/src/torchrir/geometry/arrays.py
@@ -413,7 +413,7 @@ def _basis_from_normal(normal: Tensor) -> tuple[Tensor, Tensor]:
         raise ValueError("normal must be a 3D vector")
     n = normal / torch.linalg.norm(normal)
     ref = torch.tensor([1.0, 0.0, 0.0], device=normal.device, dtype=normal.dtype)
-    if torch.allclose(n, ref):
+    if torch.allclose(n.abs(), ref):
         ref = torch.tensor([0.0, 1.0, 0.0], device=normal.device, dtype=normal.dtype)
     basis_x = torch.cross(n, ref)
     basis_x = basis_x / torch.linalg.norm(basis_x)
-- 
2.43.0


From 5a5cb99adb8117ca77582ec18a689fbc96a077b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:49 +0000
Subject: [PATCH 18/38] fix: linear trajectory of a single step

---
 src/torchrir/geometry/trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/geometry/trajectories.py b/src/torchrir/geometry/trajectories.py
index 1affd23..31cf3ce 100644
--- a/src/torchrir/geometry/trajectories.py
+++ b/src/torchrir/geometry/trajectories.py
@@ -9,6 +9,6 @@ from torch import Tensor
 def linear_trajectory(start: Tensor, end: Tensor, steps: int) -> Tensor:
     """Create a linear trajectory between start and end."""
     return torch.stack(
-        [start + (end - start) * t / (steps - 1) for t in range(steps)],
+        [start + (end - start) * t / max(steps - 1, 1) for t in range(steps)],
         dim=0,
     )
-- 
2.43.0


From f2e9376f2faeda2af58b755e3c64c3a3742ca1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:49 +0000
Subject: [PATCH 19/38] fix: refuse sampling margins that leave no room

---
 src/torchrir/geometry/sampling.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index 2725621..5f24425 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -20,6 +20,7 @@ def sample_positions(
     dim = room_size.numel()
     low = [margin] * dim
     high = [float(room_size[i].item()) - margin for i in range(dim)]
+    _check_margin(low, high)
     coords: List[List[float]] = []
     for _ in range(num):
         point = [rng.uniform(low[i], high[i]) for i in range(dim)]
@@ -67,6 +68,7 @@ def sample_positions_min_distance(
         raise ValueError("center dimension must match room_size.")
     low = [margin] * dim
     high = [float(room_size[i].item()) - margin for i in range(dim)]
+    _check_margin(low, high)
     coords: List[List[float]] = []
     attempts = 0
     while len(coords) < num and attempts < max_attempts:
@@ -86,6 +88,11 @@ def sample_positions_min_distance(
     return torch.tensor(coords, dtype=torch.float32)
 
 
+def _check_margin(low: List[float], high: List[float]) -> None:
+    if any(hi < lo for lo, hi in zip(low, high)):
+        raise ValueError("margin leaves no room to sample positions in.")
+
+
 def clamp_positions(
     positions: Tensor, room_size: Tensor, margin: float = 0.1
 ) -> Tensor:
-- 
2.43.0


From 82f850ad2bdbba870dd0b271834a3bcb28426438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:49 +0000
Subject: [PATCH 20/38] fix: honour a height range of a single height when
 sampling positions

---
 src/torchrir/geometry/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index 5f24425..f0398f7 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -43,7 +43,7 @@ def sample_positions_with_z_range(
     z_min, z_max = z_range
     z_low = max(margin, float(z_min))
     z_high = min(float(room_size[2].item()) - margin, float(z_max))
-    if z_high <= z_low:
+    if z_high < z_low:
         return positions
     z_vals = [rng.uniform(z_low, z_high) for _ in range(num)]
     positions[:, 2] = torch.tensor(z_vals, dtype=positions.dtype)
@@ -78,7 +78,7 @@ def sample_positions_min_distance(
             z_min, z_max = z_range
             z_low = max(margin, float(z_min))
             z_high = min(float(room_size[2].item()) - margin, float(z_max))
-            if z_high > z_low:
+            if z_high >= z_low:
                 point[2] = rng.uniform(z_low, z_high)
         dist = torch.linalg.norm(torch.tensor(point) - center).item()
         if dist >= min_distance:
-- 
2.43.0


From 92b248199baf10003b385ea58e3adfb1401fd099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:49 +0000
Subject: [PATCH 21/38] fix: room sizes given as integers in clamping and
 reverberation estimates

---
 src/torchrir/geometry/sampling.py | 3 +++
 src/torchrir/util/acoustics.py    | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/geometry/sampling.py b/src/torchrir/geometry/sampling.py
index f0398f7..5a80150 100644
--- a/src/torchrir/geometry/sampling.py
+++ b/src/torchrir/geometry/sampling.py
@@ -8,6 +8,8 @@ from typing import List
 import torch
 from torch import Tensor
 
+from ..util.tensor import as_float_tensor
+
 
 def sample_positions(
     *,
@@ -97,6 +99,7 @@ def clamp_positions(
     positions: Tensor, room_size: Tensor, margin: float = 0.1
 ) -> Tensor:
     """Clamp positions to remain inside the room with a margin."""
+    room_size = as_float_tensor(room_size)
     min_v = torch.full_like(room_size, margin)
     max_v = room_size - margin
     return torch.max(torch.min(positions, max_v), min_v)
diff --git a/src/torchrir/util/acoustics.py b/src/torchrir/util/acoustics.py
index 1d4b15a..674134a 100644
--- a/src/torchrir/util/acoustics.py
+++ b/src/torchrir/util/acoustics.py
@@ -8,7 +8,7 @@ from typing import Optional
 import torch
 from torch import Tensor
 
-from .tensor import as_tensor, ensure_dim, extend_size
+from .tensor import as_float_tensor, as_tensor, ensure_dim, extend_size
 
 _DEF_SPEED_OF_SOUND = 343.0
 
@@ -33,7 +33,7 @@ def estimate_beta_from_t60(
     """
     if t60 <= 0:
         raise ValueError("t60 must be positive")
-    size = as_tensor(size, device=device, dtype=dtype)
+    size = as_float_tensor(size, device=device, dtype=dtype)
     size = ensure_dim(size)
     dim = size.numel()
     if dim == 2:
@@ -69,7 +69,7 @@ def estimate_t60_from_beta(
         t60 = estimate_t60_from_beta(torch.tensor([6.0, 4.0, 3.0]), beta=torch.full((6,), 0.9))
         ```
     """
-    size = as_tensor(size, device=device, dtype=dtype)
+    size = as_float_tensor(size, device=device, dtype=dtype)
     size = ensure_dim(size)
     beta = as_tensor(beta, device=size.device, dtype=size.dtype)
     dim = size.numel()
-- 
2.43.0


From 334f724b40930c59ea1dea683531a51b1312561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:55 +0000
Subject: [PATCH 22/38] fix: parse device names before falling back to the CPU

---
 src/torchrir/util/device.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/torchrir/util/device.py b/src/torchrir/util/device.py
index 4df5f00..4b7739e 100644
--- a/src/torchrir/util/device.py
+++ b/src/torchrir/util/device.py
@@ -39,20 +39,18 @@ def resolve_device(
                 return torch.device("cpu")
         return torch.device("cpu")
 
-    if dev.startswith("cuda"):
+    parsed = torch.device(dev)
+    if parsed.type == "cuda":
         if torch.cuda.is_available():
-            return torch.device(device)
+            return parsed
         warnings.warn("CUDA not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
-    if dev == "mps":
+    if parsed.type == "mps":
         if torch.backends.mps.is_available():
-            return torch.device("mps")
+            return parsed
         warnings.warn("MPS not available; falling back to CPU.", RuntimeWarning)
         return torch.device("cpu")
-    if dev == "cpu":
-        return torch.device("cpu")
-
-    return torch.device(device)
+    return parsed
 
 
 @dataclass(frozen=True)
-- 
2.43.0


From b55b21d9d33d98a2d13cc91b6e4eabb131e16aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:59 +0000
Subject: [PATCH 23/38] fix: scale dynamic scenes so that the mixture does not
 clip either

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index ac3c1b6..505d093 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -407,7 +407,9 @@ def _load_fixed_length_signal(
 def _normalize_sources(
     stems: list[np.ndarray], *, peak_limit: float = 0.99
 ) -> list[np.ndarray]:
-    peak = max(float(np.max(np.abs(stem))) for stem in stems)
+    # The mixture is written too and must not clip either.
+    mixture = np.sum(np.stack(stems, axis=0), axis=0)
+    peak = max(float(np.max(np.abs(signal))) for signal in [*stems, mixture])
     if peak <= 0.0 or peak <= peak_limit:
         return stems
     scale = peak_limit / peak
-- 
2.43.0


From b1db3a0534f67b4904b2c0ae6fdfa9373175fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:59 +0000
Subject: [PATCH 24/38] fix: replace an existing dataset only after the request
 was validated

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 505d093..3c5b317 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -503,13 +503,10 @@ def build_dynamic_cmu_arctic_dataset(
     move_start_sec = float(duration_sec) * move_start_ratio
     move_end_sec = float(duration_sec) * move_end_ratio
 
-    if dataset_root.exists():
-        if not overwrite:
-            raise FileExistsError(
-                f"Dataset root already exists: {dataset_root}. Use overwrite=True."
-            )
-        shutil.rmtree(dataset_root)
-    dataset_root.mkdir(parents=True, exist_ok=True)
+    if dataset_root.exists() and not overwrite:
+        raise FileExistsError(
+            f"Dataset root already exists: {dataset_root}. Use overwrite=True."
+        )
 
     rng = np.random.default_rng(seed)
     rng_py = random.Random(seed)
@@ -558,6 +555,11 @@ def build_dynamic_cmu_arctic_dataset(
     )
     convolver = DynamicConvolver(mode="trajectory")
 
+    # Only a valid request may replace what is there.
+    if dataset_root.exists():
+        shutil.rmtree(dataset_root)
+    dataset_root.mkdir(parents=True, exist_ok=True)
+
     for scene_idx in range(n_scenes):
         scene_id = f"scene_{scene_idx:04d}"
         scene_dir = dataset_root / scene_id
-- 
2.43.0


From d17882173a0251892bb10a32444b2fd2a0a6b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:59 +0000
Subject: [PATCH 25/38] fix: refuse a fixed array centre that puts microphones
 outside the room

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 3c5b317..6091f3f 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -546,6 +546,11 @@ def build_dynamic_cmu_arctic_dataset(
             f"n_sources ({n_sources}) must be <= n_mics ({n_mics}) for AuxIVA-based evaluation"
         )
 
+    if not randomize_mic_center:
+        fixed_mics = base_mic_positions + mic_center_arr[None, :]
+        if np.any(fixed_mics <= 0.0) or np.any(fixed_mics >= room_size_arr[None, :]):
+            raise ValueError("mic_center must keep all microphones inside the room")
+
     room = Room.shoebox(
         size=room_size_arr.tolist(),
         fs=float(sample_rate),
-- 
2.43.0


From 55c1a47c21434e4e74225cdb05009cfc5574fafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:59 +0000
Subject: [PATCH 26/38] fix: refuse utterances of another sampling rate in
 dynamic scenes

---
 src/torchrir/datasets/dynamic_cmu_arctic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/datasets/dynamic_cmu_arctic.py b/src/torchrir/datasets/dynamic_cmu_arctic.py
index 6091f3f..24a6857 100644
--- a/src/torchrir/datasets/dynamic_cmu_arctic.py
+++ b/src/torchrir/datasets/dynamic_cmu_arctic.py
@@ -376,6 +376,7 @@ def _load_fixed_length_signal(
     dataset: CmuArcticDataset,
     *,
     target_samples: int,
+    sample_rate: int,
     rng_py: random.Random,
 ) -> tuple[torch.Tensor, list[str]]:
     sentences = list(dataset.available_sentences())
@@ -395,7 +396,12 @@ def _load_fixed_length_signal(
             idx = 0
         sentence = local[idx]
         idx += 1
-        waveform, _ = dataset.load_audio(sentence.utterance_id)
+        waveform, sr = dataset.load_audio(sentence.utterance_id)
+        if int(sr) != sample_rate:
+            raise ValueError(
+                f"Sample rate mismatch: expected {sample_rate}, got {int(sr)} "
+                f"for {sentence.utterance_id}"
+            )
         chunks.append(torch.as_tensor(waveform).reshape(-1))
         utterance_ids.append(sentence.utterance_id)
         total += int(chunks[-1].numel())
@@ -593,6 +599,7 @@ def build_dynamic_cmu_arctic_dataset(
             signal, utterance_ids = _load_fixed_length_signal(
                 dataset,
                 target_samples=target_samples,
+                sample_rate=sample_rate,
                 rng_py=rng_py,
             )
             source_signals.append(signal)
-- 
2.43.0


From eb35151f6ce6030f26b27a1ddcd40a2b689ae692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 27/38] fix: save channel-first audio of more than eight
 channels by channel

---
 src/torchrir/io/audio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 2a9ea63..2b58e80 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -115,7 +115,7 @@ def _save_audio(
         max_val = float(audio.abs().max().item()) if audio.numel() else 0.0
         if max_val > 0:
             audio = audio / max_val * peak
-    if audio.ndim == 2 and audio.shape[0] <= 8:
+    if audio.ndim == 2 and (audio.shape[0] <= 8 or audio.shape[0] < audio.shape[1]):
         audio = audio.transpose(0, 1)
     if subtype is None:
         # Backward-compatible fallback for tensors that carry custom attrs.
-- 
2.43.0


From 9251f67b3ada9356ecb3003652de6ca5e2326f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 28/38] fix: read the sample format a tensor carries before it
 is copied

---
 src/torchrir/io/audio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 2b58e80..10b3ca8 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -108,6 +108,9 @@ def _save_audio(
     """Save a mono or multi-channel audio file to disk."""
     import soundfile as sf
 
+    if subtype is None:
+        # Backward-compatible fallback for tensors that carry custom attrs.
+        subtype = getattr(audio, "_torchrir_subtype", None)
     audio = audio.detach().cpu().to(torch.float32)
     if normalize:
         if peak <= 0:
@@ -117,9 +120,6 @@ def _save_audio(
             audio = audio / max_val * peak
     if audio.ndim == 2 and (audio.shape[0] <= 8 or audio.shape[0] < audio.shape[1]):
         audio = audio.transpose(0, 1)
-    if subtype is None:
-        # Backward-compatible fallback for tensors that carry custom attrs.
-        subtype = getattr(audio, "_torchrir_subtype", None)
     sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype)
 
 
-- 
2.43.0


From 413857c00b2ba62f1cabaf90228d616c8e918a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 29/38] fix: save wav files under names that do not end in .wav

---
 src/torchrir/io/__init__.py | 8 ++++++--
 src/torchrir/io/audio.py    | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/torchrir/io/__init__.py b/src/torchrir/io/__init__.py
index b695348..3509c82 100644
--- a/src/torchrir/io/__init__.py
+++ b/src/torchrir/io/__init__.py
@@ -28,7 +28,7 @@ class AudioBackend:
 
     name: str
     load: Callable[[Path, str], Tuple[Tensor, int]]
-    save: Callable[[Path, Tensor, int, bool, float, str | None], None]
+    save: Callable[..., None]
     info: Callable[[Path], AudioInfo]
 
 
@@ -43,6 +43,7 @@ def _soundfile_save(
     normalize: bool,
     peak: float,
     subtype: str | None,
+    format: str | None = None,
 ) -> None:
     _save_audio(
         path,
@@ -51,6 +52,7 @@ def _soundfile_save(
         normalize=normalize,
         peak=peak,
         subtype=subtype,
+        format=format,
     )
 
 
@@ -153,7 +155,9 @@ def save_wav(
             "Use torchrir.io.audio.save_audio for non-wav formats."
         )
     backend_impl = _resolve_backend(backend)
-    backend_impl.save(path, audio, sample_rate, normalize, peak, subtype)
+    # Other names than *.wav do not tell the backend the format.
+    extra = {} if path.suffix.lower() == ".wav" else {"format": "WAV"}
+    backend_impl.save(path, audio, sample_rate, normalize, peak, subtype, **extra)
 
 
 def info_wav(
diff --git a/src/torchrir/io/audio.py b/src/torchrir/io/audio.py
index 10b3ca8..b3ab37c 100644
--- a/src/torchrir/io/audio.py
+++ b/src/torchrir/io/audio.py
@@ -104,6 +104,7 @@ def _save_audio(
     normalize: bool = True,
     peak: float = 1.0,
     subtype: str | None = None,
+    format: str | None = None,
 ) -> None:
     """Save a mono or multi-channel audio file to disk."""
     import soundfile as sf
@@ -120,7 +121,7 @@ def _save_audio(
             audio = audio / max_val * peak
     if audio.ndim == 2 and (audio.shape[0] <= 8 or audio.shape[0] < audio.shape[1]):
         audio = audio.transpose(0, 1)
-    sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype)
+    sf.write(str(path), audio.numpy(), sample_rate, subtype=subtype, format=format)
 
 
 def save(
@@ -158,6 +159,7 @@ def save(
         normalize=normalize,
         peak=peak,
         subtype=subtype,
+        format="WAV",
     )
 
 
-- 
2.43.0


From baa8da2ada9dccda99917bb95b75c62228f3beec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 30/38] fix: namespace logger names that merely begin like the
 package

---
 src/torchrir/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index 5d2692c..68214a1 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -70,7 +70,7 @@ def get_logger(name: Optional[str] = None) -> logging.Logger:
     """
     if not name:
         return logging.getLogger("torchrir")
-    if name.startswith("torchrir"):
+    if name == "torchrir" or name.startswith("torchrir."):
         return logging.getLogger(name)
     return logging.getLogger(f"torchrir.{name}")
 
-- 
2.43.0


From 530f238e7de281ad1ec3b0247ecfc7f8c6caa1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 31/38] fix: let a later logging setup change the level and
 format in use

---
 src/torchrir/logging.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/logging.py b/src/torchrir/logging.py
index 68214a1..d9b51ef 100644
--- a/src/torchrir/logging.py
+++ b/src/torchrir/logging.py
@@ -39,6 +39,10 @@ class LoggingConfig:
         return replace(self, **kwargs)
 
 
+class _SetupHandler(logging.StreamHandler):
+    """The handler installed by ``setup_logging``, which later setups update."""
+
+
 def setup_logging(config: LoggingConfig, *, name: str = "torchrir") -> logging.Logger:
     """Configure and return the base torchrir logger.
 
@@ -50,13 +54,15 @@ def setup_logging(config: LoggingConfig, *, name: str = "torchrir") -> logging.L
     """
     logger = logging.getLogger(name)
     level = config.resolve_level()
+    formatter = logging.Formatter(config.format, datefmt=config.datefmt)
     logger.setLevel(level)
     logger.propagate = config.propagate
     if not logger.handlers:
-        handler = logging.StreamHandler()
-        handler.setLevel(level)
-        handler.setFormatter(logging.Formatter(config.format, datefmt=config.datefmt))
-        logger.addHandler(handler)
+        logger.addHandler(_SetupHandler())
+    for handler in logger.handlers:
+        if isinstance(handler, _SetupHandler):
+            handler.setLevel(level)
+            handler.setFormatter(formatter)
     return logger
 
 
-- 
2.43.0


From 48d9c1590b8eb029132a8092b43806bd158fe2bf Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 32/38] fix: smallest spacing of arrays of more than 25
 microphones

---
 src/torchrir/io/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torchrir/io/metadata.py b/src/torchrir/io/metadata.py
index e851224..c313f6e 100644
--- a/src/torchrir/io/metadata.py
+++ b/src/torchrir/io/metadata.py
@@ -192,7 +192,7 @@ def _array_attributes(mics: MicrophoneArray) -> ArrayAttributes:
     center = pos.mean(dim=0)
     spacing = None
     if n_mic >= 2:
-        dists = torch.cdist(pos, pos)
+        dists = torch.cdist(pos, pos, compute_mode="donot_use_mm_for_euclid_dist")
         dists = dists[dists > 0]
         if dists.numel() > 0:
             spacing = float(dists.min().item())
-- 
2.43.0


From 65e023ad10e276af8d737b59022779d3a5d7d114 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 33/38] fix: refuse to describe trajectories of another number
 of devices

---
 src/torchrir/io/metadata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/torchrir/io/metadata.py b/src/torchrir/io/metadata.py
index c313f6e..d3f10cb 100644
--- a/src/torchrir/io/metadata.py
+++ b/src/torchrir/io/metadata.py
@@ -156,12 +156,12 @@ def _normalize_traj(traj: Optional[Tensor], pos: Tensor, dim: int, name: str) ->
     if not torch.is_tensor(traj):
         raise TypeError(f"{name} must be a Tensor")
     if traj.ndim == 2:
-        if traj.shape[1] != dim:
-            raise ValueError(f"{name} must have shape (T, {dim})")
+        if traj.shape[1] != dim or pos.shape[0] != 1:
+            raise ValueError(f"{name} must have shape (T, {dim}) for a single device")
         return traj.unsqueeze(1)
     if traj.ndim == 3:
-        if traj.shape[2] != dim:
-            raise ValueError(f"{name} must have shape (T, N, {dim})")
+        if traj.shape[1] != pos.shape[0] or traj.shape[2] != dim:
+            raise ValueError(f"{name} must have shape (T, {pos.shape[0]}, {dim})")
         return traj
     raise ValueError(f"{name} must have shape (T, N, {dim})")
 
-- 
2.43.0


From 8ece4f299d8a0e07b5a7e422fab354b9698abd09 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 34/38] fix: keep metadata that cannot be serialized from
 truncating the file

---
 src/torchrir/io/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/io/metadata.py b/src/torchrir/io/metadata.py
index d3f10cb..ccb5451 100644
--- a/src/torchrir/io/metadata.py
+++ b/src/torchrir/io/metadata.py
@@ -143,9 +143,10 @@ def save_metadata_json(path: Path, metadata: Dict[str, Any]) -> None:
         save_metadata_json(Path(\"outputs/scene_metadata.json\"), metadata)
         ```
     """
+    # Serialize first: what cannot be written must not truncate the file.
+    text = json.dumps(metadata, indent=2)
     path.parent.mkdir(parents=True, exist_ok=True)
-    with path.open("w", encoding="utf-8") as f:
-        json.dump(metadata, f, indent=2)
+    path.write_text(text, encoding="utf-8")
 
 
 def _normalize_traj(traj: Optional[Tensor], pos: Tensor, dim: int, name: str) -> Tensor:
-- 
2.43.0


From 5218a5bffd7a9b06e5dab7eb15cf746ba5af059c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 35/38] fix: describe infinite and numpy values in valid JSON

---
 src/torchrir/io/metadata.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/torchrir/io/metadata.py b/src/torchrir/io/metadata.py
index ccb5451..a519fdb 100644
--- a/src/torchrir/io/metadata.py
+++ b/src/torchrir/io/metadata.py
@@ -7,6 +7,9 @@ from pathlib import Path
 from typing import Any, Dict, Optional
 
 import json
+import math
+
+import numpy as np
 import torch
 from torch import Tensor
 
@@ -132,7 +135,7 @@ def build_metadata(
         metadata["source_info"] = _to_serializable(source_info)
     if extra:
         metadata["extra"] = _to_serializable(extra)
-    return metadata
+    return _to_serializable(metadata)
 
 
 def save_metadata_json(path: Path, metadata: Dict[str, Any]) -> None:
@@ -211,11 +214,15 @@ def _to_serializable(value: Any) -> Any:
     if value is None:
         return None
     if torch.is_tensor(value):
-        return value.detach().cpu().tolist()
+        return _to_serializable(value.detach().cpu().tolist())
     if isinstance(value, Path):
         return str(value)
     if isinstance(value, dict):
         return {k: _to_serializable(v) for k, v in value.items()}
     if isinstance(value, (list, tuple)):
         return [_to_serializable(v) for v in value]
+    if isinstance(value, (np.ndarray, np.generic)):
+        return _to_serializable(value.tolist())
+    if isinstance(value, float) and not math.isfinite(value):
+        return None  # JSON knows neither infinity nor NaN
     return value
-- 
2.43.0


From ee9e1ed52da12bc95af1de548e1bd76b16aa76e0 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 36/38] fix: draw source labels in 3D animations

---
 src/torchrir/viz/animation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index c333e6f..fcf1b22 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -217,7 +217,8 @@ def _build_scene_animation(
     source_texts = []
     if annotate_sources:
         for idx in range(view_src_traj.shape[1]):
-            text = ax.text(0.0, 0.0, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
+            origin = (0.0,) * view_dim
+            text = ax.text(*origin, f"S{idx}", fontsize=_VIDEO_FONT_SIZE_PT)
             source_texts.append(text)
 
     ax.legend(loc="best", fontsize=_VIDEO_FONT_SIZE_PT)
-- 
2.43.0


From 1e6912de5c0fd41a6d3154d588c06712e4daf94c Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 37/38] fix: leave no temporary files when adding sound to a
 video fails

---
 src/torchrir/viz/animation.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/torchrir/viz/animation.py b/src/torchrir/viz/animation.py
index fcf1b22..ac62e16 100644
--- a/src/torchrir/viz/animation.py
+++ b/src/torchrir/viz/animation.py
@@ -341,8 +341,6 @@ def _add_stereo_audio_to_mp4(
 
     tmp_audio = video_path.with_name(video_path.stem + "_tmp_audio.wav")
     tmp_video = video_path.with_name(video_path.stem + "_tmp_mux.mp4")
-    sf.write(tmp_audio, stereo, int(sample_rate))
-
     cmd = [
         ffmpeg,
         "-y",
@@ -361,17 +359,21 @@ def _add_stereo_audio_to_mp4(
         "-shortest",
         str(tmp_video),
     ]
-    result = subprocess.run(cmd, check=False, capture_output=True, text=True)
-    if result.returncode != 0:
-        LOGGER.warning(
-            "Failed to mux audio into %s: %s",
-            video_path.name,
-            (result.stderr or result.stdout).strip(),
+    try:
+        sf.write(tmp_audio, stereo, int(sample_rate))
+        result = subprocess.run(
+            cmd, check=False, capture_output=True, text=True, errors="replace"
         )
-    else:
-        tmp_video.replace(video_path)
-
-    if tmp_audio.exists():
-        tmp_audio.unlink()
-    if tmp_video.exists():
-        tmp_video.unlink()
+        if result.returncode != 0:
+            LOGGER.warning(
+                "Failed to mux audio into %s: %s",
+                video_path.name,
+                (result.stderr or result.stdout).strip(),
+            )
+        else:
+            tmp_video.replace(video_path)
+    except OSError as exc:
+        LOGGER.warning("Failed to mux audio into %s: %s", video_path.name, exc)
+    finally:
+        tmp_audio.unlink(missing_ok=True)
+        tmp_video.unlink(missing_ok=True)
-- 
2.43.0


From dc76c6d7524d27828f07ede5d589331a3b83b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 38/38] fix: plot scenes whose tensors live on an accelerator

---
 src/torchrir/viz/scene.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/torchrir/viz/scene.py b/src/torchrir/viz/scene.py
index 1743c24..c2cbfdb 100644
--- a/src/torchrir/viz/scene.py
+++ b/src/torchrir/viz/scene.py
@@ -8,8 +8,8 @@ import torch
 from torch import Tensor
 
 from ..models import MicrophoneArray, Room, Source
-from ..util.tensor import as_tensor, ensure_dim
-from .utils import _add_axes_annotation, _ensure_default_mpl_style
+from ..util.tensor import ensure_dim
+from .utils import _add_axes_annotation, _ensure_default_mpl_style, _to_cpu
 
 _MIC_COLOR = "tab:orange"
 
@@ -143,7 +143,7 @@ def _room_size(room: Room | Sequence[float] | Tensor, ax: Any | None) -> Tensor:
         size = room.size
     else:
         size = room
-    size = as_tensor(size)
+    size = _to_cpu(size)
     size = ensure_dim(size)
     return size
 
@@ -225,7 +225,7 @@ def _extract_positions(
         pos = entity.positions
     else:
         pos = entity
-    pos = as_tensor(pos)
+    pos = _to_cpu(pos)
     if pos.ndim == 1:
         pos = pos.unsqueeze(0)
     return pos
@@ -260,7 +260,7 @@ def _scatter_positions(
 
 def _as_trajectory(traj: Tensor | Sequence) -> Tensor:
     """Validate and normalize a trajectory tensor."""
-    traj = as_tensor(traj)
+    traj = _to_cpu(traj)
     if traj.ndim != 3:
         raise ValueError("trajectory must be of shape (T, N, dim)")
     return traj
-- 
2.43.0


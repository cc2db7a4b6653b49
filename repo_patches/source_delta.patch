From d181f73d2097077b45e52f474b88f4ba3845e761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 001/113] fix: do not return a zero scale for all-zero
 symmetric ranges

An all-zero range (e.g. a pruned channel) resulted in scale 0, and hence in NaNs
for every element quantized with it.
---
 src/fastforward/quantization/affine/range.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/affine/range.py b/src/fastforward/quantization/affine/range.py
index 19e70b6..e8ccda1 100644
--- a/src/fastforward/quantization/affine/range.py
+++ b/src/fastforward/quantization/affine/range.py
@@ -108,7 +108,9 @@ def parameters_for_range(
         # Choose scale such that entire range falls within bounds
         neg_scale = torch.abs(min_range) / abs(int_min)
         pos_scale = torch.abs(max_range) / abs(integer_maximum(num_bits))
-        return torch.max(neg_scale, pos_scale), None
+        scale = torch.max(neg_scale, pos_scale)
+        # A degenerate (all-zero) range must not result in a zero scale.
+        return torch.where(scale == 0, torch.finfo(scale.dtype).eps, scale), None
     else:
         # Choose scale and offset such that integer_minimum and integer_maximum
         # map to min and max, respectively.
-- 
2.43.0


From 154e0c95d470de0cf2b02ef5d1fdcc96594f0567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 002/113] fix: refuse integer storage types that cannot hold
 the quantized range

Integer types were granted two extra bits, such that e.g. 9 and 10 bit values
were silently wrapped in int8, and negative values in uint8.
---
 src/fastforward/quantization/_quantizer_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/_quantizer_impl.py b/src/fastforward/quantization/_quantizer_impl.py
index d7516fc..2799bfa 100644
--- a/src/fastforward/quantization/_quantizer_impl.py
+++ b/src/fastforward/quantization/_quantizer_impl.py
@@ -65,7 +65,9 @@ def can_support_bitwidth(dtype: torch.dtype, num_bits: float) -> bool:
                     f"Unknown mantissa size for {dtype}; precision loss possible."
                 )
     else:
-        available_precision_bits = torch.iinfo(dtype).bits
+        # Quantized values are signed integers in [-(2 ** (num_bits - 1)), 2 ** (num_bits - 1) - 1].
+        int_info = torch.iinfo(dtype)
+        return int_info.min < 0 and int_info.bits >= num_bits
 
     # The first integer that cannot be exactly represented using a floating
     # point representation is (2 ** (mantissa_bits + 1)) + 1. Since fastforward
-- 
2.43.0


From 18816993c91bde1979863557c9d89d1e6423eb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 003/113] fix: compare PerBlock granularities by their blocks

Any two PerBlock granularities compared equal.
---
 src/fastforward/quantization/granularity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastforward/quantization/granularity.py b/src/fastforward/quantization/granularity.py
index f106b24..3c555ac 100644
--- a/src/fastforward/quantization/granularity.py
+++ b/src/fastforward/quantization/granularity.py
@@ -168,6 +168,8 @@ class PerBlock(Granularity):
             corresponding dimensions.
     """
 
+    __match_args__ = ("block_dims", "block_sizes", "per_channel_dims", "strict_blocks")
+
     def __init__(
         self,
         block_dims: int | Sequence[int],
-- 
2.43.0


From fbbfd5571fa4c13c2c16957fc563ff1b9f1e7ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 004/113] fix: dequantize to the data's dtype in export mode

In export mode, the dequantized tensor was cast to the storage dtype of the
quantized data. For integer storage types this truncated all values.
---
 src/fastforward/quantization/affine/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/affine/function.py b/src/fastforward/quantization/affine/function.py
index db69db3..c7028e1 100644
--- a/src/fastforward/quantization/affine/function.py
+++ b/src/fastforward/quantization/affine/function.py
@@ -116,7 +116,7 @@ class AffineQuantizationFunction(QuantizationFunction[AffineQuantParams]):
             params.scale,
             params.offset,
             tile_size,
-            params.quantized_dtype or data.dtype,
+            params.dequantize_dtype or data.dtype,
         )
         return dequantized_data
 
-- 
2.43.0


From 8becc20b703b11c08b5cbc18f816b8f611a0a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 005/113] fix: respect output dtype in fake quantization
 kernels

---
 src/fastforward/quantization/_quantizer_impl.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/quantization/_quantizer_impl.py b/src/fastforward/quantization/_quantizer_impl.py
index 2799bfa..9661bce 100644
--- a/src/fastforward/quantization/_quantizer_impl.py
+++ b/src/fastforward/quantization/_quantizer_impl.py
@@ -296,8 +296,8 @@ def quantize_by_tile_meta(
     output_dtype: torch.dtype | None,
     offset: torch.Tensor | None = None,
 ) -> torch.Tensor:
-    del scale, tile_size, num_bits, output_dtype, offset
-    return torch.empty_like(input)
+    del scale, tile_size, num_bits, offset
+    return torch.empty_like(input, dtype=output_dtype)
 
 
 @register_fake("fastforward::dequantize_by_tile")  # type: ignore[untyped-decorator]
@@ -308,8 +308,8 @@ def dequantize_by_tile_meta(
     offset: torch.Tensor | None = None,
     output_dtype: torch.dtype | None = None,
 ) -> torch.Tensor:
-    del scale, tile_size, offset, output_dtype
-    return torch.empty_like(input)
+    del scale, tile_size, offset
+    return torch.empty_like(input, dtype=output_dtype)
 
 
 @register_fake("fastforward::quantize_by_tile_backward")  # type: ignore[untyped-decorator]
@@ -334,8 +334,8 @@ def quantize_dynamic_by_tile_meta(
     allow_one_sided: bool,
     output_dtype: torch.dtype | None,
 ) -> RT:
-    del num_bits, symmetric, allow_one_sided, output_dtype
+    del num_bits, symmetric, allow_one_sided
     num_params = int(input.numel() / torch.Size(tile_size).numel())
     scale = torch.empty(num_params)
     offset = torch.empty(num_params)
-    return torch.empty_like(input), scale, offset
+    return torch.empty_like(input, dtype=output_dtype), scale, offset
-- 
2.43.0


From 236fe6f662ccef1f05116ce143eb794b6311a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 006/113] fix: dequantize quantized data before quantizing it
 again

Without strict quantization, re-quantizing a quantized tensor with an integer
storage dtype dequantized to that integer dtype, truncating all values.
---
 src/fastforward/quantization/affine/function.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fastforward/quantization/affine/function.py b/src/fastforward/quantization/affine/function.py
index c7028e1..ffd0f75 100644
--- a/src/fastforward/quantization/affine/function.py
+++ b/src/fastforward/quantization/affine/function.py
@@ -21,6 +21,7 @@ from fastforward.quantization.function import (
     QuantizationFunction,
     QuantizationParameters,
 )
+from fastforward.quantized_tensor import _dequantization_fallback
 
 from ._autograd import dequantize_affine, quantize_affine, quantize_dynamic_affine
 
@@ -81,6 +82,11 @@ class AffineQuantizationFunction(QuantizationFunction[AffineQuantParams]):
             # return is with the rest of the codebase.
             return cls._export_quantize(data, params)  # type: ignore[return-value]
 
+        if isinstance(data, ff.QuantizedTensor):
+            # Already quantized data is dequantized first (if strict quantization allows for
+            # it), the result must not depend on the dtype in which its integers are stored.
+            return _dequantization_fallback(cls.quantize, data, params)
+
         match params:
             case StaticAffineQuantParams():
                 return cls._static_quantize(data, params)
-- 
2.43.0


From ea80b2dfcebeec0f1b05b08955e7f1b66069a587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 007/113] fix: keep channel dimensions on unsqueeze of
 per-channel quantized tensors

---
 src/fastforward/quantization/_linear_quantized_ops.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index 75acbf3..c408e6a 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -243,7 +243,9 @@ def unsqueeze(input: QuantizedTensor, dim: int) -> QuantizedTensor:
         case ff.PerTensor():
             new_context = input.quantization_context
         case ff.PerChannel(axis):
-            new_axis = tuple(ax + ax >= dim for ax in axis)
+            ndim = input.raw_data.ndim
+            new_dim = dim % (ndim + 1)
+            new_axis = tuple(ax + int(ax >= new_dim) for ax in (ax % ndim for ax in axis))
             new_context = input.quantization_context.with_changes(
                 granularity=ff.PerChannel(new_axis)
             )
-- 
2.43.0


From ec2f6e64d6adb3a7c61aac9b84e5340549d8094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 008/113] fix: select topk of quantized tensors by value

---
 src/fastforward/quantization/_linear_quantized_ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index c408e6a..934f286 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -277,8 +277,10 @@ def topk(
     largest: bool = True,
     sorted: bool = True,
 ) -> torch.return_types.topk:
-    values, indices = torch.topk(input, k, dim=dim, largest=largest, sorted=sorted)
-    values = input.quantization_context.attach(values)
+    # Select on the dequantized values, their order is the reverse of the raw data's order when
+    # the scale is negative.
+    _, indices = torch.topk(input.dequantize(), k, dim=dim, largest=largest, sorted=sorted)
+    values = input.quantization_context.attach(input.raw_data.gather(dim, indices))
     return torch.return_types.topk((values, indices))
 
 
-- 
2.43.0


From 8ac7bea84bd0e6f9fafce2968b8db30eb0c74637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 009/113] fix: do not concatenate quantized tensors with
 different offsets on raw data

---
 src/fastforward/quantization/_linear_quantized_ops.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index 934f286..3a734ed 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -190,7 +190,7 @@ def cat_predicate(
     from fastforward.quantization.affine import AffineQuantizationFunction, StaticAffineQuantParams
 
     scale: torch.Tensor | float | None = None
-    offset: torch.Tensor | float | None = None
+    offset: torch.Tensor | float = 0.0
 
     for tensor in tensors:
         if not isinstance(tensor, QuantizedTensor):
@@ -206,12 +206,13 @@ def cat_predicate(
         if not isinstance(quant_params.granularity, ff.PerTensor):
             return False
 
-        scale_match = scale is None or quant_params.scale == scale
-        offset_match = offset is None or quant_params.offset == offset
-        if not (scale_match and offset_match):
+        # No offset is the same as an offset of zero
+        tensor_offset = 0.0 if quant_params.offset is None else quant_params.offset
+
+        if scale is not None and not (quant_params.scale == scale and tensor_offset == offset):
             return False
         scale = quant_params.scale
-        offset = quant_params.offset
+        offset = tensor_offset
 
     return True
 
-- 
2.43.0


From e06c38aea451b2c961a47ce6e8f92c75e34250c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 010/113] fix: refuse advanced indices on per-channel quantized
 tensors

---
 .../quantization/_linear_quantized_ops.py     | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/quantization/_linear_quantized_ops.py b/src/fastforward/quantization/_linear_quantized_ops.py
index 3a734ed..0cc3762 100644
--- a/src/fastforward/quantization/_linear_quantized_ops.py
+++ b/src/fastforward/quantization/_linear_quantized_ops.py
@@ -8,6 +8,8 @@ for linear quantizers. It should be refactord to use a more robust dispatching
 system once that lands.
 """
 
+import math
+
 from collections.abc import Sequence
 from types import EllipsisType
 from typing import TYPE_CHECKING, Any, TypeAlias, cast
@@ -285,7 +287,18 @@ def topk(
     return torch.return_types.topk((values, indices))
 
 
-@register("__getitem__", affine_per_channel_predicate)
+def _is_basic_index(
+    input: QuantizedTensor, slices: SliceLike | tuple[SliceLike, ...], *_args: Any, **_kwargs: Any
+) -> bool:
+    del input
+    slices = slices if isinstance(slices, tuple) else (slices,)
+    return all(isinstance(s, SliceLike) and not isinstance(s, bool) for s in slices)
+
+
+basic_index_predicate = Predicate(_is_basic_index)
+
+
+@register("__getitem__", affine_per_channel_predicate & basic_index_predicate)
 def getitem_per_channel(
     input: QuantizedTensor, slices: SliceLike | tuple[SliceLike]
 ) -> QuantizedTensor:
@@ -343,14 +356,17 @@ def getitem_per_channel(
     # make into tuple (lists are interpreted as indexing by __getitem__)
     slices_effective = tuple(slices_effective_)
 
+    # a single scale/offset can be shared between all channels
+    n_channels = math.prod(param_tmp_shape)
+    scale = q_params.scale.reshape(-1).expand(n_channels)
+    offset = None if q_params.offset is None else q_params.offset.reshape(-1).expand(n_channels)
+
     # reshape scale into full shape, perform perchannel __getitem__ slices, and vectorize again
-    scale = q_params.scale.view(param_tmp_shape).__getitem__(slices_effective)
+    scale = scale.view(param_tmp_shape).__getitem__(slices_effective)
     new_channel_dims = tuple([i for i, dim in enumerate(scale.shape) if dim > 1])
     scale = scale.reshape(-1)
-    if q_params.offset is not None:
-        offset = (q_params.offset.view(param_tmp_shape).__getitem__(slices_effective)).reshape(-1)
-    else:
-        offset = None
+    if offset is not None:
+        offset = offset.view(param_tmp_shape).__getitem__(slices_effective).reshape(-1)
 
     granularity = ff.PerChannel(channel_dim=tuple(new_channel_dims))
     new_data = input.raw_data.__getitem__(slices)
-- 
2.43.0


From 5efd80fa41c957103112b0b71b17d223cf89b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 011/113] fix: default to constant padding in quantized pad

---
 src/fastforward/_gen/fallback.py                   | 2 +-
 src/fastforward/_gen/operators.py                  | 2 +-
 src/fastforward/_quantops/quantized_operators.yaml | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/_gen/fallback.py b/src/fastforward/_gen/fallback.py
index 016701d..7cf166a 100644
--- a/src/fastforward/_gen/fallback.py
+++ b/src/fastforward/_gen/fallback.py
@@ -1546,7 +1546,7 @@ def cumsum(
 def pad(
     input: torch.Tensor,
     pad: Sequence[int],
-    mode: str = "...",
+    mode: str = "constant",
     value: float | None = None,
     *,
     output_quantizer: Optional["Quantizer"] = None,
diff --git a/src/fastforward/_gen/operators.py b/src/fastforward/_gen/operators.py
index 3e53fd2..03c61af 100644
--- a/src/fastforward/_gen/operators.py
+++ b/src/fastforward/_gen/operators.py
@@ -1383,7 +1383,7 @@ def cumsum(
 def pad(
     input: torch.Tensor,
     pad: Sequence[int],
-    mode: str = "...",
+    mode: str = "constant",
     value: float | None = None,
     *,
     output_quantizer: Optional["Quantizer"] = None,
diff --git a/src/fastforward/_quantops/quantized_operators.yaml b/src/fastforward/_quantops/quantized_operators.yaml
index 8e0d3aa..1b85ab4 100644
--- a/src/fastforward/_quantops/quantized_operators.yaml
+++ b/src/fastforward/_quantops/quantized_operators.yaml
@@ -131,7 +131,7 @@
 - op: "cumsum(input: Quantized, dim: int) -> Quantized"
   fallback: torch.cumsum
 
-- op: "pad(input: Quantized, pad: Sequence[int], mode: str = ..., value: Optional[float] = None) -> Quantized"
+- op: "pad(input: Quantized, pad: Sequence[int], mode: str = 'constant', value: Optional[float] = None) -> Quantized"
   fallback: torch.nn.functional.pad
 
 # NOTE: return_indices is intentionally omitted from this spec. torch's max_pool2d
-- 
2.43.0


From 2a8a8fad284f9ba4dd1826439f667b8e54a83516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 012/113] fix: restore strict quantization after failing,
 recursive and nested module calls

---
 .../quantization/strict_quantization.py       | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/quantization/strict_quantization.py b/src/fastforward/quantization/strict_quantization.py
index ace6068..4d734c9 100644
--- a/src/fastforward/quantization/strict_quantization.py
+++ b/src/fastforward/quantization/strict_quantization.py
@@ -29,9 +29,10 @@ class ModuleStrictQuantHandle:
         """
         self._enable_strict_quantization = enable_strict_quantization
         self._handles: list[RemovableHandle] = []
-        self._module_original_strict_mode: weakref.WeakKeyDictionary[torch.nn.Module, bool] = (
-            weakref.WeakKeyDictionary()
-        )
+        # A module may be executed recursively, hence a stack for every module.
+        self._module_original_strict_modes: weakref.WeakKeyDictionary[
+            torch.nn.Module, list[bool]
+        ] = weakref.WeakKeyDictionary()
 
     def _pre_forward_hook(self, module: torch.nn.Module, args: tuple[Any, ...]) -> None:
         """Pre-forward hook to set the strict quantization mode before module execution.
@@ -41,7 +42,8 @@ class ModuleStrictQuantHandle:
             args: The arguments passed to the module.
         """
         del args
-        self._module_original_strict_mode[module] = ff.get_strict_quantization()
+        original_modes = self._module_original_strict_modes.setdefault(module, [])
+        original_modes.append(ff.get_strict_quantization())
         ff.set_strict_quantization(self._enable_strict_quantization)
 
     def _post_forward_hook(
@@ -55,8 +57,8 @@ class ModuleStrictQuantHandle:
             output: The output of the module.
         """
         del args, output
-        if (strict_mode := self._module_original_strict_mode.get(module, None)) is not None:
-            ff.set_strict_quantization(strict_mode)
+        if original_modes := self._module_original_strict_modes.get(module, None):
+            ff.set_strict_quantization(original_modes.pop())
 
     def attach(self, module: torch.nn.Module) -> None:
         """Attach the pre-forward and post-forward hooks to a module.
@@ -65,7 +67,10 @@ class ModuleStrictQuantHandle:
             module: The module to attach hooks to.
         """
         pre_handle = module.register_forward_pre_hook(self._pre_forward_hook)
-        post_handle = module.register_forward_hook(self._post_forward_hook)
+        # Restore in reverse order of the pre-hooks, also when the module's execution fails.
+        post_handle = module.register_forward_hook(
+            self._post_forward_hook, prepend=True, always_call=True
+        )
         self._handles.append(pre_handle)
         self._handles.append(post_handle)
 
-- 
2.43.0


From 8920004c9b9f6d34423c905b3138e450fef94959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 013/113] fix: evaluate is_nonzero and sparse_mask of quantized
 tensors on values

---
 src/fastforward/quantized_tensor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fastforward/quantized_tensor.py b/src/fastforward/quantized_tensor.py
index 3082ccc..397d1d2 100644
--- a/src/fastforward/quantized_tensor.py
+++ b/src/fastforward/quantized_tensor.py
@@ -206,7 +206,6 @@ _set_no_dispatch("retain_grad")
 _set_no_dispatch("shape")
 _set_no_dispatch("size")
 _set_no_dispatch("sparse_dim")
-_set_no_dispatch("sparse_mask")
 _set_no_dispatch("storage")
 _set_no_dispatch("storage_offset")
 _set_no_dispatch("storage_type")
@@ -223,7 +222,7 @@ if torch.__version__ < "2.13":
 _no_dispatch_attributes = [
     "is_coalesced", "is_complex", "is_conj", "is_contiguous", "is_cpu", "is_cuda",
     "is_distributed", "is_floating_point", "is_inference", "is_ipu", "is_leaf", "is_meta",
-    "is_mkldnn", "is_mps", "is_neg", "is_nested", "is_nonzero", "is_pinned",
+    "is_mkldnn", "is_mps", "is_neg", "is_nested", "is_pinned",
     "is_same_size", "is_set_to", "is_shared", "is_signed", "is_sparse", "is_sparse_csr",
     "is_vulkan", "is_xpu",
 ]
-- 
2.43.0


From beb0f50007906496078f2082a4f4e2592757257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 014/113] fix: remove exactly the registration a dispatcher
 hook was created for

---
 src/fastforward/dispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/dispatcher.py b/src/fastforward/dispatcher.py
index 9331bcd..28fcaf7 100644
--- a/src/fastforward/dispatcher.py
+++ b/src/fastforward/dispatcher.py
@@ -99,7 +99,7 @@ class DispatcherPriority(enum.IntEnum):
     NOT_IMPLEMENTED_FALLBACK = 2
 
 
-@dataclasses.dataclass
+@dataclasses.dataclass(eq=False)
 class DispatcherItem(Generic[P]):
     """Data class representing an item in the dispatcher.
 
-- 
2.43.0


From 484ee2549ca51522ddbddba638b47a8937a4ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 015/113] fix: view a plain tensor as a quantized tensor's
 shape

---
 src/fastforward/quantized_tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantized_tensor.py b/src/fastforward/quantized_tensor.py
index 397d1d2..06b0095 100644
--- a/src/fastforward/quantized_tensor.py
+++ b/src/fastforward/quantized_tensor.py
@@ -576,7 +576,7 @@ def _view_predicate(self: QuantizedTensor, *shape: int | Sequence[int] | torch.S
 
 @Predicate
 def _view_as_predicate(self: QuantizedTensor, other: torch.Tensor) -> bool:
-    if not isinstance(other, torch.Tensor):
+    if not isinstance(self, QuantizedTensor) or not isinstance(other, torch.Tensor):
         return False  # type: ignore[unreachable]
     return other.shape == self.shape
 
-- 
2.43.0


From 85f89464baaa1bf6c2c1af5f2c2847aea0059bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 016/113] fix: let the continuation of an override be called
 more than once

---
 src/fastforward/forward_override.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/forward_override.py b/src/fastforward/forward_override.py
index 0d774ad..4aa3f93 100644
--- a/src/fastforward/forward_override.py
+++ b/src/fastforward/forward_override.py
@@ -1,6 +1,7 @@
 # Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
 # SPDX-License-Identifier: BSD-3-Clause-Clear
 
+import copy
 import weakref
 
 from typing import TYPE_CHECKING, Any, Callable, Generic, Mapping, Protocol, TypeVar
@@ -88,9 +89,10 @@ class _WrappedOverriddenFn(Generic[T]):
     def __call__(self, *args: Any, **kwargs: Any) -> T:
         if not self.override_stack:
             return self.overridden_fn(*args, **kwargs)
-        else:
-            override_fn = self.override_stack.pop()
-            return override_fn(self.context, self, args, kwargs)
+        # The continuation is a separate object such that it can be called more than once.
+        continuation = copy.copy(self)
+        continuation.override_stack = self.override_stack[:-1]
+        return self.override_stack[-1](self.context, continuation, args, kwargs)
 
 
 def apply_overrides(
-- 
2.43.0


From fe87c95225787028bbc5e460407b33958c0df28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 017/113] fix: remove freeze overrides when leaving
 freeze_parameters

---
 src/fastforward/quantization/freeze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/freeze.py b/src/fastforward/quantization/freeze.py
index 0a66805..fd5de4b 100644
--- a/src/fastforward/quantization/freeze.py
+++ b/src/fastforward/quantization/freeze.py
@@ -114,7 +114,7 @@ def freeze_parameters(
         for submodule in module.modules():
             for _, quantizer in ff.nn.quantized_module.named_quantizers(submodule, recurse=False):
                 override = _FreezeParametersOverride(submodule, remove_quantizer=remove_quantizers)
-                quantizer.register_override(override)
+                hooks.append(quantizer.register_override(override))
 
     try:
         # Disable strict quantization because override returns 'normal' tensors.
-- 
2.43.0


From 6e083416ff5200edc130b3fa10804231c7835707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 018/113] fix: keep activation quantizers when freezing
 parameters

---
 src/fastforward/quantization/freeze.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/quantization/freeze.py b/src/fastforward/quantization/freeze.py
index fd5de4b..7fe2fcd 100644
--- a/src/fastforward/quantization/freeze.py
+++ b/src/fastforward/quantization/freeze.py
@@ -4,7 +4,7 @@
 import contextlib
 
 from collections.abc import Iterator, Sequence
-from typing import Any, Callable, cast
+from typing import Any, Callable
 
 import torch
 
@@ -34,10 +34,13 @@ class _FreezeParametersOverride:
             kwargs: Keyword arguments
 
         Returns:
-            Dequantized tensor result
+            The frozen parameter, or the result of `callback` if the input is not a parameter
         """
         # Extract and quantize input data
         input_data = _extract_input(*args, **kwargs)
+        if not isinstance(input_data, torch.nn.Parameter):
+            # Only parameters are frozen, quantizers of other tensors remain as they are.
+            return callback(*args, **kwargs)
         quantized = callback(input_data).dequantize()
 
         if quantized is input_data:
@@ -45,12 +48,11 @@ class _FreezeParametersOverride:
             # the quantizer is disabled), freezing has no effect. In this case,
             # we skip both the quantizer removal and the in-place parameter update
             # since they would be no-ops.
-            return cast(torch.Tensor, input_data)
+            return input_data
 
-        # Update parameter in-place if input is a Parameter
-        if isinstance(input_data, torch.nn.Parameter):
-            with torch.no_grad():
-                input_data.copy_(quantized)
+        # Update parameter in-place
+        with torch.no_grad():
+            input_data.copy_(quantized)
 
         # Replace quantizer with stub to freeze quantization
         if self._remove_quantizer:
-- 
2.43.0


From e4f35949d92d2cb099ad6316d5c100562d74f9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 019/113] fix: clean up prepared quantizers when preparing
 range estimation fails

---
 src/fastforward/range_setting/common.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/range_setting/common.py b/src/fastforward/range_setting/common.py
index 128f065..70f9b8b 100644
--- a/src/fastforward/range_setting/common.py
+++ b/src/fastforward/range_setting/common.py
@@ -278,12 +278,12 @@ def estimate_ranges(
         )
 
     prepared_modules: list[tuple[_Module, _T]] = []
-    for module in model_or_layers:
-        for module_part in estimator.split_module(module):
-            metadata = estimator.prepare(module_part)
-            prepared_modules.append((module_part, metadata))
     try:
+        for module in model_or_layers:
+            for module_part in estimator.split_module(module):
+                metadata = estimator.prepare(module_part)
+                prepared_modules.append((module_part, metadata))
         yield
     finally:
-        for module, metadata in prepared_modules:
-            estimator.cleanup(module, metadata)
+        for module_part, metadata in prepared_modules:
+            estimator.cleanup(module_part, metadata)
-- 
2.43.0


From ea99ee83a7419d0096c98eeccdf5575f68a53ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 020/113] fix: evaluate the override stack when the overridden
 function is called

---
 src/fastforward/forward_override.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/fastforward/forward_override.py b/src/fastforward/forward_override.py
index 4aa3f93..89ebe32 100644
--- a/src/fastforward/forward_override.py
+++ b/src/fastforward/forward_override.py
@@ -1,7 +1,6 @@
 # Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
 # SPDX-License-Identifier: BSD-3-Clause-Clear
 
-import copy
 import weakref
 
 from typing import TYPE_CHECKING, Any, Callable, Generic, Mapping, Protocol, TypeVar
@@ -83,16 +82,28 @@ class _WrappedOverriddenFn(Generic[T]):
     ) -> None:
         self.context = context
         self.overridden_fn = overridden_fn
-        _, override_stack = zip(*sorted(override_map.items()))
-        self.override_stack: list[OverrideFn[T]] = list(override_stack)
+        self.override_map = override_map
 
     def __call__(self, *args: Any, **kwargs: Any) -> T:
-        if not self.override_stack:
+        override_stack = [override_fn for _, override_fn in sorted(self.override_map.items())]
+        return self._call_override(override_stack, args, kwargs)
+
+    def _call_override(
+        self,
+        override_stack: list[OverrideFn[T]],
+        args: tuple[Any, ...],
+        kwargs: dict[str, Any],
+    ) -> T:
+        if not override_stack:
             return self.overridden_fn(*args, **kwargs)
-        # The continuation is a separate object such that it can be called more than once.
-        continuation = copy.copy(self)
-        continuation.override_stack = self.override_stack[:-1]
-        return self.override_stack[-1](self.context, continuation, args, kwargs)
+        *remaining_stack, override_fn = override_stack
+
+        # An override may call its continuation any number of times, hence each
+        # continuation refers to its own part of the stack.
+        def continuation(*args: Any, **kwargs: Any) -> T:
+            return self._call_override(remaining_stack, args, kwargs)
+
+        return override_fn(self.context, continuation, args, kwargs)
 
 
 def apply_overrides(
-- 
2.43.0


From fc866ce9843560b252066bb2bf41daeb43c9dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 021/113] fix: restore quantizers of classes that inherit
 __init__

---
 src/fastforward/serialization.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/serialization.py b/src/fastforward/serialization.py
index 7709b8b..d20dd6d 100644
--- a/src/fastforward/serialization.py
+++ b/src/fastforward/serialization.py
@@ -128,15 +128,18 @@ def _ff_obj_yaml_constructor(
     """
     values = loader.construct_mapping(cast(yaml.MappingNode, node), deep=True)
     class_name = values.pop("name")
-    newargs, newkwargs = values.pop("newargs", ((), {}))
-    initargs, initkwargs = values.pop("initargs", ((), {}))
     cls = QualifiedNameReference(class_name).import_()
     if not isinstance(cls, type):
         return cls
-    if _has_custom_method(cls, "__new__"):
-        obj = cls.__new__(cls, *newargs, **newkwargs)
-    if _has_custom_method(cls, "__init__"):
+    # `__init__` and/or `__new__` may be inherited, hence use the arguments that
+    # were recorded instead of the methods that are implemented by `cls` itself.
+    obj = None
+    if "initargs" in values:
+        initargs, initkwargs = values.pop("initargs")
         obj = cls(*initargs, **initkwargs)
+    elif "newargs" in values:
+        newargs, newkwargs = values.pop("newargs")
+        obj = cls.__new__(cls, *newargs, **newkwargs)
     if obj is None:
         raise RuntimeError("cant deserialise an object")
     if "state" in values:
-- 
2.43.0


From 569475ce8a2cd1d7e2703d5b3347d65055920b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 022/113] fix: load quantization state of quantizers without
 parameters

---
 src/fastforward/quantization/save_load.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index e11c55f..797a6d3 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -34,6 +34,7 @@ from __future__ import annotations
 
 import json
 import logging
+import re
 
 from collections import defaultdict
 from operator import attrgetter
@@ -59,6 +60,12 @@ logger = logging.getLogger(__name__)
 # marker entry is written instead to keep the file readable.
 _EMPTY_STATE_MARKER = "__ff_empty_quantizer_state__"
 
+# A single "param=tensor_key[::lazy]" entry of the comma separated parameter
+# metadata of a quantizer. The tensor key is a (module) name that ends in the
+# parameter name and may contain any of the separators. The metadata of a
+# quantizer without parameters has no entries.
+_PARAMS_METADATA_ENTRY = re.compile(r"([^=,]+)=(.*?\.\1)(::lazy)?(?:,|$)", re.DOTALL)
+
 
 def _deduplicate_shared_tensors(
     tensors: dict[str, torch.Tensor],
@@ -464,14 +471,9 @@ def _load_quantizer_state_from_files(
             for name, quantizer in quantizers.items():
                 state_tensor_keys = {}
                 lazy_params = []
-                for key in metadata[f"{name}"].split(","):
-                    state_key, tensor_key = key.split("=")
-
-                    if "::" in tensor_key:
-                        tensor_key, decorators = tensor_key.split("::")
-                    else:
-                        decorators = ""
-
+                for state_key, tensor_key, decorators in _PARAMS_METADATA_ENTRY.findall(
+                    metadata[f"{name}"]
+                ):
                     if "lazy" in decorators:
                         lazy_params.append(state_key)
                     else:
-- 
2.43.0


From 43eb81d802eb0a6c6c2a7048614a2cd5063ce811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 023/113] fix: save quantization state of shared and
 non-contiguous parameters

---
 src/fastforward/quantization/save_load.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index 797a6d3..088bd98 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -177,7 +177,11 @@ def _collect_quantizer_state(
             if torch.nn.parameter.is_lazy(param):
                 lazy_param.add(key)
             else:
-                state[f"{first_name}.{key}"] = param.detach()
+                # Distinct quantizers may share parameters and SafeTensors
+                # refuses non-contiguous tensors and tensors that share memory.
+                state[f"{first_name}.{key}"] = param.detach().clone(
+                    memory_format=torch.contiguous_format
+                )
 
         if len(lazy_param) > 0:
             msg = (
-- 
2.43.0


From b59dac4d5e693983cf8c9c57d4e104cde4443e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 024/113] fix: save quantized models with non-contiguous
 weights

---
 src/fastforward/quantization/save_load.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index 088bd98..8302797 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -632,6 +632,8 @@ def save_quantized_model(
     # SafeTensors rejects tensors sharing storage, so tied weights are stored
     # once and re-expanded on load from the manifest's alias map.
     weight_state, tied_weights = _deduplicate_shared_tensors(weight_state)
+    # SafeTensors also rejects non-contiguous tensors (e.g. channels last weights).
+    weight_state = {name: tensor.contiguous() for name, tensor in weight_state.items()}
     save_file(weight_state, artifact_path / "weights.safetensors")
 
     manifest = {
-- 
2.43.0


From 8e40ac80c6f86e4030d373edb4c1746ffbb4c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 025/113] fix: restore the dtype of quantization parameters on
 load

---
 src/fastforward/quantization/save_load.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index 8302797..925d3b3 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -483,13 +483,16 @@ def _load_quantizer_state_from_files(
                     else:
                         state_tensor_keys[state_key] = tensor_key
 
-                missing_keys, unexpected_keys = quantizer.load_state_dict(
-                    {
-                        state_key: f.get_tensor(tensor_key)
-                        for state_key, tensor_key in state_tensor_keys.items()
-                    },
-                    strict=False,
-                )
+                state_dict = {
+                    state_key: f.get_tensor(tensor_key)
+                    for state_key, tensor_key in state_tensor_keys.items()
+                }
+                for state_key, tensor in state_dict.items():
+                    # The dtype may have been changed after the quantizer was created.
+                    param = getattr(quantizer, state_key, None)
+                    if torch.nn.parameter.is_lazy(param):
+                        param.materialize(tensor.shape, dtype=tensor.dtype)
+                missing_keys, unexpected_keys = quantizer.load_state_dict(state_dict, strict=False)
 
                 if len(lazy_params) > 0:
                     msg = (
-- 
2.43.0


From d54485768b00bd1437f4a15b2fc3ce9467bb4fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 026/113] fix: do not load quantization state partially

---
 src/fastforward/quantization/save_load.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index 925d3b3..4bfa1db 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -514,6 +514,9 @@ def _load_quantizer_state_from_files(
                     logger.error(msg)
                     raise RuntimeError(msg)
 
+    # Resolve all quantizers before any is attached, such that a mismatch does not
+    # leave the model partially loaded.
+    resolved: list[tuple[torch.nn.Module, str, Quantizer]] = []
     for name, quantizer in quantizers.items():
         parts = name.rsplit(".", 1)
         parent = model if len(parts) == 1 else attrgetter(parts[0])(model)
@@ -544,6 +547,9 @@ def _load_quantizer_state_from_files(
             msg = f"'{name}' is not a quantizer or was overwritten by a non-quantizer object"
             raise ValueError(msg)
 
+        resolved.append((parent, parent_attribute, quantizer))
+
+    for parent, parent_attribute, quantizer in resolved:
         setattr(parent, parent_attribute, quantizer)
 
 
-- 
2.43.0


From 0700575e606cc3a60e18c75e11f7f65218f4e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 027/113] fix: do not attach quantizers if saved weights do not
 match the model

---
 src/fastforward/quantization/save_load.py | 36 ++++++++++++++++-------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index 4bfa1db..f8f6866 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -724,17 +724,6 @@ def load_quantized_model(
     if expected_name is None:
         expected_name = getattr(getattr(model, "config", None), "name_or_path", None)
 
-    # Reattach quantizers first (replacing stubs), then load weights so their
-    # values land on the reconstructed module.
-    _load_quantizer_state_from_files(
-        model,
-        config_path,
-        model_path,
-        expected_name=expected_name or None,
-        overwrite_policy=overwrite_policy,
-        allow_lazy_params=allow_lazy_params,
-    )
-
     with safe_open(weights_path, framework="pt") as f:
         weight_state = {key: f.get_tensor(key) for key in f.keys()}
     weight_state = _expand_shared_tensors(weight_state, manifest.get("tied_weights", {}))
@@ -760,4 +749,29 @@ def load_quantized_model(
         logger.error(msg)
         raise RuntimeError(msg)
 
+    # `load_state_dict` raises on mismatching shapes only after loading all others.
+    model_state = model.state_dict()
+    mismatched_keys = sorted(
+        name
+        for name, tensor in weight_state.items()
+        if not torch.nn.parameter.is_lazy(model_state[name])
+        and model_state[name].shape != tensor.shape
+    )
+    if mismatched_keys:
+        msg = f"Saved weights do not match this model: different shapes for {mismatched_keys}."
+        logger.error(msg)
+        raise RuntimeError(msg)
+
+    # Reattach quantizers first (replacing stubs), then load weights so their
+    # values land on the reconstructed module. The weights were validated at this
+    # point and the quantizers are not attached if any of them does not match.
+    _load_quantizer_state_from_files(
+        model,
+        config_path,
+        model_path,
+        expected_name=expected_name or None,
+        overwrite_policy=overwrite_policy,
+        allow_lazy_params=allow_lazy_params,
+    )
+
     model.load_state_dict(weight_state, strict=False)
-- 
2.43.0


From 28fd53c9292b0ae988b9a5621cdfb4a9ae8677fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 028/113] fix: save and load quantized models with
 uninitialized quantizers

---
 src/fastforward/quantization/save_load.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index f8f6866..d869e8c 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -635,7 +635,7 @@ def save_quantized_model(
     )
     weight_state = {
         name: param.detach()
-        for name, param in save_model.state_dict().items()
+        for name, param in save_model.state_dict(keep_vars=True).items()
         if not name.startswith(quantizer_prefixes)
     }
     # SafeTensors rejects tensors sharing storage, so tied weights are stored
@@ -738,7 +738,9 @@ def load_quantized_model(
             model, remove_duplicate=False, skip_stubs=False
         )
     )
-    expected_keys = {name for name in model.state_dict() if not name.startswith(quantizer_prefixes)}
+    # `keep_vars`, as uninitialized quantizer parameters cannot be detached.
+    model_state = model.state_dict(keep_vars=True)
+    expected_keys = {name for name in model_state if not name.startswith(quantizer_prefixes)}
     missing_keys = sorted(expected_keys - weight_state.keys())
     unexpected_keys = sorted(weight_state.keys() - expected_keys)
     if missing_keys or unexpected_keys:
@@ -750,7 +752,6 @@ def load_quantized_model(
         raise RuntimeError(msg)
 
     # `load_state_dict` raises on mismatching shapes only after loading all others.
-    model_state = model.state_dict()
     mismatched_keys = sorted(
         name
         for name, tensor in weight_state.items()
-- 
2.43.0


From 87b8866c2319e8df206e6a339a5e424c73364cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 029/113] fix: pickle the complete state of quantizers

---
 src/fastforward/nn/quantizer.py | 35 ++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/nn/quantizer.py b/src/fastforward/nn/quantizer.py
index f0118f9..9be0e23 100644
--- a/src/fastforward/nn/quantizer.py
+++ b/src/fastforward/nn/quantizer.py
@@ -3,6 +3,7 @@
 
 import collections
 import copy
+import copyreg
 import logging
 
 from types import SimpleNamespace
@@ -57,6 +58,10 @@ class Tag:
         # copy here.
         return self
 
+    def __getnewargs__(self) -> tuple[str]:
+        # Tags are looked up by name when unpickled.
+        return (self._symbol,)
+
     @typing_override
     def __str__(self) -> str:
         return f"#{self._symbol}"
@@ -303,6 +308,11 @@ class Quantizer(torch.nn.Module):
         Args:
             state: Dictionary containing the object's state to restore.
         """
+        if "_parameters" in state:
+            # Complete module state, see `__reduce_ex__`
+            super().__setstate__(state)
+            return
+
         # Restore all attributes from the state dictionary
         for attr, value in state.items():
             setattr(self, attr, value)
@@ -317,13 +327,7 @@ class Quantizer(torch.nn.Module):
                 attributes, excluding inherited attributes from standard library
                 and torch modules.
         """
-        if self._quantizer_overrides:
-            msg = (
-                "quantizer_overrides can not be serialized. Please remove all "
-                "overrides before serialization."
-            )
-            logger.error(msg)
-            raise RuntimeError(msg)
+        self._ensure_no_overrides()
         ignored_attribures = set((
             "__initargs_ex__",
             "quant_metadata",  # metadata is assigned at registration
@@ -337,6 +341,23 @@ class Quantizer(torch.nn.Module):
             if key not in ignored_attribures and not isinstance(value, torch.Tensor)
         }
 
+    def _ensure_no_overrides(self) -> None:
+        if self._quantizer_overrides:
+            msg = (
+                "quantizer_overrides can not be serialized. Please remove all "
+                "overrides before serialization."
+            )
+            logger.error(msg)
+            raise RuntimeError(msg)
+
+    def __reduce_ex__(self, protocol: Any) -> Any:
+        """Pickle the complete module state.
+
+        `__getstate__` only covers the attributes that are not part of a state dict.
+        """
+        self._ensure_no_overrides()
+        return copyreg.__newobj__, (type(self),), super().__getstate__()  # type: ignore[attr-defined]
+
     def __deepcopy__(self, memo: dict[int, Any]) -> Self:
         """Create a deepcopy circumventing custom __setstate_ and __getstate__."""
         if id(self) in memo:
-- 
2.43.0


From 31ce20368ff1035de7014feb134a09ff8ed06e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 030/113] fix: deepcopy uninitialized and self-referring
 quantizers

---
 src/fastforward/nn/quantizer.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/nn/quantizer.py b/src/fastforward/nn/quantizer.py
index 9be0e23..fb0a717 100644
--- a/src/fastforward/nn/quantizer.py
+++ b/src/fastforward/nn/quantizer.py
@@ -363,18 +363,26 @@ class Quantizer(torch.nn.Module):
         if id(self) in memo:
             return memo[id(self)]  # type: ignore[no-any-return]
 
+        cls = type(self)
+        new_obj = cls.__new__(cls)
+
+        # The state refers back to self, e.g., through hooks.
+        memo[id(self)] = new_obj
+
+        # torch.nn.UninitializedBuffer does not implement deepcopy
+        for buffer in self._buffers.values():
+            if isinstance(buffer, torch.nn.UninitializedBuffer) and id(buffer) not in memo:
+                memo[id(buffer)] = torch.nn.UninitializedBuffer(  # type: ignore[call-arg]
+                    device=buffer.device, dtype=buffer.dtype
+                )
+
         # Use torch.nn.Module.__getstate__
         state = super().__getstate__()
         new_state = copy.deepcopy(state, memo)
 
-        cls = type(self)
-        new_obj = cls.__new__(cls)
-
         # Use torch.nn.Module.__setstate__ to set state on new_obj
         super(Quantizer, new_obj).__setstate__(new_state)
 
-        memo[id(self)] = new_obj
-
         return new_obj
 
     def quantize(self, data: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From 8dd06e455041d0bb7063723535f8db96713150bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 031/113] fix: accept memory_format in QuantizedTensor.clone

---
 src/fastforward/quantized_tensor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantized_tensor.py b/src/fastforward/quantized_tensor.py
index 06b0095..62380c3 100644
--- a/src/fastforward/quantized_tensor.py
+++ b/src/fastforward/quantized_tensor.py
@@ -386,12 +386,17 @@ class QuantizedTensor(torch.Tensor):
             self.raw_data, self.quant_args()
         )
 
-    def clone(self) -> "QuantizedTensor":  # type: ignore[override]
+    def clone(  # type: ignore[override]
+        self, *, memory_format: torch.memory_format = torch.preserve_format
+    ) -> "QuantizedTensor":
         """Clone tensor.
 
         This makes a copy of the tensor and associated quantization
         parameter tensors
 
+        Args:
+            memory_format: The memory format of the cloned data.
+
         Returns:
             QuantizedTensor: Quantized tensor that holds the same data but copied.
 
@@ -400,7 +405,7 @@ class QuantizedTensor(torch.Tensor):
         """
         quant_ctx = self._quantization_context.clone_parameters()
         with DisableTorchFunctionSubclass():
-            cloned_tensor = super().clone()
+            cloned_tensor = super().clone(memory_format=memory_format)
         return quant_ctx.attach(cloned_tensor)
 
     def detach(self) -> "QuantizedTensor":
-- 
2.43.0


From c5ccef292d5e1d53e846dd98484c5b8e3ad1d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:43 +0000
Subject: [PATCH 032/113] fix: apply the padding mode in quantized convolutions

---
 src/fastforward/nn/conv.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/nn/conv.py b/src/fastforward/nn/conv.py
index b6aedf7..8c524c1 100644
--- a/src/fastforward/nn/conv.py
+++ b/src/fastforward/nn/conv.py
@@ -7,6 +7,32 @@ from typing_extensions import override
 
 from fastforward.nn import QuantizedModule, Quantizer, QuantizerStub
 from fastforward.nn.functional import conv1d, conv2d
+from fastforward.quantized_tensor import QuantizedTensor
+
+
+def _apply_padding_mode(
+    module: torch.nn.Conv1d | torch.nn.Conv2d, input: torch.Tensor
+) -> tuple[torch.Tensor, str | int | tuple[int, ...]]:
+    """Explicitly pad `input` if the padding mode of `module` is not zero padding.
+
+    Returns:
+        The (padded) input and the padding that remains to be done by the convolution.
+    """
+    mode = module.padding_mode
+    if mode == "zeros":
+        return input, module.padding
+
+    padding = module._reversed_padding_repeated_twice
+    if not isinstance(input, QuantizedTensor):
+        return torch.nn.functional.pad(input, padding, mode=mode), 0
+
+    # These padding modes only repeat elements of the input, hence the input
+    # can be padded without leaving its quantization grid.
+    for dim, pads in enumerate(zip(padding[0::2], padding[1::2])):
+        positions = torch.arange(input.shape[-1 - dim], dtype=torch.float64, device=input.device)
+        index = torch.nn.functional.pad(positions[None], pads, mode=mode)[0].long()
+        input = input[(..., index) + (slice(None),) * dim]
+    return input, 0
 
 
 class QuantizedConv2d(QuantizedModule, torch.nn.Conv2d):
@@ -36,12 +62,13 @@ class QuantizedConv2d(QuantizedModule, torch.nn.Conv2d):
             bias = self.bias_quantizer(self.bias)
         else:
             bias = self.bias
+        input, padding = _apply_padding_mode(self, input)
         return conv2d(
             input,
             weight,
             bias,
             self.stride,
-            self.padding,
+            padding,
             self.dilation,
             self.groups,
             output_quantizer=self.output_quantizer,
@@ -75,12 +102,13 @@ class QuantizedConv1d(QuantizedModule, torch.nn.Conv1d):
             bias = self.bias_quantizer(self.bias)
         else:
             bias = self.bias
+        input, padding = _apply_padding_mode(self, input)
         return conv1d(
             input,
             weight,
             bias,
             self.stride,
-            self.padding,
+            padding,
             self.dilation,
             self.groups,
             output_quantizer=self.output_quantizer,
-- 
2.43.0


From 9a34ed978708b6797cf222b63236a8943ec0c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:42 +0000
Subject: [PATCH 033/113] fix: convert modules that are shared between parents
 once

---
 src/fastforward/nn/quantized_module.py | 32 +++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/nn/quantized_module.py b/src/fastforward/nn/quantized_module.py
index 697bd51..4986222 100644
--- a/src/fastforward/nn/quantized_module.py
+++ b/src/fastforward/nn/quantized_module.py
@@ -2,6 +2,7 @@
 # SPDX-License-Identifier: BSD-3-Clause-Clear
 
 import contextlib
+import contextvars
 import dataclasses
 import inspect
 import logging
@@ -373,6 +374,12 @@ class SkipQuantization:
 SKIP_QUANTIZATION = SkipQuantization()
 
 
+# Modules that are already converted by the ongoing `quantize_model` call (if any) by id.
+_CONVERTED_MODULES: contextvars.ContextVar[dict[int, torch.nn.Module] | None] = (
+    contextvars.ContextVar("_CONVERTED_MODULES", default=None)
+)
+
+
 def _missing_modules(
     model: torch.nn.Module,
     module_map: dict[ModuleType, QuantizedModuleType | SkipQuantization],
@@ -383,7 +390,10 @@ def _missing_modules(
     Returns a list of Module types that appear in `model` but for which no
     quantized counterpart is available.
     """
-    submodule_types = {type(module) for module in model.modules()} | {type(model)}
+    converted_modules = _CONVERTED_MODULES.get() or {}
+    submodule_types = {
+        type(module) for module in model.modules() if id(module) not in converted_modules
+    }
     missing_modules: list[type[torch.nn.Module]] = []
     for module_type in submodule_types:
         if module_type not in module_map:
@@ -517,6 +527,24 @@ def quantize_model(
         used to convert modules. Otherwise, the global module map is merged with `extra_conversion`
         giving precedence to the latter.
     """
+    converted_modules = _CONVERTED_MODULES.get()
+    if converted_modules is None:
+        token = _CONVERTED_MODULES.set({})
+        try:
+            return quantize_model(
+                model,
+                recursive=recursive,
+                extra_conversion=extra_conversion,
+                skip_quantized_modules=skip_quantized_modules,
+                ignore_global_module_map=ignore_global_module_map,
+            )
+        finally:
+            _CONVERTED_MODULES.reset(token)
+
+    if id(model) in converted_modules:
+        # Shared modules are reachable more than once, but must be converted once.
+        return model
+
     module_map = extra_conversion or {}
     if not ignore_global_module_map:
         module_map = {**quantized_module_map(), **module_map}
@@ -558,6 +586,8 @@ def _quantize_module(module: torch.nn.Module, module_map: ModuleConversionDict)
         return
 
     original_class = module.__class__
+    if (converted_modules := _CONVERTED_MODULES.get()) is not None:
+        converted_modules[id(module)] = module
     module.__class__ = quantized_class
     module = cast(QuantizedModule, module)
     module.__init_quantization__()
-- 
2.43.0


From d6c8ec557458d99ec2e2e7b0d148d0f5dd50abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 034/113] fix: report modules without a type-specific
 conversion before converting

---
 src/fastforward/nn/quantized_module.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/fastforward/nn/quantized_module.py b/src/fastforward/nn/quantized_module.py
index 4986222..3f5c455 100644
--- a/src/fastforward/nn/quantized_module.py
+++ b/src/fastforward/nn/quantized_module.py
@@ -397,8 +397,6 @@ def _missing_modules(
     missing_modules: list[type[torch.nn.Module]] = []
     for module_type in submodule_types:
         if module_type not in module_map:
-            if module_type is torch.nn.Module:
-                continue
             if issubclass(module_type, Quantizer):
                 continue
             if skip_quantized_modules and issubclass(module_type, QuantizedModule):
-- 
2.43.0


From 0e73f1016a4a5d1519f2e22678c31d8cc7d7e9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 035/113] fix: no bias quantizer for layer norms without bias

---
 src/fastforward/nn/normalization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/nn/normalization.py b/src/fastforward/nn/normalization.py
index 83e4370..2461b69 100644
--- a/src/fastforward/nn/normalization.py
+++ b/src/fastforward/nn/normalization.py
@@ -19,11 +19,13 @@ class QuantizedLayerNorm(torch.nn.LayerNorm, ffnn.QuantizedModule):
         super().__init_quantization__()
         self.input_quantizer = ffnn.QuantizerStub(input_quantizer=True)
 
-        if self.elementwise_affine:
+        if self.weight is not None:
             self.weight_quantizer = ffnn.QuantizerStub(weight_quantizer=True)
-            self.bias_quantizer = ffnn.QuantizerStub(bias_quantizer=True)
         else:
             self.register_quantizer("weight_quantizer", None)
+        if self.bias is not None:
+            self.bias_quantizer = ffnn.QuantizerStub(bias_quantizer=True)
+        else:
             self.register_quantizer("bias_quantizer", None)
         self.output_quantizer = ffnn.QuantizerStub(output_quantizer=True)
 
-- 
2.43.0


From 2382c55fb75765425366e8f925a8de26e7522075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 036/113] fix: leave uninitialized quantizers out of the
 quantizer state dict

---
 src/fastforward/nn/quantized_module.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastforward/nn/quantized_module.py b/src/fastforward/nn/quantized_module.py
index 3f5c455..1e9409f 100644
--- a/src/fastforward/nn/quantized_module.py
+++ b/src/fastforward/nn/quantized_module.py
@@ -88,6 +88,9 @@ def quantizer_state_dict(module: torch.nn.Module) -> dict[str, Any]:
     """
     state_dict: dict[str, torch.Tensor] = {}
     for name, quantizer in ff.nn.quantized_module.named_quantizers(module):
+        tensors = (*quantizer.parameters(), *quantizer.buffers())
+        if any(torch.nn.parameter.is_lazy(tensor) for tensor in tensors):
+            continue
         prefix = name + ("." if name else "")
         quantizer.state_dict(destination=state_dict, prefix=prefix)
     return state_dict
-- 
2.43.0


From a1da3ddc725ffa2defe2772be02ccb750ae35820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:10 +0000
Subject: [PATCH 037/113] fix: evaluate every candidate of the min error search
 grid

---
 src/fastforward/range_setting/min_error.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/range_setting/min_error.py b/src/fastforward/range_setting/min_error.py
index cc123c6..a12e77c 100644
--- a/src/fastforward/range_setting/min_error.py
+++ b/src/fastforward/range_setting/min_error.py
@@ -214,7 +214,8 @@ class _MinAvgErrorGridEstimator(SimpleEstimatorStep[SupportsRangeBasedOperator],
         quantizer.quantization_range = (min_threshold, max_threshold)
 
     def estimate_step(self, quantizer: SupportsRangeBasedOperator, data: torch.Tensor) -> None:
-        for i in range(self.num_candidates):
+        # The search grid may hold more (or fewer) than `num_candidates` candidates.
+        for i in range(self.min_threshold.shape[0]):
             quant_op = quantizer.operator_for_range(
                 self.min_threshold[i], self.max_threshold[i], data.shape
             )
-- 
2.43.0


From a91f970d17d0480351c8200003104bf9fd43203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 038/113] fix: match multi-wildcards inside alternatives

Queries such as `{**}/a` did not terminate, `a/{**, b}` missed `a` and `a/{**}/b` selected `a`.
---
 src/fastforward/mpath/selector.py | 85 +++++++++++--------------------
 1 file changed, 30 insertions(+), 55 deletions(-)

diff --git a/src/fastforward/mpath/selector.py b/src/fastforward/mpath/selector.py
index 5da2405..e0a9010 100644
--- a/src/fastforward/mpath/selector.py
+++ b/src/fastforward/mpath/selector.py
@@ -184,18 +184,14 @@ class BaseSelector(abc.ABC):
     def fragment_list(self) -> FragmentList:
         """Return a list of fragments that make up this selector and all subsequent selectors."""
 
-    @abc.abstractmethod
-    def remove_multi_wildcard_root(self) -> "BaseSelector | None":
-        """Remove the multi-wildcard root from the selector.
-
-        Returns:
-            The selector with the multi-wildcard root removed, or None if the selector is made up of only a multi-wildcard fragment
-        """
-
     @abc.abstractmethod
     def has_multi_wildcard_root(self) -> bool:
         """Return True if the root fragment is a multi-wildcard fragment and False otherwise."""
 
+    @abc.abstractmethod
+    def matches_empty_path(self) -> bool:
+        """Return True if all fragments may match zero modules and False otherwise."""
+
     def simplify(self) -> "BaseSelector":
         """Simplify the selector by removing any redundant or unnecessary fragments.
 
@@ -204,17 +200,7 @@ class BaseSelector(abc.ABC):
         Returns:
             A simplified version of the selector.
         """
-        selector = self
-        if self.has_multi_wildcard_root():
-            if simplified_selector := self.remove_multi_wildcard_root():
-                selector = "**" / simplified_selector
-            else:
-                from .fragments import WildcardFragment
-
-                # Selector is made up of only wildcard fragments.
-                selector = Selector(next=None, fragment=WildcardFragment(match_multiple=True))
-
-        return selector
+        return self
 
 
 @dataclasses.dataclass(frozen=True, repr=False)
@@ -283,17 +269,25 @@ class Selector(BaseSelector):
 
         return isinstance(self.fragment, WildcardFragment) and self.fragment.match_multiple
 
-    def remove_multi_wildcard_root(self) -> BaseSelector | None:
-        """Remove the multi-wildcard root from the selector.
+    def matches_empty_path(self) -> bool:
+        """Check if the selector matches a path of zero modules.
 
         Returns:
-            BaseSelector | None: The selector without the multi-wildcard root, or None if not applicable.
+            bool: True if all fragments are multi-wildcards, False otherwise.
         """
         if not self.has_multi_wildcard_root():
-            return self
-        if next := self.next:
-            next = self.next.remove_multi_wildcard_root()
-        return next
+            return False
+        return self.next is None or self.next.matches_empty_path()
+
+    def simplify(self) -> BaseSelector:
+        """Collapse repeated multi-wildcards at the root of the selector.
+
+        Returns:
+            A simplified version of the selector.
+        """
+        if self.next and self.has_multi_wildcard_root() and self.next.has_multi_wildcard_root():
+            return self.next.simplify()
+        return self
 
     def matches_and_continuations(
         self, name: str, module: torch.nn.Module
@@ -333,10 +327,10 @@ class Selector(BaseSelector):
         if not self.next:
             return [_SelectorMatch(self.fragment)], continuations
 
-        # If self.next is equivalent to '**', we do have a match as further
-        # fragments don't have to match, otherwise there is no match at this
-        # point
-        if _is_multi_wildcard(self.next):
+        # If self.next matches zero modules, e.g., when it is equivalent to '**', we
+        # do have a match as further fragments don't have to match, otherwise there
+        # is no match at this point
+        if self.next.matches_empty_path():
             return [_SelectorMatch(self.fragment)], continuations
         else:
             return [], continuations
@@ -442,17 +436,15 @@ class MultiSelector(BaseSelector):
             fragment_list += self.next.fragment_list()
         return fragment_list
 
-    def remove_multi_wildcard_root(self) -> "BaseSelector | None":
-        """Remove the multi-wildcard root from the multi-selector.
+    def matches_empty_path(self) -> bool:
+        """Check if any of the selectors matches a path of zero modules.
 
         Returns:
-            BaseSelector | None: The multi-selector without the multi-wildcard root, or None if not applicable.
+            bool: True if the multi-selector matches zero modules, False otherwise.
         """
-        selectors = []
-        for selector in self.selectors:
-            if updated_selector := selector.remove_multi_wildcard_root():
-                selectors.append(updated_selector)
-        return type(self)(self.next, tuple(selectors))
+        if not any(selector.matches_empty_path() for selector in self.selectors):
+            return False
+        return self.next is None or self.next.matches_empty_path()
 
     def has_multi_wildcard_root(self) -> bool:
         """Check if all selectors have a multi-wildcard root.
@@ -463,23 +455,6 @@ class MultiSelector(BaseSelector):
         return all(selector.has_multi_wildcard_root() for selector in self.selectors)
 
 
-def _is_multi_wildcard(selector: BaseSelector) -> bool:
-    """Check if the selector is equivalent to `**`, i.e., all remaining fragments match zero or more arbitrary modules.
-
-    Args:
-        selector: The selector to check.
-
-    Returns:
-        bool: True if the selector is equivalent to `**`, False otherwise.
-    """
-    from .fragments import WildcardFragment
-
-    fragments = selector.fragments()
-    return all(
-        isinstance(fragment, WildcardFragment) and fragment.match_multiple for fragment in fragments
-    )
-
-
 class Fragment(abc.ABC):
     """A selector fragment is a matcher for a single element in a module path.
 
-- 
2.43.0


From 270eaa3c434427945c109e0bda4d4a3a7026e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 039/113] fix: tell queries with the same fragments but another
 structure apart in mpath search

---
 src/fastforward/mpath/_search.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/mpath/_search.py b/src/fastforward/mpath/_search.py
index 846ff77..a386fab 100644
--- a/src/fastforward/mpath/_search.py
+++ b/src/fastforward/mpath/_search.py
@@ -322,7 +322,7 @@ def search(
         _ActiveSearchItem(query, FilterResult("", root, root, "", ()))
     ]
 
-    explored = set([(query.fragment_list(), root)])
+    explored = set([(query, root)])
 
     while active_modules:
         active_item = active_modules.pop()
@@ -350,7 +350,7 @@ def search(
                         fragment_matches=active_result.fragment_matches + (continuation.fragment,),
                     )
 
-                marker = (continuation.selector.fragment_list(), filter_result.module)
+                marker = (continuation.selector, filter_result.module)
                 if marker not in explored:
                     explored.add(marker)
                     active_modules.append(_ActiveSearchItem(continuation.selector, filter_result))
-- 
2.43.0


From cdd9ca401fdc5a52340a911778f3cfaca8c2bf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 040/113] fix: consider all names of a submodule in mpath
 search

---
 src/fastforward/mpath/_search.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/mpath/_search.py b/src/fastforward/mpath/_search.py
index a386fab..7398719 100644
--- a/src/fastforward/mpath/_search.py
+++ b/src/fastforward/mpath/_search.py
@@ -328,7 +328,10 @@ def search(
         active_item = active_modules.pop()
         selector = active_item.selector
 
-        for child_name, child in active_item.result.module.named_children():
+        # `named_children` skips all but the first name of a module
+        for child_name, child in active_item.result.module._modules.items():
+            if child is None:
+                continue
             matches, continuations = selector.matches_and_continuations(child_name, child)
 
             for match in matches:
-- 
2.43.0


From 2b4715f0daadc14c12101767db7d0ef50d082e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 041/113] fix: parse module names that start with a digit in
 mpath queries

---
 src/fastforward/mpath/_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/mpath/_parser.py b/src/fastforward/mpath/_parser.py
index 6c06516..9d67c3a 100644
--- a/src/fastforward/mpath/_parser.py
+++ b/src/fastforward/mpath/_parser.py
@@ -109,9 +109,11 @@ def _tokengen(src: str) -> Iterator[Token]:
             continue
 
         if char in "0123456789":
-            while pos < len(src) and src[start : pos + 1].isdigit():
+            # Module names may start with a digit, e.g., '3x3'.
+            while pos < len(src) and ("_" + src[start : pos + 1]).isidentifier():
                 increment()
-            yield token(start, pos, TokenType.DIGIT)
+            kind = TokenType.DIGIT if src[start:pos].isdigit() else TokenType.IDENTIFIER
+            yield token(start, pos, kind)
             continue
 
         if char == '"':
-- 
2.43.0


From 3bcb02a769fb40bacf8555c3008f23e003e884cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 042/113] fix: ignore whitespace around class names in mpath
 queries

The documented `[cls: torch.nn.Linear]` raised a NameError.
---
 src/fastforward/mpath/fragments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/mpath/fragments.py b/src/fastforward/mpath/fragments.py
index 739683b..095ae2c 100644
--- a/src/fastforward/mpath/fragments.py
+++ b/src/fastforward/mpath/fragments.py
@@ -114,7 +114,7 @@ class ClassFragment(Fragment):
         for `MyClass` on `my_module` and lastly perform an attribute lookup of
         `my_attribute` on `MyClass`.
         """
-        root, *tail = raw_str.split(".")
+        root, *tail = raw_str.strip().split(".")
 
         try:
             obj = context[root]
-- 
2.43.0


From b43044fb2fcc64b0b9b15a39817ade3b861b6035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 043/113] fix: escape brackets when printing regex mpath
 fragments

---
 src/fastforward/mpath/fragments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/mpath/fragments.py b/src/fastforward/mpath/fragments.py
index 095ae2c..77124ab 100644
--- a/src/fastforward/mpath/fragments.py
+++ b/src/fastforward/mpath/fragments.py
@@ -87,7 +87,8 @@ class RegexPathFragment(Fragment):
 
     @override
     def __str__(self) -> str:
-        return f"[re:{self._matcher.pattern}]"
+        pattern = self._matcher.pattern.replace("[", r"\[").replace("]", r"\]")
+        return f"[re:{pattern}]"
 
     @override
     def __hash__(self) -> int:
-- 
2.43.0


From d4b34cbe2f62a450b23b48a749dc72a954430d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 044/113] fix: resolve names in QuantizationConfig rules in the
 scope of the caller

---
 src/fastforward/quantization/quant_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/quant_init.py b/src/fastforward/quantization/quant_init.py
index 9257a33..4ce19e6 100644
--- a/src/fastforward/quantization/quant_init.py
+++ b/src/fastforward/quantization/quant_init.py
@@ -315,7 +315,7 @@ class QuantizationConfig:
                 initializer.
         """
         if isinstance(query, str):
-            query = mpath.query(query, context=mpath.local_context())
+            query = mpath.query(query, context=mpath.caller_context())
         self._rules.append(_QuantConfigRule(query, factory, kwargs))
         return self
 
-- 
2.43.0


From b515621f967d69b14c618757fc5a18480f4ba66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 045/113] fix: do not treat views with different dtypes as tied
 weights

---
 src/fastforward/quantization/save_load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index d869e8c..7aaca3f 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -89,10 +89,10 @@ def _deduplicate_shared_tensors(
         name to its tensor and `aliases` maps each dropped name to the
         representative name holding its values.
     """
-    groups: dict[tuple[int, torch.Size, tuple[int, ...], torch.device], list[str]] = {}
+    groups: dict[tuple[torch.dtype, tuple[object, ...]], list[str]] = {}
     for name, tensor in tensors.items():
         key = (tensor.data_ptr(), tensor.shape, tensor.stride(), tensor.device)
-        groups.setdefault(key, []).append(name)
+        groups.setdefault((tensor.dtype, key), []).append(name)
 
     unique: dict[str, torch.Tensor] = {}
     aliases: dict[str, str] = {}
-- 
2.43.0


From 9495b06fb396612a174320073caa81b29d1d35eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 046/113] fix: accept results of quantizers in
 QuantizerCollection.append

---
 src/fastforward/quantization/quant_init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/quant_init.py b/src/fastforward/quantization/quant_init.py
index 4ce19e6..a5f3d8e 100644
--- a/src/fastforward/quantization/quant_init.py
+++ b/src/fastforward/quantization/quant_init.py
@@ -143,7 +143,7 @@ class QuantizerCollection(mpath.MPathCollection):
         Args:
             item: Filter result to add to the collection
         """
-        if not isinstance(item, Quantizer):
+        if not isinstance(item.module, Quantizer):
             msg = f"Can only insert a FilterResult of a Quantizer module to {type(self).__name__}"
             raise ValueError(msg)
         super().append(item)
-- 
2.43.0


From 76cc71244d89134b8b2514a7202674f956966cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 047/113] fix: keep QuantizerCollection in step with the model
 when initialization fails

---
 src/fastforward/quantization/quant_init.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/fastforward/quantization/quant_init.py b/src/fastforward/quantization/quant_init.py
index a5f3d8e..a00d087 100644
--- a/src/fastforward/quantization/quant_init.py
+++ b/src/fastforward/quantization/quant_init.py
@@ -154,17 +154,15 @@ class QuantizerCollection(mpath.MPathCollection):
         overwrite_policy: _OverwriteOptions = "error",
         safe: bool = True,
     ) -> None:
-        _results: list[FilterResult] = []
-        for result in self._results:
-            _results.append(
-                _initialize_quantizer(
-                    result=result,
-                    quantizer_factory=quantizer_factory,
-                    overwrite_policy=overwrite_policy,
-                    safe=safe,
-                )
+        for i, result in enumerate(self._results):
+            # Update in place such that the collection matches the model if a later
+            # quantizer cannot be initialized.
+            self._results[i] = _initialize_quantizer(
+                result=result,
+                quantizer_factory=quantizer_factory,
+                overwrite_policy=overwrite_policy,
+                safe=safe,
             )
-        self._results = _results
 
     def initialize(
         self,
-- 
2.43.0


From 712fc58bdfd6fad5a3dd7ad639337c3ac430226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 048/113] fix: call the function of MPathCollection.apply when
 update is False

---
 src/fastforward/mpath/_search.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/mpath/_search.py b/src/fastforward/mpath/_search.py
index 7398719..d44b420 100644
--- a/src/fastforward/mpath/_search.py
+++ b/src/fastforward/mpath/_search.py
@@ -109,12 +109,10 @@ class MPathCollection(abc.Sequence[FilterResult]):
             update: Boolean indicating whether to replace original module with
                 result of func if not the result is not None
         """
-        _results: list[FilterResult] = []
-        for result in self._results:
-            if update and (new_module := func(result.full_name, result.module)) is not None:
-                result = result.update_module(new_module, safe=safe)
-            _results.append(result)
-        self._results = _results
+        for i, result in enumerate(self._results):
+            new_module = func(result.full_name, result.module)
+            if update and new_module is not None:
+                self._results[i] = result.update_module(new_module, safe=safe)
 
     def map(self, func: Callable[[str, torch.nn.Module], _T]) -> list[_T]:
         """Apply func to all modules in the collection.
-- 
2.43.0


From 64a20b3c0be1034b1c657336de13568a5dd9272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 049/113] fix: compare quantizer metadata with different
 attributes

---
 src/fastforward/nn/quantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/nn/quantizer.py b/src/fastforward/nn/quantizer.py
index fb0a717..5dd746d 100644
--- a/src/fastforward/nn/quantizer.py
+++ b/src/fastforward/nn/quantizer.py
@@ -242,7 +242,7 @@ class QuantizerMetadata:
         for key, value in self._kwargs.items():
             if key == "shape" and value is None:
                 continue
-            if other._kwargs[key] != value:
+            if key not in other._kwargs or other._kwargs[key] != value:
                 return False
 
         return True
-- 
2.43.0


From 4368e77f8b9f0b054bd3a6231f9b297d0169eabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 050/113] fix: print QuantizationConfig rules whose factory has
 no name

---
 src/fastforward/quantization/quant_init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/quant_init.py b/src/fastforward/quantization/quant_init.py
index a00d087..8234759 100644
--- a/src/fastforward/quantization/quant_init.py
+++ b/src/fastforward/quantization/quant_init.py
@@ -253,7 +253,8 @@ class _QuantConfigRule:
             kwargs = ", ".join(f"{k}={v}" for k, v in self.kwargs.items())
             factory_str = f"{self.factory.__name__}({kwargs})"
         else:
-            factory_str = f"{self.factory.__name__}(<module_name>, <current_quantizer>)"
+            factory_name = getattr(self.factory, "__name__", repr(self.factory))
+            factory_str = f"{factory_name}(<module_name>, <current_quantizer>)"
         return f"{str(self.query)} => {factory_str}"
 
 
-- 
2.43.0


From 86aa124abe72c28779165669ae99dd0d931b8813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 051/113] fix: leave the calibration data unchanged in GPTQ

---
 src/fastforward/quantization/gptq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/gptq.py b/src/fastforward/quantization/gptq.py
index de3ea4f..44be556 100644
--- a/src/fastforward/quantization/gptq.py
+++ b/src/fastforward/quantization/gptq.py
@@ -306,7 +306,8 @@ def calculate_hessian(
         hessian.mul_(n_samples / (n_samples + x.shape[1]))
         n_samples += x.shape[1]
 
-        x.mul_(math.sqrt(2.0 / n_samples))
+        # x may be a view of the calibration data
+        x = x * math.sqrt(2.0 / n_samples)
         hessian.add_(x @ x.transpose(0, 1))
 
     # Handle dead neurons (zero diagonal in Hessian).
-- 
2.43.0


From 24d5d3d5c53b356fcefb81c71aca11c473ddcc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 052/113] fix: support grouped convolutions in GPTQ

---
 src/fastforward/quantization/gptq.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/quantization/gptq.py b/src/fastforward/quantization/gptq.py
index 44be556..4813053 100644
--- a/src/fastforward/quantization/gptq.py
+++ b/src/fastforward/quantization/gptq.py
@@ -334,7 +334,7 @@ def _input_flattener(
     """Build the per-batch reshape that produces `(in_features, samples)` activations.
 
     For Linear: `(B, S, H) -> (H, B*S)`.
-    For Conv2d: `(N, C, H, W) -> (C/groups * kH * kW, N*L)` via `nn.Unfold`,
+    For Conv2d: `(N, C, H, W) -> (C/groups * kH * kW, N*groups*L)` via `nn.Unfold`,
     matching the flattened weight layout used inside `gptq`.
     """
     if isinstance(layer, ff.nn.QuantizedConv2d):
@@ -346,10 +346,12 @@ def _input_flattener(
             stride=layer.stride,
         )
 
+        groups = layer.groups
+
         def _conv2d(activation: torch.Tensor) -> torch.Tensor:
-            # (N, C, H, W) -> (N, C*kH*kW, L) -> (C*kH*kW, N*L)
+            # (N, C, H, W) -> (N, C*kH*kW, L) -> (C/groups*kH*kW, N*groups*L)
             unfolded = cast(torch.Tensor, unfold(activation))
-            return unfolded.permute(1, 0, 2).flatten(1)
+            return unfolded.unflatten(1, (groups, -1)).permute(2, 0, 1, 3).flatten(1)
 
         return _conv2d
 
-- 
2.43.0


From 2eb3315b779db77d663674b8f4aff9d9cbb5cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 053/113] fix: support activations with any number of leading
 dimensions in GPTQ

---
 src/fastforward/quantization/gptq.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/quantization/gptq.py b/src/fastforward/quantization/gptq.py
index 4813053..dd78900 100644
--- a/src/fastforward/quantization/gptq.py
+++ b/src/fastforward/quantization/gptq.py
@@ -356,9 +356,8 @@ def _input_flattener(
         return _conv2d
 
     def _linear(activation: torch.Tensor) -> torch.Tensor:
-        # (B, S, H) -> (B*S, H) -> (H, B*S)
-        bsz, seq_len, hidden = activation.shape
-        return activation.reshape(bsz * seq_len, hidden).transpose(0, 1)
+        # (B, S, H) -> (B*S, H) -> (H, B*S), likewise for any number of leading dimensions
+        return activation.reshape(-1, activation.shape[-1]).transpose(0, 1)
 
     return _linear
 
-- 
2.43.0


From abdd0b330fda0348b6a2850c86845c7a81f9ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 054/113] fix: support gradients through
 scaled_dot_product_attention

---
 src/fastforward/nn/functional/custom/sdpa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/nn/functional/custom/sdpa.py b/src/fastforward/nn/functional/custom/sdpa.py
index 5ce481f..8629ec2 100644
--- a/src/fastforward/nn/functional/custom/sdpa.py
+++ b/src/fastforward/nn/functional/custom/sdpa.py
@@ -354,7 +354,7 @@ def _quantized_safe_softmax(
             masked = t <= neg_inf
         masked_rows = torch.all(masked, dim=dim, keepdim=True)
         zero = out.new_tensor(0.0)
-        torch.where(condition=masked_rows, input=zero, other=out, out=out)
+        out = torch.where(masked_rows, zero, out)
         if output_quantizer:
             out = output_quantizer(out)
     return out
-- 
2.43.0


From 544ca66f42264507d5c8ebbf3ed0b2057d194fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:42 +0000
Subject: [PATCH 055/113] fix: support negative scales in
 scaled_dot_product_attention

---
 src/fastforward/nn/functional/custom/sdpa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/nn/functional/custom/sdpa.py b/src/fastforward/nn/functional/custom/sdpa.py
index 8629ec2..7a4ca72 100644
--- a/src/fastforward/nn/functional/custom/sdpa.py
+++ b/src/fastforward/nn/functional/custom/sdpa.py
@@ -236,10 +236,10 @@ def scaled_dot_product_attention_math(
 
     # Scale q, k before matmul for stability see https://tinyurl.com/sudb9s96 for math
     scale_factor = 1.0 / math.sqrt(query.size(-1)) if scale is None else scale
-    scale_factor_sqrt = math.sqrt(scale_factor)
+    scale_factor_sqrt = math.sqrt(abs(scale_factor))
     query = functional.mul(
         query,
-        scale_factor_sqrt,
+        math.copysign(scale_factor_sqrt, scale_factor),
         output_quantizer=scaled_query_quantizer,
         strict_quantization=strict_quantization,
     )
-- 
2.43.0


From 7ebcba5770d8cd13097637d9c00bcef18ab4911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 056/113] fix: restore the upcast dtype that was active when
 sdpa_upcast was entered

---
 src/fastforward/nn/functional/custom/sdpa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fastforward/nn/functional/custom/sdpa.py b/src/fastforward/nn/functional/custom/sdpa.py
index 7a4ca72..18f73a7 100644
--- a/src/fastforward/nn/functional/custom/sdpa.py
+++ b/src/fastforward/nn/functional/custom/sdpa.py
@@ -445,6 +445,7 @@ class _SDPAUpcast:
             self._dtype = None
 
     def __enter__(self) -> None:
+        self._orig_dtype = _SDPAUpcast._DTYPE
         _SDPAUpcast._DTYPE = self._dtype
 
     def __exit__(
-- 
2.43.0


From 5e0660eaf38ef5ac903c6ae15070ce62e592f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 057/113] fix: gradient of fully masked rows in
 scaled_dot_product_attention

---
 src/fastforward/nn/functional/custom/sdpa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/nn/functional/custom/sdpa.py b/src/fastforward/nn/functional/custom/sdpa.py
index 18f73a7..c709632 100644
--- a/src/fastforward/nn/functional/custom/sdpa.py
+++ b/src/fastforward/nn/functional/custom/sdpa.py
@@ -347,12 +347,14 @@ def _quantized_safe_softmax(
         https://github.com/pytorch/pytorch/blob/a177d1852953f460cc0f0d412f311875f77dd4de/aten/src/ATen/native/transformers/attention.cpp#L672
     """
     with strict_quantization_ctx(False):
-        out = functional.softmax(t, dim, dtype)
         if neg_inf == float("-inf"):
             masked = t.isneginf()
         else:
             masked = t <= neg_inf
         masked_rows = torch.all(masked, dim=dim, keepdim=True)
+        # Mask the rows before the softmax, too: the softmax of a row of -inf is
+        # NaN, and so is its gradient, even where its result is discarded.
+        out = functional.softmax(torch.where(masked_rows, 0.0, t), dim, dtype)
         zero = out.new_tensor(0.0)
         out = torch.where(masked_rows, zero, out)
         if output_quantizer:
-- 
2.43.0


From 0ba3098847914c304fbb242d185972828a516cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 058/113] fix: keep the output of scaled_dot_product_attention
 quantized

---
 src/fastforward/nn/functional/custom/sdpa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/nn/functional/custom/sdpa.py b/src/fastforward/nn/functional/custom/sdpa.py
index c709632..816963e 100644
--- a/src/fastforward/nn/functional/custom/sdpa.py
+++ b/src/fastforward/nn/functional/custom/sdpa.py
@@ -292,7 +292,10 @@ def scaled_dot_product_attention_math(
         strict_quantization=strict_quantization,
     )
 
-    attn_out = attn_out.to(orig_dtype)
+    # `QuantizedTensor.to(dtype)` dequantizes, keep the result of `output_quantizer`
+    # quantized unless its dtype must change.
+    if attn_out.dtype != orig_dtype:
+        attn_out = attn_out.to(orig_dtype)
     return attn_out
 
 
-- 
2.43.0


From 821be2dc0cb712f3961c361bb5bec1e85be4a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 059/113] fix: do not replace submodules of the user's model
 when building a graph

---
 src/fastforward/_orchestration/graph_module.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 7540431..b9ec508 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -565,17 +565,17 @@ class GraphModule(torch.nn.Module):
         if isinstance(node.target, torch.nn.Module):
             *module_path, leaf_name = name.split(".")
             parent_module: torch.nn.Module = self
+            # Modules in the graph belong to the user's model: neither they nor any
+            # of the modules below them must be mutated.
+            owned = {id(n.target) for n in self._nodes.values() if n is not node}
             for attr in module_path:
+                if id(parent_module) in owned:
+                    break
                 if not hasattr(parent_module, attr):
                     parent_module.add_module(attr, torch.nn.Module())
                 parent_module = getattr(parent_module, attr)
 
-            # Don't overwrite children of original modules registered as folds —
-            # those belong to the user's model and must not be mutated.
-            is_fold_original = any(
-                parent_module is self._nodes[fid].target for fid in self._fold_ids
-            )
-            if not is_fold_original:
+            if id(parent_module) not in owned:
                 parent_module.add_module(leaf_name, node.target)
 
         return ref
-- 
2.43.0


From d9c67fe3d974aefa5836aa0c383a6062552ef1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 060/113] fix: trace models that return inputs or constants

---
 src/fastforward/_orchestration/trace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index b21f813..2d6a183 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -378,11 +378,11 @@ class _GraphBuilder:
         raw: tuple[Any, ...] | list[Any] = fx_node.args
         if len(raw) == 1 and isinstance(raw[0], (list, tuple)):
             raw = raw[0]
-        flat_refs = tuple(self._fx_to_ff[a] for a in raw if isinstance(a, fx.Node))
 
         if self._is_root:
             assert self._out_spec is not None
-            assert all(isinstance(r, NodeRef) for r in flat_refs)
+            # Outputs may also be inputs or constants of the model.
+            flat_refs = tuple(self._convert_arg(a, f"output_{i}") for i, a in enumerate(raw))
             unflatten_ref = self._graph.add_node(
                 "_prepare_output",
                 _prepare_output(self._out_spec),
@@ -391,7 +391,7 @@ class _GraphBuilder:
             )
             self._graph.add_output(unflatten_ref)
         else:
-            for ref in flat_refs:
+            for ref in (self._fx_to_ff[a] for a in raw if isinstance(a, fx.Node)):
                 assert isinstance(ref, NodeRef)
                 self._graph.add_output(ref)
 
-- 
2.43.0


From 1d706cdc5548fffa8e5f719d8abd5010faaf5c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 061/113] fix: trace models that call a module more than once

---
 src/fastforward/_orchestration/trace.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 2d6a183..b59fe35 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -199,6 +199,14 @@ def _is_non_leaf_graph_module(mod: nn.Module) -> bool:
     return any(node.op == "call_module" for node in graph.nodes)
 
 
+def _original_fqn(name: str) -> str:
+    """Name of the module that is called as `name` in the unflattened program.
+
+    `torch.export.unflatten` appends `@<n>` to the name for repeated calls of a module.
+    """
+    return re.sub(r"@\d+", "", name)
+
+
 def _fold_needs_preservation(mod: nn.Module) -> bool:
     """True if the fold's call site has multiple positional inputs that need signature recovery.
 
@@ -277,6 +285,7 @@ class _GraphBuilder:
         self._out_spec = out_spec
 
     def _absolute_path(self, target: str) -> str:
+        target = _original_fqn(target)
         return f"{self._path_prefix}.{target}" if self._path_prefix else target
 
     def _has_attr_on_original(self, absolute_path: str) -> bool:
-- 
2.43.0


From 478cb6179911c58bcafd8881f0fb35e6d86a5cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 062/113] fix: call traced modules with the arguments of the
 original call

---
 src/fastforward/_orchestration/trace.py | 119 +++++++++++++++++++-----
 1 file changed, 96 insertions(+), 23 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index b59fe35..e71c5ef 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -4,12 +4,13 @@
 from __future__ import annotations
 
 import contextlib
+import dataclasses
 import inspect
 import re
 import warnings
 import weakref
 
-from typing import Any, Callable, Iterator, cast
+from typing import Any, Callable, Collection, Iterator, cast
 
 import torch
 import torch.nn as nn
@@ -207,20 +208,71 @@ def _original_fqn(name: str) -> str:
     return re.sub(r"@\d+", "", name)
 
 
-def _fold_needs_preservation(mod: nn.Module) -> bool:
-    """True if the fold's call site has multiple positional inputs that need signature recovery.
+@contextlib.contextmanager
+def _record_calls(module: nn.Module) -> Iterator[dict[nn.Module, list[_CallSpec]]]:
+    """Record how each submodule of `module` is called while the context is active."""
+    calls: dict[nn.Module, list[_CallSpec]] = {}
+
+    def _hook(mod: nn.Module, args: tuple[Any, ...], kwargs: dict[str, Any], out: Any) -> None:
+        leaves, in_spec = pytree.tree_flatten((args, kwargs))
+        _, out_spec = pytree.tree_flatten(out)
+        calls.setdefault(mod, []).append(
+            _CallSpec(
+                in_spec=in_spec,
+                out_spec=out_spec,
+                is_unary=len(args) == 1
+                and not kwargs
+                and isinstance(args[0], torch.Tensor)
+                and isinstance(out, torch.Tensor),
+                is_preservable=all(
+                    isinstance(leaf, (torch.Tensor, bool, int, float, str, type(None)))
+                    for leaf in leaves
+                ),
+            )
+        )
+
+    handles = [
+        submodule.register_forward_hook(_hook, with_kwargs=True, always_call=False)
+        for submodule in module.modules()
+        if submodule is not module
+    ]
+    try:
+        yield calls
+    finally:
+        for handle in handles:
+            handle.remove()
+
+
+@dataclasses.dataclass(frozen=True)
+class _CallSpec:
+    """The structure of a single call of a module."""
+
+    in_spec: pytree.TreeSpec
+    out_spec: pytree.TreeSpec
+    is_unary: bool
+    is_preservable: bool
+
 
-    Without `preserve_module_call_signature`, torch.export.unflatten collapses all
-    module call kwargs into positional args. Folds with a single positional input
-    don't need this (order is unambiguous). Folds with multiple inputs (e.g. a
-    decoder layer receiving hidden_states + attention_mask + position_embeddings)
-    need preservation to recover the correct args/kwargs split.
+def _call_needs_preservation(calls: list[_CallSpec]) -> bool:
+    """True if the captured calls of a module only match the original with their signature.
+
+    `torch.export.unflatten` reduces a call to the tensors that are used in and after the
+    module: unused and repeated arguments, constants, names of keyword arguments and unused
+    outputs disappear. Only the call of a function of a single tensor is left as it was.
     """
-    graph = getattr(mod, "graph", None)
-    if not isinstance(graph, fx.Graph):
+    if all(call.is_unary for call in calls):
         return False
-    n_placeholders = sum(1 for n in graph.nodes if n.op == "placeholder")
-    return n_placeholders > 1
+    return _can_preserve_calls(calls)
+
+
+def _can_preserve_calls(calls: list[_CallSpec]) -> bool:
+    """True if the signature of the calls can be preserved: it must be the same for each."""
+    return all(
+        call.is_preservable
+        and call.in_spec == calls[0].in_spec
+        and call.out_spec == calls[0].out_spec
+        for call in calls
+    )
 
 
 def _can_call_original(original: nn.Module, submod: nn.Module, fx_node: fx.Node) -> bool:
@@ -275,7 +327,9 @@ class _GraphBuilder:
         is_root: bool = False,
         positional_names: list[str] | None = None,
         out_spec: pytree.TreeSpec | None = None,
+        unfaithful: Collection[nn.Module] = (),
     ) -> None:
+        self._unfaithful = unfaithful
         self._graph = GraphModule()
         self._fx_to_ff: dict[fx.Node, _BaseRef] = {}
         self._original_root = original_root
@@ -360,13 +414,21 @@ class _GraphBuilder:
         submod = fx_gm.get_submodule(target)
         absolute_path = self._absolute_path(target)
 
+        original = self._original_root.get_submodule(absolute_path)
+        matches_original = original not in self._unfaithful
+
         if _is_non_leaf_graph_module(submod):
-            sub_builder = _GraphBuilder(self._original_root, absolute_path)
+            sub_builder = _GraphBuilder(
+                self._original_root, absolute_path, unfaithful=self._unfaithful
+            )
             sub_ff = sub_builder.build(submod)
             args, kwargs = self._convert_args(fx_node)
-            original = self._original_root.get_submodule(absolute_path)
             output_refs = self._graph.add_subgraph(
-                target, sub_ff, args, kwargs, original_module=original
+                target,
+                sub_ff,
+                args,
+                kwargs,
+                original_module=original if matches_original else None,
             )
             if len(output_refs) == 1:
                 self._fx_to_ff[fx_node] = output_refs[0]
@@ -378,8 +440,7 @@ class _GraphBuilder:
                     op=Op.call_function,
                 )
         else:
-            original = self._original_root.get_submodule(absolute_path)
-            if not _can_call_original(original, submod, fx_node):
+            if not matches_original or not _can_call_original(original, submod, fx_node):
                 original = submod
             self._fx_to_ff[fx_node] = self._add_op_node(fx_node, target, original, Op.torch_module)
 
@@ -518,17 +579,24 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
     ]
 
     with ff.disable_quantization(module), _placeholder_uninitialized_params(module):
-        exported_program = torch.export.export(module, args=args, kwargs=kwargs)
+        with _record_calls(module) as calls:
+            exported_program = torch.export.export(module, args=args, kwargs=kwargs)
         unflattened = torch.export.unflatten(exported_program)
 
-        fold_fqns = tuple(
-            name
+        # A signature is preserved for all calls of a module, also the repeated ones.
+        captured_fqns = dict.fromkeys(
+            _original_fqn(name)
             for name, mod in unflattened.named_modules()
-            if _is_non_leaf_graph_module(mod) and name and _fold_needs_preservation(mod)
+            if isinstance(getattr(mod, "graph", None), fx.Graph) and name
+        )
+        preserved_fqns = tuple(
+            name
+            for name in captured_fqns
+            if _call_needs_preservation(calls.get(module.get_submodule(name), []))
         )
-        if fold_fqns:
+        if preserved_fqns:
             exported_program = torch.export.export(
-                module, args=args, kwargs=kwargs, preserve_module_call_signature=fold_fqns
+                module, args=args, kwargs=kwargs, preserve_module_call_signature=preserved_fqns
             )
             with warnings.catch_warnings():
                 warnings.filterwarnings(
@@ -547,6 +615,11 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         is_root=True,
         positional_names=positional_names,
         out_spec=out_spec,
+        unfaithful={
+            mod
+            for mod, specs in calls.items()
+            if not all(spec.is_unary for spec in specs) and not _can_preserve_calls(specs)
+        },
     )
 
     _graph_cache[module] = builder.build(unflattened)
-- 
2.43.0


From fe0bebf97edcbb492da7a4aaa85895bce22d796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 063/113] fix: do not reuse a traced graph for a changed model
 or other inputs

---
 src/fastforward/_orchestration/trace.py | 35 +++++++++++++++++++++----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index e71c5ef..2805edd 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -534,8 +534,29 @@ class _GraphBuilder:
 
 
 # We keep track of a GraphModule cache to ensure we don't re-trace the same model twice
-# under different orchestration needs (e.g. PTQ vs inference).
-_graph_cache: weakref.WeakKeyDictionary[torch.nn.Module, GraphModule] = weakref.WeakKeyDictionary()
+# under different orchestration needs (e.g. PTQ vs inference). A graph is only valid for
+# the state of the model and the kind of inputs that it was traced for.
+_graph_cache: weakref.WeakKeyDictionary[torch.nn.Module, tuple[list[Any], GraphModule]] = (
+    weakref.WeakKeyDictionary()
+)
+
+
+def _trace_key(module: nn.Module, args: tuple[Any, ...], kwargs: dict[str, Any]) -> list[Any]:
+    """What a captured graph depends on: submodules, their modes and the kind of inputs."""
+    leaves, spec = pytree.tree_flatten((args, kwargs))
+    return [
+        spec,
+        [
+            (leaf.shape, leaf.dtype, leaf.device)
+            if isinstance(leaf, torch.Tensor)
+            else (type(leaf), leaf)
+            for leaf in leaves
+        ],
+        [
+            (name, weakref.ref(submodule), submodule.training)
+            for name, submodule in module.named_modules(remove_duplicate=False)
+        ],
+    ]
 
 
 @ff.flags.context(ff.strict_quantization, False)
@@ -569,8 +590,11 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         msg = f"fastforward._orchestration.trace requires PyTorch >= {_MIN_TORCH_VERSION}; got {torch.__version__}."
         raise RuntimeError(msg)
 
+    key = _trace_key(module, args, kwargs)
     if module in _graph_cache:
-        return _graph_cache[module]
+        cached_key, graph = _graph_cache[module]
+        if cached_key == key:
+            return graph
 
     positional_names = [
         p.name
@@ -622,5 +646,6 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         },
     )
 
-    _graph_cache[module] = builder.build(unflattened)
-    return _graph_cache[module]
+    graph = builder.build(unflattened)
+    _graph_cache[module] = (key, graph)
+    return graph
-- 
2.43.0


From 8b0fd452d95c97e37a7f466be1e0c05c340f0e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 064/113] fix: load nested attributes of unused activations

---
 src/fastforward/_orchestration/instruction_engine.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index ad38f3d..0584c0e 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -352,8 +352,12 @@ class LoadAttribute(Instruction):
     attribute: str | int
 
     def execute(self, register: ActivationRegister) -> None:  # noqa: D102
-        for context, dataset in register.items_for(self.source):
-            register.store(self.target, context, self._extract_attribute(dataset))
+        extracted = {
+            context: self._extract_attribute(dataset)
+            for context, dataset in register.items_for(self.source)
+        }
+        # An unused source has no streams; its attributes are then known but empty as well.
+        register.store_all(self.target, extracted)
 
     def _extract_attribute(self, dataset: ActivationDataset) -> ActivationDataset:
         """Extract attribute/item from each batch in the dataset."""
-- 
2.43.0


From 1eab2db9b45ba33c380dd1f5b8a8c37c0e5e7183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 065/113] fix: folds are not users of the nodes they are called
 with

---
 src/fastforward/_orchestration/graph_module.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index b9ec508..c549027 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -395,7 +395,7 @@ class GraphModule(torch.nn.Module):
                     yield arg_base
 
     def node_outputs(self, node_ref: NodeRef) -> Iterator[NodeRef]:
-        """Return nodes that use `node_ref` as input.
+        """Return nodes that use `node_ref` as input. Folds have no data-flow edges.
 
         Args:
             node_ref: Node reference to get outputs for. This must be a valid node in the graph.
@@ -406,6 +406,8 @@ class GraphModule(torch.nn.Module):
         node = self._nodes[node_ref.id]
         seen: set[uuid.UUID] = set()
         for other_node in self._nodes.values():
+            if other_node.id in self._fold_ids:
+                continue
             for arg in (*other_node.args, *other_node.kwargs.values()):
                 if isinstance(arg_base := arg.unwrap_ref(), NodeRef) and arg_base.id == node.id:
                     if other_node.id not in seen:
-- 
2.43.0


From adbe7b24e7349c63db88427210feeb3793d62c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 066/113] fix: preserve the outputs of a graph when its
 resolution is reduced

References to nodes, inputs and outputs were resolved by name and position: inputs and
nodes with the same name, attributes of attributes, outputs that a fold returns in another
order than its leaves or that are unused, regions without used outputs, list valued
activations of extracted subgraphs and regions of which one output is used before
another one is computed resulted in wrong values or errors.
---
 .../_orchestration/graph_module.py            | 410 +++++++++++-------
 1 file changed, 243 insertions(+), 167 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index c549027..95ce52e 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -6,6 +6,7 @@ import collections
 import dataclasses
 import enum
 import functools
+import heapq
 import itertools
 import uuid
 
@@ -19,6 +20,7 @@ from typing import (
     Iterator,
     Sequence,
     TypeAlias,
+    cast,
 )
 
 import torch
@@ -356,6 +358,12 @@ class GraphModule(torch.nn.Module):
         # Binding represents fold "args", in the order its forward() expects them.
         self._fold_bindings: dict[uuid.UUID, tuple[_BaseRef, ...]] = {}
 
+        # The references that the outputs of a fold have, in the order its forward() returns them.
+        self._fold_output_refs: dict[uuid.UUID, tuple[NodeRef | AttributeRef, ...]] = {}
+
+        # Whether an input may be a collection of batches, or is always a single value.
+        self._accepts_batches = True
+
         self._program: Any = None
         self._engine: InstructionEngine | None = None
         self._topo_order: list[NodeRef] | None = None
@@ -707,6 +715,11 @@ class GraphModule(torch.nn.Module):
                     self._fold_bindings[node.id] = tuple(
                         remap_reference(old_reference=b) for b in inner_binding
                     )
+                if (inner_outputs := subgraph._fold_output_refs.get(node.id)) is not None:
+                    self._fold_output_refs[node.id] = tuple(
+                        cast("NodeRef | AttributeRef", remap_reference(old_reference=o))
+                        for o in inner_outputs
+                    )
 
         # Return the in-lined subgraph outputs in stored order to preserve positional semantics.
         new_output_refs = []
@@ -715,6 +728,9 @@ class GraphModule(torch.nn.Module):
             assert isinstance(remapped, (NodeRef, AttributeRef))
             new_output_refs.append(remapped)
 
+        if fold_ref is not None:
+            self._fold_output_refs[fold_ref.id] = tuple(new_output_refs)
+
         return tuple(new_output_refs)
 
     def forward(self, *args: Any, **kwargs: Any) -> Any:
@@ -732,14 +748,19 @@ class GraphModule(torch.nn.Module):
         Returns:
             Output tensor(s) from the graph's output nodes
         """
-        args, kwargs = _sanitize_inputs(self.input_names, args, kwargs)
+        from fastforward._orchestration.instruction_engine import (
+            ActivationDataset,
+            InstructionEngine,
+            InstructionScheduler,
+        )
 
-        if self._engine is None:
-            from fastforward._orchestration.instruction_engine import (
-                InstructionEngine,
-                InstructionScheduler,
-            )
+        if self._accepts_batches:
+            args, kwargs = _sanitize_inputs(self.input_names, args, kwargs)
+        else:
+            args = tuple(ActivationDataset([arg]) for arg in args)
+            kwargs = {name: ActivationDataset([arg]) for name, arg in kwargs.items()}
 
+        if self._engine is None:
             scheduler = InstructionScheduler()
             self._program = scheduler.schedule(self)
             self._engine = InstructionEngine()
@@ -763,6 +784,45 @@ class GraphModule(torch.nn.Module):
         return outputs
 
 
+def _substitute(ref: _BaseRef, replacements: Mapping[_BaseRef, _BaseRef]) -> _BaseRef:
+    """Replace `ref`, or otherwise the largest part of it that has a replacement."""
+    if ref in replacements:
+        return replacements[ref]
+    match ref:
+        case AttributeRef(reference=reference):
+            return dataclasses.replace(ref, reference=_substitute(reference, replacements))
+        case Const():
+            return ref
+        case _:
+            msg = f"{ref} is not an output of the graph, or of one of the modules executed in it"
+            raise ValueError(msg)
+
+
+def _node_results(
+    graph: GraphModule, node_ref: NodeRef, result: NodeRef
+) -> dict[_BaseRef, NodeRef | AttributeRef]:
+    """Map what other nodes refer to when they use `node_ref` to parts of `result`.
+
+    A leaf is referred to directly. A fold returns the values of the leaves that are its
+    outputs. If it has more than one, these are the elements of its `result`.
+    """
+    if node_ref.id not in graph._fold_ids:
+        return {node_ref: result}
+    outputs = graph._fold_output_refs.get(node_ref.id, tuple(graph.fold_outputs(node_ref)))
+    if len(outputs) == 1:
+        return {outputs[0]: result}
+    return {output: result[i] for i, output in enumerate(outputs)}
+
+
+def _nodes_within(graph: GraphModule, nodes: Collection[NodeRef]) -> set[uuid.UUID]:
+    """Ids of the leaves that are executed when `nodes` are."""
+    return {
+        leaf.id
+        for node in nodes
+        for leaf in (graph.leaf_nodes(node) if node.id in graph._fold_ids else (node,))
+    }
+
+
 def create_subgraph(graph: GraphModule, path_nodes: set[NodeRef]) -> GraphModule:
     """Build and return a standalone GraphModule that contains exactly `path_nodes`.
 
@@ -772,95 +832,91 @@ def create_subgraph(graph: GraphModule, path_nodes: set[NodeRef]) -> GraphModule
 
     Returns:
         A new GraphModule representing the extracted sub-graph.
+    """
+    subgraph, _, _ = _extract_subgraph(graph, path_nodes)
+    subgraph._accepts_batches = True
+    return subgraph
 
-    Raises:
-        ValueError: If proposed subgraph has no external inputs.
+
+def _extract_subgraph(
+    graph: GraphModule, path_nodes: Collection[NodeRef]
+) -> tuple[GraphModule, list[_BaseRef], list[_BaseRef]]:
+    """Extract `path_nodes` from `graph`.
+
+    Returns the extracted graph and the references in `graph` that its inputs and outputs
+    correspond to, in the order of the inputs and outputs.
     """
-    node_ids: set[uuid.UUID] = {ref.id for ref in path_nodes}
+    wanted = {ref.id for ref in path_nodes}
+    source_nodes = [node for node_id, node in graph._nodes.items() if node_id in wanted]
+    inner_ids = _nodes_within(graph, path_nodes)
 
-    def _external_dependencies(node: Node) -> list[str]:
-        external_dependencies = []
+    # External inputs: attributes are resolved outside of the subgraph.
+    external_inputs: dict[_BaseRef, str] = {}
+    for node in source_nodes:
         for arg in (*node.args, *node.kwargs.values()):
             base = arg.unwrap_ref()
             is_external = isinstance(base, InputRef) or (
-                isinstance(base, NodeRef) and base.id not in node_ids
+                isinstance(base, NodeRef) and base.id not in inner_ids
             )
-            if not is_external:
-                continue
-
-            if isinstance(arg, AttributeRef):
-                external_dependencies.append(f"{base.name}[{arg.attribute}]")
-            else:
-                external_dependencies.append(str(base.name))
-
-        return external_dependencies
-
-    external_inputs = []
-    seen = set()
-    for node in path_nodes:
-        for external_dependency in _external_dependencies(graph._nodes[node.id]):
-            if external_dependency not in seen:
-                external_inputs.append(external_dependency)
-                seen.add(external_dependency)
-
-    # Determine which nodes must be exposed as subgraph outputs.
-    # These are either (1) nodes that are outside of the original graph or
-    # (2) nodes required by external nodes outside of the subgraph.
-    external_outputs = []
-    seen_outputs: set[NodeRef | AttributeRef] = set()
-
-    # (1) Include original graph outputs that are produced within this subgraph.
-    for ref in graph._outputs:
-        if (base := ref.unwrap_ref()) in path_nodes:
-            if ref not in seen_outputs:
-                external_outputs.append(ref)
-                seen_outputs.add(ref)
-
-    # (2) Include internal nodes that are used by nodes outside the subgraph.
-    for internal_ref in path_nodes:
-        for dependent_ref in graph.node_outputs(internal_ref):
-            if dependent_ref in path_nodes:
-                continue
+            if is_external and arg not in external_inputs:
+                # Names are unique: an input of the graph can be called like one of its nodes.
+                name = base_name = _reference_name(arg)
+                suffix = itertools.count(1)
+                while name in external_inputs.values():
+                    name = f"{base_name}_{next(suffix)}"
+                external_inputs[arg] = name
 
-            # External nodes (outside the subgraph) that depend on internal nodes (inside the subgraph).
-            external_node = graph._nodes[dependent_ref.id]
-            for arg in itertools.chain(external_node.args, external_node.kwargs.values()):
-                base = arg.unwrap_ref()
-                if isinstance(base, NodeRef) and base.id == internal_ref.id:
-                    if base not in seen_outputs:
-                        external_outputs.append(base)
-                        seen_outputs.add(base)
-
-    # Connect the inputs, nodes, and outputs to a new subgraph.
     subgraph = GraphModule()
+    # Within a graph, the subgraph receives the activations of one batch at a time.
+    subgraph._accepts_batches = False
+    replacements: dict[_BaseRef, _BaseRef] = {
+        ref: subgraph.add_input(name) for ref, name in external_inputs.items()
+    }
+    for node in source_nodes:
+        replacements |= _node_results(graph, graph._node_refs[node.id], NodeRef(node.id, node.name))
 
-    remap_reference = functools.partial(
-        remap_subgraph_reference,
-        new_context={name: subgraph.add_input(name) for name in external_inputs},
-        subgraph_nodes={ref.name: ref.id for ref in path_nodes},
-    )
-
-    for node_id in node_ids:
-        source_node = graph._nodes[node_id]
+    for node in source_nodes:
         subgraph.add_node(
-            name=source_node.name,
-            target=source_node.target,
-            args=[remap_reference(old_reference=arg) for arg in source_node.args],
-            kwargs={
-                key: remap_reference(old_reference=arg) for key, arg in source_node.kwargs.items()
-            },
-            op=source_node.op,
-            node_id=source_node.id,
+            name=node.name,
+            target=node.target,
+            args=[_substitute(arg, replacements) for arg in node.args],
+            kwargs={key: _substitute(arg, replacements) for key, arg in node.kwargs.items()},
+            op=node.op,
+            node_id=node.id,
         )
 
-    remapped_outputs: list[NodeRef | AttributeRef] = []
-    for ref in external_outputs:
-        remapped = remap_reference(old_reference=ref)
-        assert isinstance(remapped, (NodeRef, AttributeRef))
-        remapped_outputs.append(remapped)
-    subgraph.add_output(*remapped_outputs)
+    # Expose the original graph outputs that are produced within this subgraph and
+    # the values that are used by nodes outside of the subgraph.
+    external_outputs: dict[_BaseRef, None] = dict.fromkeys(
+        ref for ref in graph._outputs if ref.unwrap_ref().id in inner_ids
+    )
+    for node_id, node in graph._nodes.items():
+        if not inner_ids.isdisjoint(_nodes_within(graph, [graph._node_refs[node_id]])):
+            continue
+        for arg in (*node.args, *node.kwargs.values()):
+            if isinstance(base := arg.unwrap_ref(), NodeRef) and base.id in inner_ids:
+                while arg not in replacements and isinstance(arg, AttributeRef):
+                    arg = arg.reference
+                external_outputs[arg] = None
 
-    return subgraph
+    for ref in external_outputs:
+        output = _substitute(ref, replacements)
+        assert isinstance(output, (NodeRef, AttributeRef))
+        subgraph.add_output(output)
+
+    return subgraph, list(external_inputs), list(external_outputs)
+
+
+def _reference_name(ref: _BaseRef) -> str:
+    """Name of a (part of a) node or input, e.g. `name[attr]`."""
+    match ref:
+        case AttributeRef(reference=reference, attribute=attribute):
+            return f"{_reference_name(reference)}[{attribute}]"
+        case NamedRef(name=name):
+            return name
+        case _:
+            msg = f"{ref} has no name"
+            raise ValueError(msg)
 
 
 def topological_sort(
@@ -1028,6 +1084,10 @@ class ResolvedRegion:
     nodes: set[NodeRef]
     target: torch.nn.Module
 
+    # What the inputs and outputs of `target` are in the original graph if it is a subgraph.
+    inputs: Sequence[_BaseRef] = ()
+    outputs: Sequence[_BaseRef] = ()
+
 
 def _validate_siblings(graph: GraphModule, refs: Sequence[NodeRef]) -> None:
     """Ensure all `refs` share the same predecessors and successors in `graph`."""
@@ -1074,36 +1134,62 @@ class SubgraphSpec:
                 if not reached:
                     msg = f"Node {in_ref.name} is not reachable from {out_ref.name}"
                     raise ValueError(msg)
-                return ResolvedRegion(path_nodes, create_subgraph(graph, path_nodes))
+                return ResolvedRegion(path_nodes, *_extract_subgraph(graph, path_nodes))
             case Group(modules=modules):
                 group_refs = [graph.node_ref(m) for m in modules]
                 _validate_siblings(graph, group_refs)
-                return ResolvedRegion(set(group_refs), create_subgraph(graph, set(group_refs)))
+                return ResolvedRegion(set(group_refs), *_extract_subgraph(graph, group_refs))
             case torch.nn.Module() as module:
                 return ResolvedRegion({graph.node_ref(module)}, module)
 
 
-OutputNode = NodeRef | GraphModule
-
-
-def node_order(graph: GraphModule, nodes: list[OutputNode]) -> list[OutputNode]:
-    """Sort nodes into a topologically-valid sequence relative to `graph`."""
-    topo = {ref: i for i, ref in enumerate(topological_sort(graph))}
-
-    def _sort_key(node: OutputNode) -> int:
-        match node:
-            case NodeRef() if node.id in graph._fold_ids:
-                leaves = graph.fold_outputs(node)
-                return max(topo[leaf] for leaf in leaves) if leaves else 0
-            case NodeRef():
-                return topo[node]
-            case GraphModule() as subgraph:
-                bases = [ref.unwrap_ref() for ref in subgraph._outputs]
-                return max(
-                    topo[graph._node_refs[base.id]] for base in bases if isinstance(base, NodeRef)
-                )
+@dataclasses.dataclass(frozen=True)
+class _Step:
+    """A node or extracted subgraph that is executed as a single node of a reduced graph."""
 
-    return sorted(nodes, key=_sort_key)
+    name: str | None
+    target: torch.nn.Module | Callable[..., Any]
+    op: Op
+    args: Sequence[_BaseRef]
+    kwargs: Mapping[str, _BaseRef]
+
+    # The leaves of the original graph that are executed by this step.
+    leaves: set[uuid.UUID]
+
+    # The references of the original graph that get a value by this step.
+    results: Callable[[NodeRef], Mapping[_BaseRef, _BaseRef]]
+
+
+def _execution_order(graph: GraphModule, steps: Sequence[_Step]) -> list[_Step]:
+    """Order `steps` such that each comes after the steps that produce its inputs."""
+    topo = {ref.id: i for i, ref in enumerate(topological_sort(graph))}
+    producers = {leaf: i for i, step in enumerate(steps) for leaf in step.leaves}
+    position = [max((topo[leaf] for leaf in step.leaves), default=0) for step in steps]
+
+    waiting: dict[int, set[int]] = {}
+    users: dict[int, set[int]] = collections.defaultdict(set)
+    for i, step in enumerate(steps):
+        bases = [arg.unwrap_ref() for arg in (*step.args, *step.kwargs.values())]
+        waiting[i] = {producers[ref.id] for ref in bases if isinstance(ref, NodeRef)} - {i}
+        for producer in waiting[i]:
+            users[producer].add(i)
+
+    ready = [(position[i], i) for i in waiting if not waiting[i]]
+    heapq.heapify(ready)
+    order: list[_Step] = []
+    while ready:
+        _, current = heapq.heappop(ready)
+        order.append(steps[current])
+        for user in users[current]:
+            waiting[user].discard(current)
+            if not waiting[user]:
+                heapq.heappush(ready, (position[user], user))
+
+    if len(order) != len(steps):
+        stuck = sorted(steps[i].name or "subgraph" for i in waiting if waiting[i])
+        msg = f"Regions depend on each other and cannot be executed one after another: {stuck}"
+        raise ValueError(msg)
+    return order
 
 
 def _coarse_complement(graph: GraphModule, targets: set[NodeRef]) -> list[NodeRef]:
@@ -1140,18 +1226,16 @@ def _coarse_complement(graph: GraphModule, targets: set[NodeRef]) -> list[NodeRe
     return complement
 
 
-def _resolve_subgraph_input(name: str, context: dict[str, _BaseRef]) -> _BaseRef:
-    """Look up a subgraph input name (possibly ``'name[attr]'``) in the context."""
-    base, sep, rest = name.partition("[")
-    if not sep or not rest.endswith("]"):
-        return context[name]
-    inner = rest[:-1]
-    base_ref = context[base]
-    try:
-        return base_ref[int(inner)]
-    except ValueError:
-        attr_ref: _BaseRef = getattr(base_ref, inner)
-        return attr_ref
+def _is_covered(graph: GraphModule, ref: NodeRef, targets: set[NodeRef]) -> bool:
+    """True if `ref` is one of, contains one of, or is contained in one of `targets`."""
+    return not _nodes_within(graph, [ref]).isdisjoint(_nodes_within(graph, targets))
+
+
+def _subgraph_results(outputs: Sequence[_BaseRef], result: NodeRef) -> dict[_BaseRef, _BaseRef]:
+    """Map the `outputs` of an extracted subgraph to (parts of) its `result`."""
+    if len(outputs) == 1:
+        return {outputs[0]: result}
+    return {output: result[i] for i, output in enumerate(outputs)}
 
 
 def reduce_resolution(
@@ -1169,77 +1253,69 @@ def reduce_resolution(
     for Span/Group).
     """
     targets: set[NodeRef] = set()
-    subgraphs: list[tuple[set[NodeRef], GraphModule]] = []
-    seen_targets: set[NodeRef] = set()
     spec_targets: list[torch.nn.Module] = []
+    steps: list[_Step] = []
+
+    def _node_step(node_ref: NodeRef) -> _Step:
+        node = graph._nodes[node_ref.id]
+        return _Step(
+            name=node.name,
+            target=node.target,
+            op=node.op,
+            args=list(node.args),
+            kwargs=node.kwargs,
+            leaves=_nodes_within(graph, [node_ref]),
+            results=functools.partial(_node_results, graph, node_ref),
+        )
 
     # Create "targets": the most granular collection of nodes we need to have, given the specs.
     for spec in specs:
         resolved = spec.resolve(graph)
-        if overlap := resolved.nodes & seen_targets:
+        if overlap := [ref for ref in resolved.nodes if _is_covered(graph, ref, targets)]:
             msg = f"Overlapping nodes in subgraph specs: {overlap}"
             raise ValueError(msg)
 
-        seen_targets |= resolved.nodes
         targets |= resolved.nodes
         spec_targets.append(resolved.target)
-        if isinstance(resolved.target, GraphModule):
-            subgraphs.append((resolved.nodes, resolved.target))
+        if isinstance(spec.region, (Span, Group)):
+            # Path-specific subgraphs have _no_ kwargs, wiring is done by input order only.
+            steps.append(
+                _Step(
+                    name=None,
+                    target=resolved.target,
+                    op=Op.torch_module,
+                    args=resolved.inputs,
+                    kwargs={},
+                    leaves=_nodes_within(graph, resolved.nodes),
+                    results=functools.partial(_subgraph_results, resolved.outputs),
+                )
+            )
+        else:
+            steps.extend(_node_step(node_ref) for node_ref in resolved.nodes)
 
     # Now create the coarse complement. whatever we dont see as targets, try and get the
     # coarsest level (try not to unfold into leaves if not needed).
-    complement = _coarse_complement(graph, targets)
-
-    for path_nodes, _ in subgraphs:
-        targets -= path_nodes
+    steps.extend(_node_step(node_ref) for node_ref in _coarse_complement(graph, targets))
 
     new_graph = GraphModule()
-    context: dict[str, _BaseRef] = {name: new_graph.add_input(name) for name in graph.input_names}
-    subgraph_idx = 0
+    replacements: dict[_BaseRef, _BaseRef] = {
+        input_ref: new_graph.add_input(name) for name, input_ref in graph._inputs.items()
+    }
 
     # Rewire the new graph's path in a dependency-based (topo) order.
-    for node in node_order(graph, [*targets, *complement, *[gm for _, gm in subgraphs]]):
-        match node:
-            case GraphModule() as subgraph:
-                args = [_resolve_subgraph_input(name, context) for name in subgraph.input_names]
-                # Path-specific subgraphs have _no_ kwargs, that wiring is done by input name only.
-                ref = new_graph.add_node(f"subgraph_{subgraph_idx}", subgraph, args, kwargs={})
-                subgraph_idx += 1
-
-                for i, out in enumerate(subgraph._outputs):
-                    if isinstance(base := out.unwrap_ref(), NodeRef):
-                        context[base.name] = ref if len(subgraph._outputs) == 1 else ref[i]
-
-            case NodeRef(id=node_id, name=node_name) if node_id in graph._fold_ids:
-                original_node = graph._nodes[node_id]
-                args = [remap_subgraph_reference(arg, context, {}) for arg in original_node.args]
-                kwargs = {
-                    key: remap_subgraph_reference(value, context, {})
-                    for key, value in original_node.kwargs.items()
-                }
-                ref = new_graph.add_node(
-                    node_name, original_node.target, args, kwargs=kwargs, op=original_node.op
-                )
-                context[node_name] = ref
-
-                fold_outputs = graph.fold_outputs(node)
-                for i, leaf in enumerate(fold_outputs):
-                    context[leaf.name] = ref if len(fold_outputs) == 1 else ref[i]
-
-            case NodeRef(id=node_id, name=node_name):
-                original_node = graph._nodes[node_id]
-                args = [remap_subgraph_reference(arg, context, {}) for arg in original_node.args]
-                kwargs = {
-                    key: remap_subgraph_reference(value, context, {})
-                    for key, value in original_node.kwargs.items()
-                }
-                node_ref = new_graph.add_node(
-                    node_name, original_node.target, args, kwargs, op=original_node.op
-                )
-                context[node_name] = node_ref
+    subgraph_names = (f"subgraph_{i}" for i in itertools.count())
+    for step in _execution_order(graph, steps):
+        node_ref = new_graph.add_node(
+            step.name or next(subgraph_names),
+            step.target,
+            [_substitute(arg, replacements) for arg in step.args],
+            {key: _substitute(arg, replacements) for key, arg in step.kwargs.items()},
+            op=step.op,
+        )
+        replacements |= step.results(node_ref)
 
     for graph_output in graph._outputs:
-        rewritten = remap_subgraph_reference(graph_output, context, {})
+        rewritten = _substitute(graph_output, replacements)
         assert isinstance(rewritten, (NodeRef, AttributeRef))
         new_graph.add_output(rewritten)
 
-- 
2.43.0


From 7b3ebf3d8bd29c183d3ef7d191e53e8c9565cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 067/113] fix: leave the graph unchanged if a subgraph is
 inlined twice

---
 src/fastforward/_orchestration/graph_module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 95ce52e..e384cc6 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -629,6 +629,10 @@ class GraphModule(torch.nn.Module):
             msg = "Subgraph has no output nodes defined"
             raise ValueError(msg)
 
+        if duplicates := [node.name for id, node in subgraph._nodes.items() if id in self._nodes]:
+            msg = f"Nodes of the subgraph are already part of the graph: {duplicates}"
+            raise ValueError(msg)
+
         # Reset cached derived state since the graph will be altered.
         self._invalidate_caches()
 
-- 
2.43.0


From 811f103470fd6d4753e1c3a2a36d03e02d44f153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 068/113] fix: trace models whose repeated calls cannot be
 preserved

---
 src/fastforward/_orchestration/trace.py | 69 ++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 8 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 2805edd..13a18d9 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -275,6 +275,61 @@ def _can_preserve_calls(calls: list[_CallSpec]) -> bool:
     )
 
 
+def _unflatten_preserved(
+    exported_program: torch.export.ExportedProgram,
+) -> torch.export.UnflattenedModule | None:
+    """Unflatten a program with preserved calls, or `None` if that is not possible.
+
+    `torch.export.unflatten` does not support every combination of repeated and preserved calls.
+    It fails or takes a value that is not an argument of a preserved call for one that is mutated
+    by the call, and adds the mutation to the program.
+    """
+
+    def _num_copies(module: nn.Module) -> int:
+        graphs = (getattr(submodule, "graph", None) for submodule in module.modules())
+        return sum(
+            node.target is torch.ops.aten.copy_.default
+            for graph in graphs
+            if isinstance(graph, fx.Graph)
+            for node in graph.nodes
+        )
+
+    def _is_consistent(module: nn.Module) -> bool:
+        for submodule in module.modules():
+            if not isinstance(graph := getattr(submodule, "graph", None), fx.Graph):
+                continue
+            for node in graph.nodes:
+                if node.op != "call_module":
+                    continue
+                try:
+                    callee = submodule.get_submodule(cast(str, node.target))
+                except AttributeError:
+                    return False
+                if isinstance(callee_graph := getattr(callee, "graph", None), fx.Graph):
+                    num_inputs = sum(n.op == "placeholder" for n in callee_graph.nodes)
+                    if num_inputs != len(node.args) + len(node.kwargs):
+                        return False
+        return True
+
+    signature = exported_program.graph_signature
+    num_mutations = len(signature.buffers_to_mutate) + len(signature.user_inputs_to_mutate)
+    with warnings.catch_warnings():
+        warnings.filterwarnings(
+            "ignore",
+            message="Attempted to insert a get_attr Node with no underlying reference",
+            category=UserWarning,
+        )
+        try:
+            unflattened = torch.export.unflatten(exported_program)
+        except Exception:
+            return None
+    if not _is_consistent(unflattened):
+        return None
+    if _num_copies(unflattened) > _num_copies(exported_program.graph_module) + num_mutations:
+        return None
+    return unflattened
+
+
 def _can_call_original(original: nn.Module, submod: nn.Module, fx_node: fx.Node) -> bool:
     """Check if calling original.forward matches the captured FX call.
 
@@ -606,6 +661,7 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         with _record_calls(module) as calls:
             exported_program = torch.export.export(module, args=args, kwargs=kwargs)
         unflattened = torch.export.unflatten(exported_program)
+        is_preserved = True
 
         # A signature is preserved for all calls of a module, also the repeated ones.
         captured_fqns = dict.fromkeys(
@@ -622,13 +678,9 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
             exported_program = torch.export.export(
                 module, args=args, kwargs=kwargs, preserve_module_call_signature=preserved_fqns
             )
-            with warnings.catch_warnings():
-                warnings.filterwarnings(
-                    "ignore",
-                    message="Attempted to insert a get_attr Node with no underlying reference",
-                    category=UserWarning,
-                )
-                unflattened = torch.export.unflatten(exported_program)
+            preserved = _unflatten_preserved(exported_program)
+            is_preserved = preserved is not None
+            unflattened = preserved if preserved is not None else unflattened
 
         _strip_hardcoded_device_placements(unflattened)
         out_spec = _capture_out_spec(module, unflattened, args, kwargs)
@@ -642,7 +694,8 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         unfaithful={
             mod
             for mod, specs in calls.items()
-            if not all(spec.is_unary for spec in specs) and not _can_preserve_calls(specs)
+            if not all(spec.is_unary for spec in specs)
+            and not (is_preserved and _can_preserve_calls(specs))
         },
     )
 
-- 
2.43.0


From 672ee16fa2c6aefac05b356d8a7c87d62331eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 069/113] fix: share the weights of modules that are replaced
 in a traced graph

---
 src/fastforward/_orchestration/trace.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 13a18d9..52fda09 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -330,6 +330,22 @@ def _unflatten_preserved(
     return unflattened
 
 
+def _share_weights(unflattened: nn.Module, module: nn.Module) -> None:
+    """Use the parameters and buffers of `module` instead of their copies in `unflattened`."""
+    for name, submodule in unflattened.named_modules(remove_duplicate=False):
+        try:
+            original = module.get_submodule(_original_fqn(name))
+        except AttributeError:
+            continue
+        for tensors, original_tensors in (
+            (submodule._parameters, original._parameters),
+            (submodule._buffers, original._buffers),
+        ):
+            for key in tensors:
+                if key in original_tensors:
+                    tensors[key] = original_tensors[key]
+
+
 def _can_call_original(original: nn.Module, submod: nn.Module, fx_node: fx.Node) -> bool:
     """Check if calling original.forward matches the captured FX call.
 
@@ -685,6 +701,8 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         _strip_hardcoded_device_placements(unflattened)
         out_spec = _capture_out_spec(module, unflattened, args, kwargs)
 
+    _share_weights(unflattened, module)
+
     builder = _GraphBuilder(
         module,
         "",
-- 
2.43.0


From c1feed68e05b783a0e5bd41543bf6d228b432858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 070/113] fix: call modules whose captured output is an input
 of the module as captured

---
 src/fastforward/_orchestration/trace.py | 50 +++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 52fda09..68aabba 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -23,6 +23,13 @@ import fastforward as ff
 
 from fastforward._orchestration.graph_module import Const, GraphModule, NodeRef, Op, _BaseRef
 
+_ALIASING_CASTS = (
+    torch.ops.aten.to.dtype,
+    torch.ops.aten.to.device,
+    torch.ops.aten.to.dtype_layout,
+    torch.ops.aten.to.other,
+    torch.ops.aten.contiguous.default,
+)
 _MIN_TORCH_VERSION = Version("2.6.0")
 
 
@@ -220,6 +227,7 @@ def _record_calls(module: nn.Module) -> Iterator[dict[nn.Module, list[_CallSpec]
             _CallSpec(
                 in_spec=in_spec,
                 out_spec=out_spec,
+                returns_input=any(out is leaf for leaf in leaves),
                 is_unary=len(args) == 1
                 and not kwargs
                 and isinstance(args[0], torch.Tensor)
@@ -249,6 +257,7 @@ class _CallSpec:
 
     in_spec: pytree.TreeSpec
     out_spec: pytree.TreeSpec
+    returns_input: bool
     is_unary: bool
     is_preservable: bool
 
@@ -275,6 +284,38 @@ def _can_preserve_calls(calls: list[_CallSpec]) -> bool:
     )
 
 
+def _captures_alias_of_input(submodule: nn.Module) -> bool:
+    """True if the only output of a captured call is an input of the call.
+
+    Operators that return their input, e.g., a cast to the dtype it already has, replace the input
+    in the remainder of the captured program. If that uses the input, but not the actual output
+    of the module that the operator is called in, then the input is captured as its output.
+    """
+    graph = getattr(submodule, "graph", None)
+    if not isinstance(graph, fx.Graph):
+        return False
+    outputs = pytree.tree_leaves([node.args for node in graph.nodes if node.op == "output"])
+    if len(outputs) != 1 or not isinstance(outputs[0], fx.Node):
+        return False
+
+    node = outputs[0]
+    while node.op != "placeholder":
+        if not node.args or not isinstance(node.args[0], fx.Node):
+            return False
+        if node.op == "call_module":
+            assert isinstance(node.target, str)
+            if not _captures_alias_of_input(submodule.get_submodule(node.target)):
+                return False
+        elif node.op != "call_function" or node.target not in _ALIASING_CASTS:
+            return False
+        else:
+            value, source = node.meta.get("val"), node.args[0].meta.get("val")
+            if value is None or source is None or value.dtype != source.dtype:
+                return False
+        node = node.args[0]
+    return True
+
+
 def _unflatten_preserved(
     exported_program: torch.export.ExportedProgram,
 ) -> torch.export.UnflattenedModule | None:
@@ -714,6 +755,15 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
             for mod, specs in calls.items()
             if not all(spec.is_unary for spec in specs)
             and not (is_preserved and _can_preserve_calls(specs))
+        }
+        | {
+            module.get_submodule(_original_fqn(name))
+            for name, submodule in unflattened.named_modules()
+            if name
+            and _captures_alias_of_input(submodule)
+            and any(
+                not spec.returns_input for spec in calls[module.get_submodule(_original_fqn(name))]
+            )
         },
     )
 
-- 
2.43.0


From cf9ff58147790f899395ae76f18c67c58fbaa782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 071/113] fix: call modules with dropped arguments as captured

---
 src/fastforward/_orchestration/trace.py | 39 ++++++++++++++++++-------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 68aabba..9729ecf 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -222,11 +222,12 @@ def _record_calls(module: nn.Module) -> Iterator[dict[nn.Module, list[_CallSpec]
 
     def _hook(mod: nn.Module, args: tuple[Any, ...], kwargs: dict[str, Any], out: Any) -> None:
         leaves, in_spec = pytree.tree_flatten((args, kwargs))
-        _, out_spec = pytree.tree_flatten(out)
+        out_leaves, out_spec = pytree.tree_flatten(out)
         calls.setdefault(mod, []).append(
             _CallSpec(
                 in_spec=in_spec,
                 out_spec=out_spec,
+                num_none=sum(leaf is None for leaf in [*leaves, *out_leaves]),
                 returns_input=any(out is leaf for leaf in leaves),
                 is_unary=len(args) == 1
                 and not kwargs
@@ -257,6 +258,7 @@ class _CallSpec:
 
     in_spec: pytree.TreeSpec
     out_spec: pytree.TreeSpec
+    num_none: int
     returns_input: bool
     is_unary: bool
     is_preservable: bool
@@ -317,23 +319,24 @@ def _captures_alias_of_input(submodule: nn.Module) -> bool:
 
 
 def _unflatten_preserved(
-    exported_program: torch.export.ExportedProgram,
+    exported_program: torch.export.ExportedProgram, calls: Collection[_CallSpec]
 ) -> torch.export.UnflattenedModule | None:
     """Unflatten a program with preserved calls, or `None` if that is not possible.
 
     `torch.export.unflatten` does not support every combination of repeated and preserved calls.
     It fails or takes a value that is not an argument of a preserved call for one that is mutated
-    by the call, and adds the mutation to the program.
+    by the call, and adds the mutation to the program. Arguments that do not contribute to the
+    outputs of the model are replaced by `None`.
     """
 
+    def _graph_nodes(module: nn.Module) -> Iterator[fx.Node]:
+        for submodule in module.modules():
+            if isinstance(graph := getattr(submodule, "graph", None), fx.Graph):
+                yield from graph.nodes
+
     def _num_copies(module: nn.Module) -> int:
-        graphs = (getattr(submodule, "graph", None) for submodule in module.modules())
-        return sum(
-            node.target is torch.ops.aten.copy_.default
-            for graph in graphs
-            if isinstance(graph, fx.Graph)
-            for node in graph.nodes
-        )
+        copy = torch.ops.aten.copy_.default
+        return sum(node.target is copy for node in _graph_nodes(module))
 
     def _is_consistent(module: nn.Module) -> bool:
         for submodule in module.modules():
@@ -368,6 +371,15 @@ def _unflatten_preserved(
         return None
     if _num_copies(unflattened) > _num_copies(exported_program.graph_module) + num_mutations:
         return None
+
+    num_none = sum(
+        leaf is None
+        for node in _graph_nodes(unflattened)
+        if node.target is pytree.tree_unflatten
+        for leaf in cast(Collection[Any], node.args[0])
+    )
+    if num_none > sum(call.num_none for call in calls):
+        return None
     return unflattened
 
 
@@ -534,6 +546,8 @@ class _GraphBuilder:
                 self._original_root, absolute_path, unfaithful=self._unfaithful
             )
             sub_ff = sub_builder.build(submod)
+            if not sub_ff._outputs:
+                return  # The model does not use any output of this call.
             args, kwargs = self._convert_args(fx_node)
             output_refs = self._graph.add_subgraph(
                 target,
@@ -735,7 +749,10 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
             exported_program = torch.export.export(
                 module, args=args, kwargs=kwargs, preserve_module_call_signature=preserved_fqns
             )
-            preserved = _unflatten_preserved(exported_program)
+            preserved = _unflatten_preserved(
+                exported_program,
+                [call for name in preserved_fqns for call in calls[module.get_submodule(name)]],
+            )
             is_preserved = preserved is not None
             unflattened = preserved if preserved is not None else unflattened
 
-- 
2.43.0


From a6a3a30246128ea58118c75c19b83815e1ecc66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 072/113] fix: restore the devices of offloaded modules if the
 program has outputs

---
 src/fastforward/_orchestration/instruction_engine.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 0584c0e..2e9d8a8 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -740,9 +740,13 @@ class InstructionEngine:
         Returns:
             Result from RETURN instruction, or None if no RETURN is executed.
         """
+        # Instructions after RETURN do not contribute to the result but may, for
+        # example, restore the original device of the offloaded modules.
+        returned: Any = None
         for instruction in instructions:
             if (result := instruction.execute(register)) is not None:
-                return result
+                returned = result
+        return returned
 
     def run(self, program: InstructionProgram, *args: Any, **kwargs: Any) -> Any:
         """Run instructions with provided inputs.
-- 
2.43.0


From bd9cf1e02321617f863b0a3d7123d7f07cb27eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 073/113] fix: move the module of a single-module graph to the
 compute device

---
 .../_orchestration/instruction_engine.py      | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 2e9d8a8..7511274 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -1009,8 +1009,13 @@ def _offloading_pass(
 def _cancel_module_round_trips(
     instructions: Instructions, compute_device: torch.device, storage_device: torch.device
 ) -> Instructions:
-    """Cancel adjacent MoveModule round-trips."""
+    """Cancel adjacent MoveModule round-trips.
+
+    Two moves are only a round-trip if the module is known to be on the device of the
+    second move already. The original device of a module, before its first move, is unknown.
+    """
     device_pair = {compute_device, storage_device}
+    module_device: dict[torch.nn.Module, torch.device] = {}
 
     def _is_round_trip(left: Instruction, right: Instruction) -> bool:
         return (
@@ -1020,6 +1025,7 @@ def _cancel_module_round_trips(
             and isinstance(left.device, torch.device)
             and isinstance(right.device, torch.device)
             and {left.device, right.device} == device_pair
+            and module_device.get(left.module) == right.device
         )
 
     result: list[Instruction] = []
@@ -1027,9 +1033,19 @@ def _cancel_module_round_trips(
     while i < len(instructions):
         if i + 1 < len(instructions) and _is_round_trip(instructions[i], instructions[i + 1]):
             i += 2
-        else:
-            result.append(instructions[i])
-            i += 1
+            continue
+
+        match instructions[i]:
+            case MoveModule(module=module, device=torch.device() as device):
+                module_device[module] = device
+            case MoveModule(module=module):
+                module_device.pop(module, None)
+            case CallModule(module=module) | OptimizeModule(module=module) if isinstance(
+                module, torch.nn.Module
+            ):
+                module_device[module] = compute_device
+        result.append(instructions[i])
+        i += 1
 
     return tuple(result)
 
-- 
2.43.0


From 8639417f66189c6c9b781dfb8f7ebf1f3ecc19fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 074/113] fix: move every part of an activation that a module
 uses to the compute device

---
 .../_orchestration/instruction_engine.py      | 43 ++++++++++++-------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 7511274..3b88040 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -1065,35 +1065,48 @@ def _cancel_redundant_activation_moves(
     - ``nn.Module`` calls produce on ``compute_device`` (MoveModule guarantees this).
     - Non-Module callables (aten ops) inherit the device of their inputs when
       all inputs agree; otherwise the output device is left unknown.
+
+    The parts of a value (``AttributeRef``) have a register entry, and hence a device, of
+    their own. They start out on the device of the value they are loaded from.
     """
     ref_device: dict[_BaseRef, torch.device] = {}
     pending: dict[_BaseRef, MoveActivations] = {}
     result: list[Instruction] = []
 
+    def _set_device(ref: _BaseRef, device: torch.device | None) -> None:
+        if device is None:
+            ref_device.pop(ref, None)
+        else:
+            ref_device[ref] = device
+
     def _infer_output_device(instr: Instruction) -> None:
-        if not isinstance(instr, CallModule):
-            return
-        key = instr.target.unwrap_ref()
-        if isinstance(instr.module, torch.nn.Module):
-            ref_device[key] = compute_device
-            return
-        devs = {ref_device[a.unwrap_ref()] for a in instr.args if a.unwrap_ref() in ref_device}
-        if len(devs) == 1:
-            ref_device[key] = devs.pop()
+        match instr:
+            case LoadAttribute(source=source, target=target):
+                pending.pop(target, None)
+                _set_device(target, ref_device.get(source))
+            case CallModule(module=torch.nn.Module(), target=target):
+                _set_device(target, compute_device)
+            case CallModule(target=target):
+                refs = [ref for ref in instr.uses() if not isinstance(ref.unwrap_ref(), Const)]
+                devs = {ref_device.get(ref) for ref in refs}
+                _set_device(target, devs.pop() if len(devs) == 1 else None)
+            case DeleteRegisterEntries(targets=targets):
+                for target in targets:
+                    pending.pop(target, None)
+                    _set_device(target, None)
 
     def _flush(ref: _BaseRef) -> None:
-        key = ref.unwrap_ref()
-        if (move := pending.pop(key, None)) is not None:
-            if ref_device.get(key) != move.device:
+        if (move := pending.pop(ref, None)) is not None:
+            if not _is_redundant(move):
                 result.append(move)
-                ref_device[key] = move.device
+                ref_device[ref] = move.device
 
     def _is_redundant(move: MoveActivations) -> bool:
-        return ref_device.get(move.register_ref.unwrap_ref()) == move.device
+        return ref_device.get(move.register_ref) == move.device
 
     for instr in instructions:
         if isinstance(instr, MoveActivations):
-            pending[instr.register_ref.unwrap_ref()] = instr
+            pending[instr.register_ref] = instr
         else:
             for ref in instr.uses():
                 _flush(ref)
-- 
2.43.0


From 62b38558b972ecaade8ddf42dfe4a6e692a6f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 075/113] fix: preserve named tuples if activations are moved
 between devices

---
 src/fastforward/_orchestration/instruction_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 3b88040..2d5ce27 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -549,7 +549,9 @@ def _move_to_device(value: Any, device: torch.device) -> Any:
         case torch.Tensor():
             return value.to(device=device)
         case tuple():
-            return tuple(_move_to_device(v, device) for v in value)
+            moved_items = [_move_to_device(v, device) for v in value]
+            # Preserve named tuples, their items may be accessed by name.
+            return type(value)(*moved_items) if hasattr(value, "_fields") else tuple(moved_items)
         case list():
             return [_move_to_device(v, device) for v in value]
         case dict() if type(value) is not dict:
-- 
2.43.0


From 8ce8076545d672d9eb64827694332b5710f3dcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 076/113] fix: keep the bound arguments of an algorithm if its
 registered targets are used

---
 src/fastforward/_orchestration/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_orchestration/registry.py b/src/fastforward/_orchestration/registry.py
index 088b001..545302e 100644
--- a/src/fastforward/_orchestration/registry.py
+++ b/src/fastforward/_orchestration/registry.py
@@ -245,7 +245,8 @@ class _AlgorithmRegistry(Mapping[Algorithm, AlgorithmSpec]):
             if key not in self._specs:
                 msg = f"No target registered for algorithm {_algorithm_name(algorithm)!r}."
                 raise NoTargetsFound(msg)
-            spec_list = [self._specs[key]]
+            # Run the algorithm as it is given, with the arguments that are bound to it.
+            spec_list = [dataclasses.replace(self._specs[key], fn=algorithm)]
 
         result: list[SubgraphSpec] = []
         for spec in spec_list:
-- 
2.43.0


From 8202ac2aa1e66eee45585f474d5d4f8e8f39c829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 077/113] fix: export quantizers without offset

---
 src/fastforward/export/stages/annotations.py | 28 +++++++++++++++++---
 src/fastforward/export/stages/passes.py      | 17 +++---------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/fastforward/export/stages/annotations.py b/src/fastforward/export/stages/annotations.py
index 664f409..8079e91 100644
--- a/src/fastforward/export/stages/annotations.py
+++ b/src/fastforward/export/stages/annotations.py
@@ -21,6 +21,19 @@ class FFQuantizerSpec:
     data_shape: tuple[int, ...] | None = None
 
 
+def _ff_quantizer_argument(node: torch.fx.Node, name: str) -> Any:
+    """Get argument `name` of an FF quantize/dequantize `node`.
+
+    Arguments that equal their default value may be omitted from a captured graph.
+    """
+    assert isinstance(node.target, torch._ops.OpOverload)
+    for idx, argument in enumerate(node.target._schema.arguments):
+        if argument.name == name:
+            return node.args[idx] if idx < len(node.args) else node.kwargs.get(name)
+    msg = f"'{node.target}' has no argument '{name}'"
+    raise ValueError(msg)
+
+
 def _ff_quantizer_spec(
     node: torch.fx.Node, quant_params: dict[str, torch.Tensor]
 ) -> FFQuantizerSpec:
@@ -29,12 +42,19 @@ def _ff_quantizer_spec(
         msg = f"Unsupported target: {node.target}"
         raise NotImplementedError(msg)
 
-    data, scale, tile_size, num_bits, _output_dtype, offset = node.args
+    data, scale, tile_size, num_bits, offset = (
+        _ff_quantizer_argument(node, name)
+        for name in ("data", "scale", "tile_size", "num_bits", "offset")
+    )
 
     assert isinstance(scale, torch.fx.Node) and isinstance(scale.target, str)
-    assert isinstance(offset, torch.fx.Node) and isinstance(offset.target, str)
     scale_value = quant_params[scale.target]
-    offset_value = quant_params[offset.target]
+    if offset is None:
+        # A quantizer without offset is symmetric.
+        offset_value = torch.zeros_like(scale_value)
+    else:
+        assert isinstance(offset, torch.fx.Node) and isinstance(offset.target, str)
+        offset_value = quant_params[offset.target]
     symmetric = _is_symmetric_offset(offset_value)
 
     if not isinstance(num_bits, (int, float)):
@@ -46,7 +66,7 @@ def _ff_quantizer_spec(
         raise ValueError(msg)
 
     if not symmetric:
-        offset_value = 2 ** (num_bits - 1) - quant_params[offset.target]
+        offset_value = 2 ** (num_bits - 1) - offset_value
 
     tile_size_tuple: tuple[int, ...] | None = None
     if isinstance(tile_size, torch.Size):
diff --git a/src/fastforward/export/stages/passes.py b/src/fastforward/export/stages/passes.py
index d5f2416..0d3871e 100644
--- a/src/fastforward/export/stages/passes.py
+++ b/src/fastforward/export/stages/passes.py
@@ -5,13 +5,13 @@ import itertools
 import logging
 
 from collections import deque
-from typing import Any, Iterator
+from typing import Iterator
 
 import torch
 
 from torch.fx.passes.infra.pass_base import PassResult
 
-from fastforward.export.stages.annotations import _ff_quantizer_spec
+from fastforward.export.stages.annotations import _ff_quantizer_argument, _ff_quantizer_spec
 
 FF_QUANTIZATION_SPEC = "__FF_QUANTIZATION_SPEC"
 QUANTIZE_OPERATIONS = (torch.ops.fastforward.quantize_by_tile.default,)
@@ -121,18 +121,9 @@ def _ff_quantization_parameters(
     """Helper to obtain all quantization parameter tensors from module."""
     all_params = dict(itertools.chain(module.named_parameters(), module.named_buffers()))
     quant_params: dict[str, torch.Tensor] = {}
-    scale: Any = None
-    offset: Any = None
     for node in _ff_quantization_nodes(module.graph):
-        match node.target:
-            case torch.ops.fastforward.quantize_by_tile.default:
-                _data, scale, _tile_size, _num_bits, _output_dtype, offset = node.args
-            case torch.ops.fastforward.dequantize_by_tile.default:
-                _data, scale, _tile_size, offset, _output_dtype = node.args
-            case _:
-                assert False, "unreachable"
-
-        for param_node in (scale, offset):
+        for name in ("scale", "offset"):
+            param_node = _ff_quantizer_argument(node, name)
             if param_node is None:
                 continue
             assert isinstance(param_node, torch.fx.Node)
-- 
2.43.0


From 93afa3807b9d181fced74340f8e4fca38ffd3bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 078/113] fix: quantize the input of a view only if all of it
 is quantized

---
 src/fastforward/export/stages/passes.py | 28 ++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/export/stages/passes.py b/src/fastforward/export/stages/passes.py
index 0d3871e..5115a6a 100644
--- a/src/fastforward/export/stages/passes.py
+++ b/src/fastforward/export/stages/passes.py
@@ -17,6 +17,19 @@ FF_QUANTIZATION_SPEC = "__FF_QUANTIZATION_SPEC"
 QUANTIZE_OPERATIONS = (torch.ops.fastforward.quantize_by_tile.default,)
 DEQUANTIZE_OPERATIONS = (torch.ops.fastforward.dequantize_by_tile.default,)
 
+# View operations whose output contains each element of their input exactly once.
+_ELEMENT_PRESERVING_VIEWS = frozenset({
+    "alias",
+    "detach",
+    "permute",
+    "squeeze",
+    "t",
+    "transpose",
+    "unsqueeze",
+    "view",
+    "_unsafe_view",
+})
+
 logger = logging.getLogger(__name__)
 
 
@@ -108,13 +121,26 @@ class PropagateFFQuantSpecs:
 
         if FF_QUANTIZATION_SPEC in input.meta:
             src, tgt = input, output
-        else:
+        elif _is_quantized_by_view(input, output):
             src, tgt = output, input
+        else:
+            return
 
         tgt.meta[FF_QUANTIZATION_SPEC] = src.meta[FF_QUANTIZATION_SPEC]
         queue.append(tgt)
 
 
+def _is_quantized_by_view(input: torch.fx.Node, view: torch.fx.Node) -> bool:
+    """Returns True if quantizing `view` is the same as quantizing its `input`.
+
+    This is not the case if `view` contains only some elements of `input` or if
+    `input` is also used elsewhere, where it is not quantized.
+    """
+    assert isinstance(view.target, torch._ops.OpOverload)
+    name = view.target._schema.name.split("::")[-1]
+    return name in _ELEMENT_PRESERVING_VIEWS and list(input.users) == [view]
+
+
 def _ff_quantization_parameters(
     module: torch.fx.GraphModule,
 ) -> dict[str, torch.Tensor]:
-- 
2.43.0


From 0bf4bbf46151dda04702c3856ac8049b2dc9b831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:59 +0000
Subject: [PATCH 079/113] fix: drop dead code from the captured program before
 quantization specs are recorded

Specs are matched with ONNX values by name. The ONNX exporter drops dead code before it names
the remaining values, so that the names of the captured graph and the ONNX graph diverged if
the model contains dead code and encodings were assigned to the wrong tensors.
---
 src/fastforward/export/stages/base_pipeline_stages.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/export/stages/base_pipeline_stages.py b/src/fastforward/export/stages/base_pipeline_stages.py
index cd13131..36e30ec 100644
--- a/src/fastforward/export/stages/base_pipeline_stages.py
+++ b/src/fastforward/export/stages/base_pipeline_stages.py
@@ -128,7 +128,12 @@ def stage_capture_impl_ff(
     sample_args, sample_kwargs = sample_inputs[0]
 
     with ff.export_mode(True), torch.no_grad(), ff.strict_quantization(False):
-        return torch.export.export(module, sample_args, sample_kwargs)
+        exported = torch.export.export(module, sample_args, sample_kwargs)
+
+    # Quantization specs are matched with the nodes of the ONNX graph by name. ONNX export
+    # drops dead code before it names the remaining nodes, hence it must be dropped here too.
+    exported.graph.eliminate_dead_code()
+    return exported
 
 
 def stage_convert_captured_impl_ff(
-- 
2.43.0


From 1dc4b83d8ee5bc2dd766dda9c83f82b0b5eda000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:39 +0000
Subject: [PATCH 080/113] fix: treat encodings as symmetric only if all offsets
 are zero

An asymmetric per-channel encoding was reported as symmetric, and its zero points were
omitted from the V2 schema, if the offset of one of its channels is zero.
---
 src/fastforward/export/_export_schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index 513de00..0296699 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -48,7 +48,7 @@ def _preprocess_quantization_params(
     offset = ensure_tensor(offset)
     offset = torch.round(offset)
 
-    is_symmetric = (torch.all(offset).item()) == 0
+    is_symmetric = not torch.any(offset).item()
     bitwidth = _strict_cast_to_int(bitwidth, "bitwidth")
 
     qnn_offset = offset - 2 ** (bitwidth - 1)
-- 
2.43.0


From 186edb712e79ab1cc85382dede0a8cc33f1124ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:39 +0000
Subject: [PATCH 081/113] fix: use QNN offsets for per-block encodings of the
 V2 schema

Zero points of per-tensor and per-channel encodings are stored as QNN offset. The zero points
of per-block encodings were not.
---
 src/fastforward/export/_export_schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index 0296699..c87fff4 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -428,7 +428,7 @@ class V2SchemaHandler:
                     qparams.scale.detach().cpu().numpy().reshape(parameter_shape).tolist()
                 )
                 reconstructed_offset = (
-                    qparams.offset.detach().cpu().numpy().reshape(parameter_shape).tolist()
+                    qparams.qnn_offset.detach().cpu().numpy().reshape(parameter_shape).tolist()
                 )
 
                 entry["y_scale"] = reconstructed_scale
-- 
2.43.0


From 8b7bfdd10236d5c5208f4e3cb0fc75e8f2424a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 082/113] fix: keep an encodings dictionary if its schema
 handler is reused

The dictionary shared its containers with the handler, so that clearing the handler for another
export emptied the encodings of an earlier export.
---
 src/fastforward/export/_export_schemas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index c87fff4..1a96333 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -1,6 +1,7 @@
 # Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
 # SPDX-License-Identifier: BSD-3-Clause-Clear
 
+import copy
 import dataclasses
 import logging
 
@@ -195,8 +196,8 @@ class LegacySchemaHandler:
     ) -> dict[str, Any]:
         return {
             "version": self.version,
-            "param_encodings": self._param_encodings,
-            "activation_encodings": self._activation_encodings,
+            "param_encodings": copy.deepcopy(self._param_encodings),
+            "activation_encodings": copy.deepcopy(self._activation_encodings),
             "quantizer_args": dataclasses.asdict(self._qnn_default_config),
         }
 
@@ -330,8 +331,8 @@ class V1SchemaHandler:
     ) -> dict[str, Any]:
         return {
             "version": self.version,
-            "param_encodings": self._param_encodings,
-            "activation_encodings": self._activation_encodings,
+            "param_encodings": copy.deepcopy(self._param_encodings),
+            "activation_encodings": copy.deepcopy(self._activation_encodings),
             "quantizer_args": dataclasses.asdict(self._qnn_default_config),
         }
 
@@ -452,7 +453,7 @@ class V2SchemaHandler:
     ) -> dict[str, Any]:
         return {
             "version": self.version,
-            "encodings": self._encodings,
+            "encodings": copy.deepcopy(self._encodings),
             "quantizer_args": dataclasses.asdict(self._qnn_default_config),
         }
 
-- 
2.43.0


From cc7e712d5e579f833ce140f6ef071947116f2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 083/113] fix: do not propagate per-channel quantization specs
 to views of activations

The channel axis of a view may differ from that of the tensor it was created from, and the
encoding of the view was that of another axis.
---
 src/fastforward/export/stages/passes.py | 26 +++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/export/stages/passes.py b/src/fastforward/export/stages/passes.py
index 5115a6a..2a56b25 100644
--- a/src/fastforward/export/stages/passes.py
+++ b/src/fastforward/export/stages/passes.py
@@ -5,13 +5,17 @@ import itertools
 import logging
 
 from collections import deque
-from typing import Iterator
+from typing import Any, Iterator
 
 import torch
 
 from torch.fx.passes.infra.pass_base import PassResult
 
-from fastforward.export.stages.annotations import _ff_quantizer_argument, _ff_quantizer_spec
+from fastforward.export.stages.annotations import (
+    FFQuantizerSpec,
+    _ff_quantizer_argument,
+    _ff_quantizer_spec,
+)
 
 FF_QUANTIZATION_SPEC = "__FF_QUANTIZATION_SPEC"
 QUANTIZE_OPERATIONS = (torch.ops.fastforward.quantize_by_tile.default,)
@@ -121,8 +125,14 @@ class PropagateFFQuantSpecs:
 
         if FF_QUANTIZATION_SPEC in input.meta:
             src, tgt = input, output
+            # Only weights have a well-defined channel axis independent of their layout.
+            # The tiles of other tensors are not the tiles of a view of the tensor.
+            if _has_tiles(src.meta[FF_QUANTIZATION_SPEC]) and not _is_attribute(src):
+                return
         elif _is_quantized_by_view(input, output):
             src, tgt = output, input
+            if _has_tiles(src.meta[FF_QUANTIZATION_SPEC]):
+                return
         else:
             return
 
@@ -141,6 +151,18 @@ def _is_quantized_by_view(input: torch.fx.Node, view: torch.fx.Node) -> bool:
     return name in _ELEMENT_PRESERVING_VIEWS and list(input.users) == [view]
 
 
+def _has_tiles(spec: Any) -> bool:
+    """Returns True if `spec` has different parameters for different parts of a tensor."""
+    return isinstance(spec, FFQuantizerSpec) and spec.scale.numel() > 1
+
+
+def _is_attribute(node: torch.fx.Node) -> bool:
+    """Returns True if `node` is an attribute, or a view of an attribute, of the module."""
+    while isinstance(node.target, torch._ops.OpOverload) and node.target.is_view:
+        (node, *_) = node.args  # type: ignore[assignment]
+    return node.op == "get_attr"
+
+
 def _ff_quantization_parameters(
     module: torch.fx.GraphModule,
 ) -> dict[str, torch.Tensor]:
-- 
2.43.0


From ce6e259b7510e58cacdd9efcaade410b05952bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 084/113] fix: export reshapes of quantized slices and expanded
 tensors

A reshape of the output of a quantizer is captured as view, because that output is dense. If the
quantizer is removed from the graph, the view may not exist and the export failed.
---
 src/fastforward/export/stages/passes.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/fastforward/export/stages/passes.py b/src/fastforward/export/stages/passes.py
index 2a56b25..19c75d5 100644
--- a/src/fastforward/export/stages/passes.py
+++ b/src/fastforward/export/stages/passes.py
@@ -72,6 +72,7 @@ class AnnotateFFQuantSpecs:
                     logger.warning("Detected re-quantization for %s", input)
 
                 input.meta[FF_QUANTIZATION_SPEC] = spec
+                _relax_views(node, input)
 
                 node.replace_all_uses_with(input)
                 graph.erase_node(node)
@@ -151,6 +152,27 @@ def _is_quantized_by_view(input: torch.fx.Node, view: torch.fx.Node) -> bool:
     return name in _ELEMENT_PRESERVING_VIEWS and list(input.users) == [view]
 
 
+def _relax_views(quantize: torch.fx.Node, input: torch.fx.Node) -> None:
+    """Allow views of the output of `quantize` to be created from `input` instead.
+
+    In contrast to `input`, the output of a quantize operation is always dense. Hence, a
+    reshape that is a view of the latter may require a copy of the former.
+    """
+    value = input.meta.get("val")
+    if not isinstance(value, torch.Tensor) or value.is_contiguous():
+        return
+    users = list(quantize.users)
+    while users:
+        user = users.pop()
+        if user.target is torch.ops.aten.view.default:
+            user.target = torch.ops.aten.reshape.default
+        elif user.target not in DEQUANTIZE_OPERATIONS and not (
+            isinstance(user.target, torch._ops.OpOverload) and user.target.is_view
+        ):
+            continue
+        users.extend(user.users)
+
+
 def _has_tiles(spec: Any) -> bool:
     """Returns True if `spec` has different parameters for different parts of a tensor."""
     return isinstance(spec, FFQuantizerSpec) and spec.scale.numel() > 1
-- 
2.43.0


From 59b4cb413975ace1b810d548165dd7ec3cb22366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 085/113] fix: refuse QDQ export of quantizers that a Q/DQ pair
 cannot represent

Fractional bitwidths were truncated, block and multi-axis tiles were exported as per-channel
quantization and zero points that do not fit in the storage type wrapped around, all without
an error.
---
 .../stages/onnx/onnx_qdq_export_stages.py     | 53 ++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
index 1c70840..2057cad 100644
--- a/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
+++ b/src/fastforward/export/stages/onnx/onnx_qdq_export_stages.py
@@ -10,6 +10,7 @@ import onnxscript
 import torch
 
 from fastforward.exceptions import ExportError
+from fastforward.export.stages.annotations import _ff_quantizer_argument
 from fastforward.export.stages.onnx.onnx_export_stages import stage_fx_to_onnx_program
 
 _SampleInputsT: TypeAlias = list[tuple[tuple[Any, ...], dict[str, Any]]]
@@ -246,5 +247,55 @@ def stage_fx_to_onnx_program_qdq(
     ``onnx_export_options`` (see :func:`_with_ff_qdq_lowerings`) and delegates
     to ``stage_fx_to_onnx_program``. The input context and any user-owned
     nested dicts are left unmodified.
+
+    Raises:
+        ExportError: If a quantizer cannot be represented by a Q/DQ pair.
+    """
+    user_options = context.get("onnx_export_options") or {}
+    context = _with_ff_qdq_lowerings(context)
+
+    quantize_by_tile = torch.ops.fastforward.quantize_by_tile.default
+    if quantize_by_tile not in (user_options.get("custom_translation_table") or {}):
+        for node in modules[0].graph.nodes:
+            if node.target is quantize_by_tile:
+                _validate_quantize_node(modules[0], node)
+
+    return stage_fx_to_onnx_program(modules, sample_inputs, context)
+
+
+def _validate_quantize_node(module: torch.fx.GraphModule, node: torch.fx.Node) -> None:
+    """Raise ``ExportError`` if the FF lowering does not represent quantize operation `node`.
+
+    The lowering itself cannot do this: the bitwidth is all it knows for certain.
     """
-    return stage_fx_to_onnx_program(modules, sample_inputs, _with_ff_qdq_lowerings(context))
+    num_bits = _ff_quantizer_argument(node, "num_bits")
+    _ff_quant_dtype_for_bitwidth(num_bits)
+
+    data = _ff_quantizer_argument(node, "data").meta.get("val")
+    tile_size = _ff_quantizer_argument(node, "tile_size")
+    if isinstance(data, torch.Tensor):
+        tiled_dims = [dim for dim, size in enumerate(tile_size) if size != data.shape[dim]]
+        if len(tiled_dims) > 1 or any(tile_size[dim] != 1 for dim in tiled_dims):
+            msg = (
+                "QDQ ONNX lowering supports only per-tensor and single axis per-channel "
+                f"quantization, got tile size {tuple(tile_size)} for data of shape "
+                f"{tuple(data.shape)} ({node})"
+            )
+            raise ExportError(msg)
+
+    offset = _ff_quantizer_argument(node, "offset")
+    if isinstance(offset, torch.fx.Node) and offset.op == "get_attr":
+        zero_point = -torch.round(_get_attribute(module, str(offset.target)).detach())
+        int_min, int_max = -(2 ** (num_bits - 1)), 2 ** (num_bits - 1) - 1
+        if torch.any(zero_point < int_min) or torch.any(zero_point > int_max):
+            msg = (
+                f"QDQ ONNX lowering requires zero points in [{int_min:.0f}, {int_max:.0f}], got "
+                f"{zero_point.tolist()} ({node}). The quantization range has to contain zero."
+            )
+            raise ExportError(msg)
+
+
+def _get_attribute(module: torch.nn.Module, name: str) -> torch.Tensor:
+    owner, _, attribute = name.rpartition(".")
+    value: torch.Tensor = getattr(module.get_submodule(owner), attribute)
+    return value
-- 
2.43.0


From 3148fb7e1cd7aa65a6b0e281a512339878d2dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:45 +0000
Subject: [PATCH 086/113] fix: apply the renaming options in the QDQ export
 pipeline

The options alter_node_names, input_names and output_names were accepted but ignored.
---
 .../export/pipeline/qnn_onnx_qdq_pipeline.py  | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/export/pipeline/qnn_onnx_qdq_pipeline.py b/src/fastforward/export/pipeline/qnn_onnx_qdq_pipeline.py
index 1da21e1..f8117d3 100644
--- a/src/fastforward/export/pipeline/qnn_onnx_qdq_pipeline.py
+++ b/src/fastforward/export/pipeline/qnn_onnx_qdq_pipeline.py
@@ -11,7 +11,9 @@ from fastforward.export.stages.base_pipeline_stages import (
     stage_fuse_qdq_weights,
 )
 from fastforward.export.stages.onnx.onnx_export_stages import (
+    stage_alter_onnx_node_names,
     stage_onnx_program_to_proto,
+    stage_rename_onnx_input_output_names,
     stage_save_onnx_proto,
 )
 from fastforward.export.stages.onnx.onnx_qdq_export_stages import stage_fx_to_onnx_program_qdq
@@ -47,6 +49,12 @@ def qnn_onnx_qdq_pipeline(pipeline_kwargs: dict[str, Any]) -> Pipeline:
     fx_to_onnx_program_qdq
         |
         v
+    alter_onnx_node_names
+        |
+        v
+    rename_onnx_input_output_names
+        |
+        v
     onnx_program_to_proto
         |
         v
@@ -79,6 +87,9 @@ def qnn_onnx_qdq_pipeline(pipeline_kwargs: dict[str, Any]) -> Pipeline:
       Defaults `onnx_export_options["opset_version"]` to 21 when unset and
       rejects user-supplied values below 21 (INT4/INT16 in
       QuantizeLinear/DequantizeLinear were introduced in opset 21).
+    - `alter_onnx_node_names` and `rename_onnx_input_output_names`:
+      Apply the ``alter_node_names``, ``input_names`` and ``output_names`` options
+      in the same way as `qnn_onnx_pipeline`.
     - `onnx_program_to_proto`:
       Materializes a protobuf model for serialization.
     - `save_onnx_proto`:
@@ -111,9 +122,15 @@ def qnn_onnx_qdq_pipeline(pipeline_kwargs: dict[str, Any]) -> Pipeline:
     fx_to_onnx_program = onnx_pipeline.register_stage(
         stage_fx_to_onnx_program_qdq, "fx_to_onnx_program_qdq"
     ).depends_on(convert_captured_ff_qdq_stage)
+    alter_onnx_node_names = onnx_pipeline.register_stage(
+        stage_alter_onnx_node_names, "alter_onnx_node_names"
+    ).depends_on(fx_to_onnx_program)
+    rename_onnx_input_output_names = onnx_pipeline.register_stage(
+        stage_rename_onnx_input_output_names, "rename_onnx_input_output_names"
+    ).depends_on(alter_onnx_node_names)
     onnx_program_to_proto = onnx_pipeline.register_stage(
         stage_onnx_program_to_proto, "onnx_program_to_proto"
-    ).depends_on(fx_to_onnx_program)
+    ).depends_on(rename_onnx_input_output_names)
     onnx_pipeline.register_stage(
         stage_save_onnx_proto, "save_onnx_proto", capture_stage_output=True
     ).depends_on(onnx_program_to_proto)
-- 
2.43.0


From ea1e1de04c7e2e680ce0f9d848bb723db0b32049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 087/113] fix: export the encodings of inputs named after a
 builtin

FX does not name a node after a builtin. Hence, the encoding of an input called e.g. `input` was
not found by its name and lost.
---
 src/fastforward/export/stages/onnx/onnx_export_stages.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fastforward/export/stages/onnx/onnx_export_stages.py b/src/fastforward/export/stages/onnx/onnx_export_stages.py
index 6c3b3bc..94f1e48 100644
--- a/src/fastforward/export/stages/onnx/onnx_export_stages.py
+++ b/src/fastforward/export/stages/onnx/onnx_export_stages.py
@@ -233,6 +233,10 @@ class OnnxQuantMetadataAnnotator:
         for fx_node in fx_module.graph.nodes:
             if FF_QUANTIZATION_SPEC in fx_node.meta:
                 self._fx_quant_specs[fx_node.name] = fx_node.meta[FF_QUANTIZATION_SPEC]
+                if fx_node.op == "placeholder":
+                    # The name of a node is never that of a builtin, e.g. `input`, and differs
+                    # from the name of the ONNX input in this case.
+                    self._fx_quant_specs[str(fx_node.target)] = fx_node.meta[FF_QUANTIZATION_SPEC]
             if fx_node.op == "get_attr":
                 self._fx_node_by_target[str(fx_node.target)] = fx_node
 
-- 
2.43.0


From 3e9e55ac3e199408144e13d84d8ed508991da5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 088/113] fix: do not annotate nodes with the encoding of an
 input of a similar name

The FX node of an input called e.g. `max` is called `max_1`, which may also be the name of an
ONNX node that is unrelated to the input.
---
 .../export/stages/onnx/onnx_export_stages.py          | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/export/stages/onnx/onnx_export_stages.py b/src/fastforward/export/stages/onnx/onnx_export_stages.py
index 94f1e48..83666e8 100644
--- a/src/fastforward/export/stages/onnx/onnx_export_stages.py
+++ b/src/fastforward/export/stages/onnx/onnx_export_stages.py
@@ -232,11 +232,12 @@ class OnnxQuantMetadataAnnotator:
 
         for fx_node in fx_module.graph.nodes:
             if FF_QUANTIZATION_SPEC in fx_node.meta:
-                self._fx_quant_specs[fx_node.name] = fx_node.meta[FF_QUANTIZATION_SPEC]
-                if fx_node.op == "placeholder":
-                    # The name of a node is never that of a builtin, e.g. `input`, and differs
-                    # from the name of the ONNX input in this case.
-                    self._fx_quant_specs[str(fx_node.target)] = fx_node.meta[FF_QUANTIZATION_SPEC]
+                # FX does not name a node after a builtin, e.g. `input`. In this case, the name
+                # of a placeholder differs from the name of the ONNX input and may even be that
+                # of another ONNX node.
+                is_input = fx_node.op == "placeholder"
+                name = str(fx_node.target) if is_input else fx_node.name
+                self._fx_quant_specs[name] = fx_node.meta[FF_QUANTIZATION_SPEC]
             if fx_node.op == "get_attr":
                 self._fx_node_by_target[str(fx_node.target)] = fx_node
 
-- 
2.43.0


From 30af94ab26c491d4754439d257f8dd3a4dff6e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 089/113] fix: refuse GGUF export of one-sided quantizers

A symmetric quantizer that falls back to a one-sided range has a non-zero offset, which the
symmetric block formats cannot store; the exported weights were off by half of the range.
---
 src/fastforward/export/stages/gguf/_extract.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fastforward/export/stages/gguf/_extract.py b/src/fastforward/export/stages/gguf/_extract.py
index 22da710..e9988e8 100644
--- a/src/fastforward/export/stages/gguf/_extract.py
+++ b/src/fastforward/export/stages/gguf/_extract.py
@@ -82,6 +82,8 @@ def _validate_quantizer(
 
     Raises ExportError if the quantizer is asymmetric, has mismatched bit width,
     or (for PerBlock granularity) has a block size that doesn't match the format.
+    A symmetric quantizer that fell back to a one-sided range has a non-zero offset
+    and is rejected as well.
     """
     if quant_format.symmetric and not quantizer.symmetric:
         msg = (
@@ -90,6 +92,13 @@ def _validate_quantizer(
         )
         raise ExportError(msg)
 
+    if quant_format.symmetric and quantizer.offset is not None and quantizer.offset.any():
+        msg = (
+            f"Parameter '{hf_name}': quantizer has a non-zero offset (it is one-sided) but GGUF "
+            f"format '{quant_format.name}' requires symmetric quantization"
+        )
+        raise ExportError(msg)
+
     if not quant_format.symmetric and quantizer.symmetric:
         msg = (
             f"Parameter '{hf_name}': quantizer is symmetric but GGUF format "
-- 
2.43.0


From 28a990ffe0111f8192d91f943b9319c2c8333823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 090/113] fix: refuse GGUF export of scales beyond half
 precision

Such scales were stored as infinity, and all weights of the block decoded to inf or nan.
---
 src/fastforward/export/stages/gguf/_packing.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/export/stages/gguf/_packing.py b/src/fastforward/export/stages/gguf/_packing.py
index 42ff28d..f2ef36e 100644
--- a/src/fastforward/export/stages/gguf/_packing.py
+++ b/src/fastforward/export/stages/gguf/_packing.py
@@ -17,9 +17,19 @@ from __future__ import annotations
 
 import torch
 
+from fastforward.exceptions import ExportError
 from fastforward.export.stages.gguf.adapter import GgufQuantFormat
 
 
+def _pack_scales(scales: torch.Tensor) -> torch.Tensor:
+    """Return the bytes of ``scales`` in half precision as ``(n_blocks, 2)`` uint8."""
+    half_scales = scales.to(torch.float16)
+    if not torch.isfinite(half_scales).all():
+        msg = "GGUF block scales are stored in half precision, but some scales exceed its range"
+        raise ExportError(msg)
+    return half_scales.view(torch.uint8).reshape(scales.shape[0], 2)
+
+
 def pack_q4_0_blocks(int_codes: torch.Tensor, scales: torch.Tensor) -> torch.Tensor:
     """Pack FastForward quantized data into Q4_0 GGUF blocks.
 
@@ -43,7 +53,7 @@ def pack_q4_0_blocks(int_codes: torch.Tensor, scales: torch.Tensor) -> torch.Ten
     """
     n_blocks = int_codes.shape[0]
 
-    d_bytes = scales.to(torch.float16).view(torch.uint8).reshape(n_blocks, 2)
+    d_bytes = _pack_scales(scales)
 
     gguf_qs = (int_codes.to(torch.int16) + 8).clamp(0, 15).to(torch.uint8)
     block_size = int_codes.shape[1]
@@ -70,9 +80,7 @@ def pack_q8_0_blocks(int_codes: torch.Tensor, scales: torch.Tensor) -> torch.Ten
     (leaving ``-128`` unused to stay symmetric); clipping guarantees a valid
     round-trip.
     """
-    n_blocks = int_codes.shape[0]
-
-    d_bytes = scales.to(torch.float16).view(torch.uint8).reshape(n_blocks, 2)
+    d_bytes = _pack_scales(scales)
 
     gguf_qs = int_codes.clamp(-127, 127).to(torch.int8).view(torch.uint8)
 
-- 
2.43.0


From a62b470e44348a4929f42d100d36f36f2d82166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:34 +0000
Subject: [PATCH 091/113] fix: refuse GGUF export of weights with quantizers
 other than LinearQuantizer

Such weights, for example with a dynamic quantizer, were silently exported as unquantized floats.
---
 .../export/stages/gguf/_extract.py            | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/fastforward/export/stages/gguf/_extract.py b/src/fastforward/export/stages/gguf/_extract.py
index e9988e8..9436bd1 100644
--- a/src/fastforward/export/stages/gguf/_extract.py
+++ b/src/fastforward/export/stages/gguf/_extract.py
@@ -26,7 +26,7 @@ import fastforward as ff
 from fastforward.exceptions import ExportError
 from fastforward.export.stages.gguf._config import GgufSourceConfig
 from fastforward.export.stages.gguf.adapter import ArchAdapter, GgufQuantFormat
-from fastforward.nn import LinearQuantizer
+from fastforward.nn import LinearQuantizer, Quantizer, QuantizerStub
 from fastforward.quantization import granularity as granularities
 
 logger = logging.getLogger(__name__)
@@ -50,18 +50,18 @@ class ExtractedTensor:
     gguf_name: str = ""
 
 
-def _build_quantizer_map(model: torch.nn.Module) -> dict[str, LinearQuantizer]:
+def _build_quantizer_map(model: torch.nn.Module) -> dict[str, Quantizer]:
     """Map parameter paths to their initialized weight quantizers.
 
     Uses ``ff.find_quantizers`` with the ``[quantizer:parameter/weight]`` tag to
     discover all weight quantizers in the model. Returns a dict keyed by the
     weight parameter's full name (e.g. ``"model.layers.0.self_attn.q_proj.weight"``)
-    mapped to the corresponding initialized ``LinearQuantizer``.
+    mapped to the corresponding initialized quantizer.
     """
-    quantizer_map: dict[str, LinearQuantizer] = {}
+    quantizer_map: dict[str, Quantizer] = {}
     for result in ff.find_quantizers(model, "**/[quantizer:parameter/weight]"):
         quantizer = result.module
-        if not isinstance(quantizer, LinearQuantizer):
+        if not isinstance(quantizer, Quantizer) or isinstance(quantizer, QuantizerStub):
             continue
         if quantizer.has_uninitialized_params:
             continue
@@ -74,17 +74,24 @@ def _build_quantizer_map(model: torch.nn.Module) -> dict[str, LinearQuantizer]:
 
 
 def _validate_quantizer(
-    quantizer: LinearQuantizer,
+    quantizer: Quantizer,
     quant_format: GgufQuantFormat,
     hf_name: str,
-) -> None:
+) -> LinearQuantizer:
     """Validate that a quantizer's configuration is compatible with the target GGUF format.
 
-    Raises ExportError if the quantizer is asymmetric, has mismatched bit width,
-    or (for PerBlock granularity) has a block size that doesn't match the format.
+    Returns the quantizer. Raises ExportError if it is not a `LinearQuantizer`, if it
+    is asymmetric, has mismatched bit width, or (for PerBlock granularity) has a block size that doesn't match the format.
     A symmetric quantizer that fell back to a one-sided range has a non-zero offset
     and is rejected as well.
     """
+    if not isinstance(quantizer, LinearQuantizer):
+        msg = (
+            f"Parameter '{hf_name}': quantizer is a {type(quantizer).__name__} but GGUF export "
+            "requires a LinearQuantizer"
+        )
+        raise ExportError(msg)
+
     if quant_format.symmetric and not quantizer.symmetric:
         msg = (
             f"Parameter '{hf_name}': quantizer is asymmetric but GGUF format "
@@ -137,6 +144,8 @@ def _validate_quantizer(
         )
         raise ExportError(msg)
 
+    return quantizer
+
 
 def extract_module_tensors(
     model: torch.nn.Module,
@@ -185,9 +194,8 @@ def extract_module_tensors(
         if adapter.is_tied(hf_name, config):
             continue
 
-        quantizer = quantizer_map.get(hf_name)
-        if quantizer is not None:
-            _validate_quantizer(quantizer, quant_format, hf_name)
+        if hf_name in quantizer_map:
+            quantizer = _validate_quantizer(quantizer_map[hf_name], quant_format, hf_name)
             weight = param.data.float()
             quantized = quantizer(weight)
             int_codes = quantized.int_repr().detach().cpu()
-- 
2.43.0


From 1378e9ac131f3c52f06460c0d5d33488c07a7070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:34 +0000
Subject: [PATCH 092/113] fix: refuse GGUF name maps that give two parameters
 the same name

Only the last of them ended up in the file.
---
 src/fastforward/export/stages/gguf/gguf_export_stages.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fastforward/export/stages/gguf/gguf_export_stages.py b/src/fastforward/export/stages/gguf/gguf_export_stages.py
index 504fa29..7e8fdd5 100644
--- a/src/fastforward/export/stages/gguf/gguf_export_stages.py
+++ b/src/fastforward/export/stages/gguf/gguf_export_stages.py
@@ -116,10 +116,18 @@ def stage_map_tensor_names(
     adapter = _require_adapter(context)
 
     named: list[ExtractedTensor] = []
+    hf_names: dict[str, str] = {}
     for tensor in tensors:
         gguf_name = adapter.name_map(tensor.hf_name)
         if gguf_name is None:
             continue
+        if gguf_name in hf_names:
+            msg = (
+                f"Parameters '{hf_names[gguf_name]}' and '{tensor.hf_name}' are both mapped to "
+                f"GGUF tensor '{gguf_name}'"
+            )
+            raise ExportError(msg)
+        hf_names[gguf_name] = tensor.hf_name
         named.append(replace(tensor, gguf_name=gguf_name))
     return named
 
-- 
2.43.0


From c2ca37068de8285148afc9771b52b0a91ae42b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 093/113] fix: attach encodings to the nodes of the ONNX graph
 by origin, not by name

The graph is traced again for the ONNX export, which may rename nodes. Nodes were given the
encoding of the node that had their name before.
---
 .../export/stages/onnx/onnx_export_stages.py  | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/export/stages/onnx/onnx_export_stages.py b/src/fastforward/export/stages/onnx/onnx_export_stages.py
index 83666e8..6e0d9bd 100644
--- a/src/fastforward/export/stages/onnx/onnx_export_stages.py
+++ b/src/fastforward/export/stages/onnx/onnx_export_stages.py
@@ -219,6 +219,31 @@ def extract_qnn_encodings_from_onnx_proto(
     return dict(encoding_schema_handler.build_encodings_dictionary())
 
 
+def _exported_node_names(
+    onnx_program: torch.onnx.ONNXProgram, fx_module: torch.fx.GraphModule
+) -> dict[str, str]:
+    """Map names of nodes in `fx_module` to the names of their values in the ONNX graph.
+
+    The graph module is traced again for the ONNX export and the nodes of the new graph may have
+    different names, in particular a name that another node has in `fx_module`. If a node is
+    decomposed, the last node that originates from it produces its value.
+    """
+    exported_program = getattr(onnx_program, "exported_program", None)
+    if exported_program is None:
+        return {}
+
+    names: dict[str, str] = {}
+    for node in exported_program.graph.nodes:
+        sources = list(node.meta.get("from_node", [])) if node.op == "call_function" else []
+        while sources:
+            source = sources.pop()
+            if getattr(source, "graph_id", None) == id(fx_module.graph):
+                names[source.name] = node.name
+                break
+            sources.extend(getattr(source, "from_node", []))
+    return names
+
+
 class OnnxQuantMetadataAnnotator:
     """Annotate ONNX IR items with quantization metadata derived from FX graph metadata."""
 
@@ -230,6 +255,8 @@ class OnnxQuantMetadataAnnotator:
         self._fx_node_by_target: dict[str, torch.fx.Node] = {}
         self._onnx_nodes_by_name: dict[str, Any] = {}
 
+        exported_names = _exported_node_names(onnx_program, fx_module)
+        self._has_origins = len(exported_names) > 0
         for fx_node in fx_module.graph.nodes:
             if FF_QUANTIZATION_SPEC in fx_node.meta:
                 # FX does not name a node after a builtin, e.g. `input`. In this case, the name
@@ -237,6 +264,7 @@ class OnnxQuantMetadataAnnotator:
                 # of another ONNX node.
                 is_input = fx_node.op == "placeholder"
                 name = str(fx_node.target) if is_input else fx_node.name
+                name = exported_names.get(fx_node.name, name)
                 self._fx_quant_specs[name] = fx_node.meta[FF_QUANTIZATION_SPEC]
             if fx_node.op == "get_attr":
                 self._fx_node_by_target[str(fx_node.target)] = fx_node
@@ -289,7 +317,9 @@ class OnnxQuantMetadataAnnotator:
             if fx_node is not None and fx_node.name in self._fx_quant_specs:
                 return self._fx_quant_specs[fx_node.name]
 
-            from_node_chain = onnx_item.meta.get("from_node", [])
+            # The names in a chain are those of other graphs, in which the same name may belong
+            # to another node. Only rely on these if nothing better is known.
+            from_node_chain = [] if self._has_origins else onnx_item.meta.get("from_node", [])
             for entry in reversed(from_node_chain):
                 if entry.name in self._fx_quant_specs:
                     return self._fx_quant_specs[entry.name]
-- 
2.43.0


From 2d9c9b91b94ea1b0db44990bad7af6c3ad63c1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:46 +0000
Subject: [PATCH 094/113] fix: keep the order of stage inputs if a pipeline is
 edited

Stages receive the results of their dependencies in the order in which these were declared, but
inserting a stage after one of them, or replacing it, moved it to the end.
---
 src/fastforward/export/pipeline/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fastforward/export/pipeline/core.py b/src/fastforward/export/pipeline/core.py
index 33ed274..17b112c 100644
--- a/src/fastforward/export/pipeline/core.py
+++ b/src/fastforward/export/pipeline/core.py
@@ -49,6 +49,10 @@ class StageReference:
             raise KeyError(msg)
         del self._dependencies[dep]
 
+    def _replace_dependency(self, dep: "StageReference", replacement: "StageReference") -> None:
+        """Replace `dep` without changing the order in which the stage receives its inputs."""
+        self._set_dependencies(replacement if d is dep else d for d in self.dependencies)
+
     def __repr__(self) -> str:
         return f"StageReference(stage_fn={self.stage_fn}, name={self.name})"
 
@@ -236,8 +240,7 @@ class Pipeline:
         new_stage = self.register_stage(stage_fn, name, capture_stage_output)
         new_stage.depends_on(target_ref)
         for dependent in existing_dependents:
-            dependent._remove_dependency(target_ref)
-            dependent.depends_on(new_stage)
+            dependent._replace_dependency(target_ref, new_stage)
         return new_stage
 
     def replace_stage(
@@ -294,8 +297,7 @@ class Pipeline:
         new_stage.depends_on(*inherited)
 
         for dependent in dependents:
-            dependent._remove_dependency(target_ref)
-            dependent.depends_on(new_stage)
+            dependent._replace_dependency(target_ref, new_stage)
 
         return new_stage
 
-- 
2.43.0


From c7675c9708835b67efc32736a115e39d0f254f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:46 +0000
Subject: [PATCH 095/113] fix: keep the position of a replaced stage

The replacement was moved to the end, which swapped the operands of the comparison of evaluation
stages and the order of execution of independent stages.
---
 src/fastforward/export/pipeline/core.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/fastforward/export/pipeline/core.py b/src/fastforward/export/pipeline/core.py
index 17b112c..d121db8 100644
--- a/src/fastforward/export/pipeline/core.py
+++ b/src/fastforward/export/pipeline/core.py
@@ -279,23 +279,29 @@ class Pipeline:
             msg = f"Stage name '{new_name}' is already registered"
             raise ValueError(msg)
 
-        was_eval = target_ref in self._evaluation_stages
         was_captured = target_ref in self._result_stages
         capture = capture_stage_output if capture_stage_output is not None else was_captured
 
         inherited = list(target_ref._dependencies)
         dependents = self._dependents_of(target_ref)
 
-        del self._stages[target_ref]
-        self._result_stages.pop(target_ref, None)
-        self._evaluation_stages.pop(target_ref, None)
-
-        if was_eval:
-            new_stage = self.register_eval_stage(stage_fn, new_name, capture)
-        else:
-            new_stage = self.register_stage(stage_fn, new_name, capture)
+        new_stage = StageReference(stage_fn, new_name)
         new_stage.depends_on(*inherited)
 
+        # The order of the stages determines the order of execution, where the dependencies leave
+        # a choice, and the order in which (evaluation) results are reported and compared.
+        def _in_place(stages: dict[StageReference, str]) -> dict[StageReference, str]:
+            replaced = (new_stage if stage is target_ref else stage for stage in stages)
+            return {stage: stage.name for stage in replaced}
+
+        self._stages = _in_place(self._stages)
+        self._evaluation_stages = _in_place(self._evaluation_stages)
+        self._result_stages = _in_place(self._result_stages)
+        if not capture:
+            self._result_stages.pop(new_stage, None)
+        elif not was_captured:
+            self._result_stages[new_stage] = new_stage.name
+
         for dependent in dependents:
             dependent._replace_dependency(target_ref, new_stage)
 
-- 
2.43.0


From d3e51bdf8e89cc346097678085cff53f30f37e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:18 +0000
Subject: [PATCH 096/113] fix: record module inputs and outputs before later
 in-place changes

---
 src/fastforward/export/_io_capture.py | 58 ++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/src/fastforward/export/_io_capture.py b/src/fastforward/export/_io_capture.py
index 37a3724..78b32d7 100644
--- a/src/fastforward/export/_io_capture.py
+++ b/src/fastforward/export/_io_capture.py
@@ -12,7 +12,7 @@ import pathlib
 import pickle
 
 from types import TracebackType
-from typing import Any, overload
+from typing import Any, TypeAlias, overload
 
 import optree
 import torch
@@ -31,7 +31,8 @@ class ModuleIORecorder:
     def __init__(self, module: torch.nn.Module, module_name: str):
         self.module = module
         self.module_name = module_name
-        self.handle: None | torch.utils.hooks.RemovableHandle = None
+        self._handles: tuple[torch.utils.hooks.RemovableHandle, ...] = ()
+        self._arguments: list[_RecordedArguments] = []
 
         self.input: tuple[torch.Tensor, ...]
         self.output: tuple[torch.Tensor, ...]
@@ -41,6 +42,17 @@ class ModuleIORecorder:
         self.output_quantizer_settings: tuple[QuantParametersDict | None, ...]
         self.kwargs_quantizer_settings: dict[str, Any]
 
+    def _record_arguments(
+        self, _: torch.nn.Module, input_: torch.Tensor | tuple[torch.Tensor], kwargs: dict[str, Any]
+    ) -> None:
+        """Record inputs/kwargs before the module can change them.
+
+        This implements PyTorch's forward pre-hook interface (with `with_kwargs=True`). The
+        arguments are only made available once the call completes.
+        """
+        input_ = input_ if isinstance(input_, tuple) else (input_,)
+        self._arguments.append((_deep_dequantize(input_), _deep_dequantize(kwargs)))
+
     def __call__(
         self,
         _: torch.nn.Module,
@@ -51,13 +63,13 @@ class ModuleIORecorder:
         """Logs inputs/outputs/kwargs in dictionary.
 
         This implements PyTorch's forward hook interface (with `with_kwargs=True`),
-        so it is invoked as `hook(module, input_, kwargs, output_)`.
+        so it is invoked as `hook(module, input_, kwargs, output_)`. The inputs and kwargs
+        are those recorded before the call, because the module may have changed its arguments.
         """
-        self.input = input_ if isinstance(input_, tuple) else (input_,)
-        self.kwargs = kwargs
-
-        self.input, self.input_quantizer_settings = _deep_dequantize(self.input)
-        self.kwargs, self.kwargs_quantizer_settings = _deep_dequantize(self.kwargs)
+        del input_, kwargs
+        recorded_input, recorded_kwargs = self._arguments.pop()
+        self.input, self.input_quantizer_settings = recorded_input
+        self.kwargs, self.kwargs_quantizer_settings = recorded_kwargs
 
         # Flatten the output into the same leaf order the export path (torch.export
         # / ONNX) produces, so the stored reference IO is a flat tuple of plain
@@ -72,15 +84,20 @@ class ModuleIORecorder:
 
     def attach(self) -> None:
         """Attach recorder to tracked module."""
-        if self.handle is not None:
+        if self._handles:
             msg = f"Handle for {self} is already attached. Cannot attach a new one."
             raise RuntimeError(msg)
-        self.handle = self.module.register_forward_hook(hook=self, with_kwargs=True)
+        self._handles = (
+            self.module.register_forward_pre_hook(self._record_arguments, with_kwargs=True),
+            self.module.register_forward_hook(hook=self, with_kwargs=True),
+        )
 
     def detach(self) -> None:
         """Remove recorder from tracked module."""
-        if self.handle is not None:
-            self.handle.remove()
+        for handle in self._handles:
+            handle.remove()
+        self._handles = ()
+        self._arguments.clear()
 
     def store_io_as_dict(self, location: pathlib.Path) -> None:
         """Store inputs/outputs/kwargs as a pickle dictionary."""
@@ -116,13 +133,19 @@ def _deep_detach_tensors(pytree: Any) -> Any:
     )
 
 
+def _snapshot(value: Any) -> Any:
+    """Copy `value` if it is a tensor, such that it is unaffected by later in-place changes."""
+    return value.detach().clone() if isinstance(value, torch.Tensor) else value
+
+
 def _dequant_and_get_quantparams(
     tensor: QuantizedTensor,
 ) -> tuple[torch.Tensor, QuantParametersDict]:
     """Dequantize a tensor and extract its quantization parameters."""
     quant_args = tensor.quant_args()
     assert isinstance(quant_args, StaticAffineQuantParams)
-    scale, offset, num_bits = quant_args.scale, quant_args.offset, quant_args.num_bits
+    scale, offset = _snapshot(quant_args.scale), _snapshot(quant_args.offset)
+    num_bits = quant_args.num_bits
     raw_tile_size = quant_args.granularity.tile_size(tensor.shape)
     tile_size = tensor.shape if raw_tile_size == "data_shape" else raw_tile_size
 
@@ -161,11 +184,16 @@ def _dequantize_leaves(
             dequantized.append(dequant_tensor)
             quantizer_settings.append(quant_setting)
         else:
-            dequantized.append(leaf)
+            dequantized.append(_snapshot(leaf))
             quantizer_settings.append(None)
     return tuple(dequantized), tuple(quantizer_settings)
 
 
+_RecordedArguments: TypeAlias = tuple[
+    tuple[tuple[Any, ...], tuple[QuantParametersDict | None, ...]],
+    tuple[dict[str, Any], dict[str, QuantParametersDict | None]],
+]
+
 _StructedQuantParams = (
     optree.PyTree[QuantParametersDict | None]
     | tuple[QuantParametersDict | None, ...]
@@ -222,7 +250,7 @@ def _deep_dequantize(
             dequantized_flat_args.append(dequant_tensor)
             quantizer_settings.append(quantizer_setting)
         else:
-            dequantized_flat_args.append(arg)
+            dequantized_flat_args.append(_snapshot(arg))
             quantizer_settings.append(None)
 
     new_pytree = optree.tree_unflatten(treespec, dequantized_flat_args)
-- 
2.43.0


From 04767c69ea38187db7f91ec32cb97425c8e299b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:01 +0000
Subject: [PATCH 097/113] fix: detach recorders and clear encodings if a module
 export fails

---
 src/fastforward/export/module_export.py | 88 ++++++++++++-------------
 1 file changed, 43 insertions(+), 45 deletions(-)

diff --git a/src/fastforward/export/module_export.py b/src/fastforward/export/module_export.py
index 18ed40c..7af3af7 100644
--- a/src/fastforward/export/module_export.py
+++ b/src/fastforward/export/module_export.py
@@ -135,16 +135,12 @@ def export_modules(
                 module_output_path / f"{rec.module_name}_nonquantized_input_output.pickle"
             )
 
-    module_io_recorders: list[ModuleIORecorder] = []
-    for module_name, module in modules.items():
-        module_io_recorder = ModuleIORecorder(module, module_name)
-        module_io_recorders.append(module_io_recorder)
-        module_io_recorder.attach()
-
-    model(*args, **kwargs)
-
-    for module_io_recorder in module_io_recorders:
-        module_io_recorder.detach()
+    with ExitStack() as stack:
+        module_io_recorders = [
+            stack.enter_context(ModuleIORecorder(module, module_name))
+            for module_name, module in modules.items()
+        ]
+        model(*args, **kwargs)
 
     paths: dict[str, pathlib.Path] = {}
 
@@ -160,43 +156,45 @@ def export_modules(
 
         onnx_options = onnx_export_options or {}
 
-        export(
-            module,
-            module_input_data,
-            module_output_path,
-            module_name,
-            target=target,
-            format=format,
-            model_kwargs=module_input_kwargs,
-            verbose=verbose,
-            encoding_schema_handler=encoding_schema_handler,
-            alter_node_names=alter_node_names,
-            onnx_export_options=onnx_options,
-            pipeline_factory=pipeline_factory,
-            orchestrator=orchestrator,
-            registry=registry,
-        )
-
-        module_input_quantizer_settings = module_io_recorder.input_quantizer_settings
-        module_output_quantizer_settings = module_io_recorder.output_quantizer_settings
-        module_kwargs_quantizer_settings = module_io_recorder.kwargs_quantizer_settings
-        quantizer_settings = {
-            "input": module_input_quantizer_settings,
-            "output": module_output_quantizer_settings,
-            "kwargs": module_kwargs_quantizer_settings,
-        }
-        maybe_extend_encodings_file(
-            module_name, module_output_path, quantizer_settings, encoding_schema_handler
-        )
-
-        input_output_location = module_output_path / f"{module_name}_input_output.pickle"
-        module_io_recorder.store_io_as_dict(input_output_location)
+        try:
+            export(
+                module,
+                module_input_data,
+                module_output_path,
+                module_name,
+                target=target,
+                format=format,
+                model_kwargs=module_input_kwargs,
+                verbose=verbose,
+                encoding_schema_handler=encoding_schema_handler,
+                alter_node_names=alter_node_names,
+                onnx_export_options=onnx_options,
+                pipeline_factory=pipeline_factory,
+                orchestrator=orchestrator,
+                registry=registry,
+            )
+
+            module_input_quantizer_settings = module_io_recorder.input_quantizer_settings
+            module_output_quantizer_settings = module_io_recorder.output_quantizer_settings
+            module_kwargs_quantizer_settings = module_io_recorder.kwargs_quantizer_settings
+            quantizer_settings = {
+                "input": module_input_quantizer_settings,
+                "output": module_output_quantizer_settings,
+                "kwargs": module_kwargs_quantizer_settings,
+            }
+            maybe_extend_encodings_file(
+                module_name, module_output_path, quantizer_settings, encoding_schema_handler
+            )
+
+            input_output_location = module_output_path / f"{module_name}_input_output.pickle"
+            module_io_recorder.store_io_as_dict(input_output_location)
+        finally:
+            # Since we are using the same handler, we need to clear the entries once the
+            # process is complete for each modules. Otherwise, there can be duplicate entries
+            # and overriding of encodings from one module to the next.
+            encoding_schema_handler.clear()
 
         paths[module_name] = module_output_path
-        # Since we are using the same handler, we need to clear the entries once the
-        # process is complete for each modules. Otherwise, there can be duplicate entries
-        # and overriding of encodings from one module to the next.
-        encoding_schema_handler.clear()
 
     return paths
 
-- 
2.43.0


From 283f4015e2c1ba4fbda908d4569186f58a45ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:21 +0000
Subject: [PATCH 098/113] fix: match encodings of structured and non-tensor
 arguments with graph inputs

---
 src/fastforward/export/_io_capture.py   | 59 ++++++++++++++-----------
 src/fastforward/export/module_export.py | 48 ++++++++------------
 2 files changed, 53 insertions(+), 54 deletions(-)

diff --git a/src/fastforward/export/_io_capture.py b/src/fastforward/export/_io_capture.py
index 78b32d7..20e0dea 100644
--- a/src/fastforward/export/_io_capture.py
+++ b/src/fastforward/export/_io_capture.py
@@ -14,7 +14,6 @@ import pickle
 from types import TracebackType
 from typing import Any, TypeAlias, overload
 
-import optree
 import torch
 import torch.utils._pytree as pytree
 
@@ -125,11 +124,11 @@ class ModuleIORecorder:
         self.detach()
 
 
-def _deep_detach_tensors(pytree: Any) -> Any:
+def _deep_detach_tensors(tree: Any) -> Any:
     """Detach all tensors in a pytree to avoid exporting non-leaf tensors."""
-    return optree.tree_map(
+    return pytree.tree_map(
         lambda value: value.detach() if isinstance(value, torch.Tensor) else value,
-        pytree,
+        tree,
     )
 
 
@@ -194,34 +193,20 @@ _RecordedArguments: TypeAlias = tuple[
     tuple[dict[str, Any], dict[str, QuantParametersDict | None]],
 ]
 
-_StructedQuantParams = (
-    optree.PyTree[QuantParametersDict | None]
-    | tuple[QuantParametersDict | None, ...]
-    | dict[str, QuantParametersDict | None]
-)
-
 
 @overload
 def _deep_dequantize(
-    pytree: tuple[Any, ...],
+    tree: tuple[Any, ...],
 ) -> tuple[tuple[Any, ...], tuple[QuantParametersDict | None, ...]]: ...
 
 
 @overload
 def _deep_dequantize(
-    pytree: dict[str, Any],
+    tree: dict[str, Any],
 ) -> tuple[dict[str, Any], dict[str, QuantParametersDict | None]]: ...
 
 
-@overload
-def _deep_dequantize(
-    pytree: optree.PyTree[Any],
-) -> tuple[optree.PyTree[Any], optree.PyTree[QuantParametersDict | None]]: ...
-
-
-def _deep_dequantize(
-    pytree: optree.PyTree[Any] | tuple[Any, ...] | dict[str, Any],
-) -> tuple[optree.PyTree[Any] | tuple[Any, ...] | dict[str, Any], _StructedQuantParams]:
+def _deep_dequantize(tree: tuple[Any, ...] | dict[str, Any]) -> tuple[Any, Any]:
     """Dequantizes tensors in a PyTree structure.
 
     The output tensors of quantized modules will usually be returned
@@ -233,7 +218,7 @@ def _deep_dequantize(
     file.
 
     Args:
-        pytree: A PyTree structure that may contain `QuantizedTensor`s
+        tree: A PyTree structure that may contain `QuantizedTensor`s
             at any level of nesting.
 
     Returns:
@@ -242,7 +227,7 @@ def _deep_dequantize(
     """
     quantizer_settings: list[Any] = []
     dequantized_flat_args: list[Any] = []
-    flat_args, treespec = optree.tree_flatten(pytree)  # type: ignore[arg-type]
+    flat_args, treespec = pytree.tree_flatten(tree)
 
     for arg in flat_args:
         if isinstance(arg, QuantizedTensor):
@@ -253,7 +238,31 @@ def _deep_dequantize(
             dequantized_flat_args.append(_snapshot(arg))
             quantizer_settings.append(None)
 
-    new_pytree = optree.tree_unflatten(treespec, dequantized_flat_args)
-    quantizer_pytree = optree.tree_unflatten(treespec, quantizer_settings)
+    new_pytree = pytree.tree_unflatten(dequantized_flat_args, treespec)
+    quantizer_pytree = pytree.tree_unflatten(quantizer_settings, treespec)
 
     return new_pytree, quantizer_pytree
+
+
+def tensor_quantizer_settings(
+    values: Any, quantizer_settings: Any
+) -> tuple[QuantParametersDict | None, ...]:
+    """Collect the quantizer settings of all tensors in a PyTree.
+
+    Only the tensors in the (flattened) arguments and outputs of a module are inputs and
+    outputs of its exported graph.
+
+    Args:
+        values: A PyTree structure without `QuantizedTensor`s.
+        quantizer_settings: PyTree with the same structure as `values` that contains the
+            quantizer settings of each element (None for non-quantized tensors).
+
+    Returns:
+        The quantizer settings of each tensor in `values`, in the order of the inputs or outputs
+        of an exported graph.
+    """
+    leaves, treespec = pytree.tree_flatten(values)
+    leaf_settings = treespec.flatten_up_to(quantizer_settings)
+    return tuple(
+        settings for leaf, settings in zip(leaves, leaf_settings) if isinstance(leaf, torch.Tensor)
+    )
diff --git a/src/fastforward/export/module_export.py b/src/fastforward/export/module_export.py
index 7af3af7..064eeeb 100644
--- a/src/fastforward/export/module_export.py
+++ b/src/fastforward/export/module_export.py
@@ -31,6 +31,7 @@ from fastforward.export._io_capture import (
 )
 from fastforward.export._io_capture import (
     _deep_detach_tensors,
+    tensor_quantizer_settings,
 )
 from fastforward.export.pipeline import ExportOrchestrator, PipelineRegistry
 from fastforward.export.pipeline.core import Pipeline
@@ -174,13 +175,19 @@ def export_modules(
                 registry=registry,
             )
 
-            module_input_quantizer_settings = module_io_recorder.input_quantizer_settings
-            module_output_quantizer_settings = module_io_recorder.output_quantizer_settings
-            module_kwargs_quantizer_settings = module_io_recorder.kwargs_quantizer_settings
+            module_input_quantizer_settings = tensor_quantizer_settings(
+                (module_io_recorder.input, module_io_recorder.kwargs),
+                (
+                    module_io_recorder.input_quantizer_settings,
+                    module_io_recorder.kwargs_quantizer_settings,
+                ),
+            )
+            module_output_quantizer_settings = tensor_quantizer_settings(
+                module_io_recorder.output, module_io_recorder.output_quantizer_settings
+            )
             quantizer_settings = {
                 "input": module_input_quantizer_settings,
                 "output": module_output_quantizer_settings,
-                "kwargs": module_kwargs_quantizer_settings,
             }
             maybe_extend_encodings_file(
                 module_name, module_output_path, quantizer_settings, encoding_schema_handler
@@ -219,7 +226,8 @@ def maybe_extend_encodings_file(
     Args:
         module_name: Name of the module.
         path: Path where the module output directory is stored.
-        quantizer_settings: The quantizer settings gathered during inference.
+        quantizer_settings: The quantizer settings gathered during inference for each
+            input ("input") and each output ("output") of the exported graph.
         encoding_schema_handler: Object for choosing and creating the appropriate QNN encodings
             file schema
     """
@@ -237,33 +245,16 @@ def maybe_extend_encodings_file(
     )
 
     quantizer_input_settings = quantizer_settings["input"]
-    quantizer_kwargs_settings = quantizer_settings["kwargs"]
     ort_session_inputs = ort_session.get_inputs()
 
-    # Iterate first through all the graph inputs. In the case we find that the
-    # input name exists in the kwargs quantizer settings, then we know that
-    # the argument was passed as kwarg, and we assign its stored encoding.
-    # If it is not found in the kwargs we consider it to be a positional input
-    # instead. We perform the same check (whether the quantizer settings are
-    # not None) and we add the settings to the schema handler.
-
-    # NB: We consider that the order of the positional arguments is the same
-    # for the torch module and the ONNX graph.
-    quantizer_kwargs_keys = list(quantizer_kwargs_settings.keys())
-    positional_input_idx = 0
-    for ort_input in ort_session_inputs:
-        # First check if the input is defined as kwarg and if that is quantized.
-        quant_settings = quantizer_kwargs_settings.get(ort_input.name)
-        if quant_settings is not None:
-            encoding_schema_handler.add_encoding(ort_input.name, quant_settings, False)
-        # Then the input was passed as a positional argument, or there are no positional
-        # inputs. We check if the input was quantized and iterate over the input quantizer
-        # settings.
-        elif positional_input_idx < len(quantizer_input_settings):
-            quant_settings = quantizer_input_settings[positional_input_idx]
+    # The inputs of the graph are the tensors in the (flattened) positional and keyword
+    # arguments, in that order. For each input that is quantized, the settings are added to
+    # the schema handler.
+    for input_idx, ort_input in enumerate(ort_session_inputs):
+        if input_idx < len(quantizer_input_settings):
+            quant_settings = quantizer_input_settings[input_idx]
             if quant_settings is not None:
                 encoding_schema_handler.add_encoding(ort_input.name, quant_settings, False)
-            positional_input_idx += 1
         else:
             if frame := inspect.currentframe():
                 function_name = f"{__name__}.{frame.f_code.co_name}"
@@ -272,7 +263,6 @@ def maybe_extend_encodings_file(
             msg = (
                 f"[{function_name}] Input mapping not found (this is NOT necessarily an error):\n"
                 f"  • Input: '{ort_input.name}' (module: '{module_name}')\n"
-                f"  • Available kwargs: {quantizer_kwargs_keys}\n"
                 f"  • Args exhausted: range({len(quantizer_input_settings)})\n"
                 f"  • Causes: missing quantizer | pruned export | graph change\n"
                 f"  • Action: skipping encodings entry\n"
-- 
2.43.0


From bcd69152562548b425142811b96513c0e61a7091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 099/113] fix: export modules whose last positional argument is
 a dictionary

---
 src/fastforward/export/stages/onnx/onnx_export_stages.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastforward/export/stages/onnx/onnx_export_stages.py b/src/fastforward/export/stages/onnx/onnx_export_stages.py
index 6e0d9bd..0c7f6da 100644
--- a/src/fastforward/export/stages/onnx/onnx_export_stages.py
+++ b/src/fastforward/export/stages/onnx/onnx_export_stages.py
@@ -389,6 +389,9 @@ def stage_fx_to_onnx_program(
         raise ValueError(msg)
 
     sample_args, sample_kwargs = sample_inputs[0]
+    if not sample_kwargs and sample_args and isinstance(sample_args[-1], dict):
+        # A dictionary at the end of `args` is interpreted as keyword arguments.
+        sample_args = (*sample_args, {})
 
     onnx_export_options = context.get("onnx_export_options", {})
     if not isinstance(onnx_export_options, dict):
-- 
2.43.0


From 25e6d0e97c5681c259b21d94fe68871712b3fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 100/113] fix: discover the weights of all modules that share a
 quantizer

---
 src/fastforward/quantization/fuse.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/quantization/fuse.py b/src/fastforward/quantization/fuse.py
index 83d6735..01ac5ed 100644
--- a/src/fastforward/quantization/fuse.py
+++ b/src/fastforward/quantization/fuse.py
@@ -54,8 +54,8 @@ class ConventionDiscovery:
     """Discover weight quantizers by the FastForward naming/tagging convention.
 
     Uses `find_quantizers` with an mpath tag query to locate initialized
-    quantizers, then resolves the owning module and weight parameter via the
-    `FilterResult.parent` and a configurable weight attribute name.
+    quantizers, then resolves the owning modules and weight parameters via the
+    parents of the quantizer and a configurable weight attribute name.
 
     This relies on no forward pass and matches how quantized modules such as
     `QuantizedLinear`, `QuantizedConv{1,2}d` and `QuantizedEmbedding` wire their
@@ -80,12 +80,15 @@ class ConventionDiscovery:
             if quantizer.is_stub():
                 continue
 
-            parent = result.parent
-            weight = getattr(parent, self._weight_attr, None)
-            if not isinstance(weight, torch.nn.Parameter):
-                continue
+            # A quantizer that is shared between modules is found only once.
+            for parent in model.modules():
+                if not any(child is quantizer for child in parent.children()):
+                    continue
+                weight = getattr(parent, self._weight_attr, None)
+                if not isinstance(weight, torch.nn.Parameter):
+                    continue
 
-            yield parent, self._weight_attr, quantizer
+                yield parent, self._weight_attr, quantizer
 
 
 def _fuse_target(
-- 
2.43.0


From 4c1f19409f5a3f20018a0af3d5166f1b9ebff6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 101/113] fix: refuse to fuse weights that are tied to
 unquantized or differently laid out uses

---
 src/fastforward/quantization/fuse.py | 67 +++++++++++++++++-----------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/src/fastforward/quantization/fuse.py b/src/fastforward/quantization/fuse.py
index 01ac5ed..455a057 100644
--- a/src/fastforward/quantization/fuse.py
+++ b/src/fastforward/quantization/fuse.py
@@ -143,7 +143,7 @@ def _stub_target(module: torch.nn.Module, quantizer: Quantizer) -> None:
 def _check_tied_weight_targets(
     model: torch.nn.Module, targets: list[WeightQuantizerTarget]
 ) -> None:
-    """Reject tied weights whose quantizers would snap them to different grids.
+    """Reject tied weights that would be wrong for one of their modules once fused.
 
     Fusing walks each target independently and writes into the weight in place.
     When two modules share one weight `Parameter` (e.g. a tied
@@ -161,14 +161,24 @@ def _check_tied_weight_targets(
 
     Raises:
         QuantizationError: If a tied weight is snapped by quantizers that
-            disagree on the grid.
+            disagree on the grid, or is also used without quantization.
     """
-    by_storage: dict[tuple[int, torch.Size], list[WeightQuantizerTarget]] = defaultdict(list)
+    module_names = {id(submodule): name for name, submodule in model.named_modules()}
+
+    # The storage is compared because weights may be tied through views (e.g. transposed).
+    by_storage: dict[int, list[tuple[str, torch.Tensor, Quantizer | None]]] = defaultdict(list)
     for module, weight_attr, quantizer in targets:
         weight = getattr(module, weight_attr)
-        by_storage[(weight.data_ptr(), weight.shape)].append((module, weight_attr, quantizer))
+        name = f"{module_names.get(id(module), type(module).__name__)}.{weight_attr}"
+        by_storage[weight.untyped_storage().data_ptr()].append((name, weight, quantizer))
 
-    module_names = {id(submodule): name for name, submodule in model.named_modules()}
+    # Parameters that are not quantized must keep their value.
+    target_weights = {(id(module), weight_attr) for module, weight_attr, _ in targets}
+    for module_name, submodule in model.named_modules():
+        for attr, param in submodule.named_parameters(recurse=False, remove_duplicate=False):
+            data_ptr = param.untyped_storage().data_ptr()
+            if data_ptr in by_storage and (id(submodule), attr) not in target_weights:
+                by_storage[data_ptr].append((f"{module_name}.{attr}", param, None))
 
     for group in by_storage.values():
         if len(group) == 1:
@@ -176,27 +186,32 @@ def _check_tied_weight_targets(
 
         # Compare the actual QDQ output rather than the quantizer configuration:
         # differently-configured quantizers may still agree on the grid, and only
-        # a disagreement corrupts the weight.
-        weight = getattr(group[0][0], group[0][1])
-        reference: torch.Tensor | None = None
-        for module, weight_attr, quantizer in group:
-            with ff.strict_quantization(False):
-                qdq_weight = quantizer(weight).dequantize()
-            if reference is None:
-                reference = qdq_weight
-            elif not torch.equal(reference, qdq_weight):
-                names = ", ".join(
-                    f"{module_names.get(id(module), type(module).__name__)}.{weight_attr}"
-                    for module, weight_attr, _ in group
-                )
-                msg = (
-                    f"Cannot fuse QDQ weights: the weight shared by [{names}] is tied "
-                    "across modules whose weight quantizers snap it to different grids, "
-                    "so fusing would leave it correct for at most one of them. Untie the "
-                    "weights (assign each module its own copy of the parameter), or share "
-                    "a single quantizer instance between them so both agree on the grid."
-                )
-                raise QuantizationError(msg)
+        # a disagreement corrupts the weight. All outputs are written to a copy of
+        # the storage, in which each weight must end up with its own QDQ values.
+        storage = group[0][1].detach().untyped_storage().clone()
+        fused: list[tuple[torch.Tensor, torch.Tensor]] = []
+        for _, weight, tied_quantizer in group:
+            expected = weight.detach().clone()
+            if tied_quantizer is not None:
+                with ff.strict_quantization(False), torch.no_grad():
+                    expected.copy_(tied_quantizer(weight).dequantize())
+            scratch = torch.empty(0, dtype=weight.dtype, device=weight.device)
+            scratch.set_(storage, weight.storage_offset(), weight.shape, weight.stride())
+            if tied_quantizer is not None:
+                scratch.copy_(expected)
+            fused.append((scratch, expected))
+
+        if not all(torch.equal(scratch, expected) for scratch, expected in fused):
+            names = ", ".join(name for name, _, _ in group)
+            msg = (
+                f"Cannot fuse QDQ weights: the weight shared by [{names}] is tied "
+                "across modules of which some use it without quantization or whose weight "
+                "quantizers snap it to different grids, so fusing would leave it correct for only some of "
+                "them. Untie the weights (assign each module its own copy of the "
+                "parameter), or share a single quantizer instance between them so all "
+                "agree on the grid."
+            )
+            raise QuantizationError(msg)
 
 
 def fuse_qdq_weights(
-- 
2.43.0


From ec0b97124cdc38bad15f49fbf97a788538510672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 102/113] fix: do not fuse or freeze weights of disabled
 quantizers that are not float32

Tensor.dequantize converts tensors that are not quantized to float32, so the result of a disabled
quantizer was not recognized.
---
 src/fastforward/quantization/freeze.py |  8 +++++++-
 src/fastforward/quantization/fuse.py   | 23 +++++++++++++++++------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/fastforward/quantization/freeze.py b/src/fastforward/quantization/freeze.py
index 7fe2fcd..08504c6 100644
--- a/src/fastforward/quantization/freeze.py
+++ b/src/fastforward/quantization/freeze.py
@@ -10,6 +10,8 @@ import torch
 
 import fastforward as ff
 
+from fastforward.quantized_tensor import QuantizedTensor
+
 
 class _FreezeParametersOverride:
     """Override that quantizes parameters in-place and replaces quantizers with stubs."""
@@ -41,7 +43,7 @@ class _FreezeParametersOverride:
         if not isinstance(input_data, torch.nn.Parameter):
             # Only parameters are frozen, quantizers of other tensors remain as they are.
             return callback(*args, **kwargs)
-        quantized = callback(input_data).dequantize()
+        quantized = callback(input_data)
 
         if quantized is input_data:
             # When the quantizer callback returns the input unchanged (e.g., when
@@ -50,6 +52,10 @@ class _FreezeParametersOverride:
             # since they would be no-ops.
             return input_data
 
+        # `dequantize()` converts other tensors to float32.
+        if isinstance(quantized, QuantizedTensor):
+            quantized = quantized.dequantize()
+
         # Update parameter in-place
         with torch.no_grad():
             input_data.copy_(quantized)
diff --git a/src/fastforward/quantization/fuse.py b/src/fastforward/quantization/fuse.py
index 455a057..47da64d 100644
--- a/src/fastforward/quantization/fuse.py
+++ b/src/fastforward/quantization/fuse.py
@@ -29,6 +29,7 @@ import fastforward as ff
 
 from fastforward.exceptions import QuantizationError
 from fastforward.nn.quantizer import Quantizer, QuantizerStub
+from fastforward.quantized_tensor import QuantizedTensor
 
 # A single weight-fuse target: the module owning the weight, the attribute name
 # of the weight parameter on that module, and the quantizer that snaps it.
@@ -91,6 +92,19 @@ class ConventionDiscovery:
                 yield parent, self._weight_attr, quantizer
 
 
+def _qdq(quantizer: Quantizer, weight: torch.Tensor) -> torch.Tensor:
+    """Quantize and dequantize `weight`.
+
+    Returns `weight` itself if the quantizer is a no-op, e.g. because it is disabled.
+    """
+    # Disable strict quantization: the quantizer returns a QuantizedTensor which
+    # we immediately dequantize to a regular tensor.
+    with ff.strict_quantization(False):
+        quantized = quantizer(weight)
+    # `dequantize()` converts other tensors to float32.
+    return quantized.dequantize() if isinstance(quantized, QuantizedTensor) else quantized
+
+
 def _fuse_target(
     module: torch.nn.Module,
     weight_attr: str,
@@ -108,10 +122,7 @@ def _fuse_target(
             `QuantizerStub` after snapping the weight.
     """
     weight = getattr(module, weight_attr)
-    # Disable strict quantization: the quantizer returns a QuantizedTensor which
-    # we immediately dequantize to a regular tensor.
-    with ff.strict_quantization(False):
-        qdq_weight = quantizer(weight).dequantize()
+    qdq_weight = _qdq(quantizer, weight)
 
     if qdq_weight is weight:
         # The quantizer was a no-op (e.g. disabled); nothing to fuse or stub.
@@ -193,8 +204,8 @@ def _check_tied_weight_targets(
         for _, weight, tied_quantizer in group:
             expected = weight.detach().clone()
             if tied_quantizer is not None:
-                with ff.strict_quantization(False), torch.no_grad():
-                    expected.copy_(tied_quantizer(weight).dequantize())
+                with torch.no_grad():
+                    expected.copy_(_qdq(tied_quantizer, weight))
             scratch = torch.empty(0, dtype=weight.dtype, device=weight.device)
             scratch.set_(storage, weight.storage_offset(), weight.shape, weight.stride())
             if tied_quantizer is not None:
-- 
2.43.0


From 959fa262242feea6c236695670c0a28229cb038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 103/113] fix: do not evaluate operands of lambdas,
 comparisons, boolean operations and asserts early in autoquant

---
 src/fastforward/_autoquant/cst/passes.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_autoquant/cst/passes.py b/src/fastforward/_autoquant/cst/passes.py
index 583e6a3..47ea242 100644
--- a/src/fastforward/_autoquant/cst/passes.py
+++ b/src/fastforward/_autoquant/cst/passes.py
@@ -525,7 +525,16 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
         result = _tmp_2 + _tmp_3
     """
 
-    _SKIP_ISOLATION_NODES = (libcst.BaseComp, libcst.IfExp)
+    # Parts of these nodes are evaluated conditionally, later or repeatedly, and must
+    # not be moved to the statement before.
+    _SKIP_ISOLATION_NODES = (
+        libcst.BaseComp,
+        libcst.IfExp,
+        libcst.Lambda,
+        libcst.BooleanOperation,
+        libcst.Comparison,
+        libcst.Assert,
+    )
 
     # _visit_stack is a stack of nodes that are currently visited, a node is
     # added to the stack after visit and popped from the stack before leave.
@@ -546,6 +555,7 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
         self._insertions = _Insertions()
         self._nested_in_no_isolation_subtree = 0
         self._count = 1
+        self._used_names: set[str] = set()
 
     def parent(self) -> libcst.CSTNode | None:
         """Parent of the deepest node currently being explored.
@@ -558,6 +568,9 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
 
     @override
     def on_visit(self, node: libcst.CSTNode) -> bool:
+        if not self._visit_stack:
+            names = m.findall(node, m.Name())
+            self._used_names = {cast(libcst.Name, name).value for name in names}
         visit_children = super().on_visit(node)
         self._visit_stack.append(node)
         if isinstance(node, self._SKIP_ISOLATION_NODES):
@@ -661,6 +674,8 @@ class IsolateReplacementCandidates(libcst.CSTTransformer):
         if self._is_nested_in_no_isolation_subtree():
             return updated_node
 
+        while f"_tmp_{self._count}" in self._used_names:
+            self._count += 1
         assign_name = libcst.Name(f"_tmp_{self._count}")
         self._count += 1
         assign_target = libcst.AssignTarget(assign_name)
-- 
2.43.0


From facc5365b1967c15983a9e372bd594d674369a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 104/113] fix: pass separate quantizers for each call of a
 nested helper in autoquant

---
 src/fastforward/_autoquant/autoquant.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_autoquant/autoquant.py b/src/fastforward/_autoquant/autoquant.py
index 69f84f0..d9b6a25 100644
--- a/src/fastforward/_autoquant/autoquant.py
+++ b/src/fastforward/_autoquant/autoquant.py
@@ -507,10 +507,13 @@ class _QuantizerRefTrace:
              For example, (func_a, func_b, func_c) means the quantizer originated in func_a,
              was passed to func_b, and then to func_c.
         ref: The quantizer reference object that is being tracked through the call graph.
+        sites: The calls through which the quantizer propagated along `src`. A function that is
+             called twice needs separate quantizers for each call.
     """
 
     src: tuple[_FuncRef, ...]
     ref: nodes.QuantizerReference
+    sites: tuple[nodes.UnresolvedQuantizedCall, ...] = ()
 
 
 @dataclasses.dataclass
@@ -788,11 +791,15 @@ def _propagate_quantizers(func_specs: dict[_FuncRef, _QuantizedFunctionSpec]) ->
                         if func_ref in quant_arg.src:
                             idx = quant_arg.src.index(func_ref)
                             new_src = quant_arg.src[: idx + 1]
+                            new_sites = quant_arg.sites[:idx]
                         else:
                             # Extend source path to track propagation chain.
                             new_src = quant_arg.src + (func_ref,)
+                            new_sites = quant_arg.sites + (unresolved_call,)
 
-                        new_call_args.append(_QuantizerRefTrace(src=new_src, ref=quant_arg.ref))
+                        new_call_args.append(
+                            _QuantizerRefTrace(src=new_src, ref=quant_arg.ref, sites=new_sites)
+                        )
 
                 # Update call args if new quantizers were discovered
                 if new_call_args != call_args:
-- 
2.43.0


From 1d1a48ba697e80b5b03d77986a173993434006e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:00 +0000
Subject: [PATCH 105/113] fix: quantize expressions at their use when their
 value may change or they may not be evaluated

---
 .../cst/quantizer_analysis/hoisting.py        | 318 ++++++++++++++++++
 .../cst/quantizer_analysis/transformer.py     | 163 +++++----
 2 files changed, 422 insertions(+), 59 deletions(-)
 create mode 100644 src/fastforward/_autoquant/cst/quantizer_analysis/hoisting.py

diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/hoisting.py b/src/fastforward/_autoquant/cst/quantizer_analysis/hoisting.py
new file mode 100644
index 0000000..0371bb7
--- /dev/null
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/hoisting.py
@@ -0,0 +1,318 @@
+# Copyright (c) Qualcomm Technologies, Inc. and/or its subsidiaries.
+# SPDX-License-Identifier: BSD-3-Clause-Clear
+
+"""Decide whether an expression may be evaluated once, before the statement that uses it first.
+
+Evaluating an expression early, or once for several uses, is only valid if it is evaluated anyway
+and if none of the statements up to its last use changes its value.
+"""
+
+from collections.abc import Callable, Sequence
+
+import libcst
+import libcst.matchers as m
+
+from typing_extensions import override
+
+from fastforward._autoquant.cst import nodes
+
+_Matches = Callable[[libcst.CSTNode], bool]
+
+# Expressions of which parts are evaluated conditionally, later, or repeatedly.
+_DEFERRED = (
+    libcst.BaseComp,
+    libcst.BooleanOperation,
+    libcst.FunctionDef,
+    libcst.ClassDef,
+    libcst.IfExp,
+    libcst.Lambda,
+)
+# Nodes of which parts may be evaluated when the statement that they are in has been executed.
+_LATE = (libcst.ClassDef, libcst.FunctionDef, libcst.GeneratorExp, libcst.Lambda)
+_JUMPS = (libcst.Return, libcst.Raise, libcst.Break, libcst.Continue)
+
+
+class _Finder(libcst.CSTVisitor):
+    """Finds nodes, optionally only those that are certain to be evaluated."""
+
+    def __init__(self, matches: _Matches, skip: tuple[type[libcst.CSTNode], ...]) -> None:
+        super().__init__()
+        self._matches = matches
+        self._skip = skip
+        self.found = False
+
+    @override
+    def on_visit(self, node: libcst.CSTNode) -> bool:
+        if self.found or isinstance(node, self._skip):
+            return False
+        if self._skip and isinstance(node, libcst.Comparison) and len(node.comparisons) > 1:
+            return False
+        self.found = self._matches(node)
+        return not self.found
+
+
+def _contains(
+    node: libcst.CSTNode | None, matches: _Matches, skip: tuple[type[libcst.CSTNode], ...] = ()
+) -> bool:
+    if node is None:
+        return False
+    node.visit(finder := _Finder(matches, skip))
+    return finder.found
+
+
+def _always_evaluates(node: libcst.CSTNode | None, matches: _Matches) -> bool:
+    """Returns True if a matching node is evaluated whenever `node` is executed."""
+    match node:
+        case None | libcst.FunctionDef() | libcst.ClassDef() | libcst.Assert():
+            return False
+        case libcst.If():
+            return _always_evaluates(node.test, matches) or (
+                _always_evaluates(node.body, matches) and _always_evaluates(node.orelse, matches)
+            )
+        case libcst.Else():
+            return _always_evaluates(node.body, matches)
+        case libcst.For():
+            return _always_evaluates(node.iter, matches)
+        case libcst.While():
+            return _always_evaluates(node.test, matches)
+        case libcst.Match():
+            return _always_evaluates(node.subject, matches)
+        case libcst.With():
+            return any(_always_evaluates(n, matches) for n in (*node.items, node.body))
+        case libcst.Try() | libcst.TryStar():
+            return False
+        case libcst.IndentedBlock():
+            for statement in node.body:
+                if _always_evaluates(statement, matches):
+                    return True
+                # A statement may leave the block before the remainder is reached.
+                if not isinstance(statement, libcst.SimpleStatementLine):
+                    if _contains(statement, lambda n: isinstance(n, _JUMPS)):
+                        return False
+            return False
+        case _:
+            return _contains(node, matches, skip=_DEFERRED)
+
+
+class _Dependencies(libcst.CSTVisitor):
+    """Collects what an expression reads."""
+
+    def __init__(self) -> None:
+        super().__init__()
+        self.names: set[str] = set()
+        self.attributes: set[str] = set()
+
+    @override
+    def visit_Attribute(self, node: libcst.Attribute) -> bool:
+        self.attributes.add(node.attr.value)
+        node.value.visit(self)
+        return False
+
+    @override
+    def visit_Name(self, node: libcst.Name) -> bool:
+        self.names.add(node.value)
+        return False
+
+
+def _root(node: libcst.CSTNode) -> libcst.CSTNode:
+    while isinstance(node, (libcst.Attribute, libcst.Subscript)):
+        node = node.value
+    return node
+
+
+class _ChangeFinder(libcst.CSTVisitor):
+    """Looks for anything by which the value of an expression may change."""
+
+    def __init__(self, deps: _Dependencies, is_use: _Matches) -> None:
+        super().__init__()
+        self._deps = deps
+        self._is_use = is_use
+        self.found = False
+
+    @override
+    def on_visit(self, node: libcst.CSTNode) -> bool:
+        if self.found or (isinstance(node, libcst.BaseExpression) and self._is_use(node)):
+            return False
+        return super().on_visit(node)
+
+    def store(self, target: libcst.CSTNode) -> None:
+        """Handle a node that is assigned to."""
+        match target:
+            case libcst.Name(value=name):
+                self.found |= name in self._deps.names
+            case libcst.Attribute(attr=attr):
+                self.found |= attr.value in self._deps.attributes
+            case libcst.Subscript():
+                self.found = True
+            case libcst.Tuple() | libcst.List():
+                for element in target.elements:
+                    self.store(element.value)
+            case _:
+                pass
+
+    def visit_GeneralAssignment(self, node: nodes.GeneralAssignment) -> None:
+        for target in node.targets:
+            self.store(target)
+
+    @override
+    def visit_AssignTarget(self, node: libcst.AssignTarget) -> None:
+        self.store(node.target)
+
+    @override
+    def visit_AnnAssign(self, node: libcst.AnnAssign) -> None:
+        self.store(node.target)
+
+    @override
+    def visit_AugAssign(self, node: libcst.AugAssign) -> None:
+        del node
+        self.found = True  # may be in-place
+
+    @override
+    def visit_NamedExpr(self, node: libcst.NamedExpr) -> None:
+        self.store(node.target)
+
+    @override
+    def visit_For(self, node: libcst.For) -> None:
+        self.store(node.target)
+
+    @override
+    def visit_CompFor(self, node: libcst.CompFor) -> None:
+        self.store(node.target)
+
+    @override
+    def visit_Param(self, node: libcst.Param) -> None:
+        self.store(node.name)
+
+    @override
+    def visit_AsName(self, node: libcst.AsName) -> None:
+        self.store(node.name)
+
+    @override
+    def visit_ImportAlias(self, node: libcst.ImportAlias) -> None:
+        self.store(node.name)
+
+    @override
+    def visit_Del(self, node: libcst.Del) -> None:
+        self.store(node.target)
+
+    @override
+    def visit_FunctionDef(self, node: libcst.FunctionDef) -> None:
+        self.store(node.name)
+
+    @override
+    def visit_ClassDef(self, node: libcst.ClassDef) -> None:
+        self.store(node.name)
+
+    @override
+    def visit_MatchCase(self, node: libcst.MatchCase) -> None:
+        for name in m.findall(node.pattern, m.Name()):
+            self.store(name)
+
+    @override
+    def visit_Yield(self, node: libcst.Yield) -> None:
+        del node
+        self.found = True
+
+    @override
+    def visit_Await(self, node: libcst.Await) -> None:
+        del node
+        self.found = True
+
+    @override
+    def visit_Call(self, node: libcst.Call) -> None:
+        """Calls may change their arguments or the object they are a method of."""
+        if is_quantizer_call(node):
+            return
+        if isinstance(node.func, libcst.Attribute):
+            method = node.func.attr.value
+            if method.endswith("_") and not method.startswith("_"):
+                self.found = True  # in-place method, maybe on an alias
+        root = _root(node.func)
+        if isinstance(node.func, libcst.Attribute) and isinstance(root, libcst.Name):
+            self.found |= root.value in self._deps.names
+        for arg in node.args:
+            value = arg.value
+            if isinstance(value, libcst.Name):
+                self.found |= value.value in self._deps.names
+
+    def visit_UnresolvedQuantizedCall(self, node: nodes.UnresolvedQuantizedCall) -> None:
+        self.visit_Call(node)
+
+
+def is_quantizer_call(node: libcst.CSTNode) -> bool:
+    """Returns True if `node` is a call of a quantizer of the instance."""
+    match node:
+        case libcst.Call(func=libcst.Attribute(value=libcst.Name(value="self"), attr=attr)):
+            return isinstance(attr, nodes.QuantizerReference) or attr.value.startswith("quantizer")
+        case _:
+            return False
+
+
+def may_evaluate_once(
+    expression: libcst.BaseExpression,
+    is_use: _Matches,
+    body: Sequence[libcst.CSTNode],
+) -> bool:
+    """Returns True if `expression` may be evaluated once, before its first use in `body`.
+
+    Args:
+        expression: The expression.
+        is_use: Whether a node is one of the uses of the expression.
+        body: Statements of a single block.
+    """
+    indices = [i for i, statement in enumerate(body) if _contains(statement, is_use)]
+    if not indices:
+        return False
+    first, last = indices[0], indices[-1]
+    if not _always_evaluates(body[first], is_use):
+        return False
+
+    def _is_late_use(node: libcst.CSTNode) -> bool:
+        return isinstance(node, _LATE) and _contains(node, is_use)
+
+    if any(_contains(statement, _is_late_use) for statement in body):
+        return False
+    expression.visit(deps := _Dependencies())
+    for i in range(first, last + 1):
+        statement = body[i]
+        checked: list[libcst.CSTNode] = [statement]
+        if i == last and isinstance(statement, libcst.SimpleStatementLine):
+            # The targets of the last statement are assigned after its value is evaluated.
+            checked = []
+            for small in statement.body:
+                match small:
+                    case nodes.GeneralAssignment() | libcst.Assign() if small.value is not None:
+                        checked.append(small.value)
+                    case _:
+                        checked.append(small)
+        for node in checked:
+            node.visit(finder := _ChangeFinder(deps, is_use))
+            if finder.found:
+                return False
+    return True
+
+
+def comprehension_evaluates_in_order(
+    comprehension: libcst.BaseComp, uses: Sequence[libcst.CSTNode]
+) -> bool:
+    """Returns True if each evaluation of the elements evaluates all `uses` in textual order.
+
+    That is, apart from the iterables, in which assignments are not allowed.
+    """
+    parts: list[libcst.CSTNode] = []
+    match comprehension:
+        case libcst.DictComp():
+            parts += [comprehension.key, comprehension.value]
+        case libcst.BaseSimpleComp():
+            parts += [comprehension.elt]
+        case _:
+            return False
+    for_in: libcst.CompFor | None = comprehension.for_in
+    while for_in is not None:
+        parts += for_in.ifs
+        for_in = for_in.inner_for_in
+
+    def _is_evaluated(use: libcst.CSTNode) -> bool:
+        return any(_contains(part, lambda n: n is use, skip=_DEFERRED) for part in parts)
+
+    return all(_is_evaluated(use) for use in uses)
diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py b/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
index 943c447..7d2b945 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
@@ -2,6 +2,7 @@
 # SPDX-License-Identifier: BSD-3-Clause-Clear
 
 
+import itertools
 import logging
 
 from enum import Enum, auto
@@ -20,6 +21,7 @@ from fastforward._autoquant.cst.quantizer_analysis.unimplemented import NotImple
 from fastforward._autoquant.pybuilder import QuantizerReferenceCollection
 
 from .annotator import QuantizationAnnotation, QuantizationAnnotationProvider
+from .hoisting import comprehension_evaluates_in_order, may_evaluate_once
 
 logger = logging.getLogger(__name__)
 
@@ -54,6 +56,7 @@ class ExprOccurrence(Enum):
     UNIQUE = auto()
     PRIMARY = auto()
     SECONDARY = auto()
+    REPEATED = auto()
 
 
 class _InlineQuantization:
@@ -63,34 +66,43 @@ class _InlineQuantization:
     directly in-place. A single occurrence becomes ``quantizer(expr)``.
     Repeated occurrences within the same expression use a walrus-bound temporary
     (``__ffN``) so the quantizer call runs once and later uses reference the
-    bound value.
+    bound value. If the first occurrence is not certain to be evaluated before the
+    others, each of them becomes a call of the same quantizer instead.
 
     Quantizer references are memoized by ``annotation.quantizer_id`` to keep a
     stable one-to-one mapping between data-flow annotation and generated
     quantizer symbol.
     """
 
-    def __init__(self, quantizer_refs: QuantizerReferenceCollection) -> None:
+    def __init__(self, quantizer_refs: QuantizerReferenceCollection, used_names: set[str]) -> None:
         self._node_annotations: dict[libcst.CSTNode, QuantizationAnnotation] = {}
         self._occurrence: dict[QuantizationAnnotation, ExprOccurrence] = {}
-        self._named_expr_tracker: dict[QuantizationAnnotation, int] = {}
+        self._named_expr_tracker: dict[QuantizationAnnotation, str] = {}
         self._quantizer_refs = quantizer_refs
+        self._used_names = used_names
         self._quantizer_refs_by_id: dict[int, libcst.BaseExpression] = {}
+        self._repeated_quantizer_refs: dict[int, libcst.BaseExpression] = {}
 
-    def add_annotations(self, annotations: Iterable[QuantizationAnnotation]) -> None:
+    def add_annotations(
+        self, annotations: Iterable[QuantizationAnnotation], comprehension: libcst.BaseComp
+    ) -> None:
         """Keeps track of annotations that should be replaced."""
         for annotation in annotations:
             assert isinstance(annotation, QuantizationAnnotation)
-            self.add_annotation(annotation)
+            self.add_annotation(annotation, comprehension)
 
-    def add_annotation(self, annotation: QuantizationAnnotation) -> None:
+    def add_annotation(
+        self, annotation: QuantizationAnnotation, comprehension: libcst.BaseComp
+    ) -> None:
         """Keeps track of a single annotation that should be replaced."""
         if len(annotation.uses) == 0:
             raise ValueError("Expected a non-zero amount of annotations.")
         elif len(annotation.uses) == 1:
             self._occurrence[annotation] = ExprOccurrence.UNIQUE
+        elif not comprehension_evaluates_in_order(comprehension, annotation.uses):
+            self._occurrence[annotation] = ExprOccurrence.REPEATED
         else:
-            self._named_expr_tracker[annotation] = len(self._named_expr_tracker)
+            self._named_expr_tracker[annotation] = _unused_name("__ff", self._used_names, start=0)
             self._occurrence[annotation] = ExprOccurrence.PRIMARY
 
         for use in annotation.uses:
@@ -115,21 +127,24 @@ class _InlineQuantization:
         # call it when the result is actually used.
         def quant_statement() -> libcst.Call:
             quantizer_id = annotation.quantizer_id
-            if quantizer_id is not None and quantizer_id in self._quantizer_refs_by_id:
+            if usage is ExprOccurrence.REPEATED and id(annotation) in self._repeated_quantizer_refs:
+                quantizer_ref = self._repeated_quantizer_refs[id(annotation)]
+            elif quantizer_id is not None and quantizer_id in self._quantizer_refs_by_id:
                 quantizer_ref = self._quantizer_refs_by_id[quantizer_id]
             else:
                 quantizer_ref = self._quantizer_refs.create_quantizer_expression(annotation.target)
                 if quantizer_id is not None:
                     self._quantizer_refs_by_id[quantizer_id] = quantizer_ref
+                self._repeated_quantizer_refs[id(annotation)] = quantizer_ref
             return _create_inline_quantize_statement(
                 expr=updated_node,
                 quantizer_name=quantizer_ref,
             )
 
-        if usage is ExprOccurrence.UNIQUE:
+        if usage in (ExprOccurrence.UNIQUE, ExprOccurrence.REPEATED):
             return quant_statement()
 
-        varname = f"__ff{self._named_expr_tracker[annotation]}"
+        varname = self._named_expr_tracker[annotation]
         if usage is ExprOccurrence.PRIMARY:
             self._occurrence[annotation] = ExprOccurrence.SECONDARY
             return _expr_to_named_expr(name=varname, expr=quant_statement())
@@ -157,11 +172,20 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
         quantizer_refs: QuantizerReferenceCollection,
     ) -> None:
         super().__init__()
-        self._inline_quantization = _InlineQuantization(quantizer_refs)
+        # All names that occur in the function and those introduced here.
+        self._used_names: set[str] = set()
+        self._inline_quantization = _InlineQuantization(quantizer_refs, self._used_names)
         self._quantizer_refs = quantizer_refs
         self._expr_replacements: dict[libcst.CSTNode, libcst.CSTNode] = {}
         self._inline_quantize_replacements: dict[libcst.CSTNode, libcst.BaseExpression] = {}
         self._quantizer_refs_by_id: dict[int, libcst.BaseExpression] = {}
+        self._inlined_annotations: set[int] = set()
+        # Stack of the comprehensions that are being visited.
+        self._comprehensions: list[libcst.BaseComp] = []
+
+    @override
+    def visit_FunctionDef(self, node: libcst.FunctionDef) -> None:
+        self._used_names |= _all_names(node)
 
     def _get_annotations(
         self,
@@ -237,7 +261,7 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
 
         # Run call dedup after all expression rewrites are in place so repeated
         # inline quantizer calls can be materialized into shared `_tmp_` values.
-        deduped = updated_function.visit(_QuantizerCallDedup())
+        deduped = updated_function.visit(_QuantizerCallDedup(self._used_names))
         if not isinstance(deduped, libcst.FunctionDef):
             _fail_due_to_mismatch()
         return deduped
@@ -249,10 +273,13 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
         if (annotations := self._get_annotations(node)) is not None:
             for annotation in annotations:
                 quantizer_ref: libcst.BaseExpression | None = None
+                inline = not self._may_hoist(annotation, node)
+                if inline:
+                    self._inlined_annotations.add(id(annotation))
                 for use in annotation.uses:
                     if isinstance(use, libcst.Name):
                         self._expr_replacements[use] = libcst.Name(annotation.target)
-                    elif self._should_inline_quantized_use(use):
+                    elif inline:
                         if quantizer_ref is None:
                             quantizer_ref = self._quantizer_ref_for_annotation(annotation)
                         self._inline_quantize_replacements[use] = quantizer_ref
@@ -261,13 +288,26 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
 
         return True
 
+    def _may_hoist(self, annotation: QuantizationAnnotation, block: libcst.IndentedBlock) -> bool:
+        """Returns True if the quantized value may be stored in a variable before its first use."""
+        uses = annotation.uses
+        if any(self._should_inline_quantized_use(use) for use in uses):
+            return False
+        if annotation.target in self._used_names:
+            return False
+        return may_evaluate_once(
+            cast(libcst.BaseExpression, uses[0]),
+            lambda node: any(node is use for use in uses),
+            block.body,
+        )
+
     def leave_IndentedBlock(
         self, original_node: libcst.IndentedBlock, updated_node: libcst.IndentedBlock
     ) -> libcst.IndentedBlock:
         if (annotations := self._get_annotations(original_node)) is None:
             # Reuse can still be improved in blocks where quantized calls were
             # emitted inline, even if the block itself carries no annotations.
-            return _dedup_repeated_quantizer_calls(updated_node)
+            return _dedup_repeated_quantizer_calls(updated_node, self._used_names)
 
         # Insert quantizer call statements for annotations that are not replaced
         # inline. Placement is dependency-aware: for each injected statement we
@@ -276,7 +316,7 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
         quantize_statements: list[tuple[libcst.SimpleStatementLine, libcst.BaseExpression]] = []
         for annotation in annotations:
             use_expr = cast(libcst.BaseExpression, annotation.uses[0])
-            if self._should_inline_quantized_use(use_expr):
+            if id(annotation) in self._inlined_annotations:
                 continue
 
             statement = create_quantize_statement(
@@ -287,7 +327,7 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
             quantize_statements.append((statement, use_expr))
 
         updated = _insert_dependency_aware_quantize_statements(updated_node, quantize_statements)
-        return _dedup_repeated_quantizer_calls(updated)
+        return _dedup_repeated_quantizer_calls(updated, self._used_names)
 
     def leave_GeneralAssignment(
         self, original_node: nodes.GeneralAssignment, updated_node: nodes.GeneralAssignment
@@ -363,19 +403,19 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
         return updated_node.with_changes(body=updated_body)
 
     def visit_ListComp(self, node: libcst.ListComp) -> bool:
-        del node
+        self._comprehensions.append(node)
         return False
 
     def visit_SetComp(self, node: libcst.SetComp) -> bool:
-        del node
+        self._comprehensions.append(node)
         return False
 
     def visit_GeneratorExp(self, node: libcst.GeneratorExp) -> bool:
-        del node
+        self._comprehensions.append(node)
         return False
 
     def visit_DictComp(self, node: libcst.DictComp) -> bool:
-        del node
+        self._comprehensions.append(node)
         return False
 
     def leave_ListComp(
@@ -387,6 +427,7 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
         # `for_in`, so we need to get that info before descending into `elt`.
         for_in = updated_node.for_in.visit(self)
         elt = updated_node.elt.visit(self)
+        self._comprehensions.pop()
         return updated_node.with_changes(for_in=for_in, elt=elt)
 
     def leave_SetComp(
@@ -395,6 +436,7 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
         del original_node
         for_in = updated_node.for_in.visit(self)
         elt = updated_node.elt.visit(self)
+        self._comprehensions.pop()
         return updated_node.with_changes(for_in=for_in, elt=elt)
 
     def leave_GeneratorExp(
@@ -403,6 +445,7 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
         del original_node
         for_in = updated_node.for_in.visit(self)
         elt = updated_node.elt.visit(self)
+        self._comprehensions.pop()
         return updated_node.with_changes(for_in=for_in, elt=elt)
 
     def leave_DictComp(
@@ -412,6 +455,7 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
         for_in = updated_node.for_in.visit(self)
         key = updated_node.key.visit(self)
         value = updated_node.value.visit(self)
+        self._comprehensions.pop()
         return updated_node.with_changes(for_in=for_in, key=key, value=value)
 
     @override
@@ -421,7 +465,7 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
     ) -> bool:
         if (annotations := self._get_annotations(node.target)) is None:
             return True
-        self._inline_quantization.add_annotations(annotations)
+        self._inline_quantization.add_annotations(annotations, self._comprehensions[-1])
         return True
 
     @override
@@ -671,9 +715,13 @@ class _QuantizerCallDedup(libcst.CSTTransformer):
     assignment, and all occurrences are replaced with that temporary name.
     """
 
-    def __init__(self) -> None:
-        """Initialize per-transformer state for `_tmp_` name allocation."""
-        self._created_temp_suffixes: set[int] = set()
+    def __init__(self, used_names: set[str]) -> None:
+        """Initialize per-transformer state for `_tmp_` name allocation.
+
+        Args:
+            used_names: Names that cannot be used. New names are added.
+        """
+        self._used_names = used_names
 
     @staticmethod
     def _call_key(expr: libcst.BaseExpression) -> str | None:
@@ -700,23 +748,9 @@ class _QuantizerCallDedup(libcst.CSTTransformer):
 
         return f"quantizer_name:{expr_code}"
 
-    @staticmethod
-    def _tmp_suffix(name: str) -> int | None:
-        """Parse numeric suffix from `_tmp_<n>` names, or return ``None``."""
-        if not name.startswith("_tmp_"):
-            return None
-        suffix = name[5:]
-        if not suffix.isdigit():
-            return None
-        return int(suffix)
-
     def _next_tmp_name(self) -> str:
         """Allocate the next available `_tmp_<n>` variable name."""
-        suffix = 1
-        while suffix in self._created_temp_suffixes:
-            suffix += 1
-        self._created_temp_suffixes.add(suffix)
-        return f"_tmp_{suffix}"
+        return _unused_name("_tmp_", self._used_names, start=1)
 
     @override
     def leave_IndentedBlock(
@@ -725,29 +759,17 @@ class _QuantizerCallDedup(libcst.CSTTransformer):
         """Rewrite a block so repeated quantizer calls are evaluated once.
 
         Steps:
-        1. Collect existing `_tmp_` suffixes to avoid name collisions.
-        2. Count quantizer call occurrences and record first occurrence index.
-        3. For calls repeated more than once, allocate shared `_tmp_` names.
-        4. Replace repeated call expressions with the corresponding temp name.
-        5. Insert ``_tmp_`` assignments before the first statement using each
+        1. Count quantizer call occurrences and record first occurrence index.
+        2. For calls repeated more than once, of which the argument does not change in
+           between, allocate shared `_tmp_` names.
+        3. Replace repeated call expressions with the corresponding temp name.
+        4. Insert ``_tmp_`` assignments before the first statement using each
            repeated call.
         """
         del original_node
 
         body = list(updated_node.body)
 
-        for stmt in body:
-
-            class _TmpScan(libcst.CSTVisitor):
-                def visit_Name(self, node: libcst.Name) -> bool:
-                    suffix = _QuantizerCallDedup._tmp_suffix(node.value)
-                    if suffix is not None:
-                        self_suffixes.add(suffix)
-                    return True
-
-            self_suffixes = self._created_temp_suffixes
-            stmt.visit(_TmpScan())
-
         first_stmt_idx: dict[str, int] = {}
         first_call_expr: dict[str, libcst.Call] = {}
         counts: dict[str, int] = {}
@@ -789,7 +811,16 @@ class _QuantizerCallDedup(libcst.CSTTransformer):
 
             stmt.visit(_CallScan())
 
-        repeated_keys = [k for k, c in counts.items() if c > 1]
+        def _may_share(key: str) -> bool:
+            return may_evaluate_once(
+                first_call_expr[key],
+                lambda node: (
+                    isinstance(node, libcst.Call) and _QuantizerCallDedup._call_key(node) == key
+                ),
+                body,
+            )
+
+        repeated_keys = [k for k, c in counts.items() if c > 1 and _may_share(k)]
         if not repeated_keys:
             return updated_node
 
@@ -856,9 +887,23 @@ class _QuantizerCallDedup(libcst.CSTTransformer):
         return updated_node.with_changes(body=tuple(body))
 
 
-def _dedup_repeated_quantizer_calls(node: libcst.IndentedBlock) -> libcst.IndentedBlock:
+def _all_names(node: libcst.CSTNode) -> set[str]:
+    """All identifiers that occur in `node`."""
+    return {cast(libcst.Name, name).value for name in m.findall(node, m.Name())}
+
+
+def _unused_name(prefix: str, used_names: set[str], start: int) -> str:
+    """Returns a name that is not in use (yet), and adds it to `used_names`."""
+    name = next(n for i in itertools.count(start) if (n := f"{prefix}{i}") not in used_names)
+    used_names.add(name)
+    return name
+
+
+def _dedup_repeated_quantizer_calls(
+    node: libcst.IndentedBlock, used_names: set[str]
+) -> libcst.IndentedBlock:
     """Apply `_QuantizerCallDedup` to one block and preserve type safety."""
-    transformed = node.visit(_QuantizerCallDedup())
+    transformed = node.visit(_QuantizerCallDedup(used_names))
     if not isinstance(transformed, libcst.IndentedBlock):
         _fail_due_to_mismatch()
     return transformed
-- 
2.43.0


From 0d52deed7f1f0737ec5d0edf7c8d132d80d793ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:29 +0000
Subject: [PATCH 106/113] fix: quantize variables that are assigned in some
 branches only, or as keyword-only parameters

---
 .../cst/quantizer_analysis/annotator.py       | 67 ++++++++++++++-----
 .../cst/quantizer_analysis/scope.py           | 59 ++++++++++++----
 .../cst/quantizer_analysis/transformer.py     | 11 ++-
 3 files changed, 104 insertions(+), 33 deletions(-)

diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py b/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
index 1e0b0d9..3197b0b 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
@@ -449,31 +449,55 @@ class _QuantizationAnnotator(libcst.CSTVisitor):
             self._active_scope.merge(if_scope, inplace=True)
 
     def evaluate_Try(self, node: libcst.Try) -> None:
-        with (
-            self.enter_scope() as try_scope,
-        ):
+        """Evaluate a Try node.
+
+        A handler may be entered before or after any of the assignments in the
+        body. The finally block is always executed.
+        """
+        with self.enter_scope() as body_scope:
             node.body.visit(self)
+        raised_assignments = body_scope.assignments.clone()
+
+        if (orelse := node.orelse) is not None and not body_scope.is_terminated:
+            with self.enter_scope() as orelse_scope:
+                orelse_scope.assignments.merge_(body_scope.assignments)
+                orelse.visit(self)
+            body_scope = orelse_scope
 
+        merged_scope = body_scope
         for handler in node.handlers:
-            with (
-                self.enter_scope() as handler_scope,
-            ):
+            with self.enter_scope() as handler_scope:
+                handler_scope.assignments.merge_(raised_assignments)
                 handler.visit(self)
-                try_scope = try_scope.merge(handler_scope)
+            merged_scope = merged_scope.merge(handler_scope)
 
-        if (orelse := node.orelse) is not None:
-            with (
-                self.enter_scope() as orelse_scope,
-            ):
-                orelse.visit(self)
-                try_scope.merge(orelse_scope)
+        self._active_scope.overwrite(merged_scope)
 
         if (finalbody := node.finalbody) is not None:
-            with (
-                self.enter_scope() as finally_scope,
-            ):
-                finalbody.visit(self)
-                try_scope.overwrite(finally_scope)
+            finalbody.visit(self)
+
+    def evaluate_Match(self, node: libcst.Match) -> None:
+        """Evaluate a Match node."""
+        node.subject.visit(self)
+
+        merged_scope: Scope | None = None
+        is_exhaustive = False
+        for case in node.cases:
+            with self.enter_scope() as case_scope:
+                if case.guard is not None:
+                    case.guard.visit(self)
+                case.body.visit(self)
+            merged_scope = case_scope if merged_scope is None else merged_scope.merge(case_scope)
+            match case:
+                case libcst.MatchCase(pattern=libcst.MatchAs(pattern=None), guard=None):
+                    is_exhaustive = True
+
+        if merged_scope is None:
+            return
+        if is_exhaustive:
+            self._active_scope.overwrite(merged_scope)
+        else:
+            self._active_scope.merge(merged_scope, inplace=True)
 
     def evaluate_GeneralAssignment(self, node: nodes.GeneralAssignment) -> None:
         """Evaluate assignments.
@@ -635,11 +659,18 @@ class _QuantizationAnnotator(libcst.CSTVisitor):
         records an assignment to the asname in the current scope.
         """
         for item in node.items:
+            item.item.visit(self)
             if item.asname is not None:
                 for target in node_processing.unpack_sequence_expression(item.asname.name):
                     self.record_assignment(target, item, False)
         node.body.visit(self)
 
+    def evaluate_Lambda(self, node: libcst.Lambda) -> None:
+        """Evaluate a lambda, whose parameters are only visible in its body."""
+        with self.enter_scope():
+            node.params.visit(self)
+            node.body.visit(self)
+
     def evaluate_ListComp(self, node: libcst.ListComp) -> None:
         """Evaluate a List Comprehension node.
 
diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py b/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
index 0d5c7d6..475c8d8 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
@@ -228,6 +228,16 @@ class _Assignments(Generic[_MetadataT]):
                 )
                 raise RuntimeError(msg)
 
+    def merge_missing_(self, other: Self) -> None:
+        """Add the assignments of `other` to variables that have no assignments yet.
+
+        Args:
+            other: The _Assignments instance to take assignments from.
+        """
+        for var, producers in other._assignments.items():
+            if var not in self._assignments:
+                self._assignments[var] = {**producers}
+
     def overwrite(self, other: Self) -> None:
         """Overwrite the current _Assignments instance with the assignments from another instance.
 
@@ -339,9 +349,14 @@ class Scope(Generic[_MetadataT]):
                     msg = "Encountered break outside of loop"
                     raise RuntimeError(msg)
                 scope = scope_
-            patched_scope = dataclasses.replace(
-                self, assignments=self.assignments, parent=scope.parent
-            )
+            # All assignments in the loop that are visible at the break.
+            patched_scope = dataclasses.replace(self, parent=scope.parent)
+            patched_scope.assignments = self.assignments.clone()
+            enclosing = self
+            while enclosing is not scope:
+                assert enclosing.parent is not None
+                enclosing = enclosing.parent
+                patched_scope.assignments.merge_missing_(enclosing.assignments)
             scope._breaking_scopes.append(patched_scope)
         self.assignments = _Assignments({})
 
@@ -354,9 +369,14 @@ class Scope(Generic[_MetadataT]):
         Yields:
             Iterator[_QuantizationStatus]: An iterator over the quantization statuses for the given variable.
         """
-        yield from self.assignments[key]
-        if (parent := self.parent) is not None:
-            yield from parent[key]
+        seen: set[int] = set()
+        scope: Self | None = self
+        while scope is not None:
+            for assignment in scope.assignments[key]:
+                if id(assignment) not in seen:
+                    seen.add(id(assignment))
+                    yield assignment
+            scope = scope.parent
 
     def merge(self, other: Self, *, inplace: bool = False) -> Self:
         """Merges the current scope with another scope.
@@ -388,6 +408,18 @@ class Scope(Generic[_MetadataT]):
             case _:
                 return self._merge(other, inplace=inplace)
 
+    def _inherit_assignments(self, other: Self) -> None:
+        """Adds the assignments of enclosing scopes for variables that are only assigned in `other`.
+
+        Args:
+            other: The scope that assigns variables.
+        """
+        for name in other.assignments.variables:
+            if name in self.assignments or self.parent is None:
+                continue
+            for assignment in self.parent[name]:
+                self.assignments._set_status(assignment, overwrite=False)
+
     def _merge(self, other: Self, inplace: bool = False) -> Self:
         """Merges the current scope with another scope.
 
@@ -404,12 +436,15 @@ class Scope(Generic[_MetadataT]):
         assert self_status != "return"
         assert other_status != "return"
 
-        if inplace:
-            self.assignments.merge_(other.assignments)
-            merged_scope = self
-        else:
-            assignments = self.assignments.merge(other.assignments)
-            merged_scope = dataclasses.replace(self, assignments=assignments)
+        merged_scope = self if inplace else self.clone()
+        if self_status is None and other_status is None:
+            # Variables that are assigned in only one of the scopes keep the
+            # assignments of the enclosing scopes if the other scope was executed.
+            merged_scope._inherit_assignments(other)
+            if other.parent is not self:
+                other = other.clone()
+                other._inherit_assignments(merged_scope)
+        merged_scope.assignments.merge_(other.assignments)
 
         if other.is_looping_branch:
             for breaking_scope in other._breaking_scopes:
diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py b/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
index 7d2b945..20ee41c 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
@@ -6,7 +6,7 @@ import itertools
 import logging
 
 from enum import Enum, auto
-from typing import Iterable, NoReturn, TypeVar, cast
+from typing import Iterable, NoReturn, Sequence, TypeVar, cast
 
 import libcst
 import libcst.helpers
@@ -240,8 +240,9 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
     ) -> libcst.FunctionDef:
         statements = []
         for original_param, updated_param in zip(
-            original_node.params.params,
-            updated_node.params.params,
+            _named_params(original_node.params),
+            _named_params(updated_node.params),
+            strict=True,
         ):
             if not original_param.name.deep_equals(updated_param.name):
                 _fail_due_to_mismatch()
@@ -493,6 +494,10 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
         )
 
 
+def _named_params(params: libcst.Parameters) -> Sequence[libcst.Param]:
+    return (*params.posonly_params, *params.params, *params.kwonly_params)
+
+
 _BaseSuiteT = TypeVar("_BaseSuiteT", libcst.BaseSuite, libcst.IndentedBlock)
 
 
-- 
2.43.0


From 8d3f27fce5fb23e786b66267e1933e28ceb59dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:38 +0000
Subject: [PATCH 107/113] fix: convert functions in which a variable is
 reassigned in loops or try statements

---
 .../cst/quantizer_analysis/annotator.py       | 21 +++++++++++++++----
 .../cst/quantizer_analysis/scope.py           | 12 ++++++++++-
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py b/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
index 3197b0b..cb971a7 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
@@ -41,7 +41,7 @@ from typing_extensions import overload
 from fastforward._autoquant.cst import node_processing, nodes
 from fastforward._autoquant.cst.nodes import is_simple_literal
 
-from .scope import QuantizationMetadata
+from .scope import QuantizationMetadata, _QuantizedAssignments
 from .scope import QuantizationScope as Scope
 
 logger = logging.getLogger(__name__)
@@ -304,6 +304,10 @@ class _QuantizationAnnotator(libcst.CSTVisitor):
         self._active_scope: "Scope" = Scope()
         self._provider = provider
         self._nonlocal_symbol_scope = _NonLocalBranchScope()
+        # Assignments may be evaluated repeatedly, the metadata is shared.
+        self._assignment_metadata: dict[tuple[str, libcst.CSTNode], QuantizationMetadata] = {}
+        # All assignments in the bodies of the enclosing try statements.
+        self._try_assignments: list[_QuantizedAssignments] = []
 
     @contextlib.contextmanager
     def enter_scope(self, *, is_loop: bool = False) -> Iterator["Scope"]:
@@ -454,9 +458,13 @@ class _QuantizationAnnotator(libcst.CSTVisitor):
         A handler may be entered before or after any of the assignments in the
         body. The finally block is always executed.
         """
+        self._try_assignments.append(raised_assignments := _QuantizedAssignments({}))
         with self.enter_scope() as body_scope:
             node.body.visit(self)
-        raised_assignments = body_scope.assignments.clone()
+        self._try_assignments.pop()
+        for name in list(raised_assignments.variables):
+            for assignment in self._active_scope[name]:
+                raised_assignments.add(assignment)
 
         if (orelse := node.orelse) is not None and not body_scope.is_terminated:
             with self.enter_scope() as orelse_scope:
@@ -566,9 +574,14 @@ class _QuantizationAnnotator(libcst.CSTVisitor):
         """
         match target:
             case libcst.Name(value=var):
-                self._active_scope.record_assignment(
-                    name=var, producer=producer, metadata=QuantizationMetadata(is_quantized)
+                metadata = self._assignment_metadata.setdefault(
+                    (var, producer), QuantizationMetadata(is_quantized)
                 )
+                metadata.is_quantized |= is_quantized
+                self._active_scope.record_assignment(name=var, producer=producer, metadata=metadata)
+                assignment = self._active_scope.assignments[var, producer]
+                for try_assignments in self._try_assignments:
+                    try_assignments.add(assignment)
             case _:
                 pass
 
diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py b/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
index 475c8d8..d1bb149 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
@@ -228,6 +228,16 @@ class _Assignments(Generic[_MetadataT]):
                 )
                 raise RuntimeError(msg)
 
+    def add(self, assignment: _Assignment[_MetadataT]) -> None:
+        """Add an assignment to those of the same variable.
+
+        Args:
+            assignment: The assignment to add.
+        """
+        self._assignments.setdefault(assignment.name, {}).setdefault(
+            assignment.producer, assignment
+        )
+
     def merge_missing_(self, other: Self) -> None:
         """Add the assignments of `other` to variables that have no assignments yet.
 
@@ -418,7 +428,7 @@ class Scope(Generic[_MetadataT]):
             if name in self.assignments or self.parent is None:
                 continue
             for assignment in self.parent[name]:
-                self.assignments._set_status(assignment, overwrite=False)
+                self.assignments.add(assignment)
 
     def _merge(self, other: Self, inplace: bool = False) -> Self:
         """Merges the current scope with another scope.
-- 
2.43.0


From 8a84b914b32a737e884d00b87f053f0f718cd234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:38 +0000
Subject: [PATCH 108/113] fix: do not reuse the name of a hoisted quantized
 expression in nested blocks

---
 .../_autoquant/cst/quantizer_analysis/transformer.py      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py b/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
index 20ee41c..27496c6 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
@@ -180,6 +180,8 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
         self._inline_quantize_replacements: dict[libcst.CSTNode, libcst.BaseExpression] = {}
         self._quantizer_refs_by_id: dict[int, libcst.BaseExpression] = {}
         self._inlined_annotations: set[int] = set()
+        # Names of the variables that were introduced in the blocks that are being visited.
+        self._hoisted_names: list[set[str]] = []
         # Stack of the comprehensions that are being visited.
         self._comprehensions: list[libcst.BaseComp] = []
 
@@ -271,12 +273,15 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
         # Record replacements for every annotation in the block.
         # Unsafe expression uses are inlined unless the annotation can be
         # materialized and reused via its target variable.
+        self._hoisted_names.append(set())
         if (annotations := self._get_annotations(node)) is not None:
             for annotation in annotations:
                 quantizer_ref: libcst.BaseExpression | None = None
                 inline = not self._may_hoist(annotation, node)
                 if inline:
                     self._inlined_annotations.add(id(annotation))
+                else:
+                    self._hoisted_names[-1].add(annotation.target)
                 for use in annotation.uses:
                     if isinstance(use, libcst.Name):
                         self._expr_replacements[use] = libcst.Name(annotation.target)
@@ -296,6 +301,8 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
             return False
         if annotation.target in self._used_names:
             return False
+        if any(annotation.target in names for names in self._hoisted_names):
+            return False
         return may_evaluate_once(
             cast(libcst.BaseExpression, uses[0]),
             lambda node: any(node is use for use in uses),
@@ -305,6 +312,7 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
     def leave_IndentedBlock(
         self, original_node: libcst.IndentedBlock, updated_node: libcst.IndentedBlock
     ) -> libcst.IndentedBlock:
+        self._hoisted_names.pop()
         if (annotations := self._get_annotations(original_node)) is None:
             # Reuse can still be improved in blocks where quantized calls were
             # emitted inline, even if the block itself carries no annotations.
-- 
2.43.0


From 819871e166659c6e986fc1863e226bae2376ebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 109/113] fix: do not store quantized expressions of other
 branches in the variable of an elif branch

---
 .../_autoquant/cst/quantizer_analysis/hoisting.py     | 11 +++++++++++
 .../_autoquant/cst/quantizer_analysis/transformer.py  |  5 ++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/hoisting.py b/src/fastforward/_autoquant/cst/quantizer_analysis/hoisting.py
index 0371bb7..b5c2676 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/hoisting.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/hoisting.py
@@ -60,6 +60,17 @@ def _contains(
     return finder.found
 
 
+def contains_all(node: libcst.CSTNode, expressions: Sequence[libcst.CSTNode]) -> bool:
+    """Returns True if all `expressions` are part of `node`."""
+    missing = list(expressions)
+
+    def _remove(part: libcst.CSTNode) -> bool:
+        missing[:] = [expression for expression in missing if expression is not part]
+        return not missing
+
+    return _contains(node, _remove)
+
+
 def _always_evaluates(node: libcst.CSTNode | None, matches: _Matches) -> bool:
     """Returns True if a matching node is evaluated whenever `node` is executed."""
     match node:
diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py b/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
index 27496c6..4a8b050 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/transformer.py
@@ -21,7 +21,7 @@ from fastforward._autoquant.cst.quantizer_analysis.unimplemented import NotImple
 from fastforward._autoquant.pybuilder import QuantizerReferenceCollection
 
 from .annotator import QuantizationAnnotation, QuantizationAnnotationProvider
-from .hoisting import comprehension_evaluates_in_order, may_evaluate_once
+from .hoisting import comprehension_evaluates_in_order, contains_all, may_evaluate_once
 
 logger = logging.getLogger(__name__)
 
@@ -303,6 +303,9 @@ class QuantizerFunctionTransformer(NotImplementedMixin, ConvertSemicolonJoinedSt
             return False
         if any(annotation.target in names for names in self._hoisted_names):
             return False
+        if not contains_all(block, uses):
+            # The annotation of an `elif` branch may include uses in the branches that follow.
+            return False
         return may_evaluate_once(
             cast(libcst.BaseExpression, uses[0]),
             lambda node: any(node is use for use in uses),
-- 
2.43.0


From 88e674a74527a93ec1d0894f91d34ff6983b15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 110/113] fix: quantize variables that are assigned before a
 continue, or in loops that do not reach their end

---
 .../cst/quantizer_analysis/annotator.py       | 17 +++---
 .../cst/quantizer_analysis/scope.py           | 61 ++++++++++++++-----
 2 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py b/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
index cb971a7..ea67752 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
@@ -399,6 +399,7 @@ class _QuantizationAnnotator(libcst.CSTVisitor):
                     self._active_scope.terminate(reason="return")
                     return
                 case libcst.SimpleStatementLine([libcst.Continue()]):
+                    self._active_scope.record_continue()
                     return
                 case libcst.SimpleStatementLine([libcst.Break()]):
                     self._active_scope.terminate(reason="break")
@@ -622,9 +623,10 @@ class _QuantizationAnnotator(libcst.CSTVisitor):
         # iteration, we also re-assign this to ensure correct tracking.
         with self.enter_scope(is_loop=True) as for_scope:
             _visit_loop()
-            if not for_scope.is_terminated:
-                with self.reevaluate_within_active_scope():
-                    _visit_loop()
+            for_scope.end_iteration()
+            with self.reevaluate_within_active_scope():
+                _visit_loop()
+            for_scope.end_iteration()
 
         # Here we merge the for_scope with the active scope.
         # Possible improvement: if we can infer that the loop body is always
@@ -651,10 +653,11 @@ class _QuantizationAnnotator(libcst.CSTVisitor):
         # we also re-evaluate this to ensure correct tracking.
         with self.enter_scope(is_loop=True) as while_scope:
             node.body.visit(self)
-            if not while_scope.is_terminated:
-                with self.reevaluate_within_active_scope():
-                    node.test.visit(self)
-                    node.body.visit(self)
+            while_scope.end_iteration()
+            with self.reevaluate_within_active_scope():
+                node.test.visit(self)
+                node.body.visit(self)
+            while_scope.end_iteration()
 
         # Here we merge the while_scope with the active scope.
         # Possible improvement: if we can infer that the loop body is always
diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py b/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
index d1bb149..dc90978 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
@@ -289,6 +289,7 @@ class Scope(Generic[_MetadataT]):
         repeated_evaluation: Whether repeated evaluation is enabled for this scope.
         _termination_status: The termination status of this scope.
         _breaking_scopes: The scopes that are broken out of.
+        _continuing_scopes: The scopes in which the current iteration is ended.
     """
 
     parent: "Self | None" = None
@@ -299,6 +300,7 @@ class Scope(Generic[_MetadataT]):
     repeated_evaluation: bool = False
     _termination_status: TerminationStatus = dataclasses.field(default=None)
     _breaking_scopes: list[Self] = dataclasses.field(default_factory=list[Self])
+    _continuing_scopes: list[Self] = dataclasses.field(default_factory=list[Self])
 
     @property
     def is_terminated(self) -> bool:
@@ -353,23 +355,52 @@ class Scope(Generic[_MetadataT]):
         # from the broken scope remain visible post-loop, but not in the remainder
         # of the loop.
         if self.repeated_evaluation:
-            scope = self
-            while not scope.is_looping_branch:
-                if (scope_ := scope.parent) is None:
-                    msg = "Encountered break outside of loop"
-                    raise RuntimeError(msg)
-                scope = scope_
-            # All assignments in the loop that are visible at the break.
-            patched_scope = dataclasses.replace(self, parent=scope.parent)
-            patched_scope.assignments = self.assignments.clone()
-            enclosing = self
-            while enclosing is not scope:
-                assert enclosing.parent is not None
-                enclosing = enclosing.parent
-                patched_scope.assignments.merge_missing_(enclosing.assignments)
-            scope._breaking_scopes.append(patched_scope)
+            loop, patched_scope = self._scope_in_loop()
+            loop._breaking_scopes.append(patched_scope)
         self.assignments = _Assignments({})
 
+    def _scope_in_loop(self) -> tuple[Self, Self]:
+        """Find the nearest loop and the assignments in that loop that are visible in this scope.
+
+        Returns:
+            The scope of the loop and a scope, next to it, that has the visible assignments.
+        """
+        loop = self
+        assignments = self.assignments.clone()
+        while not loop.is_looping_branch:
+            if loop.parent is None:
+                msg = "Encountered break or continue outside of loop"
+                raise RuntimeError(msg)
+            loop = loop.parent
+            assignments.merge_missing_(loop.assignments)
+        scope = dataclasses.replace(
+            self,
+            parent=loop.parent,
+            assignments=assignments,
+            is_looping_branch=False,
+            _breaking_scopes=[],
+            _continuing_scopes=[],
+        )
+        return loop, scope
+
+    def record_continue(self) -> None:
+        """Keep the assignments of this scope for the end of the iteration of the nearest loop."""
+        loop, scope = self._scope_in_loop()
+        loop._continuing_scopes.append(scope)
+
+    def end_iteration(self) -> None:
+        """Ends the evaluation of a loop body, in the scope of the loop.
+
+        Assignments that are visible at a `continue` reach the next iteration and
+        the statements after the loop, also if the end of the body is not reached.
+        """
+        if self.is_terminated:
+            self._termination_status = None
+            self.assignments = dataclasses.replace(self.assignments, _assignments={})
+        for scope in self._continuing_scopes:
+            self.assignments.merge_(scope.assignments)
+        self._continuing_scopes = []
+
     def __getitem__(self, key: str) -> Iterator[_Assignment[_MetadataT]]:
         """Retrieves the quantization status for a given variable.
 
-- 
2.43.0


From 8bc3c9a106e07c4fffa4bfea715ccadd55ad6222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:40 +0000
Subject: [PATCH 111/113] fix: quantize variables that reach a finally block,
 or leave it, by a jump or an exception

---
 .../cst/quantizer_analysis/annotator.py       | 21 +++++++++++++++++--
 .../cst/quantizer_analysis/scope.py           | 15 ++++++++++---
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py b/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
index ea67752..60ca99a 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/annotator.py
@@ -457,8 +457,11 @@ class _QuantizationAnnotator(libcst.CSTVisitor):
         """Evaluate a Try node.
 
         A handler may be entered before or after any of the assignments in the
-        body. The finally block is always executed.
+        body. The finally block is always executed, possibly before or after any
+        of the assignments in the other blocks.
         """
+        self._try_assignments.append(all_assignments := _QuantizedAssignments({}))
+        jumps_before = self._active_scope.jumping_scopes()
         self._try_assignments.append(raised_assignments := _QuantizedAssignments({}))
         with self.enter_scope() as body_scope:
             node.body.visit(self)
@@ -480,10 +483,24 @@ class _QuantizationAnnotator(libcst.CSTVisitor):
                 handler.visit(self)
             merged_scope = merged_scope.merge(handler_scope)
 
+        self._try_assignments.pop()
+        for name in list(all_assignments.variables):
+            for assignment in self._active_scope[name]:
+                all_assignments.add(assignment)
         self._active_scope.overwrite(merged_scope)
 
         if (finalbody := node.finalbody) is not None:
-            finalbody.visit(self)
+            with self.enter_scope() as any_exit_scope:
+                any_exit_scope.assignments.merge_(all_assignments)
+                with self.enter_scope() as final_scope:
+                    finalbody.visit(self)
+            for scope in self._active_scope.jumping_scopes():
+                # Leaving the try statement by a break or continue executes the finally block.
+                if all(scope is not other for other in jumps_before):
+                    scope.assignments.overwrite(final_scope.assignments)
+            self._active_scope.assignments.overwrite(final_scope.assignments)
+            if final_scope.is_terminated:
+                self._active_scope.terminate(final_scope.termination_status)
 
     def evaluate_Match(self, node: libcst.Match) -> None:
         """Evaluate a Match node."""
diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py b/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
index dc90978..94e4159 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
@@ -306,6 +306,10 @@ class Scope(Generic[_MetadataT]):
     def is_terminated(self) -> bool:
         return self._termination_status is not None
 
+    @property
+    def termination_status(self) -> TerminationStatus:
+        return self._termination_status
+
     def clone(self) -> Self:
         """Creates a deep copy of the current scope.
 
@@ -327,9 +331,7 @@ class Scope(Generic[_MetadataT]):
             raise RuntimeError(msg)
         self.assignments.record_assignment(name, producer, metadata)
 
-    def terminate(
-        self, reason: Literal["return"] | Literal["break"] | Literal["raise"] = "return"
-    ) -> None:
+    def terminate(self, reason: TerminationStatus = "return") -> None:
         """Terminates the current scope.
 
         Args:
@@ -388,6 +390,13 @@ class Scope(Generic[_MetadataT]):
         loop, scope = self._scope_in_loop()
         loop._continuing_scopes.append(scope)
 
+    def jumping_scopes(self) -> list[Self]:
+        """The scopes from which the nearest loop, or an iteration of it, has been left so far."""
+        loop: Self | None = self
+        while loop is not None and not loop.is_looping_branch:
+            loop = loop.parent
+        return [] if loop is None else [*loop._breaking_scopes, *loop._continuing_scopes]
+
     def end_iteration(self) -> None:
         """Ends the evaluation of a loop body, in the scope of the loop.
 
-- 
2.43.0


From 2bb95fe6327df7329e5247775d857fe3320c8a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:37 +0000
Subject: [PATCH 112/113] fix: keep the assignments of parameters that reach
 the end of a loop with a break

---
 src/fastforward/_autoquant/cst/quantizer_analysis/scope.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py b/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
index 94e4159..f3acf14 100644
--- a/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
+++ b/src/fastforward/_autoquant/cst/quantizer_analysis/scope.py
@@ -455,6 +455,8 @@ class Scope(Generic[_MetadataT]):
                 return _no_merge_required(self)
             case "return" | "raise", _:
                 return _no_merge_required(other)
+            case "break", None if not inplace:
+                return other.clone()
             case _:
                 return self._merge(other, inplace=inplace)
 
@@ -487,11 +489,11 @@ class Scope(Generic[_MetadataT]):
         assert other_status != "return"
 
         merged_scope = self if inplace else self.clone()
-        if self_status is None and other_status is None:
+        if self_status is None:
             # Variables that are assigned in only one of the scopes keep the
             # assignments of the enclosing scopes if the other scope was executed.
             merged_scope._inherit_assignments(other)
-            if other.parent is not self:
+            if other_status is None and other.parent is not self:
                 other = other.clone()
                 other._inherit_assignments(merged_scope)
         merged_scope.assignments.merge_(other.assignments)
-- 
2.43.0


From a6bf7795583f4f9e0a4fac9ce4990926f1ff779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 113/113] fix: give all quantizers of a converted function or
 module distinct names

---
 .../pybuilder/quantizer_collection.py         | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/fastforward/_autoquant/pybuilder/quantizer_collection.py b/src/fastforward/_autoquant/pybuilder/quantizer_collection.py
index 2ba7a96..0ef69e0 100644
--- a/src/fastforward/_autoquant/pybuilder/quantizer_collection.py
+++ b/src/fastforward/_autoquant/pybuilder/quantizer_collection.py
@@ -4,6 +4,7 @@
 import collections
 import contextlib
 import dataclasses
+import itertools
 
 from collections.abc import Generator
 from typing import Any, Callable, Iterator, TypeAlias
@@ -114,6 +115,12 @@ class QuantizerReferenceCollection:
             `disambiguate_reference()` will return the disambiguated names without
             recomputing them.
         """
+
+        def get_name(name: str) -> str:
+            # Avoid adding the prefix twice if the name already includes it
+            prefix = self._quantizer_name_prefix
+            return name if name.startswith(prefix) else f"{prefix}{name}"
+
         quantizer_name_groups: dict[Any, dict[str, list[QuantizerMetadata]]] = (
             collections.defaultdict(lambda: collections.defaultdict(list))
         )
@@ -123,30 +130,30 @@ class QuantizerReferenceCollection:
                 # When no context is available, default to the global quantizer group.
                 # We use None as the index key, which also handles cases where
                 # ctx.module is None, ensuring consistent fallback behavior.
-                quantizer_name_groups[None][metadata.name].append(metadata)
+                quantizer_name_groups[None][get_name(metadata.name)].append(metadata)
             elif ctx.method_type is MethodType.METHOD:
                 # When the context represents a model instance, group all quantizers
                 # belonging to that instance together to prevent naming conflicts
-                quantizer_name_groups[ctx.torch_module][metadata.name].append(metadata)
+                quantizer_name_groups[ctx.torch_module][get_name(metadata.name)].append(metadata)
             else:
                 # When the context represents a normal function, classmethod or
                 # staticmethod, group all quantizers per function/method.
-                quantizer_name_groups[ctx.func][metadata.name].append(metadata)
-
-        def get_name(name: str, idx: int, count: int) -> str:
-            # Avoid adding the prefix twice if the name already includes it
-            prefix = self._quantizer_name_prefix
-            prefix = prefix if not name.startswith(prefix) else ""
-            full_name = f"{prefix}{name}"
-            # Add count suffix to disambiguate multiple quantizers with the same name
-            if count > 1:
-                full_name = f"{full_name}_{idx + 1}"
-            return full_name
+                quantizer_name_groups[ctx.func][get_name(metadata.name)].append(metadata)
 
         for group in quantizer_name_groups.values():
+            # Names that are used once are not suffixed. Suffixed names must not
+            # coincide with these, or with each other.
+            taken = {name for name, name_metadata in group.items() if len(name_metadata) == 1}
             for name, name_metadata in group.items():
-                for i, metadata in enumerate(name_metadata):
-                    metadata.disambiguated_name = get_name(name, i, len(name_metadata))
+                if len(name_metadata) == 1:
+                    name_metadata[0].disambiguated_name = name
+                    continue
+                # Add count suffix to disambiguate multiple quantizers with the same name
+                suffixed_names = (f"{name}_{idx}" for idx in itertools.count(1))
+                for metadata in name_metadata:
+                    full_name = next(n for n in suffixed_names if n not in taken)
+                    metadata.disambiguated_name = full_name
+                    taken.add(full_name)
 
     def disambiguate_reference(self, ref: nodes.QuantizerReference | int) -> str:
         """Get the disambiguated name for a quantizer reference.
-- 
2.43.0


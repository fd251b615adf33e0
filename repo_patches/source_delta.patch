From 691099ddd61ce4afce3b5bf958c166a72fcbc9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 01/15] fix: padder mode "zeros" left the padding uninitialised

---
 torchimage/padding/generic_pad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index c423109..ab91c70 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -161,7 +161,7 @@ class Padder:  # (nn.Module):
         if callable(mode):
             pad_func = mode
         elif mode == "zeros":
-            return pad_1d.zeros_1d
+            pad_func = pad_1d.zeros_1d
         elif mode == "constant":
             cv = self.constant_values[i]
 
-- 
2.43.0


From a1013bcf6b17f6ad9f06b3c6c5bc185d26688597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 02/15] fix: pad_axis in periodize mode lacked the extra
 element of odd lengths

---
 torchimage/padding/generic_pad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/padding/generic_pad.py b/torchimage/padding/generic_pad.py
index ab91c70..e24ee62 100644
--- a/torchimage/padding/generic_pad.py
+++ b/torchimage/padding/generic_pad.py
@@ -308,6 +308,8 @@ class Padder:  # (nn.Module):
         head = pw[0]
         tail = head + x.shape[axis]
         length = tail + pw[1]
+        if self.mode[i] == "periodize":
+            length += x.shape[axis] % 2
 
         idx = make_idx(head, tail, dim=axis, ndim=x.ndim)
 
-- 
2.43.0


From 779b21a4d3c967ac1a3464a477f2bcebfbf8546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 03/15] fix: same padding of an axis with an empty kernel
 divided by zero

---
 torchimage/padding/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/torchimage/padding/utils.py b/torchimage/padding/utils.py
index aeaab0a..8ba0425 100644
--- a/torchimage/padding/utils.py
+++ b/torchimage/padding/utils.py
@@ -106,6 +106,8 @@ def same_padding_width(kernel_size, stride=1, in_size=None):
             raise ValueError(f"when stride={stride} instead of 1, in_size is required for same padding width")
         if stride is None:
             stride = kernel_size
+        if kernel_size == 0:  # an empty kernel leaves the axis alone
+            return 0, 0
         # expected output tensor size at axis with same padding
         out_size = ceil(in_size / stride)  # in_size == outsize with stride=1
         pad_total = (out_size - 1) * stride + kernel_size - in_size
-- 
2.43.0


From ee03221f119bef911fa1e99767663bc418f70e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 04/15] fix: average pooling without a padder failed when
 excluding padding from the count

---
 torchimage/pooling/uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index 0a78f1b..af660d9 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -22,7 +22,7 @@ class AvgPoolNd(SeparablePoolNd):
         self.count_include_pad = count_include_pad
 
     def forward(self, x: torch.Tensor, axes=slice(2, None)):
-        if self.count_include_pad:
+        if self.count_include_pad or self.same_padder is None:
             return super().forward(x, axes=axes)
 
         else:
-- 
2.43.0


From ccc626e79a3c2d55705e62a7b63e03cc92bd2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 05/15] fix: average pooling excluding padding mixed up the
 counts of unsorted axes

---
 torchimage/pooling/uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchimage/pooling/uniform.py b/torchimage/pooling/uniform.py
index af660d9..cfb36c0 100644
--- a/torchimage/pooling/uniform.py
+++ b/torchimage/pooling/uniform.py
@@ -43,8 +43,8 @@ class AvgPoolNd(SeparablePoolNd):
                 device=x.device, dtype=x.dtype
             )
             new_shape = [1] * x.ndim
-            for i in idx:
-                new_shape[axes[i]] = z.shape[i]
+            for j, i in enumerate(idx):  # z has its axes in sorted order
+                new_shape[axes[i]] = z.shape[j]
             z = z.view(*new_shape)
 
             x = x * z_old / z
-- 
2.43.0


From 3d79d7bd7014616bac1269c0d1af50d7b1082ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 06/15] fix: edge filters truncated fractional edge kernels to
 integers

---
 torchimage/filtering/edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/filtering/edges.py b/torchimage/filtering/edges.py
index db651a9..05bbdc2 100644
--- a/torchimage/filtering/edges.py
+++ b/torchimage/filtering/edges.py
@@ -56,7 +56,7 @@ class EdgeFilter(nn.Module):
 
     def _conv_edge(self, x: torch.Tensor, edge_axis: int):
         # some discrete kernels can be faster (slices instead of convolution)
-        discrete_kernel = tuple(int(k) for k in self.edge_kernel[0])
+        discrete_kernel = tuple(self.edge_kernel[0])
         if discrete_kernel == (-1, 0, 1):
             x = self.edge_filter.pad(x, axes=edge_axis)
             return x[make_idx(2, None, dim=edge_axis, ndim=x.ndim)] - \
-- 
2.43.0


From b1ef42eab28e20aa551aea0b791fe8d6f495f4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 07/15] fix: multi-scale SSIM with a single weight failed

---
 torchimage/metrics/ssim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/torchimage/metrics/ssim.py b/torchimage/metrics/ssim.py
index 63a59a2..5bd794a 100644
--- a/torchimage/metrics/ssim.py
+++ b/torchimage/metrics/ssim.py
@@ -303,9 +303,11 @@ class MS_SSIM(SSIM):
 
         if self.use_prod:
             # negative values need to be removed
-            final_score *= ssim_score.clamp(self.eps) ** self.weights[-1]
+            ssim_score = ssim_score.clamp(self.eps) ** self.weights[-1]
+            final_score = ssim_score if final_score is None else final_score * ssim_score
         else:
-            final_score += ssim_score * self.weights[-1]
+            ssim_score = ssim_score * self.weights[-1]
+            final_score = ssim_score if final_score is None else final_score + ssim_score
 
         # the scores are first separated by batches and channels
         # only at the very end are channels aggregated
-- 
2.43.0


From 66416133cdb6d789cbe0ce457cdb29d235428ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 08/15] fix: poly1d failed on constant polynomials

---
 torchimage/misc/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/misc/polynomial.py b/torchimage/misc/polynomial.py
index 9c6197f..f09839e 100644
--- a/torchimage/misc/polynomial.py
+++ b/torchimage/misc/polynomial.py
@@ -27,7 +27,7 @@ def poly1d(x: torch.Tensor, p: list or tuple):
     p = tuple(p)
     bias = p[-1]
     weight = p[:-1][::-1]  # change to ascending order
-    y = None
+    y = None if weight else torch.zeros_like(x)
     xx = x  # running x^i
     for i, w in enumerate(weight):
         if i == 0:
-- 
2.43.0


From 147112437dd887ae728a872b25954198183555ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 09/15] fix: safe_power truncated a fractional exponent or base
 next to an integer tensor

---
 torchimage/misc/power.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchimage/misc/power.py b/torchimage/misc/power.py
index 6b963ee..e23fbed 100644
--- a/torchimage/misc/power.py
+++ b/torchimage/misc/power.py
@@ -41,15 +41,16 @@ def safe_power(x, exponent, *, epsilon=1e-6):
             x = torch.tensor(x)
             exponent = torch.tensor(exponent)
         else:
-            x = torch.tensor(x, dtype=exponent.dtype, device=exponent.device)
+            x = torch.tensor(x, dtype=torch.result_type(x, exponent), device=exponent.device)
     else:  # x is tensor
         if not torch.is_tensor(exponent):
-            exponent = torch.tensor(exponent, dtype=x.dtype, device=x.device)
+            exponent = torch.tensor(exponent, dtype=torch.result_type(x, exponent), device=x.device)
 
     exp_fractional = torch.floor(exponent) != exponent
     if not exp_fractional.any():  # no exponent has a fractional part
         return torch.pow(x, exponent)
 
+    x = x.to(torch.result_type(x, exponent))
     x, x_lt_0, x_eq_0, exponent, exp_fractional = torch.broadcast_tensors(
         x, x < 0, x == 0, exponent, exp_fractional)
 
-- 
2.43.0


From c4a4c70444e9283d3e663a02172da7ba8d6ca84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 10/15] fix: check_axes let out-of-range axes through

---
 torchimage/utils/validation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/torchimage/utils/validation.py b/torchimage/utils/validation.py
index d3a0514..b7ffdb4 100644
--- a/torchimage/utils/validation.py
+++ b/torchimage/utils/validation.py
@@ -27,10 +27,11 @@ def check_axes(x, axes):
     elif isinstance(axes, slice):
         axes = tuple(range(x.ndim)[axes])
     elif isinstance(axes, int):
-        return tuple([axes if axes >= 0 else x.ndim + axes])
+        axes = tuple([axes if axes >= 0 else x.ndim + axes])
     else:
         axes = tuple(int(a) if a >= 0 else x.ndim + int(a) for a in axes)
-        assert all(0 <= a <= x.ndim for a in axes)
+    if not all(0 <= a < x.ndim for a in axes):
+        raise ValueError(f"axes must be between {-x.ndim} and {x.ndim - 1} for a tensor with {x.ndim} dimensions")
     return axes
 
 
-- 
2.43.0


From 5fee191be2a72591f11de7ed0dd5efd9ac09c1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 11/15] fix: random_crop never drew the last position and could
 not crop to the full size

---
 torchimage/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/random.py b/torchimage/random.py
index 0da15f4..f36136b 100644
--- a/torchimage/random.py
+++ b/torchimage/random.py
@@ -12,7 +12,7 @@ def random_crop(x: torch.Tensor, axes, size, *, generator: torch.Generator = Non
         length = size[i]
         if length is None:
             continue
-        beg = torch.randint(x.shape[a] - length, size=(), generator=generator).item()
+        beg = torch.randint(x.shape[a] - length + 1, size=(), generator=generator).item()
         end = beg + length
         idx[a] = slice(beg, end)
     return x[idx]
-- 
2.43.0


From 5d1bb770384d0208d14c6ef41b4ab667345ed768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:32 +0000
Subject: [PATCH 12/15] fix: any_conv_1d failed on non-contiguous tensors

---
 torchimage/pooling/operator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/torchimage/pooling/operator.py b/torchimage/pooling/operator.py
index d8c27bf..69a6433 100644
--- a/torchimage/pooling/operator.py
+++ b/torchimage/pooling/operator.py
@@ -31,15 +31,15 @@ def any_conv_1d(x: torch.Tensor, w: torch.Tensor, *, dim: int, stride: int, dila
     big_shape = list(x.shape)
 
     if dim == -1 or dim == x.ndim - 1:
-        x = x.view(-1, 1, x.shape[-1])  # batch, in_channels, input width
-        w = w.view(1, 1, -1)  # out_channels, in_channels/groups, input kernel width
+        x = x.reshape(-1, 1, x.shape[-1])  # batch, in_channels, input width
+        w = w.reshape(1, 1, -1)  # out_channels, in_channels/groups, input kernel width
         x = F.conv1d(x, w, bias=None, stride=stride, padding=0, dilation=dilation, groups=1)
     else:
-        x = x.view(np.prod(x.shape[:dim], dtype=int), 1, x.shape[dim], -1)
-        w = w.view(1, 1, -1, 1)  # out_channels, in_channels/groups, input kernel height, input kernel width
+        x = x.reshape(np.prod(x.shape[:dim], dtype=int), 1, x.shape[dim], -1)
+        w = w.reshape(1, 1, -1, 1)  # out_channels, in_channels/groups, input kernel height, input kernel width
         x = F.conv2d(x, w, bias=None, stride=(stride, 1), padding=0, dilation=(dilation, 1), groups=1)
 
     big_shape[dim] = -1
-    x = x.view(*big_shape)
+    x = x.reshape(*big_shape)
     return x
 
-- 
2.43.0


From 468bc31a2bb5b8037853569f3b8c79016a2fa576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:01 +0000
Subject: [PATCH 13/15] fix: nested data of unequal depth was reported as
 lifted but returned unlifted

---
 torchimage/utils/ragged.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/torchimage/utils/ragged.py b/torchimage/utils/ragged.py
index 84a4641..62f9b1f 100644
--- a/torchimage/utils/ragged.py
+++ b/torchimage/utils/ragged.py
@@ -90,8 +90,10 @@ def get_ragged_ndarray(data, strict=True):
 
     item_list = []
     item_shape_list = []
-    for item in data:
-        item, item_shape = get_ragged_ndarray(item, strict=strict)
+    modified = False
+    for old_item in data:
+        item, item_shape = get_ragged_ndarray(old_item, strict=strict)
+        modified = modified or item is not old_item
         item_list.append(item)
         item_shape_list.append(item_shape)
 
@@ -111,6 +113,8 @@ def get_ragged_ndarray(data, strict=True):
             item_shape_list = [(1, ) * (ndim - len(s)) + s for s in item_shape_list]
     else:
         ndim = next(iter(ndim_set))
+        if modified:  # items were broadcast
+            data = tuple(item_list)
 
     item_shape = [-1] * ndim
 
-- 
2.43.0


From b1cf33c352337997755687b350b789432190872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 14/15] fix: reducing a metric over no axes reduced over all of
 them

---
 torchimage/metrics/base.py | 5 +++--
 torchimage/metrics/ssim.py | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/torchimage/metrics/base.py b/torchimage/metrics/base.py
index 54c6fdd..51fe2d0 100644
--- a/torchimage/metrics/base.py
+++ b/torchimage/metrics/base.py
@@ -57,9 +57,10 @@ class BaseMetric(nn.Module):
 
     @staticmethod
     def _mean(x: torch.Tensor, axes):
-        return x.mean(dim=axes, keepdim=False)
+        # torch takes an empty dim for all axes
+        return x.mean(dim=axes, keepdim=False) if axes else x
 
     @staticmethod
     def _sum(x: torch.Tensor, axes):
-        return x.sum(dim=axes, keepdim=False)
+        return x.sum(dim=axes, keepdim=False) if axes else x
 
diff --git a/torchimage/metrics/ssim.py b/torchimage/metrics/ssim.py
index 5bd794a..1f30fd2 100644
--- a/torchimage/metrics/ssim.py
+++ b/torchimage/metrics/ssim.py
@@ -135,7 +135,8 @@ class SSIM(nn.Module):
         return full[tuple(idx)]
 
     def _reduce(self, x: torch.Tensor, content_axes: tuple, reduce_axes: tuple):
-        return self._crop_border(x, content_axes=content_axes).mean(dim=reduce_axes)
+        x = self._crop_border(x, content_axes=content_axes)
+        return x.mean(dim=reduce_axes) if reduce_axes else x  # torch takes an empty dim for all axes
 
     def forward(self, y_pred: torch.Tensor, y_true: torch.Tensor,
                 content_axes=slice(2, None), reduce_axes=slice(1, None), *, full=False):
@@ -311,7 +312,8 @@ class MS_SSIM(SSIM):
 
         # the scores are first separated by batches and channels
         # only at the very end are channels aggregated
-        final_score = final_score.mean(dim=reduce_axes, keepdim=False)
+        if reduce_axes:  # torch takes an empty dim for all axes
+            final_score = final_score.mean(dim=reduce_axes, keepdim=False)
 
         return final_score
 
-- 
2.43.0


From 6111c64c44fa50856915331399f6dba36008823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 15/15] fix: averaging the greens of integer Bayer mosaics
 overflowed

---
 torchimage/cfa/utils/bayer_to_rgb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchimage/cfa/utils/bayer_to_rgb.py b/torchimage/cfa/utils/bayer_to_rgb.py
index 37b0c78..77defbf 100644
--- a/torchimage/cfa/utils/bayer_to_rgb.py
+++ b/torchimage/cfa/utils/bayer_to_rgb.py
@@ -66,7 +66,7 @@ def downsample_4c_bayer_to_rgb(x: torch.Tensor, sensor_alignment: str):
     check_4c_bayer(x)
     ret_list = [
         x[..., sa.index("R"), :, :],
-        (x[..., sa.index("G"), :, :] + x[..., sa.rindex("G"), :, :]) / 2,
+        x[..., sa.index("G"), :, :] / 2 + x[..., sa.rindex("G"), :, :] / 2,  # the sum may overflow
         x[..., sa.index("B"), :, :]
     ]
     return torch.stack(ret_list, dim=-3)
-- 
2.43.0


From 6c57770e57dbeb9254aff5ffbbd1b61142337acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:06 +0000
Subject: [PATCH 01/28] fix: raise the intended ValueError when same_equiv
 padding cannot be equivariant

Building the error message called a method that does not exist, so an
AttributeError hid the explanation.
---
 groco/layers/padding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 80716c9..c6b49fb 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -178,6 +178,6 @@ class EquivariantPadding(Layer):
             f"strides: {tuple(self.strides)},\n"
         )
         if self.padding_option == "SAME_EQUIV":
-            same_padding = self.compute_same_padding(spatial_shape)
+            same_padding = self.compute_built_in_padding(spatial_shape)
             message += f"built-in same padding: {tuple(same_padding)}"
         return message
-- 
2.43.0


From 0e57c035ebb8f180dc9d1154811fbade8e3ec96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:06 +0000
Subject: [PATCH 02/28] fix: accept lists and any letter case in the padding
 arguments

Like Keras, strides and kernel_size may be lists; these gave wrong padding
or a parity error. Upper case names of the equivariant options were accepted
by the padding check but rejected by the wrapped layer.
---
 groco/layers/padding.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index c6b49fb..714610a 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -41,19 +41,20 @@ class EquivariantPadding(Layer):
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
+        padding = padding.lower()
         self.built_in_padding_option = padding[:-6] if padding.endswith("_equiv") else padding
 
         self.allow_non_equivariance = allow_non_equivariance
         self.dimensions = dimensions
         self.strides = ops.cast(
             strides
-            if isinstance(strides, tuple)
+            if isinstance(strides, (tuple, list))
             else tuple(strides for _ in range(self.dimensions)),
             "int32",
         )
         self.kernel_sizes = ops.cast(
             kernel_size
-            if isinstance(kernel_size, tuple)
+            if isinstance(kernel_size, (tuple, list))
             else tuple(kernel_size for _ in range(self.dimensions)),
             "int32",
         )
-- 
2.43.0


From db9e4101e7fe454925c8da7aff90460ddaefa052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 03/28] fix: compute equivariant padding for the size of the
 actual input

The padding was computed once, for the size the layer was built with, and
silently broke equivariance when the layer was then called with another
size. Unknown spatial sizes at build raised a TypeError.
---
 groco/layers/padding.py | 60 ++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 714610a..a3fc2de 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -1,3 +1,4 @@
+import numpy as np
 from keras import ops
 from keras.layers import Layer
 
@@ -46,54 +47,59 @@ class EquivariantPadding(Layer):
 
         self.allow_non_equivariance = allow_non_equivariance
         self.dimensions = dimensions
-        self.strides = ops.cast(
+        self.strides = np.array(
             strides
             if isinstance(strides, (tuple, list))
             else tuple(strides for _ in range(self.dimensions)),
-            "int32",
         )
-        self.kernel_sizes = ops.cast(
+        self.kernel_sizes = np.array(
             kernel_size
             if isinstance(kernel_size, (tuple, list))
             else tuple(kernel_size for _ in range(self.dimensions)),
-            "int32",
         )
         self.data_format = data_format
         self.transpose = transpose
-        # set during build
-        self.equivariant_padding = None
-        self.needs_padding = None
 
         super().__init__()
 
     def call(self, inputs):
-        if self.needs_padding:
-            return ops.pad(inputs, self.equivariant_padding)
+        # the padding depends on the size of this input, which need not be the one built with
+        extra_padding = self.compute_checked_padding(self.get_spatial_shape(inputs.shape))
+        if np.any(extra_padding != 0):
+            return ops.pad(inputs, self.split_padding(extra_padding))
         else:
             return inputs
 
     def build(self, input_shape):
-        if self.padding_option in ["SAME", "VALID"] and self.allow_non_equivariance:
-            self.needs_padding = False
-            return
+        # fail early if possible, otherwise the check is only done on the actual inputs
+        spatial_shape = self.get_spatial_shape(input_shape)
+        if None not in spatial_shape:
+            self.compute_checked_padding(spatial_shape)
 
+    def get_spatial_shape(self, shape):
         if self.data_format == "channels_last":
-            spatial_shape = ops.cast(input_shape[1 : 1 + self.dimensions], "int32")
+            return tuple(shape[1 : 1 + self.dimensions])
         else:
-            spatial_shape = ops.cast(input_shape[2:], "int32")
+            return tuple(shape[2:])
+
+    def compute_checked_padding(self, spatial_shape):
+        """Compute the extra padding, raising an error if equivariance cannot be maintained."""
+        spatial_shape = np.array(spatial_shape)
+        if self.padding_option in ["SAME", "VALID"] and self.allow_non_equivariance:
+            return np.zeros_like(spatial_shape)
+
         extra_padding, total_padding = self.compute_equivariant_padding(spatial_shape)
 
-        self.needs_padding = ops.any(extra_padding != 0)
-        if not self.needs_padding:
-            return
+        if np.all(extra_padding == 0):
+            return extra_padding
         elif self.padding_option in ["SAME", "VALID"]:
             raise self.non_equivariant_error(spatial_shape)
 
         # if the stride is even the padding can still be odd, no padding will maintain equivariance
-        if ops.any(total_padding % 2 != 0):
+        if np.any(total_padding % 2 != 0):
             raise self.padding_parity_error(spatial_shape)
 
-        self.equivariant_padding = self.split_padding(extra_padding)
+        return extra_padding
 
     def compute_equivariant_padding(self, spatial_shape):
         built_in_padding = self.compute_built_in_padding(spatial_shape)
@@ -102,12 +108,14 @@ class EquivariantPadding(Layer):
 
     def compute_built_in_padding(self, spatial_shape):
         if self.padding_option in ["SAME", "SAME_EQUIV"]:
-            return ops.relu(self.kernel_sizes - self.strides + (-spatial_shape % self.strides))
+            return np.maximum(
+                self.kernel_sizes - self.strides + (-spatial_shape % self.strides), 0
+            )
         else:
             if self.transpose:
-                return ops.relu(self.strides - self.kernel_sizes)
+                return np.maximum(self.strides - self.kernel_sizes, 0)
             else:
-                return ops.zeros_like(self.kernel_sizes)
+                return np.zeros_like(self.kernel_sizes)
 
     def compute_extra_padding(self, spatial_shape, built_in_padding):
         extra_padding = (-(spatial_shape + built_in_padding - self.kernel_sizes)) % self.strides
@@ -120,18 +128,16 @@ class EquivariantPadding(Layer):
     def split_padding(self, paddings):
         # add 0 at both ends, not to pad the batch and channel axes
         if self.data_format == "channels_last":
-            paddings = ops.pad(paddings, [[1, 1]])
+            paddings = np.pad(paddings, [[1, 1]])
         else:
-            paddings = ops.pad(paddings, [[2, 0]])
+            paddings = np.pad(paddings, [[2, 0]])
 
         # paddings may be odd if the 'same' paddings are too, must make sure to do this opposite to 'same' padding
         # to make the total padding the same on both sides
         pads_after = paddings // 2
         pads_before = paddings - pads_after
 
-        return ops.concatenate(
-            [ops.expand_dims(pads_before, axis=1), ops.expand_dims(pads_after, axis=1)], axis=1
-        )
+        return np.stack([pads_before, pads_after], axis=1).tolist()
 
     def get_config(self):
         return {
-- 
2.43.0


From 24212f7d952abc1735dfe2f6f2a59cbace586664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 04/28] fix: take dilation into account in equivariant padding

Same padding depends on the dilated kernel size; ignoring it silently broke
equivariance, e.g. for kernel_size=2, dilation_rate=2.
---
 groco/layers/padding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index a3fc2de..ec9c67b 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -24,6 +24,7 @@ class EquivariantPadding(Layer):
         kernel_size: int or tuple of int, the size of the kernel.
         dimensions: int, the number of spatial dimensions.
         strides: int or tuple of int, the stride of the convolution.
+        dilation_rate: int or tuple of int, the dilation of the kernel.
         padding: string, one of 'valid_equiv', 'same_equiv', 'valid', 'same'.
         allow_non_equivariance: bool, whether to allow non-equivariant padding.
         data_format: string, one of 'channels_last', 'channels_first'.
@@ -35,6 +36,7 @@ class EquivariantPadding(Layer):
         kernel_size,
         dimensions: int,
         strides=1,
+        dilation_rate=1,
         padding="valid_equiv",
         allow_non_equivariance=False,
         data_format="channels_last",
@@ -57,6 +59,8 @@ class EquivariantPadding(Layer):
             if isinstance(kernel_size, (tuple, list))
             else tuple(kernel_size for _ in range(self.dimensions)),
         )
+        # a dilated kernel covers a larger area
+        self.kernel_sizes = (self.kernel_sizes - 1) * np.array(dilation_rate) + 1
         self.data_format = data_format
         self.transpose = transpose
 
-- 
2.43.0


From 195fac1c917872de67577add8cac8c0616dde3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 05/28] fix: use the pool size as default stride in the padding
 of pooling layers

The wrapped Keras layer did, but the padding was computed for stride 1, so
that equivariance was silently lost for e.g. pool_size=2 on odd sizes.
---
 groco/layers/pooling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 94bdcc4..250d239 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -37,6 +37,9 @@ class GroupPooling(Layer):
         super().__init__()
 
         self.dimensions = dimensions
+        # as in Keras, strides default to the pool size
+        if kwargs.get("strides") is None:
+            kwargs["strides"] = pool_size
         self.group_transforms = GroupTransforms(
             allow_non_equivariance=allow_non_equivariance,
             kernel_size=pool_size,
-- 
2.43.0


From 4af0574f96bdb3c196b81a32f74a9bed18c426f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 06/28] fix: accept the documented subgroup=None as the full
 group in layers

---
 groco/layers/group_transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index d4d231c..249b292 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -44,7 +44,7 @@ class GroupTransforms:
         self.separable = separable
 
         self.group = group if isinstance(group, Group) else group_dict[group]
-        self.subgroup = group_dict[self.group.parse_subgroup(subgroup)]
+        self.subgroup = group_dict[self.group.parse_subgroup(subgroup or "")]
         self.domain_group, self.acting_group = self.group.name, self.subgroup.name
         if transpose:
             self.domain_group, self.acting_group = self.acting_group, self.domain_group
-- 
2.43.0


From 23f8e47ebc53f37d4264489fa9ef56f2d7391b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 07/28] fix: declare P2 as a subgroup of P2MM

It could not be pooled or convolved onto although it is contained in it.
---
 groco/groups/wallpaper_groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/groco/groups/wallpaper_groups.py b/groco/groups/wallpaper_groups.py
index f209b73..e41c8fe 100644
--- a/groco/groups/wallpaper_groups.py
+++ b/groco/groups/wallpaper_groups.py
@@ -148,8 +148,8 @@ P2MM = Group(
     order=4,
     inverses=[0, 1, 2, 3],
     composition=[[0, 1, 2, 3], [1, 0, 3, 2], [2, 3, 0, 1], [3, 2, 1, 0]],
-    subgroup={"P2MM": [0, 1, 2, 3], "PMh": [0, 2], "PMw": [0, 1], "P1": [0]},
-    cosets={"P2MM": [0], "PMh": [0, 1], "PMw": [0, 2], "P1": [0, 1, 2, 3]},
+    subgroup={"P2MM": [0, 1, 2, 3], "PMh": [0, 2], "PMw": [0, 1], "P2": [0, 3], "P1": [0]},
+    cosets={"P2MM": [0], "PMh": [0, 1], "PMw": [0, 2], "P2": [0, 1], "P1": [0, 1, 2, 3]},
     action=P2MM_action,
 )
 PMh = Group(
-- 
2.43.0


From 523a53114d1902022a2cfc2bab13d70db89f77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 08/28] fix: let D4h and D4 act on cuboids

They are documented as the symmetries of a cuboid with depth different from
height and width, but acted through Oh, which only acts on cubes.
---
 groco/groups/space_groups.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/groco/groups/space_groups.py b/groco/groups/space_groups.py
index 7748923..f1dd28e 100644
--- a/groco/groups/space_groups.py
+++ b/groco/groups/space_groups.py
@@ -1,3 +1,4 @@
+from functools import partial
 import itertools
 
 from keras import ops
@@ -9,13 +10,13 @@ Oh_permutation_tuples = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0),
 Oh_parameters = list(itertools.product(Oh_permutation_tuples, Oh_flip_axes))
 
 
-def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3):
+def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3, elements=range(48)):
     offset = spatial_axes[0]
     prefix = tuple(range(offset))
     suffix = tuple(range(offset + 3, ops.ndim(signal)))
     Oh_params = [
         (prefix + tuple(p + offset for p in perm) + suffix, [f + offset for f in flip])
-        for (perm, flip) in Oh_parameters
+        for (perm, flip) in (Oh_parameters[i] for i in elements)
     ]
     transformed_signals = []
     for perm, flip in Oh_params:
@@ -2487,8 +2488,16 @@ Oh = Group(
 )
 
 O = Group(name="O", order=24, parent=Oh)
-D4h = Group(name="D4h", order=16, parent=Oh)
-D4 = Group(name="D4", order=8, parent=Oh)
+# these act on cuboids, on which not all elements of Oh can act
+D4h = Group(
+    name="D4h",
+    order=16,
+    parent=Oh,
+    action=partial(Oh_action, elements=Oh.subgroup["D4h"]),
+)
+D4 = Group(
+    name="D4", order=8, parent=Oh, action=partial(Oh_action, elements=Oh.subgroup["D4"])
+)
 
 
 space_group_dict = {"Oh": Oh, "O": O, "D4h": D4h, "D4": D4}
-- 
2.43.0


From 61cd5ff9eb76bc6a539ab35b04cf7ffb59138821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 09/28] fix: pad transposed convolutions on the right side and
 only where needed

With stride 1 and an even kernel size 'same_equiv' was padded on the wrong side, losing
equivariance silently, and 'valid' paddings padded or rejected inputs needlessly.
---
 groco/layers/padding.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index ec9c67b..bad7423 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -127,6 +127,11 @@ class EquivariantPadding(Layer):
         total_padding = extra_padding + built_in_padding
         extra_padding = extra_padding + (total_padding % 2) * self.strides
         total_padding = extra_padding + built_in_padding
+        if self.transpose and self.padding_option in ["VALID", "VALID_EQUIV"]:
+            # a transposed convolution covers the whole input whatever its size, and is symmetric
+            # unless its kernel is smaller than its stride
+            extra_padding = np.where(built_in_padding == 0, 0, extra_padding)
+            total_padding = np.where(built_in_padding == 0, 0, total_padding)
         return extra_padding, total_padding
 
     def split_padding(self, paddings):
@@ -140,6 +145,9 @@ class EquivariantPadding(Layer):
         # to make the total padding the same on both sides
         pads_after = paddings // 2
         pads_before = paddings - pads_after
+        if self.transpose:
+            # here 'same' crops more at the end, so more should be added there
+            pads_before, pads_after = pads_after, pads_before
 
         return np.stack([pads_before, pads_after], axis=1).tolist()
 
-- 
2.43.0


From ff9205a3ba76090e26f45a254b4343705e725073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 10/28] fix: report output shapes with the order of the acting
 group and extra padding

compute_output_shape inserted the order of the whole group, ignored the extra padding and used
the shape built with rather than the one given, so that symbolic and actual shapes disagreed.
---
 groco/layers/conv2d.py           |  4 ++--
 groco/layers/conv2d_transpose.py |  4 ++--
 groco/layers/conv3d.py           |  4 ++--
 groco/layers/conv3d_transpose.py |  4 ++--
 groco/layers/group_transforms.py | 14 +++++++++++---
 groco/layers/padding.py          | 15 +++++++++++++++
 groco/layers/pooling.py          | 15 +++++++++++++++
 7 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index 60dc8b9..f8b4e36 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -81,8 +81,8 @@ class GroupConv2D(Conv2D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        padded_shape = self.group_transforms.compute_padded_shape(input_shape)
+        output_shape = super().compute_output_shape(padded_shape)
         return self.group_transforms.correct_output_shape(output_shape)
 
 
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index b5c12e6..45e9746 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -79,6 +79,6 @@ class GroupConv2DTranspose(Conv2DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        padded_shape = self.group_transforms.compute_padded_shape(input_shape)
+        output_shape = super().compute_output_shape(padded_shape)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index edb1485..fd77af8 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -81,8 +81,8 @@ class GroupConv3D(Conv3D):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        padded_shape = self.group_transforms.compute_padded_shape(input_shape)
+        output_shape = super().compute_output_shape(padded_shape)
         return self.group_transforms.correct_output_shape(output_shape)
 
 
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 2445d47..541d4c8 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -85,6 +85,6 @@ class GroupConv3DTranspose(Conv3DTranspose):
         return config
 
     def compute_output_shape(self, input_shape):
-        input_shape_merged = self.group_transforms.reshaped_input
-        output_shape = super().compute_output_shape(input_shape_merged)
+        padded_shape = self.group_transforms.compute_padded_shape(input_shape)
+        output_shape = super().compute_output_shape(padded_shape)
         return self.group_transforms.correct_output_shape(output_shape)
diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 249b292..6cdc655 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -214,12 +214,20 @@ class GroupTransforms:
 
         return indices
 
+    def compute_padded_shape(self, input_shape):
+        """Compute the shape of the input after merging its group axis, if any, and padding."""
+        if len(input_shape) == self.dimensions + 3:
+            channels_axis = 1 if self.data_format == "channels_first" else self.dimensions + 2
+            input_shape = utils.merge_shapes(
+                input_shape, merged_axis=self.group_axis, target_axis=channels_axis
+            )
+        return self.equivariant_padding.compute_padded_shape(input_shape)
+
     def correct_output_shape(self, output_shape):
         """Insert the group axis in the correct place."""
         output_shape = list(output_shape)
-        return (
-            output_shape[: self.group_axis] + [self.group.order] + output_shape[self.group_axis :]
-        )
+        order = len(self.group.subgroup[self.acting_group])
+        return tuple(output_shape[: self.group_axis] + [order] + output_shape[self.group_axis :])
 
     def get_config(self):
         config = {"group": self.group, "subgroup": self.subgroup.name}
diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index bad7423..4e7133d 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -86,6 +86,21 @@ class EquivariantPadding(Layer):
         else:
             return tuple(shape[2:])
 
+    def compute_padded_shape(self, input_shape):
+        """Compute the shape after padding, with spatial sizes unknown if any of them is."""
+        spatial_shape = self.get_spatial_shape(input_shape)
+        if None in spatial_shape:
+            padded_spatial_shape = tuple(None for _ in spatial_shape)
+        else:
+            extra_padding = self.compute_checked_padding(spatial_shape)
+            padded_spatial_shape = tuple(
+                size + int(padding) for size, padding in zip(spatial_shape, extra_padding)
+            )
+        first = 1 if self.data_format == "channels_last" else 2
+        padded_shape = list(input_shape)
+        padded_shape[first : first + self.dimensions] = padded_spatial_shape
+        return tuple(padded_shape)
+
     def compute_checked_padding(self, spatial_shape):
         """Compute the extra padding, raising an error if equivariance cannot be maintained."""
         spatial_shape = np.array(spatial_shape)
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 250d239..6d21184 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -71,6 +71,13 @@ class GroupPooling(Layer):
         self.pooling.build(self.group_transforms.reshaped_input)
         self.group_transforms.build_pool()
 
+    def compute_output_shape(self, input_shape):
+        input_shape = list(input_shape)
+        input_shape.pop(self.group_transforms.group_axis)
+        padded_shape = self.group_transforms.compute_padded_shape(input_shape)
+        output_shape = self.pooling.compute_output_shape(padded_shape)
+        return self.group_transforms.correct_output_shape(output_shape)
+
     def get_config(self):
         config = self.pooling.get_config()
         config.update(self.group_transforms.get_config())
@@ -127,6 +134,14 @@ class GlobalGroupPooling(Layer):
             )
         self.pooling.build(reshaped_input)
 
+    def compute_output_shape(self, input_shape):
+        input_shape = list(input_shape)
+        input_shape.pop(self.group_axis)
+        output_shape = list(self.pooling.compute_output_shape(tuple(input_shape)))
+        if self.pooling.keepdims:
+            output_shape.insert(self.group_axis, 1)
+        return tuple(output_shape)
+
     def get_config(self):
         config = self.pooling.get_config()
         return config
-- 
2.43.0


From a12683b3b707797f746e5849b6ab704b3167e17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 11/28] fix: never expose the temporary kernel, bias and
 filters of a convolution call

A call that raised an error left the layer with the transformed kernel and a multiplied number of
filters, and concurrent calls overwrote each other's.
---
 groco/utils/misc.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 992e9e1..9478315 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -1,15 +1,18 @@
 def backup_and_restore(attribute_names):
     """
-    Decorator that backs up given attributes, runs the function, and then restores the backed up values.
+    Decorator for methods that temporarily need different values of the given attributes.
+
+    Runs the method on a shallow copy, so that the values it assigns are never seen on the object
+    itself, not when it raises an error and not by other threads.
     """
 
     def decorator(function):
         def wrapper(self, inputs):
-            backup = {name: getattr(self, name) for name in attribute_names}
-            result = function(self, inputs)
+            temporary = object.__new__(type(self))
+            temporary.__dict__.update(self.__dict__)
             for name in attribute_names:
-                setattr(self, name, backup[name])
-            return result
+                temporary.__dict__[name] = getattr(self, name)
+            return function(temporary, inputs)
 
         return wrapper
 
-- 
2.43.0


From e8bc34926674bed0b49ee5c5793a7d07651020c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:01 +0000
Subject: [PATCH 12/28] fix: make the configurations of all layers complete and
 serialisable

get_config failed for all layers with a point group, and pooling layers lost their own name,
trainable flag and dtype.
---
 groco/layers/group_transforms.py | 10 +++++++---
 groco/layers/padding.py          | 25 +++++++++++++++++--------
 groco/layers/pooling.py          | 13 +++++++++++--
 3 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 6cdc655..ade7c80 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -230,9 +230,13 @@ class GroupTransforms:
         return tuple(output_shape[: self.group_axis] + [order] + output_shape[self.group_axis :])
 
     def get_config(self):
-        config = {"group": self.group, "subgroup": self.subgroup.name}
-        config.update(self.equivariant_padding.get_config())
-        return config
+        """The arguments that the group layers have on top of those of the Keras layers."""
+        return {
+            "group": self.group.name,
+            "subgroup": self.subgroup.name,
+            "padding": self.equivariant_padding.padding_option.lower(),
+            "allow_non_equivariance": self.equivariant_padding.allow_non_equivariance,
+        }
 
     def prepare_call(self, kernel, bias, filters, inputs, use_bias):
         inputs = self.merge_group_axis_and_pad(inputs)
diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 4e7133d..32a821e 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -59,12 +59,14 @@ class EquivariantPadding(Layer):
             if isinstance(kernel_size, (tuple, list))
             else tuple(kernel_size for _ in range(self.dimensions)),
         )
+        self.kernel_size = kernel_size
+        self.dilation_rate = dilation_rate
         # a dilated kernel covers a larger area
         self.kernel_sizes = (self.kernel_sizes - 1) * np.array(dilation_rate) + 1
         self.data_format = data_format
         self.transpose = transpose
 
-        super().__init__()
+        super().__init__(name=kwargs.get("name"))
 
     def call(self, inputs):
         # the padding depends on the size of this input, which need not be the one built with
@@ -167,13 +169,20 @@ class EquivariantPadding(Layer):
         return np.stack([pads_before, pads_after], axis=1).tolist()
 
     def get_config(self):
-        return {
-            "kernel_size": self.kernel_size,
-            "strides": self.strides,
-            "padding": self.padding,
-            "allow_non_equivariance": self.allow_non_equivariance,
-            "dimensions": self.dimensions,
-        }
+        config = super().get_config()
+        config.update(
+            {
+                "kernel_size": self.kernel_size,
+                "dimensions": self.dimensions,
+                "strides": tuple(int(stride) for stride in self.strides),
+                "dilation_rate": self.dilation_rate,
+                "padding": self.padding_option.lower(),
+                "allow_non_equivariance": self.allow_non_equivariance,
+                "data_format": self.data_format,
+                "transpose": self.transpose,
+            }
+        )
+        return config
 
     @staticmethod
     def format_padding_option(padding_option):
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 6d21184..52df076 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -19,6 +19,11 @@ from groco import utils
 from groco.layers.group_transforms import GroupTransforms
 
 
+def get_layer_arguments(kwargs):
+    """Get the arguments that are common to all Keras layers."""
+    return {name: kwargs[name] for name in ("name", "trainable", "dtype") if name in kwargs}
+
+
 class GroupPooling(Layer):
     """
     Base group pooling layer. Only meant to be subclassed.
@@ -34,7 +39,8 @@ class GroupPooling(Layer):
         pool_size=2,
         **kwargs
     ):
-        super().__init__()
+        super().__init__(**get_layer_arguments(kwargs))
+        kwargs.pop("name", None)
 
         self.dimensions = dimensions
         # as in Keras, strides default to the pool size
@@ -80,6 +86,7 @@ class GroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config.update(super().get_config())
         config.update(self.group_transforms.get_config())
         return config
 
@@ -90,7 +97,8 @@ class GlobalGroupPooling(Layer):
     """
 
     def __init__(self, dimensions: int, pool_type: str, **kwargs):
-        super().__init__()
+        super().__init__(**get_layer_arguments(kwargs))
+        kwargs.pop("name", None)
         self.dimensions = dimensions
         self.pool_type = pool_type
         if self.dimensions == 1:
@@ -144,6 +152,7 @@ class GlobalGroupPooling(Layer):
 
     def get_config(self):
         config = self.pooling.get_config()
+        config.update(super().get_config())
         return config
 
 
-- 
2.43.0


From a71d09bf167133bbbec07dd9fc86ec48ae78cbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 13/28] fix: pad the spatial axes also with
 data_format='channels_first'

The padding was not told about the data format and padded the channels axis instead.
---
 groco/layers/group_transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index ade7c80..b979ae4 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -54,6 +54,7 @@ class GroupTransforms:
             kernel_size=kernel_size,
             dimensions=dimensions,
             transpose=transpose,
+            data_format=data_format,
             **kwargs,
         )
         self.built_in_padding_option = self.equivariant_padding.built_in_padding_option
-- 
2.43.0


From 0e7ef2099792068002a2346b35bf2ef636332c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 14/28] fix: default to the data format configured in Keras, as
 the base layers do

---
 groco/layers/group_transforms.py | 6 ++++--
 groco/layers/pooling.py          | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index b979ae4..bd36330 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -1,4 +1,4 @@
-from keras import ops
+from keras import config, ops
 from keras.layers import Layer
 
 from groco import utils
@@ -30,7 +30,7 @@ class GroupTransforms:
         group,
         kernel_size,
         dimensions: int,
-        data_format="channels_last",
+        data_format=None,
         allow_non_equivariance: bool = False,
         subgroup="",
         transpose=False,
@@ -39,6 +39,8 @@ class GroupTransforms:
     ):
         super().__init__()
 
+        # as in Keras, default to the configured data format
+        data_format = data_format or config.image_data_format()
         self.dimensions = dimensions
         self.transpose = transpose
         self.separable = separable
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 52df076..c3f5acd 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -109,7 +109,7 @@ class GlobalGroupPooling(Layer):
             pool_layer = GlobalMaxPooling3D if self.pool_type == "max" else GlobalAveragePooling3D
         self.pooling = pool_layer(**kwargs)
 
-        if "data_format" in kwargs and kwargs["data_format"] == "channels_first":
+        if self.pooling.data_format == "channels_first":
             self.group_axis = self.dimensions + 2
             self.channels_axis = 1
         else:
-- 
2.43.0


From 7069d8c3f7d390b9aac0f0764896068c6dd8c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 15/28] fix: keep the compute dtype when padding, to support
 mixed precision

---
 groco/layers/padding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index 32a821e..ad0b162 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -66,7 +66,8 @@ class EquivariantPadding(Layer):
         self.data_format = data_format
         self.transpose = transpose
 
-        super().__init__(name=kwargs.get("name"))
+        # keep the dtype of the inputs, which are those of the layer this is used in
+        super().__init__(name=kwargs.get("name"), autocast=False)
 
     def call(self, inputs):
         # the padding depends on the size of this input, which need not be the one built with
-- 
2.43.0


From 128213a81c371a61db2bfe7a4ef15ad83f15d370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 16/28] fix: balance uneven 'same' padding in poolings with
 'same_equiv'

Average pooling, and max pooling of negative values, silently lost equivariance because one side
was padded with zeros and the other with entries that are ignored.
---
 groco/layers/padding.py | 20 ++++++++++++++++++--
 groco/layers/pooling.py | 14 ++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/groco/layers/padding.py b/groco/layers/padding.py
index ad0b162..b4db47a 100644
--- a/groco/layers/padding.py
+++ b/groco/layers/padding.py
@@ -29,6 +29,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance: bool, whether to allow non-equivariant padding.
         data_format: string, one of 'channels_last', 'channels_first'.
         transpose: bool, whether the layer is a transposed convolution.
+        pooling: bool, whether the layer is a pooling layer.
     """
 
     def __init__(
@@ -41,6 +42,7 @@ class EquivariantPadding(Layer):
         allow_non_equivariance=False,
         data_format="channels_last",
         transpose=False,
+        pooling=False,
         **kwargs,
     ):
         self.padding_option = self.format_padding_option(padding)
@@ -65,6 +67,7 @@ class EquivariantPadding(Layer):
         self.kernel_sizes = (self.kernel_sizes - 1) * np.array(dilation_rate) + 1
         self.data_format = data_format
         self.transpose = transpose
+        self.pooling = pooling
 
         # keep the dtype of the inputs, which are those of the layer this is used in
         super().__init__(name=kwargs.get("name"), autocast=False)
@@ -87,7 +90,7 @@ class EquivariantPadding(Layer):
         if self.data_format == "channels_last":
             return tuple(shape[1 : 1 + self.dimensions])
         else:
-            return tuple(shape[2:])
+            return tuple(shape[2 : 2 + self.dimensions])
 
     def compute_padded_shape(self, input_shape):
         """Compute the shape after padding, with spatial sizes unknown if any of them is."""
@@ -121,7 +124,19 @@ class EquivariantPadding(Layer):
         if np.any(total_padding % 2 != 0):
             raise self.padding_parity_error(spatial_shape)
 
-        return extra_padding
+        return total_padding if self.includes_built_in_padding(spatial_shape) else extra_padding
+
+    def includes_built_in_padding(self, spatial_shape):
+        """
+        Whether the built-in padding is included in the padding done here.
+
+        This is necessary for uneven 'same' padding of pooling layers, as these ignore the entries
+        they pad, in contrast to those padded here, so they should not be on opposite sides.
+        """
+        if not self.pooling or self.padding_option != "SAME_EQUIV" or None in spatial_shape:
+            return False
+        built_in_padding = self.compute_built_in_padding(np.array(spatial_shape))
+        return bool(np.any(built_in_padding % 2 != 0))
 
     def compute_equivariant_padding(self, spatial_shape):
         built_in_padding = self.compute_built_in_padding(spatial_shape)
@@ -181,6 +196,7 @@ class EquivariantPadding(Layer):
                 "allow_non_equivariance": self.allow_non_equivariance,
                 "data_format": self.data_format,
                 "transpose": self.transpose,
+                "pooling": self.pooling,
             }
         )
         return config
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index c3f5acd..7879b82 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -65,23 +65,33 @@ class GroupPooling(Layer):
         else:
             pool_layer = MaxPooling3D if self.pool_type == "max" else AveragePooling3D
         self.pooling = pool_layer(pool_size=pool_size, **kwargs)
+        # for when the built-in padding is already included in the extra padding
+        kwargs["padding"] = "valid"
+        self.unpadded_pooling = pool_layer(pool_size=pool_size, **kwargs)
+
+    def get_pooling(self, input_shape):
+        padding = self.group_transforms.equivariant_padding
+        included = padding.includes_built_in_padding(padding.get_spatial_shape(input_shape))
+        return self.unpadded_pooling if included else self.pooling
 
     def call(self, inputs):
+        pooling = self.get_pooling(inputs.shape)
         inputs = self.group_transforms.subgroup_pooling(inputs, self.pool_type)
         inputs = self.group_transforms.merge_group_axis_and_pad(inputs)
-        outputs = self.pooling(inputs)
+        outputs = pooling(inputs)
         return self.group_transforms.restore_group_axis(outputs)
 
     def build(self, input_shape):
         self.group_transforms.build(input_shape)
         self.pooling.build(self.group_transforms.reshaped_input)
+        self.unpadded_pooling.build(self.group_transforms.reshaped_input)
         self.group_transforms.build_pool()
 
     def compute_output_shape(self, input_shape):
         input_shape = list(input_shape)
         input_shape.pop(self.group_transforms.group_axis)
         padded_shape = self.group_transforms.compute_padded_shape(input_shape)
-        output_shape = self.pooling.compute_output_shape(padded_shape)
+        output_shape = self.get_pooling(input_shape).compute_output_shape(padded_shape)
         return self.group_transforms.correct_output_shape(output_shape)
 
     def get_config(self):
-- 
2.43.0


From 1c48fb51d1993633cc44d712f3595fffd117ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 17/28] fix: do not mix up the channels of the kernel in
 transposed convolutions

The indices were computed after swapping the channel axes of the kernel but applied before, so
even for the trivial group the stored kernel was not the one convolved with.
---
 groco/layers/group_transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index bd36330..f3c9769 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -180,11 +180,11 @@ class GroupTransforms:
         """
         Compute a tensor of indices used to gather from the kernel to produce the group action on it.
         """
-        if self.transpose:
-            kernel = ops.swapaxes(kernel, -1, -2)
-
         indices = utils.get_index_tensor(kernel)
 
+        if self.transpose:
+            indices = ops.swapaxes(indices, -1, -2)
+
         kwargs = {
             "new_group_axis": self.dimensions,
             "spatial_axes": tuple(d for d in range(self.dimensions)),
-- 
2.43.0


From 19faa867b10988753774a0eaa4ada15cff1cd8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:21 +0000
Subject: [PATCH 18/28] fix: take kernels of transposed convolutions to be zero
 outside of the subgroup

For signals on a proper subgroup the first weight of the kernel was used instead.
---
 groco/layers/group_transforms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index f3c9769..8b1fe6e 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -103,7 +103,10 @@ class GroupTransforms:
         (height, width, domain_group.order * channels_in, channels_out) ->
         (height, width, domain_group.order * channels_in, acting_group.order * channels_out)
         """
-        return ops.take(ops.reshape(kernel, [-1]), indices=self._transformed_kernel_indices, axis=0)
+        weights = ops.reshape(kernel, [-1])
+        # the first index is that of the zeros outside of the domain group
+        weights = ops.concatenate([ops.zeros_like(weights[:1]), weights], axis=0)
+        return ops.take(weights, indices=self._transformed_kernel_indices, axis=0)
 
     def restore_group_axis(self, outputs):
         """
@@ -180,7 +183,8 @@ class GroupTransforms:
         """
         Compute a tensor of indices used to gather from the kernel to produce the group action on it.
         """
-        indices = utils.get_index_tensor(kernel)
+        # index 0 is left for the zeros outside of the domain group
+        indices = utils.get_index_tensor(kernel) + 1
 
         if self.transpose:
             indices = ops.swapaxes(indices, -1, -2)
-- 
2.43.0


From c443d5eab4691efce4d012153e62ecdecda55d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 19/28] fix: keep equivariance in convolutions with several
 feature groups

The point group was merged with the channels without regard for groups, so that different group
elements ended up in different feature groups.
---
 groco/layers/group_transforms.py | 40 ++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 8b1fe6e..e71262c 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -1,3 +1,4 @@
+import numpy as np
 from keras import config, ops
 from keras.layers import Layer
 
@@ -35,6 +36,7 @@ class GroupTransforms:
         subgroup="",
         transpose=False,
         separable=False,
+        groups=1,
         **kwargs,
     ):
         super().__init__()
@@ -44,6 +46,7 @@ class GroupTransforms:
         self.dimensions = dimensions
         self.transpose = transpose
         self.separable = separable
+        self.groups = groups
 
         self.group = group if isinstance(group, Group) else group_dict[group]
         self.subgroup = group_dict[self.group.parse_subgroup(subgroup or "")]
@@ -88,6 +91,8 @@ class GroupTransforms:
             inputs = utils.merge_axes(
                 inputs, merged_axis=self.group_axis, target_axis=self.channels_axis
             )
+        if self._input_indices is not None:
+            inputs = ops.take(inputs, indices=self._input_indices, axis=self._merged_axis)
         inputs = self.equivariant_padding(inputs)
         return inputs
 
@@ -119,6 +124,8 @@ class GroupTransforms:
         group_channels_axis = self.channels_axis
         if self.group_valued_input and self.data_format == "channels_last":
             group_channels_axis -= 1
+        if self._output_indices is not None:
+            outputs = ops.take(outputs, indices=self._output_indices, axis=self._merged_axis)
         factor = len(self.group.subgroup[self.acting_group])
         out = utils.split_axes(outputs, left_size=factor, right_axis=group_channels_axis)
         out = ops.moveaxis(out, group_channels_axis, self.group_axis)
@@ -152,6 +159,15 @@ class GroupTransforms:
                 f"expected {order}."
             )
 
+            channels = input_shape[self.channels_axis]
+            if channels % self.groups != 0:
+                raise ValueError(
+                    "The number of input channels must be divisible by the number of groups. "
+                    f"Received {channels} channels and groups={self.groups}."
+                )
+            if self.groups > 1:
+                self._input_indices = self._compute_feature_group_indices(order, channels)
+
             reshaped_input = utils.merge_shapes(
                 input_shape, merged_axis=self.group_axis, target_axis=self.channels_axis
             )
@@ -164,6 +180,15 @@ class GroupTransforms:
         if use_bias:
             self._repeated_bias_indices = self._compute_repeated_bias_indices(bias)
         self._transformed_kernel_indices = self._compute_transformed_kernel_indices(kernel)
+        if self.groups > 1:
+            order = len(self.group.subgroup[self.acting_group])
+            indices = self._compute_feature_group_indices(order, kernel.shape[-1])
+            if use_bias:
+                self._repeated_bias_indices = ops.take(self._repeated_bias_indices, indices)
+            self._transformed_kernel_indices = ops.take(
+                self._transformed_kernel_indices, indices, axis=-1
+            )
+            self._output_indices = np.argsort(indices)
 
     def build_pool(self):
         indices = ops.take(
@@ -172,6 +197,21 @@ class GroupTransforms:
         subgroup_indices = self.group.subgroup[self.subgroup.name]
         self._pooling_indices = ops.take(indices, axis=0, indices=subgroup_indices)
 
+    @property
+    def _merged_axis(self):
+        """The axis of the channels while the group axis is merged with it."""
+        return 1 if self.data_format == "channels_first" else self.dimensions + 1
+
+    def _compute_feature_group_indices(self, order, channels):
+        """
+        Compute the indices that order the merged group and channels axis by feature group.
+
+        A convolution with several (feature) groups needs all channels of each of them together.
+        """
+        indices = np.arange(order * channels)
+        indices = indices.reshape(order, self.groups, channels // self.groups)
+        return indices.swapaxes(0, 1).reshape(-1)
+
     def _compute_repeated_bias_indices(self, bias):
         """Compute a 1D tensor of indices used to gather from the bias in order to repeat it across the group axis."""
         indices = utils.get_index_tensor(bias)
-- 
2.43.0


From 34da0299ef7064922f0e420815922d0df9f8b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 20/28] fix: reject sizes that differ along exchanged axes

Strides, dilations and pool sizes that differ along axes exchanged by the group spoiled
equivariance silently.
---
 groco/layers/group_transforms.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index e71262c..2008979 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -63,6 +63,8 @@ class GroupTransforms:
             **kwargs,
         )
         self.built_in_padding_option = self.equivariant_padding.built_in_padding_option
+        if not allow_non_equivariance:
+            self._check_exchanged_axes()
 
         self.data_format = data_format
         # axes refer to input
@@ -78,6 +80,29 @@ class GroupTransforms:
         self._output_indices = None
         self._pooling_indices = None
 
+    def _check_exchanged_axes(self):
+        """Check that all sizes are the same along any axes that the subgroup exchanges."""
+        axes = tuple(range(self.dimensions))
+        for name in ("kernel_size", "strides", "dilation_rate"):
+            sizes = np.broadcast_to(getattr(self.equivariant_padding, name), self.dimensions)
+            if np.all(sizes == sizes[0]):
+                continue
+            for axis in axes:
+                signal = np.zeros((2,) * self.dimensions)
+                signal[(slice(None),) * axis + (1,)] = 1
+                copies = self.group.action(
+                    signal, spatial_axes=axes, acting_group=self.subgroup.name, domain_group=None
+                )
+                copies = ops.convert_to_numpy(copies)
+                # an element moves this axis to another if the signal then varies along that
+                exchanged = [a for a in axes if np.any(np.diff(copies, axis=a + 1))]
+                if np.any(sizes[exchanged] != sizes[axis]):
+                    raise ValueError(
+                        f"The group {self.subgroup.name} exchanges axes along which {name} "
+                        f"differs, which spoils equivariance, received {tuple(sizes)}.\n"
+                        "If you insist on using this, use `allow_non_equivariance=True`."
+                    )
+
     def merge_group_axis_and_pad(self, inputs):
         """
         If the input is a signal on the group, join the group axis with the channel axis.
-- 
2.43.0


From 7dcab147defeaa5f680baee18e4301f69076bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 21/28] fix: allow building a layer again after its first input
 was rejected

---
 groco/layers/group_transforms.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 2008979..a43d7d9 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -53,6 +53,7 @@ class GroupTransforms:
         self.domain_group, self.acting_group = self.group.name, self.subgroup.name
         if transpose:
             self.domain_group, self.acting_group = self.acting_group, self.domain_group
+        self._group_of_group_valued_input = self.domain_group
 
         self.equivariant_padding = EquivariantPadding(
             allow_non_equivariance=allow_non_equivariance,
@@ -171,11 +172,11 @@ class GroupTransforms:
     def build(self, input_shape):
         # apart from the spatial dimensions, there are feature and batch axes
         # if there is a third axis, it is the group axis and the input is a signal on the group
+        # this may run again, if the first input was rejected
         self.group_valued_input = len(input_shape) == self.dimensions + 3
-        if not self.group_valued_input:
-            self.domain_group = None
-        if self.data_format == "channels_last" and self.group_valued_input:
-            self.channels_axis += 1
+        self.domain_group = self._group_of_group_valued_input if self.group_valued_input else None
+        if self.data_format == "channels_last":
+            self.channels_axis = self.dimensions + 1 + self.group_valued_input
 
         if self.group_valued_input:
             order = len(self.group.subgroup[self.domain_group])
-- 
2.43.0


From 6dd7685280ca223054c9dafe3e9dfe95a78653fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 22/28] fix: raise ValueError for kernels whose shape the group
 does not keep

---
 groco/layers/group_transforms.py | 61 ++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index a43d7d9..2c7d7c5 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -64,8 +64,7 @@ class GroupTransforms:
             **kwargs,
         )
         self.built_in_padding_option = self.equivariant_padding.built_in_padding_option
-        if not allow_non_equivariance:
-            self._check_exchanged_axes()
+        self._check_exchanged_axes(allow_non_equivariance)
 
         self.data_format = data_format
         # axes refer to input
@@ -81,28 +80,46 @@ class GroupTransforms:
         self._output_indices = None
         self._pooling_indices = None
 
-    def _check_exchanged_axes(self):
-        """Check that all sizes are the same along any axes that the subgroup exchanges."""
-        axes = tuple(range(self.dimensions))
+    def _check_exchanged_axes(self, allow_non_equivariance):
+        """Check that all sizes are the same along any axes that the groups exchange."""
+        if not self.equivariant_padding.pooling:
+            # a kernel is transformed by the whole group, which has to keep its shape
+            axes = self._get_exchanged_axes("kernel_size", self.group.name)
+            if axes:
+                raise ValueError(
+                    f"The group {self.group.name} exchanges the axes {axes} along which the size "
+                    f"of the kernel differs, received {self.equivariant_padding.kernel_size}."
+                )
+        if allow_non_equivariance:
+            return
         for name in ("kernel_size", "strides", "dilation_rate"):
-            sizes = np.broadcast_to(getattr(self.equivariant_padding, name), self.dimensions)
-            if np.all(sizes == sizes[0]):
-                continue
-            for axis in axes:
-                signal = np.zeros((2,) * self.dimensions)
-                signal[(slice(None),) * axis + (1,)] = 1
-                copies = self.group.action(
-                    signal, spatial_axes=axes, acting_group=self.subgroup.name, domain_group=None
+            axes = self._get_exchanged_axes(name, self.subgroup.name)
+            if axes:
+                raise ValueError(
+                    f"The group {self.subgroup.name} exchanges the axes {axes} along which {name} "
+                    "differs, which spoils equivariance, "
+                    f"received {getattr(self.equivariant_padding, name)}.\n"
+                    "If you insist on using this, use `allow_non_equivariance=True`."
                 )
-                copies = ops.convert_to_numpy(copies)
-                # an element moves this axis to another if the signal then varies along that
-                exchanged = [a for a in axes if np.any(np.diff(copies, axis=a + 1))]
-                if np.any(sizes[exchanged] != sizes[axis]):
-                    raise ValueError(
-                        f"The group {self.subgroup.name} exchanges axes along which {name} "
-                        f"differs, which spoils equivariance, received {tuple(sizes)}.\n"
-                        "If you insist on using this, use `allow_non_equivariance=True`."
-                    )
+
+    def _get_exchanged_axes(self, name, group):
+        """Get axes that the group exchanges and along which these sizes differ."""
+        sizes = np.broadcast_to(getattr(self.equivariant_padding, name), self.dimensions)
+        if np.all(sizes == sizes[0]):
+            return []
+        axes = tuple(range(self.dimensions))
+        for axis in axes:
+            signal = np.zeros((2,) * self.dimensions)
+            signal[(slice(None),) * axis + (1,)] = 1
+            copies = self.group.action(
+                signal, spatial_axes=axes, acting_group=group, domain_group=None
+            )
+            copies = ops.convert_to_numpy(copies)
+            # an element moves this axis to another if the signal then varies along that
+            exchanged = [a for a in axes if np.any(np.diff(copies, axis=a + 1))]
+            if np.any(sizes[exchanged] != sizes[axis]):
+                return exchanged
+        return []
 
     def merge_group_axis_and_pad(self, inputs):
         """
-- 
2.43.0


From fff0d725c62998b5dcefc91fb561f0509d4b3768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:40 +0000
Subject: [PATCH 23/28] fix: reject inputs whose rank or group axis does not
 fit, also after the first call

Keras takes a convolution of more channels than its kernel has to be a grouped
one, and a gather ignores further elements, so such inputs gave wrong outputs.
---
 groco/layers/conv2d.py           |  7 +------
 groco/layers/conv2d_transpose.py |  7 +------
 groco/layers/conv3d.py           |  7 +------
 groco/layers/conv3d_transpose.py |  7 +------
 groco/layers/group_transforms.py | 14 +++++++++++++-
 groco/layers/pooling.py          |  5 +++++
 6 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/groco/layers/conv2d.py b/groco/layers/conv2d.py
index f8b4e36..bf3a723 100644
--- a/groco/layers/conv2d.py
+++ b/groco/layers/conv2d.py
@@ -68,12 +68,7 @@ class GroupConv2D(Conv2D):
         self.group_transforms.build(input_shape)
         super().build(self.group_transforms.reshaped_input)
         self.group_transforms.build_conv(self.kernel, self.bias, self.use_bias)
-        if self.group_transforms.group_valued_input:
-            if self.data_format == "channels_first":
-                channel_axis = 1
-            else:
-                channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+        self.input_spec = self.group_transforms.get_input_spec(input_shape)
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv2d_transpose.py b/groco/layers/conv2d_transpose.py
index 45e9746..7e353f0 100644
--- a/groco/layers/conv2d_transpose.py
+++ b/groco/layers/conv2d_transpose.py
@@ -66,12 +66,7 @@ class GroupConv2DTranspose(Conv2DTranspose):
         self.group_transforms.build(input_shape)
         super().build(self.group_transforms.reshaped_input)
         self.group_transforms.build_conv(self.kernel, self.bias, self.use_bias)
-        if self.group_transforms.group_valued_input:
-            if self.data_format == "channels_first":
-                channel_axis = 1
-            else:
-                channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+        self.input_spec = self.group_transforms.get_input_spec(input_shape)
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv3d.py b/groco/layers/conv3d.py
index fd77af8..82c9dad 100644
--- a/groco/layers/conv3d.py
+++ b/groco/layers/conv3d.py
@@ -68,12 +68,7 @@ class GroupConv3D(Conv3D):
         self.group_transforms.build(input_shape)
         super().build(self.group_transforms.reshaped_input)
         self.group_transforms.build_conv(self.kernel, self.bias, self.use_bias)
-        if self.group_transforms.group_valued_input:
-            if self.data_format == "channels_first":
-                channel_axis = 1
-            else:
-                channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+        self.input_spec = self.group_transforms.get_input_spec(input_shape)
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/conv3d_transpose.py b/groco/layers/conv3d_transpose.py
index 541d4c8..c248550 100644
--- a/groco/layers/conv3d_transpose.py
+++ b/groco/layers/conv3d_transpose.py
@@ -72,12 +72,7 @@ class GroupConv3DTranspose(Conv3DTranspose):
         self.group_transforms.build(input_shape)
         super().build(self.group_transforms.reshaped_input)
         self.group_transforms.build_conv(self.kernel, self.bias, self.use_bias)
-        if self.group_transforms.group_valued_input:
-            if self.data_format == "channels_first":
-                channel_axis = 1
-            else:
-                channel_axis = -1
-            self.input_spec.axes = {channel_axis: input_shape[self.group_transforms.channels_axis]}
+        self.input_spec = self.group_transforms.get_input_spec(input_shape)
 
     def get_config(self):
         config = super().get_config()
diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 2c7d7c5..834a86b 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -1,6 +1,6 @@
 import numpy as np
 from keras import config, ops
-from keras.layers import Layer
+from keras.layers import InputSpec
 
 from groco import utils
 from groco.groups import Group, group_dict
@@ -190,6 +190,11 @@ class GroupTransforms:
         # apart from the spatial dimensions, there are feature and batch axes
         # if there is a third axis, it is the group axis and the input is a signal on the group
         # this may run again, if the first input was rejected
+        if len(input_shape) not in (self.dimensions + 2, self.dimensions + 3):
+            raise ValueError(
+                f"Expected {self.dimensions + 2} axes, or {self.dimensions + 3} for a signal on "
+                f"the group, got input shape {tuple(input_shape)}."
+            )
         self.group_valued_input = len(input_shape) == self.dimensions + 3
         self.domain_group = self._group_of_group_valued_input if self.group_valued_input else None
         if self.data_format == "channels_last":
@@ -219,6 +224,13 @@ class GroupTransforms:
         self.reshaped_input = reshaped_input
         self.equivariant_padding.build(reshaped_input)
 
+    def get_input_spec(self, input_shape):
+        """Get what all inputs have to satisfy, once the layer is built with inputs of this shape."""
+        axes = {self.channels_axis: input_shape[self.channels_axis]}
+        if self.group_valued_input:
+            axes[self.group_axis] = input_shape[self.group_axis]
+        return InputSpec(ndim=len(input_shape), axes=axes)
+
     def build_conv(self, kernel, bias, use_bias):
         if use_bias:
             self._repeated_bias_indices = self._compute_repeated_bias_indices(bias)
diff --git a/groco/layers/pooling.py b/groco/layers/pooling.py
index 7879b82..a7b95e0 100644
--- a/groco/layers/pooling.py
+++ b/groco/layers/pooling.py
@@ -9,6 +9,7 @@ from keras.layers import (
     GlobalMaxPooling1D,
     GlobalMaxPooling2D,
     GlobalMaxPooling3D,
+    InputSpec,
     Layer,
     MaxPooling1D,
     MaxPooling2D,
@@ -68,6 +69,9 @@ class GroupPooling(Layer):
         # for when the built-in padding is already included in the extra padding
         kwargs["padding"] = "valid"
         self.unpadded_pooling = pool_layer(pool_size=pool_size, **kwargs)
+        # apart from the spatial dimensions, there are feature, group and batch axes
+        axes = {self.group_transforms.group_axis: self.group_transforms.group.order}
+        self.input_spec = InputSpec(ndim=dimensions + 3, axes=axes)
 
     def get_pooling(self, input_shape):
         padding = self.group_transforms.equivariant_padding
@@ -125,6 +129,7 @@ class GlobalGroupPooling(Layer):
         else:
             self.group_axis = self.dimensions + 1
             self.channels_axis = -1
+        self.input_spec = InputSpec(ndim=dimensions + 3)
 
     def call(self, inputs):
         inputs = self.pool_group(inputs)
-- 
2.43.0


From 36d088a4858a8348e7618ea8ff5a6708f76ba202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 24/28] fix: act on 3D signals along the given spatial axes,
 also if not consecutive

All but the first of the axes were ignored, which also let layers accept space
groups in 2D, where what they then did was not equivariant.
---
 groco/groups/space_groups.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/groco/groups/space_groups.py b/groco/groups/space_groups.py
index f1dd28e..3895abb 100644
--- a/groco/groups/space_groups.py
+++ b/groco/groups/space_groups.py
@@ -11,13 +11,14 @@ Oh_parameters = list(itertools.product(Oh_permutation_tuples, Oh_flip_axes))
 
 
 def Oh_action(signal, spatial_axes=(0, 1, 2), new_group_axis=3, elements=range(48)):
-    offset = spatial_axes[0]
-    prefix = tuple(range(offset))
-    suffix = tuple(range(offset + 3, ops.ndim(signal)))
-    Oh_params = [
-        (prefix + tuple(p + offset for p in perm) + suffix, [f + offset for f in flip])
-        for (perm, flip) in (Oh_parameters[i] for i in elements)
-    ]
+    if len(spatial_axes) != 3:
+        raise ValueError(f"Expected 3 spatial axes, received {tuple(spatial_axes)}.")
+    Oh_params = []
+    for perm, flip in (Oh_parameters[i] for i in elements):
+        axes = list(range(ops.ndim(signal)))
+        for axis, p in zip(spatial_axes, perm):
+            axes[axis] = spatial_axes[p]
+        Oh_params.append((axes, [spatial_axes[f] for f in flip]))
     transformed_signals = []
     for perm, flip in Oh_params:
         transformed_signal = signal
-- 
2.43.0


From 4a47781dfb6ca379707d36d9bb74d182e6ee6e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:05 +0000
Subject: [PATCH 25/28] fix: reject signals that are not on the domain group in
 group actions

The elements of the group axis were gathered by indices computed for the order
of the domain group, which gave wrong results for any other size.
---
 groco/groups/group.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/groco/groups/group.py b/groco/groups/group.py
index 8a6e856..9c86c21 100644
--- a/groco/groups/group.py
+++ b/groco/groups/group.py
@@ -115,6 +115,11 @@ class Group:
         """
         acting_group_order = len(self.subgroup[acting_group])
         domain_group_order = len(self.subgroup[domain_group])
+        if signal.shape[group_axis] != domain_group_order:
+            raise ValueError(
+                f"The signal is not on the group {domain_group}, expected size "
+                f"{domain_group_order} in axis {group_axis}, got {signal.shape[group_axis]}."
+            )
         # fill in zeroes outside of domain group if necessary
         if domain_group_order < self.order:
             signal = self.upsample(signal, group_axis, domain_group)
-- 
2.43.0


From a0029917373a09e0b7d916faaa701d581f0ed65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:10 +0000
Subject: [PATCH 26/28] fix: reject subgroups that the group does not contain

These were only noticed where the subgroup is used, which it is not in a
transposed convolution from the grid.
---
 groco/layers/group_transforms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index 834a86b..e4c0e57 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -49,7 +49,13 @@ class GroupTransforms:
         self.groups = groups
 
         self.group = group if isinstance(group, Group) else group_dict[group]
-        self.subgroup = group_dict[self.group.parse_subgroup(subgroup or "")]
+        subgroup = self.group.parse_subgroup(subgroup or "")
+        if subgroup not in self.group.subgroup:
+            raise ValueError(
+                f"Expected a subgroup of {self.group.name}, one of {list(self.group.subgroup)}, "
+                f"received {subgroup}."
+            )
+        self.subgroup = group_dict[subgroup]
         self.domain_group, self.acting_group = self.group.name, self.subgroup.name
         if transpose:
             self.domain_group, self.acting_group = self.acting_group, self.domain_group
-- 
2.43.0


From 0ea14a3cec596bf7c5eab8c44954373334f9c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 27/28] fix: allow building layers while tracing, as Keras does
 for models that are not built

The indices computed while tracing were of no use afterwards, so that models
that were not built explicitly could not be trained.
---
 groco/layers/group_transforms.py |  3 +++
 groco/utils/misc.py              | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/groco/layers/group_transforms.py b/groco/layers/group_transforms.py
index e4c0e57..ec401b3 100644
--- a/groco/layers/group_transforms.py
+++ b/groco/layers/group_transforms.py
@@ -108,6 +108,7 @@ class GroupTransforms:
                     "If you insist on using this, use `allow_non_equivariance=True`."
                 )
 
+    @utils.with_concrete_values
     def _get_exchanged_axes(self, name, group):
         """Get axes that the group exchanges and along which these sizes differ."""
         sizes = np.broadcast_to(getattr(self.equivariant_padding, name), self.dimensions)
@@ -237,6 +238,7 @@ class GroupTransforms:
             axes[self.group_axis] = input_shape[self.group_axis]
         return InputSpec(ndim=len(input_shape), axes=axes)
 
+    @utils.with_concrete_values
     def build_conv(self, kernel, bias, use_bias):
         if use_bias:
             self._repeated_bias_indices = self._compute_repeated_bias_indices(bias)
@@ -251,6 +253,7 @@ class GroupTransforms:
             )
             self._output_indices = np.argsort(indices)
 
+    @utils.with_concrete_values
     def build_pool(self):
         indices = ops.take(
             self.group.composition, axis=1, indices=self.group.cosets[self.subgroup.name]
diff --git a/groco/utils/misc.py b/groco/utils/misc.py
index 9478315..c584f4c 100644
--- a/groco/utils/misc.py
+++ b/groco/utils/misc.py
@@ -1,3 +1,9 @@
+import contextlib
+import functools
+
+from keras import backend
+
+
 def backup_and_restore(attribute_names):
     """
     Decorator for methods that temporarily need different values of the given attributes.
@@ -17,3 +23,29 @@ def backup_and_restore(attribute_names):
         return wrapper
 
     return decorator
+
+
+def with_concrete_values(function):
+    """
+    Decorator for functions whose operations should give actual values, also while tracing.
+
+    Keras may build layers while the backend is tracing a function, and what is computed in that
+    is of no use afterwards.
+    """
+
+    @functools.wraps(function)
+    def wrapper(*args, **kwargs):
+        if backend.backend() == "jax":
+            import jax
+
+            context = jax.ensure_compile_time_eval()
+        elif backend.backend() == "tensorflow":
+            import tensorflow
+
+            context = tensorflow.init_scope()
+        else:
+            context = contextlib.nullcontext()
+        with context:
+            return function(*args, **kwargs)
+
+    return wrapper
-- 
2.43.0


From 94a9aded415f8b76c711b4198ff24cec5820609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 28/28] fix: accept axes that are counted from the end

Group actions and merging of axes silently gave wrong results for these.
---
 groco/groups/group.py        | 7 +++++++
 groco/utils/tensor_manips.py | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/groco/groups/group.py b/groco/groups/group.py
index 9c86c21..ace65c8 100644
--- a/groco/groups/group.py
+++ b/groco/groups/group.py
@@ -73,6 +73,12 @@ class Group:
             Tensor of the signal acted on by the group.
         """
         acting_group, domain_group = self.parse_subgroups(acting_group, domain_group)
+        # axes may be counted from the end, where the output has one more than the signal
+        ndim = ops.ndim(signal)
+        spatial_axes = tuple(utils.count_axis_from_start(axis, ndim) for axis in spatial_axes)
+        new_group_axis = utils.count_axis_from_start(new_group_axis, ndim + 1)
+        if group_axis is not None:
+            group_axis = utils.count_axis_from_start(group_axis, ndim)
         action = self._action_on_group if domain_group else self._action_on_grid
         signal = action(
             signal,
@@ -140,6 +146,7 @@ class Group:
         return signal
 
     def upsample(self, signal, group_axis, domain_group):
+        group_axis = utils.count_axis_from_start(group_axis, ops.ndim(signal))
         domain_group_indices = self.subgroup[domain_group]
         zeros = ops.zeros(
             shape=signal.shape[:group_axis] + (1,) + signal.shape[group_axis + 1 :],
diff --git a/groco/utils/tensor_manips.py b/groco/utils/tensor_manips.py
index 20d41cc..5bc489d 100644
--- a/groco/utils/tensor_manips.py
+++ b/groco/utils/tensor_manips.py
@@ -19,6 +19,11 @@ def get_index_tensor(tensor) -> KerasTensor:
     return index_tensor
 
 
+def count_axis_from_start(axis: int, ndim: int) -> int:
+    """Return the index of the axis as counted from the start, if it was counted from the end."""
+    return axis + ndim if axis < 0 else axis
+
+
 def move_axis_to_left_of(tensor: KerasTensor, moved_axis: int, target_axis: int) -> KerasTensor:
     """
     Put the `moved_axis` to the left of the `target_axis`, leaving the order of the other
@@ -32,6 +37,9 @@ def move_axis_to_left_of(tensor: KerasTensor, moved_axis: int, target_axis: int)
     Returns:
         The tensor with its axes moved.
     """
+    ndim = len(tensor.shape)
+    moved_axis = count_axis_from_start(moved_axis, ndim)
+    target_axis = count_axis_from_start(target_axis, ndim)
     # in this case after removing moved_axis, target_axis shifts left by one
     if moved_axis < target_axis:
         target_axis -= 1
-- 
2.43.0


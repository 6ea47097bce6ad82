From 350eb56f74a6b364b0748eef28950ff070e14823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 01/37] fix: collate spatial policy targets padded to the
 physical board size

post_process_data pads a (H, W) policy target to fixed_board_size and
validate_field_dict accepts it, but collate_sample_dicts only accepted the
logical board size, so every dataset with fixed_board_size and spatial
policies failed on its first batch.
---
 dataset/stream.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dataset/stream.py b/dataset/stream.py
index 3910fcf..a76ba4f 100644
--- a/dataset/stream.py
+++ b/dataset/stream.py
@@ -182,10 +182,16 @@ def collate_sample_dicts(
                         int(item)
                         for item in np.asarray(samples[index]["board_size"])
                     )
-                    spatial = (
-                        array.ndim == 2
-                        and tuple(array.shape) == board_size
+                    physical_size = tuple(
+                        int(item)
+                        for item in np.asarray(
+                            samples[index]["board_input"]
+                        ).shape[-2:]
                     )
+                    spatial = array.ndim == 2 and tuple(array.shape) in {
+                        board_size,
+                        physical_size,
+                    }
                     flat = (
                         array.ndim == 1
                         and array.shape[0]
-- 
2.43.0


From 0cd799b58bad7fdb18fee2977b77b8c158dd18f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 02/37] fix: transform only the board when the planes are
 larger than it

---
 utils/data_utils.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/utils/data_utils.py b/utils/data_utils.py
index fbfa7c3..fd463e2 100644
--- a/utils/data_utils.py
+++ b/utils/data_utils.py
@@ -238,27 +238,33 @@ class SamplePostProcessor:
                 )
             picked_symmetry = symmetries[symmetry_index]
 
+            # The planes may be larger than the board, which is in their top left
+            # corner: only the board itself is transformed.
+            height, width = (int(v) for v in data["board_size"])
+
+            def apply_to_board(planes):
+                transformed = np.array(planes)
+                transformed[..., :height, :width] = picked_symmetry.apply_to_array(
+                    transformed[..., :height, :width]
+                )
+                return transformed
+
             # Apply symmetry to the board_input, policy_target
-            data["board_input"] = picked_symmetry.apply_to_array(data["board_input"])
+            plane_shape = tuple(data["board_input"].shape[-2:])
+            data["board_input"] = apply_to_board(data["board_input"])
             if "sparse_feature_input" in data:
-                data["sparse_feature_input"] = picked_symmetry.apply_to_array(
-                    data["sparse_feature_input"]
-                )
+                data["sparse_feature_input"] = apply_to_board(data["sparse_feature_input"])
             if data["policy_target"].ndim == 1:
-                if (
-                    data["policy_target"].shape[0]
-                    != np.prod(data["board_size"]) + 1
-                ):
+                if data["policy_target"].shape[0] != np.prod(plane_shape) + 1:
                     raise ValueError(
-                        "flattened policy target does not match board_size"
+                        "flattened policy target does not match board_input"
                     )
-                policy_target_sym = data["policy_target"][:-1].reshape(tuple(data["board_size"]))
-                policy_target_sym = picked_symmetry.apply_to_array(policy_target_sym)
+                policy_target_sym = apply_to_board(data["policy_target"][:-1].reshape(plane_shape))
                 data["policy_target"] = np.concatenate(
                     [policy_target_sym.reshape(-1), data["policy_target"][-1:]]
                 )
             else:
-                data["policy_target"] = picked_symmetry.apply_to_array(data["policy_target"])
+                data["policy_target"] = apply_to_board(data["policy_target"])
 
             # Apply symmetry to the optional position
             if "position" in data:
@@ -285,12 +291,9 @@ class SamplePostProcessor:
                 )
 
             if data["policy_target"].ndim == 1:
-                if (
-                    data["policy_target"].shape[0]
-                    != np.prod(data["board_size"]) + 1
-                ):
+                if data["policy_target"].shape[0] != board_h * board_w + 1:
                     raise ValueError(
-                        "flattened policy target does not match board_size"
+                        "flattened policy target does not match board_input"
                     )
                 policy_target_board = data["policy_target"][:-1].reshape((board_h, board_w))
                 policy_target_board = np.pad(
-- 
2.43.0


From d3e29b861f264545037c33440620ff109efab466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 03/37] fix: decode sparse rows without their extra fields

---
 dataset/sparse_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataset/sparse_numpy.py b/dataset/sparse_numpy.py
index b63843f..344d7cf 100644
--- a/dataset/sparse_numpy.py
+++ b/dataset/sparse_numpy.py
@@ -224,6 +224,8 @@ class IterativeSparseNumpyDataset(PlannedBatchDataset):
             symmetry_type=self.apply_symmetry,
             drop_extra=self.drop_extra,
         )
+        if self.drop_extra:
+            return data
         # Convert unsigned feature storage to PyTorch-compatible signed types.
         if data["sparse_feature_dim"].max() > np.iinfo(np.int32).max:
             raise ValueError("sparse feature dimension exceeds int32")
-- 
2.43.0


From b8227ba5e1852371d3ab46133c9a920dae674c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 04/37] fix: stream raw katago files that contain no matching
 rows

---
 dataset/katago.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataset/katago.py b/dataset/katago.py
index 88ec305..1c8a96f 100644
--- a/dataset/katago.py
+++ b/dataset/katago.py
@@ -83,6 +83,7 @@ class KatagoNumpyDataset(Dataset):
         filter_condition: str | None = None,
         shuffle: bool = False,
         value_td_level: int = 0,
+        allow_empty: bool = False,
     ):
         super().__init__()
         self.file_list = file_list
@@ -131,7 +132,7 @@ class KatagoNumpyDataset(Dataset):
         # Validate row counts after board-size filtering.
         length_list = [len(array) for array in self.data_dict.values()]
         self.length = length_list[0]
-        if self.length <= 0:
+        if self.length <= 0 and not allow_empty:
             raise ValueError(f"no valid data entry in {self.file_list}")
         if length_list.count(self.length) != len(length_list):
             raise ValueError("NPZ fields have unequal row counts")
@@ -326,6 +327,7 @@ class IterativeKatagoNumpyDataset(PlannedBatchDataset):
                 boardsizes=self.boardsizes,
                 fixed_side_input=self.fixed_side_input,
                 apply_symmetry=False,
+                allow_empty=True,
                 **options,
             )
             return dataset, len(dataset)
-- 
2.43.0


From 5f56d5a14db9656e7e24597a39a7a7b76fc36c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 05/37] fix: apply symmetry to last move and position of binary
 records

---
 dataset/packed_binary.py | 34 +++++++++++++++++++++++-----------
 dataset/simple_binary.py | 17 +++++++++--------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/dataset/packed_binary.py b/dataset/packed_binary.py
index 490dad4..a219cad 100644
--- a/dataset/packed_binary.py
+++ b/dataset/packed_binary.py
@@ -1,7 +1,6 @@
 import numpy as np
 import lz4.frame
 import ctypes
-import copy
 import io
 from utils.data_utils import *
 from utils.winrate_model import WinrateModel
@@ -308,12 +307,11 @@ class PackedBinaryDataset(PlannedBatchDataset):
             return raw_entry_metadata(raw_entry)[2]
 
         def materialize_entry(entry, record_key, epoch, subrecord):
-            data = reader._process_subrecord(entry, subrecord)
-            if data is None or not self.apply_symmetry:
-                return data
+            if not self.apply_symmetry:
+                return reader._process_subrecord(entry, subrecord)
             from utils.data_utils import Symmetry
 
-            board_size = tuple(int(value) for value in np.asarray(data["board_size"]))
+            board_size = (entry.boardsize, entry.boardsize)
             kind = "default" if self.apply_symmetry is True else self.apply_symmetry
             choices = Symmetry.available_symmetries(board_size, kind)
             symmetry_index, _ = uniform_below(
@@ -322,8 +320,9 @@ class PackedBinaryDataset(PlannedBatchDataset):
                 "symmetry",
                 (epoch, record_key, 0),
             )
-            return post_process_data(
-                copy.deepcopy(data),
+            return reader._process_subrecord(
+                entry,
+                subrecord,
                 symmetry_type=self.apply_symmetry,
                 symmetry_index=symmetry_index,
             )
@@ -427,7 +426,13 @@ class PackedBinaryDataset(PlannedBatchDataset):
 
         return policy if self.has_pass_move else policy.reshape(boardsize)
 
-    def _process_entry(self, entry: EntryData, selected_subrecord: int) -> dict | None:
+    def _process_entry(
+        self,
+        entry: EntryData,
+        selected_subrecord: int,
+        symmetry_type: bool | str = False,
+        symmetry_index: int | None = None,
+    ) -> dict | None:
         # Skip other rules and board sizes
         boardsize = (entry.boardsize, entry.boardsize)
         if str(entry.rule) not in self.rules:
@@ -483,7 +488,8 @@ class PackedBinaryDataset(PlannedBatchDataset):
                     data,
                     fixed_side_input=self.fixed_side_input,
                     fixed_board_size=self.fixed_board_size,
-                    symmetry_type=self.apply_symmetry,
+                    symmetry_type=symmetry_type,
+                    symmetry_index=symmetry_index,
                     drop_extra=self.drop_extra,
                 )
 
@@ -496,6 +502,12 @@ class PackedBinaryDataset(PlannedBatchDataset):
 
         return None
 
-    def _process_subrecord(self, entry: EntryData, subrecord: int) -> dict | None:
+    def _process_subrecord(
+        self,
+        entry: EntryData,
+        subrecord: int,
+        symmetry_type: bool | str = False,
+        symmetry_index: int | None = None,
+    ) -> dict | None:
         """Replay only far enough to materialize the selected move sample."""
-        return self._process_entry(entry, int(subrecord))
+        return self._process_entry(entry, int(subrecord), symmetry_type, symmetry_index)
diff --git a/dataset/simple_binary.py b/dataset/simple_binary.py
index 976686f..4011acf 100644
--- a/dataset/simple_binary.py
+++ b/dataset/simple_binary.py
@@ -1,7 +1,6 @@
 import numpy as np
 import lz4.frame
 import ctypes
-import copy
 import io
 from utils.data_utils import *
 from . import DATASETS
@@ -165,12 +164,11 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             return self.fixed_board_size or boardsize
 
         def materialize_entry(entry, record_key, epoch):
-            data = reader._prepare_data_from_entry(*entry)
-            if data is None or not self.apply_symmetry:
-                return data
+            if not self.apply_symmetry:
+                return reader._prepare_data_from_entry(*entry)
             from utils.data_utils import Symmetry
 
-            board_size = tuple(int(value) for value in np.asarray(data["board_size"]))
+            board_size = (entry[2], entry[2])
             kind = "default" if self.apply_symmetry is True else self.apply_symmetry
             choices = Symmetry.available_symmetries(board_size, kind)
             symmetry_index, _ = uniform_below(
@@ -179,8 +177,8 @@ class SimpleBinaryDataset(PlannedBatchDataset):
                 "symmetry",
                 (epoch, record_key, 0),
             )
-            return post_process_data(
-                copy.deepcopy(data),
+            return reader._prepare_data_from_entry(
+                *entry,
                 symmetry_type=self.apply_symmetry,
                 symmetry_index=symmetry_index,
             )
@@ -237,6 +235,8 @@ class SimpleBinaryDataset(PlannedBatchDataset):
         rule: Rule,
         move: Move,
         position: list[Move],
+        symmetry_type: bool | str = False,
+        symmetry_index: int | None = None,
     ):
         # Skip other rules and board sizes
         boardsize = (bsize, bsize)
@@ -276,7 +276,8 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             data,
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
-            symmetry_type=self.apply_symmetry,
+            symmetry_type=symmetry_type,
+            symmetry_index=symmetry_index,
             drop_extra=self.drop_extra,
         )
         return data
-- 
2.43.0


From cd045565cc4072be773bfc4a59440f9d3114ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:25 +0000
Subject: [PATCH 06/37] fix: black places the first stone of packed initial
 positions

---
 dataset/packed_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataset/packed_binary.py b/dataset/packed_binary.py
index a219cad..4b62a37 100644
--- a/dataset/packed_binary.py
+++ b/dataset/packed_binary.py
@@ -443,7 +443,7 @@ class PackedBinaryDataset(PlannedBatchDataset):
         current_result = entry.result
         current_position = entry.init_position.copy()
         current_ply = len(current_position)
-        current_stm_input = -1 if current_ply % 2 == 0 else 1  # (Black = -1, White = 1)
+        current_stm_input = -1  # (Black = -1, White = 1), black places the first stone
 
         # setup inital board input
         current_board_input = np.zeros((2, boardsize[0], boardsize[1]), dtype=np.int8)
-- 
2.43.0


From a95f37fe463fe55186a225275b86074a0b9fe7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 07/37] fix: build map-style composites for evaluation

---
 dataset/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dataset/__init__.py b/dataset/__init__.py
index eac4a77..2193e43 100644
--- a/dataset/__init__.py
+++ b/dataset/__init__.py
@@ -97,6 +97,13 @@ class MultiDataset(Dataset):
             shuffle=shuffle,
             runtime_context=runtime_context,
         )
+        # Children built for evaluation come batched, but this dataset indexes their rows.
+        from .stream import EvaluationBatchPlannerDataset
+
+        self.datasets = [
+            dataset.dataset if isinstance(dataset, EvaluationBatchPlannerDataset) else dataset
+            for dataset in self.datasets
+        ]
         # check if all datasets have __len__ and __getitem__ method
         if not all(
             hasattr(dataset, "__len__") and hasattr(dataset, "__getitem__")
-- 
2.43.0


From b58439ddec036866dc50e99200126b0d56ed9a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 08/37] fix: allow a move that makes five together with an
 overline

---
 dataset/pipeline/forbidden_point_cpp/board.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataset/pipeline/forbidden_point_cpp/board.cpp b/dataset/pipeline/forbidden_point_cpp/board.cpp
index 4fe412a..25a6db6 100644
--- a/dataset/pipeline/forbidden_point_cpp/board.cpp
+++ b/dataset/pipeline/forbidden_point_cpp/board.cpp
@@ -17,7 +17,10 @@ Board::Board(int width, int height) : boardWidth(width), boardHeight(height)
 
 ForbiddenType Board::isForbidden(Pos pos)
 {
-    if (isDoubleThree(pos, BLACK))
+    // A move that makes exactly five wins, even if it makes an overline elsewhere.
+    if (isFive(pos, BLACK))
+        return FORBIDDEN_NONE;
+    else if (isDoubleThree(pos, BLACK))
         return DOUBLE_THREE;
     else if (isDoubleFour(pos, BLACK))
         return DOUBLE_FOUR;
-- 
2.43.0


From 4cebd29cc8291b158b634f9efbf24ddbe5c68907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 09/37] fix: compute forbidden points within the board of
 padded samples

---
 dataset/pipeline/forbidden_point.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/dataset/pipeline/forbidden_point.py b/dataset/pipeline/forbidden_point.py
index 587ddcd..419716a 100644
--- a/dataset/pipeline/forbidden_point.py
+++ b/dataset/pipeline/forbidden_point.py
@@ -34,11 +34,16 @@ class ForbiddenPointPipeline(BasePipeline):
             if not stm_is_black:
                 board_input = np.flip(board_input, axis=0)
 
+        # cells beyond the board of a padded sample are walls
+        h, w = (int(size) for size in data.get("board_size", (H, W)))
+
         # allocate space for forbidden point results
-        forbidden_point = np.empty((H, W), dtype=np.int8)  # [H, W]
+        board_forbidden_point = np.empty((h, w), dtype=np.int8)  # [h, w]
 
         # do feature transformation
-        transform_board_to_forbidden_point(board_input, forbidden_point)
+        transform_board_to_forbidden_point(board_input[:, :h, :w], board_forbidden_point)
+        forbidden_point = np.zeros((H, W), dtype=np.int8)  # [H, W]
+        forbidden_point[:h, :w] = board_forbidden_point
 
         # add forbidden point flags to data
         data = dict(data)
@@ -46,13 +51,9 @@ class ForbiddenPointPipeline(BasePipeline):
         return data
 
     def process_batch(self, data, *, sample_keys=None, rng_keys=None):
+        fields = [key for key in ("board_input", "stm_input", "board_size") if key in data]
         outputs = [
-            self.process(
-                {
-                    "board_input": data["board_input"][index],
-                    "stm_input": data["stm_input"][index],
-                }
-            )["forbidden_point"]
+            self.process({key: data[key][index] for key in fields})["forbidden_point"]
             for index in range(len(data["board_input"]))
         ]
         result = dict(data)
-- 
2.43.0


From 9cff242c3b0979e34c7e5676d141e086e1f94c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 10/37] fix: tolerate the rounding of evaluation constants
 summed over many batches

---
 dataset/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataset/core.py b/dataset/core.py
index 1f1e5c3..25193a0 100644
--- a/dataset/core.py
+++ b/dataset/core.py
@@ -967,7 +967,8 @@ def _constant_mean(
         raise ValueError(f"replicated constant {sum_key!r} has no replicas")
     mean = tensors[sum_key] / replicas
     variance = tensors[square_sum_key] / replicas - mean.square()
-    tolerance = 16 * torch.finfo(mean.dtype).eps * torch.maximum(
+    # summing the constant once per replica rounds by up to an eps each time
+    tolerance = 16 * replicas * torch.finfo(mean.dtype).eps * torch.maximum(
         torch.ones_like(mean), mean.square()
     )
     if torch.any(variance.abs() > tolerance):
-- 
2.43.0


From 5bf07dd293ac2515ee74dbc96c944d29f59383a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:01 +0000
Subject: [PATCH 11/37] fix: evaluate batches whose rows are all padding

---
 utils/training_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/training_utils.py b/utils/training_utils.py
index 145a5bb..23db2dd 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -1221,10 +1221,10 @@ def cross_entropy_with_softlabel(
 
     if input.ndim > 1:
         # Cross-entropy Loss
-        input = input.view(input.shape[0], -1)
-        target = target.view(target.shape[0], -1)
+        input = torch.flatten(input, start_dim=1)
+        target = torch.flatten(target, start_dim=1)
         if weight is not None:
-            target = target * weight.view(weight.shape[0], -1)
+            target = target * torch.flatten(weight, start_dim=1)
 
         logprobs = F.log_softmax(input, dim=1)
         if focal_gamma > 0.0:
-- 
2.43.0


From d807f4a1e84a1e8dc6ea6846a4e609f354f5b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 12/37] fix: reject filter expressions that write into their
 arrays

---
 dataset/filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataset/filter.py b/dataset/filter.py
index cf0dc5c..664cea5 100644
--- a/dataset/filter.py
+++ b/dataset/filter.py
@@ -217,6 +217,9 @@ class SafeFilterEvaluator:
                 raise self._error(node, "only whitelisted NumPy functions may be called")
             if node.keywords:
                 raise self._error(node, "keyword arguments are forbidden")
+            if len(node.args) != function.nin:
+                # a further positional argument would be an output array
+                raise self._error(node, f"function takes {function.nin} arguments")
             args = [self._eval(arg) for arg in node.args]
             arrays = [arg for arg in args if isinstance(arg, np.ndarray)]
             if arrays:
-- 
2.43.0


From b22b9ab3fe76d6430c308d487a14eff69200e2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 13/37] fix: bound scalar and sequence arithmetic in filter
 expressions

---
 dataset/filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataset/filter.py b/dataset/filter.py
index 664cea5..de1f5dd 100644
--- a/dataset/filter.py
+++ b/dataset/filter.py
@@ -165,11 +165,15 @@ class SafeFilterEvaluator:
                     raise self._error(node, "exponent must be a literal integer in [0, 8]")
             left = self._eval(node.left)
             right = self._eval(node.right)
+            if isinstance(left, tuple) or isinstance(right, tuple):
+                raise self._error(node, "sequence arithmetic is forbidden")
             self._check_broadcast(left, right, node)
             try:
                 result = _BINARY[type(node.op)](left, right)
             except Exception as exc:
                 raise self._error(node, str(exc)) from exc
+            if isinstance(result, int) and not -(1 << 63) <= result < (1 << 63):
+                raise self._error(node, "integer result is outside signed 64-bit range")
             return self._check_array(result, "binary intermediate")
         if isinstance(node, ast.Compare):
             if len(node.ops) != len(node.comparators):
-- 
2.43.0


From e6c2218b17764c8fc73989e4b30e76665a450a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 14/37] fix: split an npz file given by its bare name

---
 tools/npzsplit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/npzsplit.py b/tools/npzsplit.py
index 0726126..1dd981a 100644
--- a/tools/npzsplit.py
+++ b/tools/npzsplit.py
@@ -13,7 +13,7 @@ def npz_split():
     parser.add_argument("--exclude_keys", type=str, nargs="+", help="Exclude keys from splitting")
     args = parser.parse_args()
 
-    outdir = args.outdir or os.path.dirname(args.file)
+    outdir = args.outdir or os.path.dirname(args.file) or "."
     os.makedirs(outdir, exist_ok=True)  # make run directory
     filename_noext, file_ext = os.path.splitext(os.path.basename(args.file))
 
-- 
2.43.0


From 59e59aeb6c1b7330dda8bc4ed8b06ea26fa767ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 15/37] fix: collate samples whose position has no moves

---
 dataset/stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dataset/stream.py b/dataset/stream.py
index a76ba4f..e339534 100644
--- a/dataset/stream.py
+++ b/dataset/stream.py
@@ -15,6 +15,7 @@ from .core import (
     CORE_FIELD_SPECS,
     DatasetCapabilities,
     DatasetRuntimeContext,
+    _field_dtype_kind,
     canonical_pipeline_state_bytes,
     validate_field_dict,
 )
@@ -148,7 +149,7 @@ def collate_sample_dicts(
                     if isinstance(value, torch.Tensor)
                     else np.asarray(value)
                 )
-                if array.dtype.kind not in spec.dtype_kinds:
+                if _field_dtype_kind(value, spec) not in spec.dtype_kinds:
                     raise ValueError(
                         f"field {key!r} sample {index} has dtype {array.dtype}; "
                         f"expected kind in {spec.dtype_kinds}"
-- 
2.43.0


From a17ac4906fd67c4facdb4f51f57a93b2af617b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 16/37] fix: fixed-side linear models mixed up the rows of a
 batch

---
 model/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/linear.py b/model/linear.py
index 157f22e..7a97cf1 100644
--- a/model/linear.py
+++ b/model/linear.py
@@ -53,7 +53,7 @@ class LinearModel(nn.Module):
             value = value[:, 0] - value[:, 1]  # [B, 1] no draw value
 
         if self.fixed_side_input:
-            flip = data["stm_input"]  # Black = -1, White = 1
+            flip = data["stm_input"].reshape(-1)  # [B] Black = -1, White = 1
             flip_cond = flip < 0
 
             if self.has_draw_value:
-- 
2.43.0


From 17304a6c2a4a06fab54a7d743d2f2223819e10cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 17/37] fix: mask the side-to-move plane of padded boards

---
 model/input.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/input.py b/model/input.py
index 1e19f88..01533e3 100644
--- a/model/input.py
+++ b/model/input.py
@@ -88,8 +88,10 @@ class MaskedInputPlane(BasicInputPlane):
         mask_rows = rows < board_size[:, 0].view(B, 1, 1)  # [B, H, 1]
         mask_cols = cols < board_size[:, 1].view(B, 1, 1)  # [B, 1, W]
         mask_plane = (mask_rows & mask_cols).unsqueeze(1)  # [B, 1, H, W]
+        mask_plane = mask_plane.to(input_plane.dtype)
 
-        return input_plane, mask_plane.to(input_plane.dtype)
+        # the side-to-move plane must not tell padding from the outside of the canvas
+        return input_plane * mask_plane, mask_plane
 
 
 class SparseEmbeddingInputPlane(BasicInputPlane):
-- 
2.43.0


From 56d756793aa85df3a423bb89d0d458d9c9f320ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:52 +0000
Subject: [PATCH 18/37] fix: clip value weights to the range of their
 quantisation

---
 model/flatnet.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/model/flatnet.py b/model/flatnet.py
index d43c0c7..8a94b94 100644
--- a/model/flatnet.py
+++ b/model/flatnet.py
@@ -35,10 +35,11 @@ class FlatValueModel(TraceableModel):
     def weight_clipping(self):
         return [
             {
-                "params": [f"value_linears.{i}.fc.weight" for i in range(len(self.value_linears))],
-                "min_weight": -128 / 128,
-                "max_weight": 127 / 128,
-            },
+                "params": [f"value_linears.{i}.fc.weight"],
+                "min_weight": -128 / linear.weight_quant_scale,
+                "max_weight": 127 / linear.weight_quant_scale,
+            }
+            for i, linear in enumerate(self.value_linears)
         ]
 
 
-- 
2.43.0


From 3cd645e17d4844290dfc2a33d1656ff203052dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 19/37] fix: let gradient accumulation continue across an epoch
 end

---
 dataset/planner.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/dataset/planner.py b/dataset/planner.py
index 1060ed1..d02939c 100644
--- a/dataset/planner.py
+++ b/dataset/planner.py
@@ -870,7 +870,13 @@ class DatasetPlanner:
             if self._committed_state is not None
             else tokens[0].batch_index
         )
+        previous = None
         for token in tokens:
+            if previous is not None and previous.batch.is_last and token.batch_index == 0:
+                # The transaction continues into the next epoch.
+                digest = self._initial_digest(token.epoch)
+                expected_epoch, expected_batch = previous.epoch + 1, 0
+                expected_state = token.before_state
             if token.before_digest != digest:
                 raise RuntimeError("non-contiguous planner token digest")
             if (token.epoch, token.batch_index) != (
@@ -894,6 +900,7 @@ class DatasetPlanner:
                 or len(token.after_digest) != 64
             ):
                 raise RuntimeError("planner token digest is malformed")
+            previous = token
             digest = token.after_digest
             expected_batch += 1
             expected_state = token.after_state
@@ -941,16 +948,16 @@ class DatasetPlanner:
     def begin_next_epoch(self) -> None:
         if not self.finished:
             raise RuntimeError("cannot advance an unfinished planner epoch")
-        if self._yield_digest != self._committed_digest:
-            raise RuntimeError("cannot advance with uncommitted planner batches")
+        committed = self._yield_digest == self._committed_digest
         self.start_epoch(self.epoch + 1)
-        self._committed_state = (
+        self._yield_state = (
             self.state() if self.source.capabilities.resumable else None
         )
-        self._yield_state = self._committed_state
-        self._committed_digest = self._initial_digest(self.epoch)
-        self._yield_digest = self._committed_digest
-        self._yield_pipeline_blob = self._committed_pipeline_blob
+        self._yield_digest = self._initial_digest(self.epoch)
+        if committed:
+            self._committed_state = self._yield_state
+            self._committed_digest = self._yield_digest
+            self._yield_pipeline_blob = self._committed_pipeline_blob
 
     def rollback_uncommitted(self) -> None:
         if not self.source.capabilities.resumable:
-- 
2.43.0


From 0889ba1f3f7953d4f3d93e95788a4a123e1b06d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 20/37] fix: let the metrics change when a vector quantizer
 becomes initialized

---
 trainer/base.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/trainer/base.py b/trainer/base.py
index 0f3e9ff..6f4496f 100644
--- a/trainer/base.py
+++ b/trainer/base.py
@@ -3731,6 +3731,15 @@ class BaseTrainer:
             if micro_step > 0:
                 with self.profiler.region("data"):
                     data = self._fetch_batch()
+            # A vector quantizer reports its losses only once it is initialized,
+            # which happens on all ranks in the same step.
+            vq_initialized = [
+                module.is_initialized()
+                for module in getattr(self, "_train_vq_modules", ())
+            ]
+            if vq_initialized != getattr(self, "_train_vq_initialized", None):
+                self._train_vq_initialized = vq_initialized
+                self._train_metric_schema = None
             step_errors = []
             extra_kwargs = {}
             with self.profiler.region("pre"):
@@ -4005,6 +4014,10 @@ class BaseTrainer:
             self._log_last_it = self._show_last_it = st.iteration
             gpu_loss_sum, gpu_aux_sum, gpu_metric_count = {}, {}, 0
             self._train_metric_schema = None
+            self._train_vq_modules = [
+                entry["module"] for entry in self._vq_runtime_modules()
+            ]
+            self._train_vq_initialized = None
             for m in self.models.values():
                 m.train()
             self._checkpoint_safe = True
-- 
2.43.0


From f7b3a2f2b37e0d02f69b20ab90a871e320be4584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 21/37] fix: keep data loaders off the global random generator,
 so resumed runs do not diverge

---
 utils/training_utils.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/utils/training_utils.py b/utils/training_utils.py
index 23db2dd..675d050 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -1105,6 +1105,20 @@ def build_data_loader(
             )
         shuffle = False
 
+    # A loader draws a seed from its generator whenever it is iterated. It must not
+    # be the global one: a resumed run starts one iteration more than it restores.
+    if runtime_context is not None and "generator" not in kwargs:
+        from dataset.core import rng_u64
+
+        generator_seed = rng_u64(
+            runtime_context.seed,
+            "loader_rng",
+            (runtime_context.rank,),
+        )
+        kwargs["generator"] = torch.Generator().manual_seed(
+            generator_seed & ((1 << 63) - 1)
+        )
+
     if bool(getattr(dataset, "yields_batches", getattr(dataset, "YIELDS_BATCHES", False))):
         # Dataset yields whole collated batches and prefetches with internal
         # threads: run it in-process (worker->main IPC costs more per batch
@@ -1119,17 +1133,6 @@ def build_data_loader(
         )
 
     if runtime_context is not None:
-        from dataset.core import rng_u64
-
-        if "generator" not in kwargs:
-            generator_seed = rng_u64(
-                runtime_context.seed,
-                "loader_rng",
-                (runtime_context.rank,),
-            )
-            kwargs["generator"] = torch.Generator().manual_seed(
-                generator_seed & ((1 << 63) - 1)
-            )
         if num_workers > 0 and "worker_init_fn" not in kwargs:
             kwargs["worker_init_fn"] = partial(
                 _seed_dataset_worker,
-- 
2.43.0


From 6656b4163d1aba290aa1f7eae86ec5964605df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 22/37] fix: evaluate the same data in every validation pass,
 also after a resume

---
 dataset/planner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dataset/planner.py b/dataset/planner.py
index d02939c..d4c95ed 100644
--- a/dataset/planner.py
+++ b/dataset/planner.py
@@ -949,7 +949,9 @@ class DatasetPlanner:
         if not self.finished:
             raise RuntimeError("cannot advance an unfinished planner epoch")
         committed = self._yield_digest == self._committed_digest
-        self.start_epoch(self.epoch + 1)
+        # Every evaluation pass sees the same data, also after a resume.
+        training = self.runtime_context.mode == "train"
+        self.start_epoch(self.epoch + 1 if training else 0)
         self._yield_state = (
             self.state() if self.source.capabilities.resumable else None
         )
-- 
2.43.0


From 42faeb1195d4a49b81d51085e31d85b7936e1c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:18 +0000
Subject: [PATCH 23/37] fix: accept any iterable of checkpoint payloads

---
 utils/async_checkpoint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/async_checkpoint.py b/utils/async_checkpoint.py
index cc9f4de..a874438 100644
--- a/utils/async_checkpoint.py
+++ b/utils/async_checkpoint.py
@@ -97,6 +97,7 @@ class AsyncCheckpointWriter:
                 finalizers succeed (e.g. checkpoint pruning).
         """
         self.flush()
+        payloads = list(payloads)
         if (
             self._disabled
             or self._copy_stream is None
-- 
2.43.0


From fae53bae6de37302698388eb08b6f5f7bc571f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:18 +0000
Subject: [PATCH 24/37] fix: export traced graphs with samples of streamed
 datasets

---
 export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export.py b/export.py
index f5d1a30..345923f 100644
--- a/export.py
+++ b/export.py
@@ -5,6 +5,7 @@ import os
 import lz4.frame
 import zlib
 from datetime import datetime
+from torch.utils.data import default_convert
 
 from dataset import build_dataset
 from dataset.core import single_process_dataset_context
@@ -85,7 +86,7 @@ def _get_sample_data(
     data = next(iter(loader))
     from dataset.stream import BatchEnvelope
     if isinstance(data, BatchEnvelope):
-        data = data.data
+        data = default_convert(data.data)
     return data
 
 
-- 
2.43.0


From 0b74804ba68775799656ba8dcc57ed781ad86e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:18 +0000
Subject: [PATCH 25/37] fix: never take an exported graph for the latest
 checkpoint

---
 utils/file_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/file_utils.py b/utils/file_utils.py
index c956f0b..e265a31 100644
--- a/utils/file_utils.py
+++ b/utils/file_utils.py
@@ -150,9 +150,13 @@ def find_latest_ckpt(
     # Sort numerically by the iteration embedded in the filename: a plain
     # string sort ranks 'state_9999999' above 'state_10000000' once the
     # zero-padding overflows. Files without a parsable iteration sort first.
+    # A checkpoint is preferred to what was exported from it (*_export.pt).
     def sort_key(filepath):
         iteration = get_iteration_from_ckpt_filename(filepath)
-        return (iteration is not None, iteration if iteration is not None else 0, filepath)
+        if iteration is None:
+            return (False, 0, False, filepath)
+        is_checkpoint = os.path.splitext(filepath)[0].endswith(str(iteration))
+        return (True, iteration, is_checkpoint, filepath)
 
     ckpt_list.sort(key=sort_key)
     return ckpt_list[-1]
-- 
2.43.0


From 1f0e82337d632738ce78e9db8ba1027497e923dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 26/37] fix: export the Mix10 feature map as the model computes
 it

The exported tables skipped the model's clamp to +-511/32 and its hypersphere
normalisation (spherical_feature), and a feature norm after the depth-wise
convolution was dropped silently; refuse the latter, the format cannot hold it.
---
 model/serialization/mixnet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model/serialization/mixnet.py b/model/serialization/mixnet.py
index 301f967..405bf3f 100644
--- a/model/serialization/mixnet.py
+++ b/model/serialization/mixnet.py
@@ -1,4 +1,5 @@
 import torch
+import torch.nn.functional as F
 import numpy as np
 import io
 from tqdm import tqdm
@@ -2468,6 +2469,10 @@ class Mix10NetSerializer(BaseSerializer):
 
             mapping = getattr(model, f"mapping{mapping_idx}")
             feature = mapping(line[:, :, start:end], dirs=[0])[0, 0]  # [dim_feature, batch, L]
+            # same normalization and clamping as in Mix10Net.get_feature()
+            if model.spherical_feature:
+                feature = F.normalize(feature, p=2, dim=0) * (511 / 32)
+            feature = torch.clamp(feature, min=-511 / 32, max=511 / 32)
             feature = torch.permute(feature, (1, 2, 0)).cpu().numpy()  # [batch, L, dim_feature]
             map_table.append(feature)
 
@@ -2508,6 +2513,7 @@ class Mix10NetSerializer(BaseSerializer):
         return feature_map_quant, usage_flags
 
     def _export_feature_dwconv(self, model: Mix10Net):
+        assert model.feature_norm is None, "feature norm is not supported by the exported format"
         conv_weight = model.feature_dwconv.conv.weight.cpu().numpy()  # [FeatureDWConvDim,1,3,3]
         conv_bias = model.feature_dwconv.conv.bias.cpu().numpy()  # [FeatureDWConvDim]
         conv_weight = conv_weight.reshape(conv_weight.shape[0], -1).transpose()  # [9, FeatureDWConvDim]
-- 
2.43.0


From b7d91165042f679169f755853ad45c118f67c053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 27/37] fix: end each array of a Mix8 text export with a
 newline

The labels of the policy output arrays were glued to the previous number.
---
 model/serialization/mixnet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/serialization/mixnet.py b/model/serialization/mixnet.py
index 405bf3f..10773ee 100644
--- a/model/serialization/mixnet.py
+++ b/model/serialization/mixnet.py
@@ -1282,10 +1282,13 @@ class Mix8NetSerializer(BaseSerializer):
 
             print("policy_output_pos_weight", file=out)
             policy_output_pos_weight.astype("f4").tofile(out, sep=" ")
+            print(file=out)
             print("policy_output_neg_weight", file=out)
             policy_output_neg_weight.astype("f4").tofile(out, sep=" ")
+            print(file=out)
             print("policy_output_bias", file=out)
             policy_output_bias.astype("f4").tofile(out, sep=" ")
+            print(file=out)
         else:
             o: io.RawIOBase = out
 
-- 
2.43.0


From 3590b9649688b23a2d69e647528ef1ec4e6ce2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:26 +0000
Subject: [PATCH 28/37] fix: write the int16 static policy weights of a Mix9
 text export unwrapped

The generic linear-block printer casts weights to int8.
---
 model/serialization/mixnet.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/model/serialization/mixnet.py b/model/serialization/mixnet.py
index 10773ee..56e1b6e 100644
--- a/model/serialization/mixnet.py
+++ b/model/serialization/mixnet.py
@@ -1837,7 +1837,12 @@ class Mix9NetSerializer(BaseSerializer):
                 print(file=out)
 
             if no_dynamic_pwconv:
-                print_linear_block("policy_pwconv", policy_pwconv_weight, policy_pwconv_bias)
+                print("policy_pwconv_weight", file=out)
+                policy_pwconv_weight.astype("i2").tofile(out, sep=" ")
+                print(file=out)
+                print("policy_pwconv_bias", file=out)
+                policy_pwconv_bias.astype("i4").tofile(out, sep=" ")
+                print(file=out)
             else:
                 print_linear_block(
                     "policy_pwconv_layer_l1", policy_pwconv_layer_l1_weight, policy_pwconv_layer_l1_bias
-- 
2.43.0


From 0547336611a1f211479a270e61ff79655135187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:34 +0000
Subject: [PATCH 29/37] fix: refuse to export a Mix7 policy that reads
 unconvolved channels

The format holds one scale for the policy, which only fits convolved channels;
with dim_dwconv=1 the mismatch broadcast silently into a wrong export.
---
 model/serialization/mixnet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/serialization/mixnet.py b/model/serialization/mixnet.py
index 56e1b6e..bfeaaa6 100644
--- a/model/serialization/mixnet.py
+++ b/model/serialization/mixnet.py
@@ -607,6 +607,7 @@ class Mix7NetSerializer(BaseSerializer):
 
     def _export_policy(self, model: Mix7Net, quant_scale, quant_bound_perchannel):
         _, PC, _ = model.model_size
+        assert PC <= model.dim_dwconv, "dim_policy must not exceed dim_dwconv"
 
         # policy pw conv
         pwconv_weight = model.policy_pwconv.conv.weight.cpu().numpy()[0, :, 0, 0]
-- 
2.43.0


From c6d9f61b3d4d47c16f7193142cc01e02ae2f1a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 30/37] fix: pass nested config values to the argument parsers
 as YAML

---
 export.py             |  3 ++-
 test.py               |  8 ++++++--
 train.py              |  4 ++--
 utils/config_utils.py | 43 +++++++++++++++++++++++++++++++++++++++++++
 visualize_dataset.py  |  3 ++-
 5 files changed, 55 insertions(+), 6 deletions(-)

diff --git a/export.py b/export.py
index 345923f..1d65f15 100644
--- a/export.py
+++ b/export.py
@@ -17,6 +17,7 @@ from model.serialization import (
     rules_to_mask,
     boardsizes_to_mask,
 )
+from utils.config_utils import YAMLConfigFileParser
 from utils.training_utils import build_data_loader
 from utils.file_utils import find_latest_ckpt, load_torch_ckpt
 from utils.misc_utils import set_performance_level, deep_update_dict
@@ -25,7 +26,7 @@ from utils.misc_utils import set_performance_level, deep_update_dict
 def parse_args_and_init():
     parser = configargparse.ArgParser(
         description="Export",
-        config_file_parser_class=configargparse.YAMLConfigFileParser,
+        config_file_parser_class=YAMLConfigFileParser,
         # Run configs are shared with train.py, so config files carry keys
         # that export.py does not define (batch_size, loss_args, kd_*, ...).
         # Ignore those instead of converting them to (unrecognized) command
diff --git a/test.py b/test.py
index 1cf6b11..e6f4947 100644
--- a/test.py
+++ b/test.py
@@ -6,7 +6,11 @@ import yaml
 import os
 
 from trainer.supervised import SupervisedTrainer
-from utils.config_utils import RUN_PROVENANCE_KEY, parse_run_provenance
+from utils.config_utils import (
+    RUN_PROVENANCE_KEY,
+    config_value_to_str,
+    parse_run_provenance,
+)
 
 
 _TRAIN_CONFIG_KEYS = frozenset(
@@ -137,7 +141,7 @@ class _StrictYAMLConfigFileParser(configargparse.YAMLConfigFileParser):
             if isinstance(value, list):
                 config_items[key] = value
             elif value is not None:
-                config_items[key] = str(value)
+                config_items[key] = config_value_to_str(value)
         return config_items
 
 
diff --git a/train.py b/train.py
index 143ae88..70a992e 100644
--- a/train.py
+++ b/train.py
@@ -7,7 +7,7 @@ import subprocess
 import torch
 
 from utils.file_utils import make_dir
-from utils.config_utils import parse_run_provenance
+from utils.config_utils import YAMLConfigFileParser, parse_run_provenance
 from trainer import build_trainer
 
 
@@ -38,7 +38,7 @@ def collect_run_provenance():
 
 def parse_args_and_init():
     parser = configargparse.ArgParser(
-        description="Trainer", config_file_parser_class=configargparse.YAMLConfigFileParser
+        description="Trainer", config_file_parser_class=YAMLConfigFileParser
     )
     parser.add("-c", "--config", is_config_file=True, help="Config file path")
     parser.add(
diff --git a/utils/config_utils.py b/utils/config_utils.py
index df0acbb..1d9ed8f 100644
--- a/utils/config_utils.py
+++ b/utils/config_utils.py
@@ -1,5 +1,8 @@
 """Shared configuration metadata contracts."""
 
+from collections import OrderedDict
+
+import configargparse
 import yaml
 
 
@@ -26,3 +29,43 @@ def parse_run_provenance(value):
         if field_value is not None and not isinstance(field_value, str):
             raise ValueError(f"{RUN_PROVENANCE_KEY}.{name} must be a string or null")
     return value
+
+
+def config_value_to_str(value):
+    """Argument text of a config value; the YAML of a mapping reads back as equal."""
+    if isinstance(value, dict):
+        return yaml.safe_dump(
+            value,
+            default_flow_style=True,
+            allow_unicode=True,
+            sort_keys=False,
+            width=float("inf"),
+        ).strip()
+    return str(value)
+
+
+class YAMLConfigFileParser(configargparse.YAMLConfigFileParser):
+    """YAML config files whose nested values reach ``yaml.safe_load`` unchanged.
+
+    The base class passes ``str()`` of a mapping, in which nulls, floats such as
+    1e-05 and escaped strings are no longer those of the file.
+    """
+
+    def parse(self, stream):
+        yaml_module, SafeLoader, _ = self._load_yaml()
+        try:
+            parsed_obj = yaml_module.load(stream, Loader=SafeLoader)
+        except Exception as e:
+            raise configargparse.ConfigFileParserException(
+                f"Couldn't parse config file: {e}"
+            )
+        if not isinstance(parsed_obj, dict):
+            raise configargparse.ConfigFileParserException(
+                "The config file doesn't appear to contain 'key: value' pairs "
+                "(aka. a YAML mapping)."
+            )
+        return OrderedDict(
+            (key, value if isinstance(value, list) else config_value_to_str(value))
+            for key, value in parsed_obj.items()
+            if value is not None
+        )
diff --git a/visualize_dataset.py b/visualize_dataset.py
index 3f10b92..e30c01e 100644
--- a/visualize_dataset.py
+++ b/visualize_dataset.py
@@ -7,6 +7,7 @@ import yaml
 import os
 from dataset import build_dataset
 from dataset.core import single_process_dataset_context
+from utils.config_utils import YAMLConfigFileParser
 from utils.file_utils import make_dir
 from utils.misc_utils import seed_everything
 from utils.training_utils import build_data_loader
@@ -213,7 +214,7 @@ def visualize_dataset(dataset, dataloader, max_entries=0, save_fig_dir=None):
 
 if __name__ == "__main__":
     parser = configargparse.ArgParser(
-        description="Dataset visualizer", config_file_parser_class=configargparse.YAMLConfigFileParser
+        description="Dataset visualizer", config_file_parser_class=YAMLConfigFileParser
     )
     parser.add("data_paths", nargs="+", help="Dataset file or directory paths")
     parser.add("--dataset_type", required=True, help="Dataset type")
-- 
2.43.0


From a5946933d8f6bc2e2cea3d6a4a2e62604d4bb19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 31/37] fix: evaluate with the configured data pipelines

---
 test.py         | 4 ++++
 trainer/base.py | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/test.py b/test.py
index e6f4947..e447daa 100644
--- a/test.py
+++ b/test.py
@@ -86,6 +86,7 @@ _EVAL_CONFIG_KEYS = frozenset(
         "dataset_type",
         "dataset_args",
         "dataloader_args",
+        "data_pipelines",
         "model_type",
         "model_args",
         "test_model_args",
@@ -169,6 +170,7 @@ def parse_args_and_init():
     parser.add("--dataset_type", help="Train dataset type")
     parser.add("--dataset_args", type=yaml.safe_load, default={}, help="Extra train dataset arguments")
     parser.add("--dataloader_args", type=yaml.safe_load, default={}, help="Extra dataloader arguments")
+    parser.add("--data_pipelines", type=yaml.safe_load, default=None, help="Data-pipeline arguments")
     parser.add("--model_type", required=True, help="Model type")
     parser.add("--model_args", type=yaml.safe_load, default={}, help="Extra model arguments")
     parser.add("--test_model_args", type=yaml.safe_load, default={}, help="Override model args for testing")
@@ -212,6 +214,7 @@ def test(
     max_batches,
     random_seed,
     max_memory_fraction,
+    data_pipelines=None,
 ):
     if not os.path.exists(checkpoint) or not os.path.isfile(checkpoint):
         raise RuntimeError(f"Checkpoint {checkpoint} must be a valid file")
@@ -241,6 +244,7 @@ def test(
         dataset_type=test_dataset_type,
         dataset_args=test_dataset_args,
         dataloader_args=dataloader_args,
+        data_pipelines=data_pipelines,
         batch_size=batch_size,
         eval_bs_multipler=eval_bs_multipler,
         num_worker=num_worker,
diff --git a/trainer/base.py b/trainer/base.py
index 6f4496f..4bd7f96 100644
--- a/trainer/base.py
+++ b/trainer/base.py
@@ -411,6 +411,7 @@ class BaseTrainer:
         dataset_type: str,
         dataset_args: dict | None = None,
         dataloader_args: dict | None = None,
+        data_pipelines: dict | None = None,
         batch_size: int = 128,
         eval_bs_multipler: int = 1,
         num_worker: int = 4,
@@ -435,6 +436,7 @@ class BaseTrainer:
             dataset_type: Registered dataset class name (passed to ``build_dataset``).
             dataset_args: Extra keyword arguments forwarded to the dataset constructor.
             dataloader_args: Extra keyword arguments forwarded to ``build_data_loader``.
+            data_pipelines: Pipeline configurations for data transforms, as in training.
             batch_size: Global batch size (split across processes).
             eval_bs_multipler: Multiplier applied to ``batch_size`` for evaluation.
             num_worker: Number of dataloader worker processes.
@@ -454,6 +456,7 @@ class BaseTrainer:
         self.dataset_type = dataset_type
         self.dataset_args = dataset_args or {}
         self.dataloader_args = dataloader_args or {}
+        self.data_pipelines = data_pipelines
         self.batch_size = batch_size
         self.eval_bs_multipler = eval_bs_multipler
         self.num_worker = num_worker
@@ -790,6 +793,8 @@ class BaseTrainer:
         """Build test dataset and dataloader for evaluation."""
         self._set_batch_size_per_process()
         test_dataset_args = self._evaluation_dataset_args(self.dataset_args)
+        if self.data_pipelines:
+            test_dataset_args["pipeline_args"] = self.data_pipelines
 
         self.test_dataset = self._collective_dataset_call(
             "test dataset setup",
-- 
2.43.0


From 1d49a3db3afdd87a4e83ea678bbe6984f1171d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 32/37] fix: accept board sizes written as YAML lists

---
 dataset/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataset/__init__.py b/dataset/__init__.py
index 2193e43..cf09185 100644
--- a/dataset/__init__.py
+++ b/dataset/__init__.py
@@ -476,6 +476,10 @@ def build_dataset(
         raise TypeError(
             f"boardsizes must be a list of tuples, got {boardsizes!r}"
         )
+    # YAML has no tuples: a configured [15, 15] is a list
+    boardsizes = [
+        tuple(size) if isinstance(size, list) else size for size in boardsizes
+    ]
 
     if isinstance(fixed_board_size, int):
         fixed_board_size = (fixed_board_size, fixed_board_size)
-- 
2.43.0


From b8ae3fa4a9fcf54d12f0dd1911831387e1a8b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:10 +0000
Subject: [PATCH 33/37] fix: let test.py read run configs that name
 cuda_prefetch_batches

---
 test.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/test.py b/test.py
index e447daa..1f4d1bd 100644
--- a/test.py
+++ b/test.py
@@ -30,6 +30,7 @@ _TRAIN_CONFIG_KEYS = frozenset(
         "dataloader_args",
         "data_pipelines",
         "num_worker",
+        "cuda_prefetch_batches",
         "model_type",
         "model_args",
         "optim_type",
-- 
2.43.0


From 15ce034dbdf8cd77a0a66e4e27c756a2816bbddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:06 +0000
Subject: [PATCH 34/37] fix: view pass policies of padded boards

---
 visualize_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/visualize_dataset.py b/visualize_dataset.py
index e30c01e..f9fbac0 100644
--- a/visualize_dataset.py
+++ b/visualize_dataset.py
@@ -35,7 +35,8 @@ def visualize_entry(
 
     if policy_target.ndim == 1:
         pass_target = policy_target[-1]
-        policy_target = policy_target[:-1].reshape(H, W)
+        # the policy covers the input planes, which may be padded beyond the board
+        policy_target = policy_target[:-1].reshape(board_input.shape[-2:])
     elif policy_target.ndim == 2:
         pass_target = None
     else:
-- 
2.43.0


From 547345e728249c77d57423981d8859ba0371a250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:06 +0000
Subject: [PATCH 35/37] fix: do not view the padding rows of the last batch

---
 visualize_dataset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/visualize_dataset.py b/visualize_dataset.py
index f9fbac0..1337729 100644
--- a/visualize_dataset.py
+++ b/visualize_dataset.py
@@ -182,9 +182,13 @@ def visualize_dataset(dataset, dataloader, max_entries=0, save_fig_dir=None):
     index = 0
     for batch_data in dataloader:
         from dataset.stream import BatchEnvelope
+        is_real = None
         if isinstance(batch_data, BatchEnvelope):
+            is_real = batch_data.is_real
             batch_data = batch_data.data
         for batch_idx in range(len(batch_data["board_size"])):
+            if is_real is not None and not is_real[batch_idx]:
+                continue  # padding of the last batch
             data = {
                 k: v[batch_idx].numpy() if isinstance(v[batch_idx], torch.Tensor) else v[batch_idx]
                 for k, v in batch_data.items()
-- 
2.43.0


From aa7b38f54003e00fe0a285077268c846094e228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:06 +0000
Subject: [PATCH 36/37] fix: view the last partial batch of a dataset

---
 visualize_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visualize_dataset.py b/visualize_dataset.py
index 1337729..545167a 100644
--- a/visualize_dataset.py
+++ b/visualize_dataset.py
@@ -253,7 +253,7 @@ if __name__ == "__main__":
         batch_size=args.batch_size,
         num_workers=args.num_worker,
         shuffle=args.shuffle,
-        **args.dataloader_args,
+        **{"drop_last": False, **args.dataloader_args},
     )
     visualize_dataset(
         dataset,
-- 
2.43.0


From c26786106f92bbf6bed6adb0798cc5a189b7bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:28 +0000
Subject: [PATCH 37/37] fix: local layer normalisation without a bias

---
 model/layers/normalization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/layers/normalization.py b/model/layers/normalization.py
index 653bced..8675eef 100644
--- a/model/layers/normalization.py
+++ b/model/layers/normalization.py
@@ -72,7 +72,9 @@ class LocalLayerNorm(nn.Module):
             var = x.var(dim=1, unbiased=False, keepdim=True)
             x = (x - mean) / torch.sqrt(var + self.eps)
             if self.channelwise_affine:
-                x = x * self.weight.view(shape) + self.bias.view(shape)
+                x = x * self.weight.view(shape)
+                if self.bias is not None:
+                    x = x + self.bias.view(shape)
         return x
 
 
-- 
2.43.0


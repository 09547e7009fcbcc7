From 84bc9552e0908fb83cb1da75d5ea4e11a9d43f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 01/56] fix: exact distance of codes with more than 255 bits
 (weights overflowed uint8)

---
 qldpc/codes/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/distance.py b/qldpc/codes/distance.py
index aef6d44..2220e5a 100644
--- a/qldpc/codes/distance.py
+++ b/qldpc/codes/distance.py
@@ -277,7 +277,7 @@ def get_distance_quantum(
     bufs = [np.empty_like(arrayf) for _ in range(nbuf)]
 
     # Min weight of the part containing logical ops
-    weights = weight_func(arrayf[2**num_stabilizers :])
+    weights = weight_func(arrayf[2**num_stabilizers :], out=out[2**num_stabilizers :])
     min_weight = _inplace_rowsum(weights).min(initial=num_bits)
 
     for li in range(1, 2 ** len(int_logical_ops)):
-- 
2.43.0


From 049b8d45c9505ecd2ac7219e47a21a4690cd125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 02/56] fix: get_stabilizer_ops(pauli, canonicalized=True)
 ignored its canonicalized and recompute arguments

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 2bac8f0..af60698 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1194,7 +1194,9 @@ class QuditCode(AbstractCode):
 
         # if requested, retrieve stabilizer operators of one type only
         if pauli is not None:
-            stabilizer_ops = self.get_stabilizer_ops()
+            stabilizer_ops = self.get_stabilizer_ops(
+                recompute=recompute, canonicalized=canonicalized
+            )
             pivots_x = first_nonzero_cols(stabilizer_ops) < len(self)
             return stabilizer_ops[pivots_x if pauli is Pauli.X else ~pivots_x]
 
-- 
2.43.0


From 5bcaed69ba308d87594be8c7c32d12d6b29955c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 03/56] fix: _is_canonicalized accepted matrices that are not
 in reduced row echelon form

---
 qldpc/codes/common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index af60698..480b3d1 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2432,9 +2432,12 @@ def _join_slices(*sectors: Slice) -> npt.NDArray[np.int_]:
 
 def _is_canonicalized(matrix: npt.NDArray[np.int_]) -> bool:
     """Is the given matrix in canonical (row-reduced) form?"""
+    pivots = first_nonzero_cols(matrix)
     return all(
-        matrix[row, pivot] and not np.any(matrix[:row, pivot])
-        for row, pivot in enumerate(first_nonzero_cols(matrix))
+        matrix[row, pivot] == 1
+        and np.count_nonzero(matrix[:, pivot]) == 1
+        and (row == 0 or pivots[row - 1] < pivot)
+        for row, pivot in enumerate(pivots)
     )
 
 
-- 
2.43.0


From 09e3299463ed08f300b3c0a220184f63a1210950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 04/56] fix: X-type logical operators of a general subsystem
 code did not commute with one another

---
 qldpc/codes/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 480b3d1..808d460 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -966,6 +966,10 @@ class QuditCode(AbstractCode):
         logicals_xz[cols_gx] = -matrix_x[rows_gx] @ logicals_xz + matrix_z[rows_gx] @ logicals_xx
         logicals_xz[cols_sx] = -matrix_x[rows_sx] @ logicals_xz + matrix_z[rows_sx] @ logicals_xx
 
+        # multiply X-type logicals by Z-type logicals to make all X-type logicals commute
+        products = logicals_xx.T @ logicals_xz
+        logicals_xz += logicals_zz @ np.tril(products - products.T).T.view(self.field)
+
         # full X and Z logicals as row vectors
         logicals_x = np.vstack([logicals_xx, logicals_xz]).T
         logicals_z = np.vstack([np.zeros_like(logicals_zz), logicals_zz]).T
-- 
2.43.0


From 02c04a85a1b96a513076d19d2e4ae67732d19161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 05/56] fix: X-type stabilizer rows of the standard form of a
 general subsystem code contained gauge operators

---
 qldpc/codes/common.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 808d460..5c5b818 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1137,9 +1137,7 @@ class QuditCode(AbstractCode):
             Row reducing the combiner stabilizer + gauge matrices added gauge ops to stabilizers to
             zero out entries above the gauge-pivot columns.  Remove the added gauge operators.
             """
-            matrix_x[:num_stabs_x] += (
-                stabilizers_x[:num_stabs_x, pivots_gx] @ matrix_x[num_stabs_x:]
-            )
+            matrix_x[:num_stabs_x] = stabilizers_x
             matrix_z[:num_stabs_z] += (
                 stabilizers_z[:num_stabs_z, pivots_gz] @ matrix_z[num_stabs_z:]
             )
-- 
2.43.0


From 6cc9eb52edde8e9cd4a537b3bcacadca1827a518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 06/56] fix: shorten discarded a code word when all code words
 are zero on the shortened bit

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 5c5b818..b48d3c3 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -602,7 +602,9 @@ class ClassicalCode(AbstractCode):
         generator = self.generator
         for bit in sorted(bits, reverse=True):
             generator = np.roll(generator, -bit, axis=1).view(self.field)
-            generator = generator.row_reduce()[1:, 1:]
+            generator = generator.row_reduce()
+            # delete the first column, and the only row that may be nonzero in this column
+            generator = generator[int(np.any(generator[:, 0])) :, 1:]
             generator = np.roll(generator, bit, axis=1).view(self.field)
         return ClassicalCode.from_generator(generator)
 
-- 
2.43.0


From eabfcd657849edc63a53ba9ca5fd98fe454cc3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 07/56] fix: set_generator accepted linearly dependent words,
 for which exact distances are zero

---
 qldpc/codes/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index b48d3c3..a6e1057 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -324,6 +324,8 @@ class ClassicalCode(AbstractCode):
                 f"Provided generator matrix has incorrect rank ({generator_rank} instead of"
                 f" {required_rank})"
             )
+        if len(generator) != required_rank:
+            raise ValueError("Provided generator matrix has linearly dependent rows")
         self._generator = generator
 
     def iter_words(self, skip_zero: bool = False) -> Iterator[galois.FieldArray]:
-- 
2.43.0


From 5757b953ef8a2d0c255fefbb2299f4d6ed90e9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:32 +0000
Subject: [PATCH 08/56] fix: Tanner graphs dropped trivial checks and unchecked
 bits

---
 qldpc/codes/common.py  | 7 +++++++
 qldpc/codes/quantum.py | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index a6e1057..a8ee3a6 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -278,6 +278,9 @@ class ClassicalCode(AbstractCode):
             node_c = Node(index=int(row), is_data=False)
             node_d = Node(index=int(col), is_data=True)
             graph.add_edge(node_c, node_d, val=matrix[row][col])
+        # add nodes for trivial checks and unchecked bits
+        graph.add_nodes_from(Node(index=row, is_data=False) for row in range(matrix.shape[0]))
+        graph.add_nodes_from(Node(index=col, is_data=True) for col in range(matrix.shape[1]))
         if isinstance(matrix, galois.FieldArray):
             graph.order = type(matrix).order
         return graph
@@ -795,6 +798,10 @@ class QuditCode(AbstractCode):
             vals_xz[xz] += int(matrix[row, xz, col])
             graph[node_check][node_qudit][QuditOperator] = QuditOperator(tuple(vals_xz))
 
+        # add nodes for trivial checks and unchecked qudits
+        graph.add_nodes_from(Node(index=row, is_data=False) for row in range(matrix.shape[0]))
+        graph.add_nodes_from(Node(index=col, is_data=True) for col in range(matrix.shape[2]))
+
         # remember order of the field, and use Pauli operators if appropriate
         if isinstance(matrix, galois.FieldArray):
             graph.order = type(matrix).order
diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 5d837e8..c75f93c 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -792,6 +792,9 @@ class HGPCode(CSSCode):
             graph.add_edge(node_check, node_qudit)
             graph[node_check][node_qudit][QuditOperator] = op
 
+        # add nodes for trivial checks and unchecked qudits
+        graph.add_nodes_from(graph_product.nodes)
+
         # relabel nodes, from (node_a, node_b) --> node_combined
         node_map = HGPCode.get_product_node_map(graph_a.nodes, graph_b.nodes)
         graph = nx.relabel_nodes(graph, node_map)
-- 
2.43.0


From a8c32047fdbdabf03919fcf7a60cca2195a86be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:32 +0000
Subject: [PATCH 09/56] fix: local Fourier transforms of codes over fields of
 odd characteristic broke commutation relations

---
 qldpc/codes/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index a8ee3a6..1166fa0 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1379,12 +1379,14 @@ class QuditCode(AbstractCode):
             qudits = getattr(self, "_default_conjugate", ())
         matrix_reshaped = self.matrix.copy().reshape(-1, 2, len(self))
         matrix_reshaped[:, :, qudits] = matrix_reshaped[:, ::-1, qudits]
+        matrix_reshaped[:, 0, qudits] *= -1
         matrix = matrix_reshaped.reshape(-1, 2 * len(self))
         code = QuditCode(matrix, field=self.field.order, is_subsystem_code=self.is_subsystem_code)
 
         if self._logical_ops is not None:
             logical_ops = self._logical_ops.copy().reshape(-1, 2, len(self))
             logical_ops[:, :, qudits] = logical_ops[:, ::-1, qudits]
+            logical_ops[:, 0, qudits] *= -1
             code.set_logical_ops(logical_ops.reshape(-1, 2 * len(self)))
 
         return code
-- 
2.43.0


From f01ce84854317194ad4b99f8824f5cbd5f4ee925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 10/56] fix: set_logical_ops accepted X-type (or Z-type)
 logical operators that do not commute with one another

---
 qldpc/codes/common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 1166fa0..39a9deb 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1190,6 +1190,11 @@ class QuditCode(AbstractCode):
                 raise ValueError("The given logical operators have incorrect commutation relations")
             if np.any(symplectic_conjugate(self.matrix) @ logical_ops.T):
                 raise ValueError("The given logical operators violate parity checks")
+            for ops in (logical_ops_x, logical_ops_z):
+                if np.any(symplectic_conjugate(ops) @ ops.T):
+                    raise ValueError(
+                        "The given logical operators have incorrect commutation relations"
+                    )
             if dimension != self.dimension:
                 raise ValueError("An incorrect number of logical operators was provided")
         self._logical_ops = logical_ops
-- 
2.43.0


From 417ec51874bff528f6d88401f0009071d0fc0e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 11/56] fix: concatenate permuted the logical operators of the
 inner code it was given

---
 qldpc/codes/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 39a9deb..0ab86d0 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -18,6 +18,7 @@ limitations under the License.
 from __future__ import annotations
 
 import abc
+import copy
 import functools
 import itertools
 import random
@@ -1562,6 +1563,8 @@ class QuditCode(AbstractCode):
         # stack copies of the inner and outer codes, if necessary
         if (num_inner_blocks := len(outer_physical_to_inner_logical) // inner.dimension) > 1:
             inner = inner.stack(*[inner] * num_inner_blocks)
+        else:
+            inner = copy.copy(inner)  # do not modify the logical operators of the original code
         if (num_outer_blocks := len(outer_physical_to_inner_logical) // len(outer)) > 1:
             outer = outer.stack(*[outer] * num_outer_blocks)
 
-- 
2.43.0


From 5ef0f9f21eb67f2fe7560170532894a74e6543af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 12/56] fix: deforming a code without logical operators raised
 an error

---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 0ab86d0..9708378 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1421,7 +1421,7 @@ class QuditCode(AbstractCode):
                 string = op_to_string(check)
                 xs_zs = tableau(string).to_numpy()
                 new_strings.append(np.concatenate(xs_zs))
-            return self.field(new_strings)
+            return self.field(np.reshape(new_strings, strings.shape).astype(int))
 
         # deform this code by transforming its stabilizers
         matrix = deform_strings(self.matrix)
-- 
2.43.0


From 442903a0d85cef6640f3046c4fbcb0e2661fc00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:30 +0000
Subject: [PATCH 13/56] fix: qudit operator strings with repeated factors were
 parsed into the wrong operator

---
 qldpc/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index f3e9950..d476437 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -131,14 +131,14 @@ class QuditOperator:
 
         val_x, val_z = 0, 0
         factors = string.split("*")
-        if len(factors) > 2:
+        if [factor[:1] for factor in factors] not in (["X"], ["Y"], ["Z"], ["X", "Z"], ["Z", "X"]):
             raise ValueError(invalid_op)
 
         for factor in factors:
             pauli = factor[0]
             val_str = factor[2:-1]
             _factor = f"{pauli}({val_str})"
-            if pauli not in "XYZ" or not val_str.isnumeric() or factor != _factor:
+            if not val_str.isnumeric() or factor != _factor:
                 raise ValueError(invalid_op)
 
             val = int(val_str)
-- 
2.43.0


From 4d780fd5ec19adae9e22ef7b93390c242cbab83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 14/56] fix: two-block codes forgot the field of the matrices
 they were built from

TBCode(A, B) with A and B over GF(q>2) and no explicit field passed field=None on to
CSSCode together with np.block arrays that have lost their field, so that the code was
built over GF(2), or not at all.
---
 qldpc/codes/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index c75f93c..9ef6787 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -162,7 +162,7 @@ class TBCode(CSSCode):
             self,
             matrix_x,
             matrix_z,
-            field,
+            type(matrix_a).order,
             promise_equal_distance_xz=promise_equal_distance_xz,
             is_subsystem_code=False,
         )
-- 
2.43.0


From b3a3c48d0e89fb6fbdb0591ae372701c31803e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 15/56] fix: the null space of a RingArray without null vectors
 raised an error

---
 qldpc/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index b11dccf..7a6b6a6 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -861,7 +861,7 @@ class RingArray(npt.NDArray[np.object_]):
         group = ring.group if isinstance(ring, GroupRing) else ring
         assert array.shape[-1] == group.order
         vals = [RingMember.from_vector(ring, entry) for entry in array.reshape(-1, group.order)]
-        return RingArray(np.array(vals, dtype=object).reshape(array.shape[:-1]))
+        return RingArray(np.array(vals, dtype=object).reshape(array.shape[:-1]), ring)
 
     def to_field_array(self) -> galois.FieldArray:
         """Convert a RingArray into an array of coefficients (in a finite field) for each entry.
@@ -900,7 +900,7 @@ class RingArray(npt.NDArray[np.object_]):
         # collect ring-valued null row vectors (that is, transposed null column vectors)
         null_vectors = ~RingArray.from_field_array(
             self.ring,
-            null_field_vectors.reshape(len(null_field_vectors), -1, self.group.order),
+            null_field_vectors.reshape(len(null_field_vectors), self.shape[1], self.group.order),
         )
 
         return null_vectors.row_reduce(force_heuristic=force_heuristic)
-- 
2.43.0


From c48867e32c2eca24563969f7ab0c8e5175acbf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 16/56] fix: RingArray.row_reduce broke its guarantees on
 returned rows

- rows that became invertible were reduced in a copy that was then discarded;
- reducing over the base field can produce new invertible entries;
- rows whose pivot is not a unit can make other rows redundant.
---
 qldpc/abstract.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 7a6b6a6..689f736 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -954,12 +954,17 @@ class RingArray(npt.NDArray[np.object_]):
         matrix = self._reduce_rows_with_invertible_entries()
 
         # split matrix into rows with pivots, and all other rows
-        pivot_matrix, non_pivot_matrix = matrix._split_by_pivots()
+        pivot_matrix, non_pivot_matrix = matrix._split_by_pivots(allow_non_units=False)
 
         if non_pivot_matrix.size:
             # identify a minimal basis for the span of the non-pivot rows
             non_pivot_matrix = non_pivot_matrix._remove_linearly_dependent_rows()
 
+            # if this process produced new invertible entries, use them to keep row-reducing
+            if any(entry.inverse() for entry in non_pivot_matrix.ravel()):
+                new_matrix = np.vstack([pivot_matrix, non_pivot_matrix]).view(RingArray)
+                return new_matrix._heuristic_row_reduce()
+
         return np.vstack([pivot_matrix, non_pivot_matrix]).view(RingArray)
 
     def _reduce_rows_with_invertible_entries(self, *, restart_call: bool = False) -> RingArray:
@@ -1002,9 +1007,9 @@ class RingArray(npt.NDArray[np.object_]):
                 noninvertible_rows.append(row)
 
         if row_reductions_made and noninvertible_rows:
-            # some non-invertible entries may have become invertible, so try row-reducing again
-            rows = [row for row in noninvertible_rows if np.any(matrix[row])]
-            matrix[rows].view(RingArray)._reduce_rows_with_invertible_entries(restart_call=True)
+            # if some non-invertible entries have become invertible, try row-reducing again (in place)
+            if any(entry.inverse() for entry in matrix[noninvertible_rows].ravel()):
+                matrix._reduce_rows_with_invertible_entries(restart_call=True)
 
         return matrix
 
@@ -1020,7 +1025,7 @@ class RingArray(npt.NDArray[np.object_]):
         pivot_cols = np.sum(self_as_bool, axis=0) == 1
         for col in np.argwhere(pivot_cols):
             row = np.argwhere(self_as_bool[:, col])[0][0]
-            pivot_rows[row] = allow_non_units or self[row, col][0].inverse()
+            pivot_rows[row] |= allow_non_units or bool(self[row, col][0].inverse())
         pivot_matrix = self[pivot_rows].view(RingArray)
         non_pivot_matrix = self[~pivot_rows].view(RingArray)
         return pivot_matrix, non_pivot_matrix[np.any(non_pivot_matrix, axis=1)]
-- 
2.43.0


From f35aa343b4d0c702d1453eb082c6b64f5269d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 17/56] fix: zero blocks in tensor products of chain complexes
 over group algebras were integers

---
 qldpc/objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index d476437..598e687 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -496,6 +496,7 @@ class ChainComplex:
         if chain_a.field is not chain_b.field or chain_a.group != chain_b.group:
             raise ValueError("Incompatible chain complexes: different base fields or groups")
         chain_field = chain_a.field
+        chain_ring = chain_a.ops[0].ring if isinstance(chain_a.ops[0], abstract.RingArray) else None
 
         def get_degree_pairs(degree: int) -> Iterator[tuple[int, int]]:
             """Pairs of degrees that add up to the given total degree."""
@@ -511,12 +512,14 @@ class ChainComplex:
 
         def get_zero_block(
             row_degs: tuple[int, int], col_degs: tuple[int, int]
-        ) -> npt.NDArray[np.int_]:
+        ) -> npt.NDArray[np.int_] | abstract.RingArray:
             """Get a zero matrix to fill in a block of a total boundary operator."""
             row_deg_a, row_deg_b = row_degs
             col_deg_a, col_deg_b = col_degs
             rows = chain_a.dim(row_deg_a) * chain_b.dim(row_deg_b)
             cols = chain_a.dim(col_deg_a) * chain_b.dim(col_deg_b)
+            if chain_ring is not None:
+                return abstract.RingArray.build(np.zeros((rows, cols), dtype=int), chain_ring)
             return chain_field.Zeros((rows, cols))
 
         ops = []
-- 
2.43.0


From 5314451ba76932612c84cc370f0d5bda181d0c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:18 +0000
Subject: [PATCH 18/56] fix: let ILPDecoder slack variables reach every
 multiple of the modulus

With modulus q > 2, one boolean slack variable per power of q only covers sums whose
base-q digits are all 0 or 1, so that errors were rejected or replaced by heavier ones.
---
 qldpc/decoders.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index b350ebd..a524c87 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -421,7 +421,9 @@ class ILPDecoder(Decoder):
         This method uses boolean slack variables {s_j} to relax each constraint of the form
         `expression = val mod q`
         to
-        `expression = val + sum_j q^j s_j`.
+        `expression = val + sum_j q^j s_j`,
+        where every power q^j (for j >= 1) appears q-1 times, so that the sum can be any multiple of q
+        that the expression might require.
         """
         syndrome = np.asarray(syndrome, dtype=int) % self.modulus
 
@@ -429,14 +431,14 @@ class ILPDecoder(Decoder):
         for idx, (check, syndrome_bit) in enumerate(zip(self.matrix, syndrome)):
             # identify the largest power of q needed for the relaxation
             max_zero = int(sum(check) * (self.modulus - 1) - syndrome_bit)
-            if max_zero == 0 or self.modulus == 2:
-                max_power_of_q = max_zero.bit_length() - 1
-            else:
-                max_power_of_q = int(np.log2(max_zero) / np.log2(self.modulus))
-
-            if max_power_of_q > 0:
-                powers_of_q = [self.modulus**jj for jj in range(1, max_power_of_q + 1)]
-                slack_variables = cvxpy.Variable(max_power_of_q, boolean=True)
+            powers_of_q: list[int] = []
+            power_of_q = self.modulus
+            while power_of_q <= max_zero:
+                powers_of_q += [power_of_q] * (self.modulus - 1)
+                power_of_q *= self.modulus
+
+            if powers_of_q:
+                slack_variables = cvxpy.Variable(len(powers_of_q), boolean=True)
                 zero_mod_q = powers_of_q @ slack_variables
             else:
                 zero_mod_q = 0
-- 
2.43.0


From a8dede69d5383a4027f1b1cdbaffbc8ee69f038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:18 +0000
Subject: [PATCH 19/56] fix: make LookupDecoder decode a trivial syndrome to a
 trivial error

Errors with a trivial syndrome must not overwrite the correction for that syndrome, and
callers must not be handed the entries of the lookup table itself.
---
 qldpc/decoders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index a524c87..2bb0248 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -198,11 +198,13 @@ class LookupDecoder(Decoder):
                     syndrome = matrix @ code_error
                     self.table[tuple(syndrome.view(np.ndarray))] = code_error.view(np.ndarray)
 
+        # the trivial syndrome is always explained by the trivial error
         self.null_correction = np.zeros(matrix.shape[1], dtype=int)
+        self.table[(0,) * matrix.shape[0]] = self.null_correction
 
     def decode(self, syndrome: npt.NDArray[np.int_]) -> npt.NDArray[np.int_]:
         """Decode an error syndrome and return an inferred error."""
-        return self.table.get(tuple(syndrome.view(np.ndarray)), self.null_correction.copy())
+        return self.table.get(tuple(syndrome.view(np.ndarray)), self.null_correction).copy()
 
 
 def get_symplectic_weight(vector: npt.NDArray[np.int_]) -> int:
-- 
2.43.0


From 9252620d9c6b9f63b841bf7e958c60442d671c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:18 +0000
Subject: [PATCH 20/56] fix: let the symplectic GUFDecoder accept plain integer
 matrices

The conjugate of an integer matrix has entries of -1, which are not field elements.
---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index 2bb0248..5a83721 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -261,7 +261,7 @@ class GUFDecoder(Decoder):
         else:
             # decoding a quantum code: the "weight" of an error vector is its symplectic weight
             self.get_weight = get_symplectic_weight
-            self.code = codes.QuditCode(symplectic_conjugate(matrix))
+            self.code = codes.QuditCode(symplectic_conjugate(codes.QuditCode(matrix).matrix))
 
         self.graph = self.code.graph.to_undirected()
 
-- 
2.43.0


From 63e3f92765b345f6fb0dc2be3b4b8ec2da8c23c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:43 +0000
Subject: [PATCH 21/56] fix: round the solutions of integer programs to the
 nearest integers

Solvers return values such as 2.9999999, which were truncated to 2.
---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index 5a83721..a239c7b 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -413,7 +413,7 @@ class ILPDecoder(Decoder):
             raise ValueError(message + f"\nSolver output: {result}")
 
         # return solution to the problem variables
-        return self.variables.value.astype(int)
+        return np.round(self.variables.value).astype(int)
 
     def cvxpy_constraints_for_syndrome(
         self, syndrome: npt.NDArray[np.int_]
-- 
2.43.0


From 40531507bc586d7604466209fa0fc62eb61138f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 22/56] fix: never bound the distance of a vector from a code
 by an invalid correction

---
 qldpc/codes/common.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 9708378..e52885d 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -479,11 +479,11 @@ class ClassicalCode(AbstractCode):
         """
         if vector is not None:
             # find the distance of the given vector from a code word
-            correction = decoders.decode(
-                self.matrix,
-                self.matrix @ np.asarray(vector, dtype=int).view(self.field),
-                **decoder_args,
-            )
+            syndrome = self.matrix @ np.asarray(vector, dtype=int).view(self.field)
+            correction = decoders.decode(self.matrix, syndrome, **decoder_args)
+            if not np.array_equal(self.matrix @ correction.view(self.field), syndrome):
+                # decoding failed, so fall back to the distance from the all-0 code word
+                correction = np.asarray(vector, dtype=int)
             return int(np.count_nonzero(correction))
 
         # effective syndrome: a trivial "actual" syndrome, and a nonzero overlap with a random word
-- 
2.43.0


From 952185b0640498181aec18e141c6fe4886a75231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 23/56] fix: let the ring code on one bit encode one bit

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index cfe34f2..143daaa 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -52,7 +52,7 @@ class RingCode(ClassicalCode):
         self._matrix = self.field.Zeros((bits, bits))
         for row in range(bits):
             self._matrix[row, row] = 1
-            self._matrix[row, (row + 1) % bits] = -self.field(1)
+            self._matrix[row, (row + 1) % bits] -= self.field(1)
 
         self._dimension = 1
         self._distance = bits
-- 
2.43.0


From 29480e52bc4a259ccf4730ae71198e6385d16506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 24/56] fix: make the order-0 Reed-Muller generator matrix
 two-dimensional

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index 143daaa..1e3c9f0 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -163,7 +163,7 @@ class ReedMullerCode(ClassicalCode):
         ReedMullerCode._assert_valid_params(order, size)
 
         if order == 0:
-            return np.ones(2**size, dtype=int)
+            return np.ones((1, 2**size), dtype=int)
         if order == size:
             return np.identity(2**size, dtype=int)
 
-- 
2.43.0


From 9f07c734f273fe23f9d3895efc04ac7158f0b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 25/56] fix: let rotated surface codes have only one row or one
 column

---
 qldpc/codes/quantum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 9ef6787..3f15bd4 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1425,7 +1425,11 @@ class SurfaceCode(CSSCode):
                     # no Z-type parity checks on the left/right boundaries
                     checks_z.append(check)
 
-        return np.array(checks_x), np.array(checks_z)
+        # ensure that these arrays are two-dimensional even if they have no rows
+        return (
+            np.array(checks_x, dtype=int).reshape(-1, rows * cols),
+            np.array(checks_z, dtype=int).reshape(-1, rows * cols),
+        )
 
 
 class ToricCode(CSSCode):
-- 
2.43.0


From a17a080e8304dcdcda7af68d12f91b52de984986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 26/56] fix: do not strip the edge ordering from a graph
 provided to TannerCode

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index 1e3c9f0..5a0a589 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -246,7 +246,7 @@ class TannerCode(ClassicalCode):
             edge = frozenset([node_a, node_b])
             directed_subgraph.add_edge(node_a, edge)
             directed_subgraph.add_edge(node_b, edge)
-            if (sort_data := edge_data.pop("sort", None)) is not None:
+            if (sort_data := edge_data.get("sort")) is not None:
                 directed_subgraph[node_a][edge]["sort"] = sort_data[node_a]
                 directed_subgraph[node_b][edge]["sort"] = sort_data[node_b]
         return directed_subgraph
-- 
2.43.0


From c7e39cde4b7eacc1089f57af1c1bb6f33cd36e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 27/56] fix: load quantum Tanner codes with a generating code
 without parity checks

---
 qldpc/codes/quantum.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 3f15bd4..fd9942a 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1289,21 +1289,26 @@ class QTCode(CSSCode):
         field = ast.literal_eval(lines[-2].split(":")[-1])
         bipartite = ast.literal_eval(lines[-1].split(":")[-1])
 
-        # load integer arrays separated by comments
-        arrays = []
-        last_index = 0
-        for index, line in enumerate(lines):
-            if line.startswith("#"):
-                if index > last_index + 1:
-                    array = np.genfromtxt(lines[last_index + 1 : index], dtype=int, ndmin=2)
-                    arrays.append(array)
-                last_index = index
-
-        # construct subsets and generating codes
-        subset_a = set(abstract.GroupMember(gen) for gen in arrays[0])
-        subset_b = set(abstract.GroupMember(gen) for gen in arrays[1])
-        code_a = ClassicalCode(arrays[2], field)
-        code_b = ClassicalCode(arrays[3], field)
+        def load_array(title: str) -> npt.NDArray[np.int_] | None:
+            """Load the integer array in the (last) section with the given title."""
+            start = len(lines) - lines[::-1].index(f"# {title}:")
+            rows = list(itertools.takewhile(lambda line: not line.startswith("#"), lines[start:]))
+            return np.genfromtxt(rows, dtype=int, ndmin=2) if rows else None
+
+        # construct subsets
+        gens_a, gens_b = load_array("subset_a"), load_array("subset_b")
+        assert gens_a is not None and gens_b is not None
+        subset_a = set(abstract.GroupMember(gen) for gen in gens_a)
+        subset_b = set(abstract.GroupMember(gen) for gen in gens_b)
+
+        # construct generating codes, which may have no parity checks
+        matrix_a, matrix_b = load_array("code_a.matrix"), load_array("code_b.matrix")
+        if matrix_a is None:
+            matrix_a = np.zeros((0, len(subset_a)), dtype=int)
+        if matrix_b is None:
+            matrix_b = np.zeros((0, len(subset_b)), dtype=int)
+        code_a = ClassicalCode(matrix_a, field)
+        code_b = ClassicalCode(matrix_b, field)
         return QTCode(subset_a, subset_b, code_a, code_b, bipartite=bipartite)
 
 
-- 
2.43.0


From bbc3b987b55f29405a36bd78f84225c6e69ffd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 28/56] fix: let the automorphisms of a code act on all of its
 bits

---
 qldpc/codes/common.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index e52885d..c3dcc20 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -569,7 +569,14 @@ class ClassicalCode(AbstractCode):
         matrix_str = "[" + ",".join(checks_str) + "]"
         code_str = f"CheckMatCode({matrix_str}, GF({self.field.order}))"
         group_str = "AutomorphismGroup" if self.field.order == 2 else "PermutationAutomorphismGroup"
-        return abstract.Group.from_name(f"{group_str}({code_str})")
+        group = abstract.Group.from_name(f"{group_str}({code_str})")
+
+        # make sure that all permutations act on all bits, even if they fix the last bits of the code
+        generators = [
+            abstract.GroupMember(gen.array_form + list(range(gen.size, len(self))))
+            for gen in group.generators
+        ]
+        return abstract.Group(*generators, name=group.name)
 
     @staticmethod
     def stack(*codes: ClassicalCode) -> ClassicalCode:
-- 
2.43.0


From b766d16b52019ebc78817dad30b3c596a503cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 29/56] fix: intersect a trivial permutation group with another
 group

---
 qldpc/circuits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index 598a373..fa07bdc 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -256,6 +256,8 @@ def _sympy_group_intersection_generators(
     group_a: abstract.Group, group_b: abstract.Group
 ) -> tuple[tuple[int, ...], ...]:
     """Get the generators of the intersection of two Sympy permutation groups."""
+    if group_a.order == 1:
+        return group_a.hashable_generators()
     group_sympy = group_a.to_sympy().subgroup_search(group_b.to_sympy().contains)
     return abstract.Group(group_sympy).hashable_generators()
 
-- 
2.43.0


From 6a38ffc53bc606f607f8b44b0753373a4d5f6fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 30/56] fix: keep the coefficients and terms of a polynomial in
 its canonical form

---
 qldpc/codes/quantum.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index fd9942a..8ca27ba 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -303,15 +303,15 @@ class QCCode(TBCode):
 
         # canonialize and add one term ata time
         new_poly = sympy.core.numbers.Zero()
-        for term in poly.args:
+        for term in sympy.Add.make_args(poly.as_expr()):
             coeff, exponents = self.get_coefficient_and_exponents(term)
 
-            new_term = sympy.core.numbers.One()
+            new_term = coeff
             for symbol, order in zip(self.symbols, orders):
                 new_exponent = exponents.get(symbol, 0) % order
                 if new_exponent > order / 2:
                     new_exponent -= order
-                new_term *= coeff * symbol**new_exponent
+                new_term *= symbol**new_exponent
 
             new_poly += new_term
 
@@ -493,8 +493,10 @@ class BBCode(QCCode):
             return []
 
         # identify individual monomials (terms without their coefficients) in the polynomials
-        monomials_a = [term.as_coeff_Mul()[1] for term in self.poly_a.as_expr().args]
-        monomials_b = [term.as_coeff_Mul()[1] for term in self.poly_b.as_expr().args]
+        terms_a = sympy.Add.make_args(self.poly_a.as_expr())
+        terms_b = sympy.Add.make_args(self.poly_b.as_expr())
+        monomials_a = [term.as_coeff_Mul()[1] for term in terms_a]
+        monomials_b = [term.as_coeff_Mul()[1] for term in terms_b]
 
         # identify collections of monomials that can be combined to obtain a toric layout
         toric_params = []
-- 
2.43.0


From 6fe802d27c1445ec973accf33eac5b7be4aadb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 31/56] fix: give every unused cyclic group of a quasi-cyclic
 code its own symbol

---
 qldpc/codes/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 8ca27ba..a15ff8c 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -225,7 +225,7 @@ class QCCode(TBCode):
 
         # add more placeholder symbols if necessary
         while len(symbol_to_order) < len(orders):
-            unique_symbol = sympy.Symbol("~" + "".join(map(str, symbols)))
+            unique_symbol = sympy.Symbol("~" + "".join(map(str, symbol_to_order)))
             symbol_to_order[unique_symbol] = orders[len(symbol_to_order)]
 
         self.symbols = tuple(symbol_to_order.keys())
-- 
2.43.0


From ca52694a35f5017d253f806fff9c28964c36ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 32/56] fix: find code deformations that preserve the logical
 operators, not their conjugates

---
 qldpc/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index fa07bdc..4ea2186 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -205,7 +205,7 @@ def get_transversal_automorphism_group(
     deformations for which the logical Pauli group of the original QuditCode is a valid choice of
     logical Pauli group for the deformed QuditCode.
     """
-    parity_checks = code.matrix if not deform_code else symplectic_conjugate(code.get_logical_ops())
+    parity_checks = code.matrix if not deform_code else code.get_logical_ops()
     matrix_x = parity_checks.reshape(-1, 2, len(code))[:, 0, :]
     matrix_z = parity_checks.reshape(-1, 2, len(code))[:, 1, :]
     if not local_gates or local_gates == {"H"}:
-- 
2.43.0


From 8bb770ad169f75140bd2a7cacb9438e736f4266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 33/56] fix: keep the generators of trivial cyclic groups in
 products of cyclic groups

---
 qldpc/abstract.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 689f736..ef5040d 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1130,6 +1130,8 @@ class AbelianGroup(Group):
     initialized with direct_sum=True, the group members get lifted to a direct sum ⨁_i L(g_i)^{a_i}.
     """
 
+    _cyclic_generators: Sequence[GroupMember] | None = None
+
     def __init__(self, *orders: int, direct_sum: bool = False) -> None:
         group = comb.named_groups.AbelianGroup(*orders)
         order_text = ",".join(map(str, orders))
@@ -1138,6 +1140,12 @@ class AbelianGroup(Group):
         identity_mats = [np.eye(order, dtype=int) for order in orders]
         vals = [sum(orders[:idx]) for idx in range(len(orders))]
 
+        # identify one generator per cyclic group, since SymPy drops the generators of trivial groups
+        self._cyclic_generators = [
+            GroupMember([list(range(val, val + order))], size=sum(orders))
+            for val, order in zip(vals, orders)
+        ]
+
         # build lift manually, which is faster than the default lift
         def lift(member: GroupMember) -> npt.NDArray[np.int_]:
             shifts = [member.apply(val) - val for val in vals]
@@ -1154,11 +1162,16 @@ class AbelianGroup(Group):
         # override the default order in which SymPy iterates over group members
         def generate_func() -> Iterator[comb.Permutation]:
             for powers in itertools.product(*[range(order) for order in orders]):
-                factors = [gen**power for gen, power in zip(group.generators, powers)]
+                factors = [gen**power for gen, power in zip(self.generators, powers)]
                 yield functools.reduce(operator.mul, factors)
 
         super()._init_from_group(group, name, generate_func, lift)
 
+    @property
+    def generators(self) -> Sequence[GroupMember]:
+        """Generators of this group, with one generator for each cyclic group."""
+        return self._cyclic_generators or super().generators
+
 
 class CyclicGroup(AbelianGroup):
     """Cyclic group of a specified order.
-- 
2.43.0


From 4b90c66bea88bfc12deb81f27f82d5d455a3306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 34/56] fix: make the lift of a group built from a table
 respect products

---
 qldpc/abstract.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index ef5040d..50bca68 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -285,7 +285,9 @@ class Group:
         integer_lift: IntegerLift | None = None,
     ) -> Group:
         """Construct a group from a multiplication (Cayley) table."""
-        members = {GroupMember(row): idx for idx, row in enumerate(table)}
+        # Identify each member with the permutation by which it acts on the group from the right.
+        # SymPy composes permutations from left to right, so these permutations obey the given table
+        members = {GroupMember(col): idx for idx, col in enumerate(zip(*table))}
 
         if integer_lift is None:
             return Group(*members)
@@ -1245,7 +1247,7 @@ class QuaternionGroup(Group):
                 blocks = [[zero, -unit], [unit, zero]]
             else:  # if base == 3; +/- k
                 blocks = [[zero, -imag], [-imag, zero]]
-            return sign * (np.block(blocks).T % 3).view(galois.GF(3))
+            return sign * (np.block(blocks) % 3).view(galois.GF(3))
 
         group = Group.from_table(table, integer_lift=integer_lift)
         super()._init_from_group(group, name=QuaternionGroup.__name__)
-- 
2.43.0


From 5151c23220f782bf61dd466eed012875cc66f63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 35/56] fix: make the lift of a group built from matrices
 respect products

---
 qldpc/abstract.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 50bca68..ada84bd 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -339,15 +339,16 @@ class Group:
         for (aa, bb), cc in table_as_dict.items():
             table[aa, bb] = cc
 
-        # dictionary from a permutation to the index of a group member
-        permutation_to_index = {tuple(row): idx for idx, row in enumerate(table)}
+        # Dictionary from a permutation to the index of a group member.  Group members act on the
+        # group from the right, because SymPy composes permutations from left to right.
+        permutation_to_index = {tuple(col): idx for idx, col in enumerate(table.T)}
 
         def lift(member: GroupMember) -> npt.NDArray[np.int_]:
             """Lift a member to its matrix representation."""
             return index_to_member[permutation_to_index[tuple(member.array_form)]]
 
         # identify generating permutations and build the group itself
-        generators = [GroupMember(table[row]) for row in range(len(matrices))]
+        generators = [GroupMember(table[:, col]) for col in range(len(matrices))]
         return Group(*generators, lift=lift)
 
     def random_symmetric_subset(
-- 
2.43.0


From 2adec4fc60fd77bf4d5bff4eddfad71215570c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 36/56] fix: make the lifts of special linear groups respect
 products

---
 qldpc/abstract.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index ada84bd..215659b 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1329,7 +1329,7 @@ class SpecialLinearGroup(Group):
             for member in self.get_generating_mats(self.dimension, self.field.order):
                 perm = np.empty(len(target_space), dtype=int)
                 for index, vec_bytes in enumerate(target_space):
-                    next_vec = member @ np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field)
+                    next_vec = np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field) @ member
                     next_index = target_space.index(next_vec.view(np.ndarray).tobytes())
                     perm[index] = next_index
                 generators.append(GroupMember(perm))
@@ -1337,17 +1337,17 @@ class SpecialLinearGroup(Group):
             def lift(member: GroupMember) -> npt.NDArray[np.int_]:
                 """Lift a group member to a square matrix.
 
-                Each column is determined by how the matrix acts on a standard basis vector.
+                Each row is determined by how the matrix acts on a standard basis vector.
                 """
-                cols = []
+                rows = []
                 for entry in range(self.dimension):
                     inp_vec = np.zeros(self.dimension, dtype=np.uint8)
                     inp_vec[entry] = 1
                     inp_idx = target_space.index(inp_vec.tobytes())
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
-                    cols.append(out_vec)
-                return np.vstack(cols, dtype=int).T
+                    rows.append(out_vec)
+                return np.vstack(rows, dtype=int)
 
             super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
 
@@ -1438,7 +1438,7 @@ class ProjectiveSpecialLinearGroup(Group):
                 perm = np.empty(len(target_space), dtype=int)
                 for index, vec_bytes in enumerate(target_space):
                     vec = np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field)
-                    next_orbit = [root * member @ vec for root in roots]
+                    next_orbit = [root * vec @ member for root in roots]
                     next_vec = next((vec for vec in next_orbit if vec.tobytes() in target_space))
                     next_index = target_space.index(next_vec.tobytes())
                     perm[index] = next_index
@@ -1448,17 +1448,17 @@ class ProjectiveSpecialLinearGroup(Group):
             def lift(member: GroupMember) -> npt.NDArray[np.int_]:
                 """Lift a group member to a square matrix.
 
-                Each column is determined by how the matrix acts on a standard basis vector.
+                Each row is determined by how the matrix acts on a standard basis vector.
                 """
-                cols = []
+                rows = []
                 for entry in range(self.dimension):
                     inp_vec = np.zeros(self.dimension, dtype=np.uint8)
                     inp_vec[entry] = 1
                     inp_idx = target_space.index(inp_vec.tobytes())
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
-                    cols.append(out_vec)
-                return np.vstack(cols, dtype=int).T
+                    rows.append(out_vec)
+                return np.vstack(rows, dtype=int)
 
             super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
 
-- 
2.43.0


From dc1e26f97c68dc253bd42284fdad38592ddc6d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 37/56] fix: use the regular lift for projective groups without
 a linear representation

---
 qldpc/abstract.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 215659b..f462d44 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1430,7 +1430,7 @@ class ProjectiveSpecialLinearGroup(Group):
                 for vec in itertools.product(range(self.field.order), repeat=self.dimension)
             ]
             del target_orbits[0]  # remove the orbit of the zero vector
-            target_space = [next(iter(orbit)) for orbit in set(target_orbits)]
+            target_space = list(dict.fromkeys(min(orbit) for orbit in target_orbits))
 
             # identify how the generators permute elements of the target space
             generators = []
@@ -1444,7 +1444,9 @@ class ProjectiveSpecialLinearGroup(Group):
                     perm[index] = next_index
                 generators.append(GroupMember(perm))
 
-            # construct a lift identical to that for the linear representation of SL
+            # Construct a lift identical to that for the linear representation of SL.  If there are
+            # nontrivial roots of unity, then group members are only matrices up to a scalar, so there
+            # is no such lift.
             def lift(member: GroupMember) -> npt.NDArray[np.int_]:
                 """Lift a group member to a square matrix.
 
@@ -1460,7 +1462,9 @@ class ProjectiveSpecialLinearGroup(Group):
                     rows.append(out_vec)
                 return np.vstack(rows, dtype=int)
 
-            super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
+            super()._init_from_group(
+                comb.PermutationGroup(generators), lift=lift if num_roots == 1 else None
+            )
 
         else:
             # represent group members by how they permute elements of the group itself
-- 
2.43.0


From 4d132ee82cd8f65ff03fa2c9e47e98537cab299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 38/56] fix: yield square matrices when iterating over PSL

---
 qldpc/abstract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index f462d44..0d1a3c1 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1508,8 +1508,9 @@ class ProjectiveSpecialLinearGroup(Group):
             frozenset([(root * mat).tobytes() for root in roots])
             for mat in SpecialLinearGroup.iter_mats(dimension, field)
         ]
-        for orbit in set(orbits):
-            yield np.frombuffer(next(iter(orbit)), dtype=np.uint8).view(base_field)
+        for mat_bytes in dict.fromkeys(min(orbit) for orbit in orbits):
+            mat = np.frombuffer(mat_bytes, dtype=np.uint8).view(base_field)
+            yield mat.reshape(dimension, dimension)
 
 
 SL = SpecialLinearGroup
-- 
2.43.0


From e7923387fe26482a7b7d2e70af8e7ce56a7c7059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 39/56] fix: draw random members of the first small group of
 each order

---
 qldpc/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 0d1a3c1..6bc1352 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1274,7 +1274,7 @@ class SmallGroup(Group):
 
     def random(self, *, seed: int | None = None) -> GroupMember:
         """A random element this group."""
-        return super().random(seed=seed) if self.group_index > 1 else self.identity
+        return super().random(seed=seed) if self.order > 1 else self.identity
 
     @functools.cached_property
     def structure(self) -> str:
-- 
2.43.0


From b54a3717c2e2d40836bb4cfb2765ef02dcc26eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 40/56] fix: recognize and draw the identity of groups with one
 member

---
 qldpc/abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 6bc1352..05267ea 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -192,7 +192,7 @@ class Group:
         return new_group
 
     def __contains__(self, member: GroupMember) -> bool:
-        return member in self._group
+        return member == self.identity or member in self._group
 
     @property
     def order(self) -> int:
@@ -252,6 +252,8 @@ class Group:
         """A random element this group."""
         if seed is not None:
             sympy.core.random.seed(seed)
+        if self.order == 1:
+            return self.identity  # SymPy cannot "unrank" the members of a trivial group
         return GroupMember.from_sympy(self._group.random())
 
     @functools.cache
-- 
2.43.0


From 3107f27ad801221e919ca1c25815dcb96a1ca1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:00 +0000
Subject: [PATCH 41/56] fix: read coefficients of idempotents that lie in a
 subfield

---
 qldpc/external/groups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 6185b9f..9af20b2 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -271,13 +271,14 @@ def get_primitive_central_idempotents(
         for ring_term_match in re_ring_term.finditer(ring_member_match.group()):
             coefficient_string, cycles_string = ring_term_match.group().split("*")
 
-            # convert "Z(p^k)^m" into galois.GF(field)(galois.GF(p**k).primitive_element ** m)
+            # convert "Z(p^k)^m" into an element of galois.GF(field), which contains GF(p**k)
             coefficient_match = re_coefficient_components.match(coefficient_string)
             assert coefficient_match is not None
             pp = int(coefficient_match.group(1))
             kk = int(coefficient_match.group(2) or 1)
             mm = int(coefficient_match.group(3) or 1)
-            coefficient = galois.GF(field)(galois.GF(pp**kk).primitive_element ** mm)
+            ratio = (field - 1) // (pp**kk - 1)
+            coefficient = galois.GF(field).primitive_element ** (ratio * mm)
 
             # extract and 0-index cycles
             cycles = tuple(
-- 
2.43.0


From 495aef69235db62c40b4bfab44f44c155eb407ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 42/56] fix: invert ring members over groups that are not
 enumerated from the identity

---
 qldpc/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 05267ea..6b4ee9b 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -686,7 +686,8 @@ class RingMember:
         try:
             matrix = self.regular_lift()
             matrix_inv = np.linalg.inv(matrix).view(self.field)
-            return RingMember.from_vector(self.ring, matrix_inv[:, 0])
+            identity_index = self.group.index(self.group.identity)
+            return RingMember.from_vector(self.ring, matrix_inv[:, identity_index])
         except np.linalg.LinAlgError:
             return None
 
-- 
2.43.0


From 4a4f354379762750080a3ed12182d767fb319e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 43/56] fix: only remove rows that lie in the left span of
 other rows of a RingArray

---
 qldpc/abstract.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 6b4ee9b..5a5d9a6 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1061,12 +1061,13 @@ class RingArray(npt.NDArray[np.object_]):
             self.ring, field_vectors.reshape(len(field_vectors), -1, self.group.order)
         )
 
-        """
-        Invert (transpose the entries of the matrix to make them right-acting (that is, to
-        transform coefficients that are to the left of each row vector), and lift to a matrix over
-        the field.
-        """
-        field_matrix = (~ring_matrix).view(RingArray).regular_lift()
+        # multiply each row by every group member from the left, and expand over the field
+        translated_rows = [
+            (RingMember(self.ring, member) * row).view(RingArray).to_field_vector()
+            for row in ring_matrix
+            for member in self.group.generate()
+        ]
+        field_matrix = np.asarray(translated_rows).view(self.field)
 
         # throw out rows that can be expressed as ring-linear combinations of other rows
         rows_to_keep = np.ones((len(ring_matrix), self.group.order), dtype=bool)
-- 
2.43.0


From d79302a0e837faba73a9e224581eed7994b359d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:26 +0000
Subject: [PATCH 44/56] fix: read back strings of qudit operators with negative
 shifts and phases

---
 qldpc/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index 598e687..2944c33 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -138,7 +138,7 @@ class QuditOperator:
             pauli = factor[0]
             val_str = factor[2:-1]
             _factor = f"{pauli}({val_str})"
-            if not val_str.isnumeric() or factor != _factor:
+            if not val_str.removeprefix("-").isnumeric() or factor != _factor:
                 raise ValueError(invalid_op)
 
             val = int(val_str)
-- 
2.43.0


From f9bb68506671ef31fef53e43b197a3f27f61c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 45/56] fix: compare quantum Tanner codes with one another

---
 qldpc/codes/quantum.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index a15ff8c..fc5575e 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1150,11 +1150,11 @@ class QTCode(CSSCode):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, QTCode)
-            and other.code_a == other.code_a
-            and other.code_b == other.code_b
-            and other.complex.subset_a == other.complex.subset_a
-            and other.complex.subset_b == other.complex.subset_b
-            and other.complex.bipartite == other.complex.bipartite
+            and self.code_a == other.code_a
+            and self.code_b == other.code_b
+            and self.complex.subset_a == other.complex.subset_a
+            and self.complex.subset_b == other.complex.subset_b
+            and self.complex.bipartite == other.complex.bipartite
         )
 
     @staticmethod
-- 
2.43.0


From d4a7cc1d224a34ed8dfc6019a1048f22be68e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 46/56] fix: make equality of CSS codes symmetric

---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index c3dcc20..1539794 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1636,7 +1636,7 @@ class CSSCode(QuditCode):
     def __eq__(self, other: object) -> bool:
         """Equality test between two code instances."""
         return (
-            isinstance(other, type(self))
+            isinstance(other, CSSCode)
             and self.field is other.field
             and np.array_equal(self.code_x.matrix, other.code_x.matrix)
             and np.array_equal(self.code_z.matrix, other.code_z.matrix)
-- 
2.43.0


From afbb34a8b6ce30790c53ea26249aa7a66ff46718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 47/56] fix: make hashes of groups consistent with equality

---
 qldpc/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 5a5d9a6..3ced77f 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -170,7 +170,8 @@ class Group:
         return isinstance(other, Group) and self._group == other._group
 
     def __hash__(self) -> int:
-        return hash((self._group, self._generate_func, self._lift))
+        # equal groups, which may be generated and lifted differently, must have equal hashes
+        return hash(self._group)
 
     @property
     def name(self) -> str:
-- 
2.43.0


From 2f571d2ea0dcf33702f6eb30e3bdf3f629bd543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 48/56] fix: weights of codes without parity checks

---
 qldpc/codes/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 1539794..399f5da 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -299,7 +299,7 @@ class ClassicalCode(AbstractCode):
 
     def get_weight(self) -> int:
         """Compute the weight of the largest parity check."""
-        return np.max(np.count_nonzero(self.matrix.view(np.ndarray), axis=1))
+        return np.max(np.count_nonzero(self.matrix.view(np.ndarray), axis=1), initial=0)
 
     @functools.cached_property
     def dimension(self) -> int:
@@ -890,7 +890,7 @@ class QuditCode(AbstractCode):
         """Compute the weight of the largest parity check."""
         matrix_x = self.matrix[:, : len(self)].view(np.ndarray)
         matrix_z = self.matrix[:, len(self) :].view(np.ndarray)
-        return np.max(np.count_nonzero(matrix_x | matrix_z, axis=1))
+        return np.max(np.count_nonzero(matrix_x | matrix_z, axis=1), initial=0)
 
     def get_logical_ops(
         self, pauli: PauliXZ | None = None, *, recompute: bool = False
-- 
2.43.0


From ecff714c8896706eacad1b6ab9f2fde6b7928b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 49/56] fix: quantum codes can be constructed from CSS codes

---
 qldpc/codes/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 399f5da..87274cb 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -93,12 +93,12 @@ class AbstractCode(abc.ABC):
         The base field is taken to be F_2 by default.
         """
         if isinstance(matrix, AbstractCode):
-            self._matrix = matrix._matrix
-            self._field = matrix._field
+            self._matrix = matrix.matrix
+            self._field = matrix.field
             self._dimension = matrix._dimension
             self._distance = matrix._distance
 
-            if field is not None and field != matrix._field.order:
+            if field is not None and field != matrix.field.order:
                 raise ValueError(
                     f"Field argument {field} is inconsistent with the given code, which is defined"
                     f" over F_{self._field.order}"
-- 
2.43.0


From 914b28a9d2659d0f04ff0d7e237b8f85f2f86197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:45 +0000
Subject: [PATCH 50/56] fix: subtract group members from ring members

---
 qldpc/abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 3ced77f..59b2001 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -580,6 +580,9 @@ class RingMember:
         return NotImplemented  # pragma: no cover
 
     def __sub__(self, other: RingMember | GroupMember | int) -> RingMember:
+        if isinstance(other, GroupMember):
+            # integers multiplying a GroupMember are ignored, so subtract a RingMember instead
+            other = RingMember(self.ring, other)
         return self + (-1) * other
 
     def __radd__(self, other: GroupMember) -> RingMember:
-- 
2.43.0


From db22994c33810782e8f3ae04f275fdbe09089d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:45 +0000
Subject: [PATCH 51/56] fix: negative powers of ring members

---
 qldpc/abstract.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 59b2001..00108dc 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -628,6 +628,11 @@ class RingMember:
         return self * (-1)
 
     def __pow__(self, power: int) -> RingMember:
+        if power < 0:
+            inverse = self.inverse()
+            if inverse is None:
+                raise ValueError("Negative powers of a non-invertible ring member are not defined")
+            return inverse**-power
         return functools.reduce(operator.mul, [self] * power, self.ring.one)
 
     def copy(self) -> RingMember:
-- 
2.43.0


From f17660a5bd45643edbe656095ca3fd55d02e774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:45 +0000
Subject: [PATCH 52/56] fix: do not combine members of different rings

---
 qldpc/abstract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 00108dc..edce742 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -572,6 +572,8 @@ class RingMember:
             return new_element
 
         if isinstance(other, RingMember):
+            if self.ring != other.ring:
+                raise ValueError("Cannot add members of different rings")
             new_element = self.copy()
             for val, member in other:
                 new_element._vec[member] += val
@@ -604,6 +606,8 @@ class RingMember:
             return new_element
 
         if isinstance(other, RingMember):
+            if self.ring != other.ring:
+                raise ValueError("Cannot multiply members of different rings")
             # collect and multiply pairs of terms from 'self' and 'other'
             new_element = self.ring.zero
             for (x_a, aa), (y_b, bb) in itertools.product(self, other):
-- 
2.43.0


From 138a7b396f44d75b733d7e9e0935eaf5b705e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:45 +0000
Subject: [PATCH 53/56] fix: do not take products of matrices over different
 fields or rings

---
 qldpc/codes/quantum.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index fc5575e..ea51bc1 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -716,6 +716,8 @@ class HGPCode(CSSCode):
             code_b = code_a
         code_a = ClassicalCode(code_a, field)
         code_b = ClassicalCode(code_b, field)
+        if code_a.field is not code_b.field:
+            raise ValueError("Cannot take hypergraph product of codes over different fields")
         field = code_a.field.order
 
         # use a matrix-based hypergraph product to identify X-sector and Z-sector parity checks
@@ -913,6 +915,8 @@ class SHPCode(CSSCode):
             code_z = code_x
         code_x = ClassicalCode(code_x, field)
         code_z = ClassicalCode(code_z, field)
+        if code_x.field is not code_z.field:
+            raise ValueError("Cannot take hypergraph product of codes over different fields")
         code_field = code_x.field
 
         matrix_x, matrix_z = SHPCode.get_matrix_product(code_x.matrix, code_z.matrix)
@@ -1002,6 +1006,8 @@ class LPCode(CSSCode):
             matrix_b = matrix_a
         matrix_a = abstract.RingArray(matrix_a)
         matrix_b = abstract.RingArray(matrix_b)
+        if matrix_a.ring != matrix_b.ring:
+            raise ValueError("Cannot take lifted product of matrices over different rings")
         field = matrix_a.field.order
 
         # identify X-sector and Z-sector parity checks
@@ -1065,6 +1071,8 @@ class SLPCode(CSSCode):
             matrix_b = matrix_a
         matrix_a = abstract.RingArray(matrix_a)
         matrix_b = abstract.RingArray(matrix_b)
+        if matrix_a.ring != matrix_b.ring:
+            raise ValueError("Cannot take lifted product of matrices over different rings")
         field = matrix_a.field.order
 
         # identify X-sector and Z-sector parity checks
-- 
2.43.0


From 5dbc168a1eff281468390923e274fbee7a60c3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:02 +0000
Subject: [PATCH 54/56] fix: do not modify shared arrays when reducing logical
 operators

---
 qldpc/codes/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 87274cb..d5dc555 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2232,9 +2232,10 @@ class CSSCode(QuditCode):
             logical_op_found = np.array_equal(actual_syndrome, effective_syndrome)
 
         assert self._logical_ops is not None
-        self._logical_ops.shape = (2, self.dimension, 2, len(self))
-        self._logical_ops[pauli, logical_index, pauli, :] = candidate_logical_op
-        self._logical_ops.shape = (2 * self.dimension, 2 * len(self))
+        # update a copy, because the array of logical operators may be shared with other codes
+        logical_ops = self._logical_ops.copy().reshape(2, self.dimension, 2, len(self))
+        logical_ops[pauli, logical_index, pauli, :] = candidate_logical_op
+        self._logical_ops = logical_ops.reshape(2 * self.dimension, 2 * len(self))
 
     def reduce_logical_ops(self, pauli: PauliXZ | None = None, **decoder_args: Any) -> None:
         """Reduce the weight of all logical operators."""
-- 
2.43.0


From 225bd2e34f859e40e5d265bea25e23a6281b5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:37 +0000
Subject: [PATCH 55/56] fix: build groups from generating matrices that are
 repeated or have different data types

---
 qldpc/abstract.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index edce742..8d4add7 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -306,11 +306,16 @@ class Group:
         if not matrices:
             return TrivialGroup()
 
+        # identify distinct generators, enforcing the same data type for all of them
+        generating_mats = [
+            gen if isinstance(gen, np.ndarray) else np.asarray(gen, dtype=int) for gen in matrices
+        ]
+        dtype = np.result_type(*[gen.dtype for gen in generating_mats])
+        generating_mats = [gen.astype(dtype) for gen in generating_mats]
+        distinct_mats = {gen.data.tobytes(): gen for gen in generating_mats}.values()
+
         # keep track of group members and a multiplication table
-        index_to_member = {
-            idx: gen if isinstance(gen, np.ndarray) else np.asarray(gen, dtype=int)
-            for idx, gen in enumerate(matrices)
-        }
+        index_to_member = dict(enumerate(distinct_mats))
         hash_to_index = {hash(gen.data.tobytes()): idx for idx, gen in index_to_member.items()}
         table_as_dict = {}
 
@@ -351,7 +356,7 @@ class Group:
             return index_to_member[permutation_to_index[tuple(member.array_form)]]
 
         # identify generating permutations and build the group itself
-        generators = [GroupMember(table[:, col]) for col in range(len(matrices))]
+        generators = [GroupMember(table[:, col]) for col in range(len(distinct_mats))]
         return Group(*generators, lift=lift)
 
     def random_symmetric_subset(
-- 
2.43.0


From db6bce910073be5b8e79b19ca3980d5c8868da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:23 +0000
Subject: [PATCH 56/56] fix: generate projective special linear groups with a
 representation

The permutations returned by get_generating_mats for linear_rep=False were
built from G^-1 (x) G, which is not a homomorphism, so PSL(d,q) could be
replaced by a larger group.
---
 qldpc/abstract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 8d4add7..d24302e 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1513,9 +1513,10 @@ class ProjectiveSpecialLinearGroup(Group):
         gen_x, gen_w = SpecialLinearGroup.get_generating_mats(dimension, field)
         if base_field.order == 2:
             return gen_x, gen_w
+        # transpose the inverses to get a representation: (A @ B)**-1 = B**-1 @ A**-1
         return (
-            np.kron(np.linalg.inv(gen_x), gen_x).view(base_field),
-            np.kron(np.linalg.inv(gen_w), gen_w).view(base_field),
+            np.kron(np.linalg.inv(gen_x).T, gen_x).view(base_field),
+            np.kron(np.linalg.inv(gen_w).T, gen_w).view(base_field),
         )
 
     @staticmethod
-- 
2.43.0


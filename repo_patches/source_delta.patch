From 68b1ad2212dbea33e6eb23f55bbb78acb0ef47e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 01/73] fix: conjugating qudits over odd-characteristic fields
 must preserve commutation relations

---
 qldpc/codes/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 2bac8f0..4d664be 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1364,12 +1364,14 @@ class QuditCode(AbstractCode):
             qudits = getattr(self, "_default_conjugate", ())
         matrix_reshaped = self.matrix.copy().reshape(-1, 2, len(self))
         matrix_reshaped[:, :, qudits] = matrix_reshaped[:, ::-1, qudits]
+        matrix_reshaped[:, 0, qudits] = -matrix_reshaped[:, 0, qudits]  # preserve commutation
         matrix = matrix_reshaped.reshape(-1, 2 * len(self))
         code = QuditCode(matrix, field=self.field.order, is_subsystem_code=self.is_subsystem_code)
 
         if self._logical_ops is not None:
             logical_ops = self._logical_ops.copy().reshape(-1, 2, len(self))
             logical_ops[:, :, qudits] = logical_ops[:, ::-1, qudits]
+            logical_ops[:, 0, qudits] = -logical_ops[:, 0, qudits]
             code.set_logical_ops(logical_ops.reshape(-1, 2 * len(self)))
 
         return code
-- 
2.43.0


From 1afe62689713c4904b835308acbfca3413e45ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 02/73] fix: concatenation must not permute the logical
 operators of the inner code in place

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 4d664be..c4acb0e 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -18,6 +18,7 @@ limitations under the License.
 from __future__ import annotations
 
 import abc
+import copy
 import functools
 import itertools
 import random
@@ -1545,7 +1546,8 @@ class QuditCode(AbstractCode):
         if (num_outer_blocks := len(outer_physical_to_inner_logical) // len(outer)) > 1:
             outer = outer.stack(*[outer] * num_outer_blocks)
 
-        # permute logical operators of the inner code
+        # permute logical operators of the inner code, without changing the code that was provided
+        inner = copy.copy(inner)
         inner._logical_ops = (
             inner.get_logical_ops()
             .reshape(2, inner.dimension, -1)[:, outer_physical_to_inner_logical, :]
-- 
2.43.0


From 1f0bfb0314d94167edf8a8e7ab0539a1e30beeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 03/73] fix: set_logical_ops must reject logical operators with
 incorrect X-X or Z-Z commutation

---
 qldpc/codes/common.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index c4acb0e..09c762e 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1171,13 +1171,13 @@ class QuditCode(AbstractCode):
         logical_ops = np.asarray(logical_ops, dtype=int).view(self.field)
         if validate:
             dimension = len(logical_ops) // 2
-            logical_ops_x = logical_ops[:dimension]
-            logical_ops_z = logical_ops[dimension:]
-            inner_products = symplectic_conjugate(logical_ops_x) @ logical_ops_z.T
-            if not np.array_equal(inner_products, np.eye(dimension, dtype=int)):
-                raise ValueError("The given logical operators have incorrect commutation relations")
             if np.any(symplectic_conjugate(self.matrix) @ logical_ops.T):
                 raise ValueError("The given logical operators violate parity checks")
+            inner_products = symplectic_conjugate(logical_ops) @ logical_ops.T
+            identity = self.field.Identity(dimension)
+            zeros = self.field.Zeros((dimension, dimension))
+            if not np.array_equal(inner_products, np.block([[zeros, identity], [-identity, zeros]])):
+                raise ValueError("The given logical operators have incorrect commutation relations")
             if dimension != self.dimension:
                 raise ValueError("An incorrect number of logical operators was provided")
         self._logical_ops = logical_ops
-- 
2.43.0


From a939d196c69da5119f5222fa0a709195bffcdd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 04/73] fix: get_stabilizer_ops must not ignore its flags when
 restricted to one Pauli type

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 09c762e..8418764 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1195,7 +1195,9 @@ class QuditCode(AbstractCode):
 
         # if requested, retrieve stabilizer operators of one type only
         if pauli is not None:
-            stabilizer_ops = self.get_stabilizer_ops()
+            stabilizer_ops = self.get_stabilizer_ops(
+                recompute=recompute, canonicalized=canonicalized
+            )
             pivots_x = first_nonzero_cols(stabilizer_ops) < len(self)
             return stabilizer_ops[pivots_x if pauli is Pauli.X else ~pivots_x]
 
-- 
2.43.0


From bb3dd669e8b93eed1ead4421955dd58689035707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 05/73] fix: deforming a code with no logical qubits must not
 depend on known logical operators

---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 8418764..c9d2e32 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1403,7 +1403,7 @@ class QuditCode(AbstractCode):
                 string = op_to_string(check)
                 xs_zs = tableau(string).to_numpy()
                 new_strings.append(np.concatenate(xs_zs))
-            return self.field(new_strings)
+            return self.field(np.array(new_strings, dtype=int).reshape(-1, 2 * len(self)))
 
         # deform this code by transforming its stabilizers
         matrix = deform_strings(self.matrix)
-- 
2.43.0


From 4f19998ff131dafd7867b14e25c84d00c58377f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 06/73] fix: reduce_logical_op must not modify previously
 returned logical operators in place

---
 qldpc/codes/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index c9d2e32..fc71eae 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2206,9 +2206,9 @@ class CSSCode(QuditCode):
             logical_op_found = np.array_equal(actual_syndrome, effective_syndrome)
 
         assert self._logical_ops is not None
-        self._logical_ops.shape = (2, self.dimension, 2, len(self))
-        self._logical_ops[pauli, logical_index, pauli, :] = candidate_logical_op
-        self._logical_ops.shape = (2 * self.dimension, 2 * len(self))
+        logical_ops = self._logical_ops.copy().reshape(2, self.dimension, 2, len(self))
+        logical_ops[pauli, logical_index, pauli, :] = candidate_logical_op
+        self._logical_ops = logical_ops.reshape(2 * self.dimension, 2 * len(self))
 
     def reduce_logical_ops(self, pauli: PauliXZ | None = None, **decoder_args: Any) -> None:
         """Reduce the weight of all logical operators."""
-- 
2.43.0


From 72e64ccfc80dccdc6b89b8ca286f9b9b33a97283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 07/73] fix: the weight of a code without parity checks is zero

---
 qldpc/codes/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index fc71eae..8a7de17 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -296,7 +296,7 @@ class ClassicalCode(AbstractCode):
 
     def get_weight(self) -> int:
         """Compute the weight of the largest parity check."""
-        return np.max(np.count_nonzero(self.matrix.view(np.ndarray), axis=1))
+        return np.max(np.count_nonzero(self.matrix.view(np.ndarray), axis=1), initial=0)
 
     @functools.cached_property
     def dimension(self) -> int:
@@ -872,7 +872,7 @@ class QuditCode(AbstractCode):
         """Compute the weight of the largest parity check."""
         matrix_x = self.matrix[:, : len(self)].view(np.ndarray)
         matrix_z = self.matrix[:, len(self) :].view(np.ndarray)
-        return np.max(np.count_nonzero(matrix_x | matrix_z, axis=1))
+        return np.max(np.count_nonzero(matrix_x | matrix_z, axis=1), initial=0)
 
     def get_logical_ops(
         self, pauli: PauliXZ | None = None, *, recompute: bool = False
-- 
2.43.0


From c1febc3a700abde0ab3f0c45d82cdf64e32f2eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 08/73] fix: Tanner graphs must remember all-zero rows and
 columns of a parity check matrix

---
 qldpc/codes/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 8a7de17..7951bb6 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -275,6 +275,8 @@ class ClassicalCode(AbstractCode):
         """
         graph = nx.DiGraph()
         matrix = np.asanyarray(matrix)
+        graph.add_nodes_from(Node(index=row, is_data=False) for row in range(matrix.shape[0]))
+        graph.add_nodes_from(Node(index=col, is_data=True) for col in range(matrix.shape[1]))
         for row, col in zip(*np.nonzero(matrix)):
             node_c = Node(index=int(row), is_data=False)
             node_d = Node(index=int(col), is_data=True)
@@ -781,7 +783,9 @@ class QuditCode(AbstractCode):
     def matrix_to_graph(matrix: npt.NDArray[np.int_] | Sequence[Sequence[int]]) -> nx.DiGraph:
         """Convert a parity check matrix into a Tanner graph."""
         graph = nx.DiGraph()
-        matrix = np.reshape(matrix, (len(matrix), 2, -1))
+        matrix = np.reshape(matrix, (len(matrix), 2, np.shape(matrix)[1] // 2))
+        graph.add_nodes_from(Node(index=row, is_data=False) for row in range(matrix.shape[0]))
+        graph.add_nodes_from(Node(index=col, is_data=True) for col in range(matrix.shape[2]))
         for row, xz, col in zip(*np.nonzero(matrix)):
             node_check = Node(index=int(row), is_data=False)
             node_qudit = Node(index=int(col), is_data=True)
-- 
2.43.0


From 6dec949732957fb2f1769d36f0e60ab7d07a4a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 09/73] fix: allow constructing a QuditCode from a CSSCode

---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 7951bb6..13caeb7 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -93,7 +93,7 @@ class AbstractCode(abc.ABC):
         The base field is taken to be F_2 by default.
         """
         if isinstance(matrix, AbstractCode):
-            self._matrix = matrix._matrix
+            self._matrix = matrix.matrix
             self._field = matrix._field
             self._dimension = matrix._dimension
             self._distance = matrix._distance
-- 
2.43.0


From 6fdd5e5bdf47659f8de95f2409cd4b4457b003e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 10/73] fix: shortening a code on a bit that is zero in all
 code words must keep all code words

---
 qldpc/codes/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 13caeb7..b20b7f5 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -605,7 +605,8 @@ class ClassicalCode(AbstractCode):
         generator = self.generator
         for bit in sorted(bits, reverse=True):
             generator = np.roll(generator, -bit, axis=1).view(self.field)
-            generator = generator.row_reduce()[1:, 1:]
+            generator = generator.row_reduce()
+            generator = generator[1 if np.any(generator[:, 0]) else 0 :, 1:]
             generator = np.roll(generator, bit, axis=1).view(self.field)
         return ClassicalCode.from_generator(generator)
 
-- 
2.43.0


From 56916a435988bc57b15a8ae460c8f74ec4be5ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 11/73] fix: logical operators of subsystem codes that have no
 standard form

---
 qldpc/codes/common.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index b20b7f5..fc163e6 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -899,7 +899,9 @@ class QuditCode(AbstractCode):
         Due to the way that logical operators are constructed in this method, logical Z-type
         operators only address physical qudits by physical Z-type operators, while logical X-type
         operators address at least one physical qudit with a physical X-type operator, and may
-        additionally address physical qudits with physical Z-type operators.
+        additionally address physical qudits with physical Z-type operators.  The exceptions are
+        subsystem codes whose gauge group cannot be written in the standard form below, for which
+        such logical operators may not exist.
 
         Logical operators are constructed with the method similar to that in Section 4.1 of
         Gottesman's thesis (arXiv:9705052), generalized for subsystem qudit codes.  The basic
@@ -918,6 +920,15 @@ class QuditCode(AbstractCode):
         if not (self._logical_ops is None or recompute):
             return self._logical_ops
 
+        # if there is no standard form, construct logical operators with a Gram-Schmidt procedure
+        if self.is_subsystem_code:
+            rank_gx = np.sum(first_nonzero_cols(self.canonicalized.matrix) < len(self))
+            rank_sx = len(self.get_stabilizer_ops(Pauli.X, canonicalized=True))
+            if rank_gx != rank_sx + self.gauge_dimension:
+                bare_logicals = symplectic_conjugate(self.matrix).null_space()
+                self._logical_ops = _get_conjugate_pairs(bare_logicals)
+                return self._logical_ops
+
         # construct the standard-form parity check matrix
         (
             matrix,
@@ -2427,6 +2438,26 @@ class CSSCode(QuditCode):
         return 1 - infidelity, variance
 
 
+def _get_conjugate_pairs(ops: galois.FieldArray) -> galois.FieldArray:
+    """Find conjugate pairs of operators that generate the given ops, modulo their center."""
+    ops_x, ops_z = [], []
+    while len(ops):
+        op_x, ops = ops[0], ops[1:]
+        products_x = symplectic_conjugate(op_x) @ ops.T
+        if not np.any(products_x):
+            continue  # op_x is in the center of the group generated by the ops
+        index = np.flatnonzero(products_x)[0]
+        op_z = ops[index] / products_x[index]
+        ops_x.append(op_x)
+        ops_z.append(op_z)
+
+        # make all remaining operators commute with op_x and op_z
+        products_z = symplectic_conjugate(op_z) @ ops.T
+        ops = ops - np.outer(products_x, op_z) + np.outer(products_z, op_x)
+        ops = np.delete(ops, index, axis=0)
+    return type(ops)(np.array(ops_x + ops_z, dtype=int).reshape(-1, ops.shape[1]))
+
+
 def _join_slices(*sectors: Slice) -> npt.NDArray[np.int_]:
     """Join index slices together into one slice."""
     return np.concatenate(
-- 
2.43.0


From 38cfd4acfcae43c50f58fbe66b4f5689bfbb7f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 12/73] fix: ILP decoding over GF(q) with q > 2 must allow all
 multiples of q as slack

---
 qldpc/decoders.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index b350ebd..e424630 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -418,26 +418,23 @@ class ILPDecoder(Decoder):
     ) -> list[cvxpy.Constraint]:
         """Build cvxpy constraints of the form `matrix @ variables == syndrome (mod q)`.
 
-        This method uses boolean slack variables {s_j} to relax each constraint of the form
+        This method uses an integer slack variable s to relax each constraint of the form
         `expression = val mod q`
         to
-        `expression = val + sum_j q^j s_j`.
+        `expression = val + q s`.
         """
         syndrome = np.asarray(syndrome, dtype=int) % self.modulus
 
         constraints = []
         for idx, (check, syndrome_bit) in enumerate(zip(self.matrix, syndrome)):
-            # identify the largest power of q needed for the relaxation
+            # identify the largest multiple of q needed for the relaxation
             max_zero = int(sum(check) * (self.modulus - 1) - syndrome_bit)
-            if max_zero == 0 or self.modulus == 2:
-                max_power_of_q = max_zero.bit_length() - 1
-            else:
-                max_power_of_q = int(np.log2(max_zero) / np.log2(self.modulus))
+            max_multiple = max_zero // self.modulus
 
-            if max_power_of_q > 0:
-                powers_of_q = [self.modulus**jj for jj in range(1, max_power_of_q + 1)]
-                slack_variables = cvxpy.Variable(max_power_of_q, boolean=True)
-                zero_mod_q = powers_of_q @ slack_variables
+            if max_multiple > 0:
+                slack_variable = cvxpy.Variable(integer=True)
+                constraints += [slack_variable >= 0, slack_variable <= max_multiple]
+                zero_mod_q = self.modulus * slack_variable
             else:
                 zero_mod_q = 0
 
-- 
2.43.0


From afd9df8c94952838f2243b8c88ac708a54584ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 13/73] fix: round, rather than truncate, the solution of an
 integer linear program

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index e424630..9550c69 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -411,7 +411,7 @@ class ILPDecoder(Decoder):
             raise ValueError(message + f"\nSolver output: {result}")
 
         # return solution to the problem variables
-        return self.variables.value.astype(int)
+        return np.round(self.variables.value).astype(int)
 
     def cvxpy_constraints_for_syndrome(
         self, syndrome: npt.NDArray[np.int_]
-- 
2.43.0


From e76eff640b7e6b1b3489752df1a40d41979ff661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 14/73] fix: a LookupDecoder must decode the trivial syndrome
 to the trivial error

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index 9550c69..8d8c2fe 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -188,7 +188,7 @@ class LookupDecoder(Decoder):
 
         self.table: dict[tuple[int, ...], npt.NDArray[np.int_]] = {}
         block_length = matrix.shape[1] // repeat
-        for weight in range(max_weight, 0, -1):
+        for weight in range(max_weight, -1, -1):
             for error_sites in itertools.combinations(range(block_length), weight):
                 error_site_indices = list(error_sites)
                 for errors in itertools.product(local_errors, repeat=weight):
-- 
2.43.0


From bada1ae25ba825afed37514172bd6f17b7baa511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 15/73] fix: a LookupDecoder must not hand out arrays from its
 lookup table

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index 8d8c2fe..6ed84cd 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -202,7 +202,7 @@ class LookupDecoder(Decoder):
 
     def decode(self, syndrome: npt.NDArray[np.int_]) -> npt.NDArray[np.int_]:
         """Decode an error syndrome and return an inferred error."""
-        return self.table.get(tuple(syndrome.view(np.ndarray)), self.null_correction.copy())
+        return self.table.get(tuple(syndrome.view(np.ndarray)), self.null_correction).copy()
 
 
 def get_symplectic_weight(vector: npt.NDArray[np.int_]) -> int:
-- 
2.43.0


From 2a66c24fa30baf18aae93ef05b503f18cef6a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:18 +0000
Subject: [PATCH 16/73] fix: logical X operators of a non-CSS subsystem code
 must commute with each other

---
 qldpc/codes/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index fc163e6..3a9b5ff 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -987,6 +987,10 @@ class QuditCode(AbstractCode):
         logicals_x = np.vstack([logicals_xx, logicals_xz]).T
         logicals_z = np.vstack([np.zeros_like(logicals_zz), logicals_zz]).T
 
+        # add Z logicals to X logicals to ensure that the X logicals of a subsystem code commute
+        products_xx = symplectic_conjugate(logicals_x.view(self.field)) @ logicals_x.T
+        logicals_x = logicals_x + np.triu(products_xx, 1).view(self.field) @ logicals_z
+
         # move qudits back to their original locations
         permutation = np.argsort(qudit_locs)
         logicals_x = logicals_x.reshape(-1, len(self))[:, permutation].reshape(-1, 2 * len(self))
-- 
2.43.0


From 9f033bf226703c9fd2a947f320287e5cdea316ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 17/73] fix: reject generator matrices with linearly dependent
 rows

---
 qldpc/codes/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 3a9b5ff..88efd77 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -327,6 +327,8 @@ class ClassicalCode(AbstractCode):
                 f"Provided generator matrix has incorrect rank ({generator_rank} instead of"
                 f" {required_rank})"
             )
+        if len(generator) != required_rank:
+            raise ValueError("The rows of the provided generator matrix are linearly dependent")
         self._generator = generator
 
     def iter_words(self, skip_zero: bool = False) -> Iterator[galois.FieldArray]:
-- 
2.43.0


From 96399a70848e97addfe11726b1c7694e67d14aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 18/73] fix: bound the distance of a classical code with words
 that overlap with code words

---
 qldpc/codes/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 88efd77..3154282 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -491,8 +491,10 @@ class ClassicalCode(AbstractCode):
 
         valid_candidate_found = False
         while not valid_candidate_found:
-            # construct an effective check matrix with a random nonzero word
-            random_word = get_random_array(self.field, len(self), satisfy=lambda vec: vec.any())
+            # construct an effective check matrix with a random word that overlaps with code words
+            random_word = get_random_array(
+                self.field, len(self), satisfy=lambda vec: np.any(self.generator @ vec)
+            )
             effective_check_matrix = np.vstack([self.matrix, random_word])
 
             # find a low-weight candidate code word
-- 
2.43.0


From 2b704cd5385c7e432b80f178de2a1a34ebd43a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 19/73] fix: a symplectic GUFDecoder must accept a plain
 integer matrix

---
 qldpc/decoders.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index 6ed84cd..cf3ddcc 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -259,6 +259,7 @@ class GUFDecoder(Decoder):
         else:
             # decoding a quantum code: the "weight" of an error vector is its symplectic weight
             self.get_weight = get_symplectic_weight
+            matrix = codes.QuditCode(matrix).matrix
             self.code = codes.QuditCode(symplectic_conjugate(matrix))
 
         self.graph = self.code.graph.to_undirected()
-- 
2.43.0


From 2fc1828476ec8d28549b0b300e62b6d0341eac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 20/73] fix: iterate over all members of an AbelianGroup with
 trivial factors

---
 qldpc/abstract.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index b11dccf..aabf4d9 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1148,9 +1148,11 @@ class AbelianGroup(Group):
 
         # override the default order in which SymPy iterates over group members
         def generate_func() -> Iterator[comb.Permutation]:
-            for powers in itertools.product(*[range(order) for order in orders]):
+            # trivial factors (of order 1) do not contribute a generator
+            nontrivial_orders = [order for order in orders if order > 1]
+            for powers in itertools.product(*[range(order) for order in nontrivial_orders]):
                 factors = [gen**power for gen, power in zip(group.generators, powers)]
-                yield functools.reduce(operator.mul, factors)
+                yield functools.reduce(operator.mul, factors, group.identity)
 
         super()._init_from_group(group, name, generate_func, lift)
 
-- 
2.43.0


From d398036fef02b6eeb7132789e087a5c04a616bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 21/73] fix: groups built from a multiplication table must
 multiply as the table says

---
 qldpc/abstract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index aabf4d9..de9b080 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -285,7 +285,8 @@ class Group:
         integer_lift: IntegerLift | None = None,
     ) -> Group:
         """Construct a group from a multiplication (Cayley) table."""
-        members = {GroupMember(row): idx for idx, row in enumerate(table)}
+        # Identify members by how they act from the right: SymPy permutations compose left-to-right
+        members = {GroupMember(col): idx for idx, col in enumerate(zip(*table))}
 
         if integer_lift is None:
             return Group(*members)
@@ -1229,7 +1230,7 @@ class QuaternionGroup(Group):
                 blocks = [[zero, -unit], [unit, zero]]
             else:  # if base == 3; +/- k
                 blocks = [[zero, -imag], [-imag, zero]]
-            return sign * (np.block(blocks).T % 3).view(galois.GF(3))
+            return sign * (np.block(blocks) % 3).view(galois.GF(3))
 
         group = Group.from_table(table, integer_lift=integer_lift)
         super()._init_from_group(group, name=QuaternionGroup.__name__)
-- 
2.43.0


From ec3fef52dd124713ece83785200068e792a76fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 22/73] fix: the lift of a group built from generating matrices
 must be a homomorphism

---
 qldpc/abstract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index de9b080..4bf0559 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -339,14 +339,15 @@ class Group:
             table[aa, bb] = cc
 
         # dictionary from a permutation to the index of a group member
-        permutation_to_index = {tuple(row): idx for idx, row in enumerate(table)}
+        # members permute the group by acting from the right, as SymPy composes left-to-right
+        permutation_to_index = {tuple(col): idx for idx, col in enumerate(table.T)}
 
         def lift(member: GroupMember) -> npt.NDArray[np.int_]:
             """Lift a member to its matrix representation."""
             return index_to_member[permutation_to_index[tuple(member.array_form)]]
 
         # identify generating permutations and build the group itself
-        generators = [GroupMember(table[row]) for row in range(len(matrices))]
+        generators = [GroupMember(table[:, col]) for col in range(len(matrices))]
         return Group(*generators, lift=lift)
 
     def random_symmetric_subset(
-- 
2.43.0


From 02a6ef522379c39988be61b8637951087f716f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 23/73] fix: the lifts of special linear groups must be
 homomorphisms

---
 qldpc/abstract.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 4bf0559..e69f483 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1312,7 +1312,8 @@ class SpecialLinearGroup(Group):
             for member in self.get_generating_mats(self.dimension, self.field.order):
                 perm = np.empty(len(target_space), dtype=int)
                 for index, vec_bytes in enumerate(target_space):
-                    next_vec = member @ np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field)
+                    # act from the right, because SymPy permutations compose left-to-right
+                    next_vec = np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field) @ member
                     next_index = target_space.index(next_vec.view(np.ndarray).tobytes())
                     perm[index] = next_index
                 generators.append(GroupMember(perm))
@@ -1320,17 +1321,17 @@ class SpecialLinearGroup(Group):
             def lift(member: GroupMember) -> npt.NDArray[np.int_]:
                 """Lift a group member to a square matrix.
 
-                Each column is determined by how the matrix acts on a standard basis vector.
+                Each row is determined by how the matrix acts on a standard basis vector.
                 """
-                cols = []
+                rows = []
                 for entry in range(self.dimension):
                     inp_vec = np.zeros(self.dimension, dtype=np.uint8)
                     inp_vec[entry] = 1
                     inp_idx = target_space.index(inp_vec.tobytes())
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
-                    cols.append(out_vec)
-                return np.vstack(cols, dtype=int).T
+                    rows.append(out_vec)
+                return np.vstack(rows, dtype=int)
 
             super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
 
@@ -1421,7 +1422,8 @@ class ProjectiveSpecialLinearGroup(Group):
                 perm = np.empty(len(target_space), dtype=int)
                 for index, vec_bytes in enumerate(target_space):
                     vec = np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field)
-                    next_orbit = [root * member @ vec for root in roots]
+                    # act from the right, because SymPy permutations compose left-to-right
+                    next_orbit = [root * vec @ member for root in roots]
                     next_vec = next((vec for vec in next_orbit if vec.tobytes() in target_space))
                     next_index = target_space.index(next_vec.tobytes())
                     perm[index] = next_index
@@ -1431,17 +1433,17 @@ class ProjectiveSpecialLinearGroup(Group):
             def lift(member: GroupMember) -> npt.NDArray[np.int_]:
                 """Lift a group member to a square matrix.
 
-                Each column is determined by how the matrix acts on a standard basis vector.
+                Each row is determined by how the matrix acts on a standard basis vector.
                 """
-                cols = []
+                rows = []
                 for entry in range(self.dimension):
                     inp_vec = np.zeros(self.dimension, dtype=np.uint8)
                     inp_vec[entry] = 1
                     inp_idx = target_space.index(inp_vec.tobytes())
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
-                    cols.append(out_vec)
-                return np.vstack(cols, dtype=int).T
+                    rows.append(out_vec)
+                return np.vstack(rows, dtype=int)
 
             super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
 
-- 
2.43.0


From 252462b535c70104f70ee4980907b58508f626f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 24/73] fix: a projective special linear group must lift to a
 representation of itself

---
 qldpc/abstract.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index e69f483..50f763a 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1445,7 +1445,12 @@ class ProjectiveSpecialLinearGroup(Group):
                     rows.append(out_vec)
                 return np.vstack(rows, dtype=int)
 
-            super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
+            # if SL has a nontrivial center, its matrices only represent PSL up to scalar factors, so
+            # lift group members to the permutation matrices by which they act on the target space
+            super()._init_from_group(
+                comb.PermutationGroup(generators),
+                lift=lift if num_roots == 1 else GroupMember.to_matrix,
+            )
 
         else:
             # represent group members by how they permute elements of the group itself
-- 
2.43.0


From fa2388effba835033b2d135ef2393973c4099839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 25/73] fix: allow repeated generating matrices of a group

---
 qldpc/abstract.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 50f763a..50887f6 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -303,10 +303,11 @@ class Group:
             return TrivialGroup()
 
         # keep track of group members and a multiplication table
-        index_to_member = {
-            idx: gen if isinstance(gen, np.ndarray) else np.asarray(gen, dtype=int)
-            for idx, gen in enumerate(matrices)
-        }
+        generating_mats = [
+            gen if isinstance(gen, np.ndarray) else np.asarray(gen, dtype=int) for gen in matrices
+        ]
+        distinct_mats = {gen.data.tobytes(): gen for gen in generating_mats}
+        index_to_member = dict(enumerate(distinct_mats.values()))
         hash_to_index = {hash(gen.data.tobytes()): idx for idx, gen in index_to_member.items()}
         table_as_dict = {}
 
@@ -347,7 +348,7 @@ class Group:
             return index_to_member[permutation_to_index[tuple(member.array_form)]]
 
         # identify generating permutations and build the group itself
-        generators = [GroupMember(table[:, col]) for col in range(len(matrices))]
+        generators = [GroupMember(table[:, col]) for col in range(len(distinct_mats))]
         return Group(*generators, lift=lift)
 
     def random_symmetric_subset(
-- 
2.43.0


From d79c344295daf5ac33a4541b106b5f8d48daf6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 26/73] fix: iterate over elements of a projective special
 linear group as matrices

---
 qldpc/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 50887f6..7af70b5 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1496,7 +1496,8 @@ class ProjectiveSpecialLinearGroup(Group):
             for mat in SpecialLinearGroup.iter_mats(dimension, field)
         ]
         for orbit in set(orbits):
-            yield np.frombuffer(next(iter(orbit)), dtype=np.uint8).view(base_field)
+            mat = np.frombuffer(next(iter(orbit)), dtype=np.uint8).view(base_field)
+            yield mat.reshape(dimension, dimension)
 
 
 SL = SpecialLinearGroup
-- 
2.43.0


From 3dfea2327b6d17b019c03bb43b974a77f05dbcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 27/73] fix: the trivial group contains the identity

---
 qldpc/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 7af70b5..c31c4a9 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -192,7 +192,8 @@ class Group:
         return new_group
 
     def __contains__(self, member: GroupMember) -> bool:
-        return member in self._group
+        # SymPy does not recognize the identity as a member of a trivial group
+        return member == self.identity or member in self._group
 
     @property
     def order(self) -> int:
-- 
2.43.0


From d3368223566d47de74abb3c25dc7110665c9ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 28/73] fix: equal groups must have equal hashes and equal
 lifts

---
 qldpc/abstract.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index c31c4a9..c0da7f3 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -167,10 +167,17 @@ class Group:
         self._generate_func = generate_func
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Group) and self._group == other._group
+        return (
+            isinstance(other, Group)
+            and self._group == other._group
+            and (
+                self._lift is other._lift
+                or all(np.array_equal(self.lift(gen), other.lift(gen)) for gen in self.generators)
+            )
+        )
 
     def __hash__(self) -> int:
-        return hash((self._group, self._generate_func, self._lift))
+        return hash(self._group)  # equal groups must have equal hashes
 
     @property
     def name(self) -> str:
@@ -255,13 +262,18 @@ class Group:
             sympy.core.random.seed(seed)
         return GroupMember.from_sympy(self._group.random())
 
-    @functools.cache
+    @functools.cached_property
+    def _regular_lifts(self) -> dict[GroupMember, npt.NDArray[np.int_]]:
+        return {}
+
     def regular_lift(self, member: GroupMember) -> npt.NDArray[np.int_]:
         """Lift a group member to its regular representation."""
-        matrix = np.zeros([self.order] * 2, dtype=int)
-        for ii, gg in enumerate(self.generate()):
-            matrix[self.index(member * gg), ii] = 1
-        return matrix
+        if member not in self._regular_lifts:
+            matrix = np.zeros([self.order] * 2, dtype=int)
+            for ii, gg in enumerate(self.generate()):
+                matrix[self.index(member * gg), ii] = 1
+            self._regular_lifts[member] = matrix
+        return self._regular_lifts[member]
 
     def lift(self, member: GroupMember) -> npt.NDArray[np.int_]:
         """Lift a group member to a representation by an orthogonal matrix."""
-- 
2.43.0


From f2e4eb4b47cae7fadddb3b91b80fe9c79dc5d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 29/73] fix: sample from trivial groups

---
 qldpc/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index c0da7f3..69afe25 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -260,6 +260,8 @@ class Group:
         """A random element this group."""
         if seed is not None:
             sympy.core.random.seed(seed)
+        if self.order == 1:
+            return self.identity  # SymPy fails to sample from a trivial group
         return GroupMember.from_sympy(self._group.random())
 
     @functools.cached_property
-- 
2.43.0


From 49f9de4d75ad2ff6d4f2632b27b4132840971b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 30/73] fix: a random element of the first SmallGroup of some
 order need not be the identity

---
 qldpc/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 69afe25..7da5f68 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1273,7 +1273,7 @@ class SmallGroup(Group):
 
     def random(self, *, seed: int | None = None) -> GroupMember:
         """A random element this group."""
-        return super().random(seed=seed) if self.group_index > 1 else self.identity
+        return super().random(seed=seed) if self.order > 1 else self.identity
 
     @functools.cached_property
     def structure(self) -> str:
-- 
2.43.0


From 70f642296ef85248c43f15fcffcdc95399c042df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 31/73] fix: subtract group members from ring members

---
 qldpc/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 7da5f68..7a7b620 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -592,6 +592,8 @@ class RingMember:
         return NotImplemented  # pragma: no cover
 
     def __sub__(self, other: RingMember | GroupMember | int) -> RingMember:
+        if isinstance(other, GroupMember):
+            other = RingMember(self.ring, other)
         return self + (-1) * other
 
     def __radd__(self, other: GroupMember) -> RingMember:
-- 
2.43.0


From 6ca78ef57fb3519eccc7b10cef54a8782e6ee15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 32/73] fix: negative powers of a ring member are powers of its
 inverse

---
 qldpc/abstract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 7a7b620..0e7333d 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -639,6 +639,10 @@ class RingMember:
         return self * (-1)
 
     def __pow__(self, power: int) -> RingMember:
+        if power < 0:
+            if (inverse := self.inverse()) is None:
+                raise ValueError("Cannot take a negative power of a RingMember without an inverse")
+            return inverse ** (-power)
         return functools.reduce(operator.mul, [self] * power, self.ring.one)
 
     def copy(self) -> RingMember:
-- 
2.43.0


From f181c47913f38350801ab543840c371af1e3c78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 33/73] fix: a RingArray with full rank has an empty null space

---
 qldpc/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 0e7333d..0fa611f 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -885,7 +885,7 @@ class RingArray(npt.NDArray[np.object_]):
         group = ring.group if isinstance(ring, GroupRing) else ring
         assert array.shape[-1] == group.order
         vals = [RingMember.from_vector(ring, entry) for entry in array.reshape(-1, group.order)]
-        return RingArray(np.array(vals, dtype=object).reshape(array.shape[:-1]))
+        return RingArray(np.array(vals, dtype=object).reshape(array.shape[:-1]), ring)
 
     def to_field_array(self) -> galois.FieldArray:
         """Convert a RingArray into an array of coefficients (in a finite field) for each entry.
@@ -924,7 +924,7 @@ class RingArray(npt.NDArray[np.object_]):
         # collect ring-valued null row vectors (that is, transposed null column vectors)
         null_vectors = ~RingArray.from_field_array(
             self.ring,
-            null_field_vectors.reshape(len(null_field_vectors), -1, self.group.order),
+            null_field_vectors.reshape(-1, self.shape[1], self.group.order),
         )
 
         return null_vectors.row_reduce(force_heuristic=force_heuristic)
-- 
2.43.0


From 002226b4a5d67902e44ed81dd5a177f06623ee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 34/73] fix: row reduction over a group algebra must reduce all
 rows with invertible entries

---
 qldpc/abstract.py | 72 +++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 33 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 0fa611f..c68b71b 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -978,57 +978,63 @@ class RingArray(npt.NDArray[np.object_]):
         matrix = self._reduce_rows_with_invertible_entries()
 
         # split matrix into rows with pivots, and all other rows
-        pivot_matrix, non_pivot_matrix = matrix._split_by_pivots()
+        pivot_matrix, non_pivot_matrix = matrix._split_by_pivots(allow_non_units=False)
 
         if non_pivot_matrix.size:
             # identify a minimal basis for the span of the non-pivot rows
             non_pivot_matrix = non_pivot_matrix._remove_linearly_dependent_rows()
 
-        return np.vstack([pivot_matrix, non_pivot_matrix]).view(RingArray)
+        new_matrix = np.vstack([pivot_matrix, non_pivot_matrix]).view(RingArray)
+        if any(entry.inverse() for entry in non_pivot_matrix.ravel()):
+            # new basis vectors for the non-pivot rows have invertible entries, so keep reducing
+            return new_matrix._heuristic_row_reduce()
+        return new_matrix
 
-    def _reduce_rows_with_invertible_entries(self, *, restart_call: bool = False) -> RingArray:
+    def _reduce_rows_with_invertible_entries(self) -> RingArray:
         """Row-reduce greedily using invertible entries.
 
         Loop over every row.  If that row contains an invertible entry, normalize the row by this
         entry's inverse, and zero out all other rows at the corresponding column by subtracting off
         an appropriate multiple of this row (as you would with ordinary Gaussian elimination).
+        Repeat for the rows without invertible entries, because some of their entries may have
+        become invertible, until there are no more reductions to make.
         """
         assert self.ndim == 2
-        rows: slice | list[int]
 
-        matrix = self if restart_call else self.copy()
-        num_rows, num_cols = self.shape
+        matrix = self.copy()
+        num_rows, _ = self.shape
 
-        row_reductions_made = False  # did we perform row reductions?
-        noninvertible_rows = []  # which rows have only non-invertible entries?
-        for row in range(num_rows):
-            row_vector = matrix[row]
+        rows_to_reduce = list(range(num_rows))
+        row_reductions_made = True  # did we perform row reductions?
+        while row_reductions_made and rows_to_reduce:
+            row_reductions_made = False
+            noninvertible_rows = []  # which rows have only non-invertible entries?
+            for row in rows_to_reduce:
+                row_vector = matrix[row]
 
-            # look for an invertible entry in this row
-            for col, entry in enumerate(row_vector):
-                if inverse := entry.inverse():
-                    break
+                # look for an invertible entry in this row
+                inverse = None
+                for col, entry in enumerate(row_vector):
+                    if inverse := entry.inverse():
+                        break
 
-            """
-            If we found an invertible entry,
-            - multiply this row by the inverse, so that this entry is 1, and
-            - zero out the corresponding column in all other rows.
-            """
-            if inverse:
-                # "normalize" the entry to 1, and zero out its column in all other rows
-                new_vector = inverse * row_vector
-                matrix[row] = new_vector
-                for rows in [slice(None, row), slice(row + 1, num_rows)]:
-                    matrix[rows] = matrix[rows] - matrix[rows, col, None] * new_vector[None, :]
-                row_reductions_made = True
+                """
+                If we found an invertible entry,
+                - multiply this row by the inverse, so that this entry is 1, and
+                - zero out the corresponding column in all other rows.
+                """
+                if inverse:
+                    # "normalize" the entry to 1, and zero out its column in all other rows
+                    new_vector = inverse * row_vector
+                    matrix[row] = new_vector
+                    for rows in [slice(None, row), slice(row + 1, num_rows)]:
+                        matrix[rows] = matrix[rows] - matrix[rows, col, None] * new_vector[None, :]
+                    row_reductions_made = True
 
-            else:
-                noninvertible_rows.append(row)
+                else:
+                    noninvertible_rows.append(row)
 
-        if row_reductions_made and noninvertible_rows:
-            # some non-invertible entries may have become invertible, so try row-reducing again
-            rows = [row for row in noninvertible_rows if np.any(matrix[row])]
-            matrix[rows].view(RingArray)._reduce_rows_with_invertible_entries(restart_call=True)
+            rows_to_reduce = noninvertible_rows
 
         return matrix
 
@@ -1044,7 +1050,7 @@ class RingArray(npt.NDArray[np.object_]):
         pivot_cols = np.sum(self_as_bool, axis=0) == 1
         for col in np.argwhere(pivot_cols):
             row = np.argwhere(self_as_bool[:, col])[0][0]
-            pivot_rows[row] = allow_non_units or self[row, col][0].inverse()
+            pivot_rows[row] |= allow_non_units or bool(self[row, col][0].inverse())
         pivot_matrix = self[pivot_rows].view(RingArray)
         non_pivot_matrix = self[~pivot_rows].view(RingArray)
         return pivot_matrix, non_pivot_matrix[np.any(non_pivot_matrix, axis=1)]
-- 
2.43.0


From 2907386b768e94bde40ac79451b863ae383bfb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 35/73] fix: remove rows of a RingArray only if they are in the
 left-span of other rows

---
 qldpc/abstract.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index c68b71b..7e26402 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1080,12 +1080,12 @@ class RingArray(npt.NDArray[np.object_]):
             self.ring, field_vectors.reshape(len(field_vectors), -1, self.group.order)
         )
 
-        """
-        Invert (transpose the entries of the matrix to make them right-acting (that is, to
-        transform coefficients that are to the left of each row vector), and lift to a matrix over
-        the field.
-        """
-        field_matrix = (~ring_matrix).view(RingArray).regular_lift()
+        # collect all products g * v of a group member g and a row vector v
+        vectors = field_vectors.reshape(len(field_vectors), -1, self.group.order)
+        products = self.field.Zeros((self.group.order, *vectors.shape))
+        for gg, row_of_table in enumerate(self.group.table):
+            products[gg][:, :, row_of_table] = vectors
+        field_matrix = np.swapaxes(products, 0, 1).reshape(-1, field_vectors.shape[1])
 
         # throw out rows that can be expressed as ring-linear combinations of other rows
         rows_to_keep = np.ones((len(ring_matrix), self.group.order), dtype=bool)
-- 
2.43.0


From 81529a8bb892c0c23b90eea36ba83ce8033a6a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 36/73] fix: inverses over groups whose first member is not the
 identity

---
 qldpc/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 7e26402..d8c7735 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -705,7 +705,8 @@ class RingMember:
         try:
             matrix = self.regular_lift()
             matrix_inv = np.linalg.inv(matrix).view(self.field)
-            return RingMember.from_vector(self.ring, matrix_inv[:, 0])
+            column = self.group.index(self.group.identity)
+            return RingMember.from_vector(self.ring, matrix_inv[:, column])
         except np.linalg.LinAlgError:
             return None
 
-- 
2.43.0


From e05e25901341280cf8a33cd8598441a9792287ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 37/73] fix: tensor products of chain complexes over a group
 algebra must have entries in the algebra

---
 qldpc/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index f3e9950..6e12043 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -517,6 +517,9 @@ class ChainComplex:
             col_deg_a, col_deg_b = col_degs
             rows = chain_a.dim(row_deg_a) * chain_b.dim(row_deg_b)
             cols = chain_a.dim(col_deg_a) * chain_b.dim(col_deg_b)
+            if chain_a.group is not None:
+                ring = abstract.GroupRing(chain_a.group, chain_field.order)
+                return abstract.RingArray.build(np.zeros((rows, cols), dtype=int), ring)
             return chain_field.Zeros((rows, cols))
 
         ops = []
-- 
2.43.0


From 137ad6b6d3e9eac98501c4d6018fa64b77566f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 38/73] fix: quasi-cyclic codes must skip trivial cyclic groups
 when assigning generators to symbols

---
 qldpc/codes/quantum.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 5d837e8..7d343e4 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -234,7 +234,12 @@ class QCCode(TBCode):
         # identify the group generator associated with each symbol
         self.group = abstract.AbelianGroup(*self.orders)
         self.ring = abstract.GroupRing(self.group, field)
-        self.symbol_gens = dict(zip(self.symbols, self.group.generators))
+        generators = iter(self.group.generators)
+        self.symbol_gens = {
+            # trivial factors (of order 1) do not contribute a generator
+            symbol: next(generators) if order > 1 else self.group.identity
+            for symbol, order in symbol_to_order.items()
+        }
 
         # build defining matrices of a generalized bicycle code; transpose the lift by convention
         matrix_a = self.eval(self.poly_a).lift().T
-- 
2.43.0


From 7f636fa2718cf6cc7de82e991dba559ff75c508d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 39/73] fix: quasi-cyclic codes with several unused cyclic
 groups must not loop forever

---
 qldpc/codes/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 7d343e4..e69566e 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -225,7 +225,7 @@ class QCCode(TBCode):
 
         # add more placeholder symbols if necessary
         while len(symbol_to_order) < len(orders):
-            unique_symbol = sympy.Symbol("~" + "".join(map(str, symbols)))
+            unique_symbol = sympy.Symbol("~" + "".join(map(str, symbol_to_order)))
             symbol_to_order[unique_symbol] = orders[len(symbol_to_order)]
 
         self.symbols = tuple(symbol_to_order.keys())
-- 
2.43.0


From 149cd076bd1378ba14d336c8ae2541fde141d2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 40/73] fix: subsystem products of seeds that leave no gauge
 qudits are not subsystem codes

---
 qldpc/codes/quantum.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index e69566e..353ba72 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -921,7 +921,6 @@ class SHPCode(CSSCode):
             matrix_x.view(np.ndarray).astype(int),
             matrix_z.view(np.ndarray).astype(int),
             code_field.order,
-            is_subsystem_code=True,
         )
 
         stab_ops_x = np.kron(code_x.matrix, code_z.generator)
@@ -1072,7 +1071,7 @@ class SLPCode(CSSCode):
         assert isinstance(matrix_x, abstract.RingArray)
         assert isinstance(matrix_z, abstract.RingArray)
 
-        CSSCode.__init__(self, matrix_x.lift(), matrix_z.lift(), field, is_subsystem_code=True)
+        CSSCode.__init__(self, matrix_x.lift(), matrix_z.lift(), field)
 
 
 ################################################################################
-- 
2.43.0


From df8417b163d9c81c671577267cfaf861db6f3d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 41/73] fix: lifted products of matrices that do not commute
 must be rejected

---
 qldpc/codes/quantum.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 353ba72..74e19a2 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1017,7 +1017,11 @@ class LPCode(CSSCode):
         # if Hadamard-transforming qudits, conjugate those in the (1, 1) sector by default
         self._default_conjugate = slice(self.sector_size[0, 0], None)
 
-        CSSCode.__init__(self, matrix_x.lift(), matrix_z.lift(), field, is_subsystem_code=False)
+        lifted_x, lifted_z = matrix_x.lift(), matrix_z.lift()
+        if np.any(lifted_x @ lifted_z.T):
+            raise ValueError("The matrices provided for this LPCode do not commute")
+
+        CSSCode.__init__(self, lifted_x, lifted_z, field, is_subsystem_code=False)
 
 
 class SLPCode(CSSCode):
-- 
2.43.0


From 6a93380900b9f7870111c4f7c463bd8cb68dd302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 42/73] fix: ring codes on one bit have a trivial check, and
 ring codes on no bits do not exist

---
 qldpc/codes/classical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index cfe34f2..3ca1485 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -49,10 +49,12 @@ class RingCode(ClassicalCode):
 
     def __init__(self, bits: int, field: int | None = None) -> None:
         self._field = galois.GF(field or DEFAULT_FIELD_ORDER)
+        if bits < 1:
+            raise ValueError(f"A ring code must have at least one bit (provided: {bits})")
         self._matrix = self.field.Zeros((bits, bits))
         for row in range(bits):
-            self._matrix[row, row] = 1
-            self._matrix[row, (row + 1) % bits] = -self.field(1)
+            self._matrix[row, row] += self.field(1)
+            self._matrix[row, (row + 1) % bits] -= self.field(1)
 
         self._dimension = 1
         self._distance = bits
-- 
2.43.0


From 7c65dc0fd0e9e997e55156e0184013c0a76a71d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 43/73] fix: Reed-Muller codes of order zero must have a
 generator matrix

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index 3ca1485..98ea1c3 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -165,7 +165,7 @@ class ReedMullerCode(ClassicalCode):
         ReedMullerCode._assert_valid_params(order, size)
 
         if order == 0:
-            return np.ones(2**size, dtype=int)
+            return np.ones((1, 2**size), dtype=int)
         if order == size:
             return np.identity(2**size, dtype=int)
 
-- 
2.43.0


From 9dc9db2aeb3dc277b1c2ff3d4c19d2d5ac63f48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 44/73] fix: rotated surface codes with a single row or column
 have only one type of check

---
 qldpc/codes/quantum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 74e19a2..f6dd14e 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1430,7 +1430,9 @@ class SurfaceCode(CSSCode):
                     # no Z-type parity checks on the left/right boundaries
                     checks_z.append(check)
 
-        return np.array(checks_x), np.array(checks_z)
+        matrix_x = np.reshape(np.array(checks_x, dtype=int), (-1, rows * cols))
+        matrix_z = np.reshape(np.array(checks_z, dtype=int), (-1, rows * cols))
+        return matrix_x, matrix_z
 
 
 class ToricCode(CSSCode):
-- 
2.43.0


From 9c5334e1a488fb52ff52de300273272dd7ecd97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:11 +0000
Subject: [PATCH 45/73] fix: iceberg codes need at least two qubits

---
 qldpc/codes/quantum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index f6dd14e..a24d067 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -80,6 +80,8 @@ class IcebergCode(CSSCode):
     """
 
     def __init__(self, size: int, *, alternative_logicals: bool = False) -> None:
+        if size < 1:
+            raise ValueError(f"The size of an IcebergCode should be >= 1 (provided: {size})")
         checks = [[1] * (2 * size)]
         CSSCode.__init__(self, checks, checks, field=2, is_subsystem_code=False)
         self._dimension = 2 * size - 2
-- 
2.43.0


From 48e0bf2568d9ca3f49989f223320cd08dfd34b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:16 +0000
Subject: [PATCH 46/73] fix: qudit operators with repeated factors are not
 valid strings

---
 qldpc/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index 6e12043..4da88a5 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -131,7 +131,7 @@ class QuditOperator:
 
         val_x, val_z = 0, 0
         factors = string.split("*")
-        if len(factors) > 2:
+        if len(factors) > 2 or (len(factors) == 2 and {ff[:1] for ff in factors} != {"X", "Z"}):
             raise ValueError(invalid_op)
 
         for factor in factors:
-- 
2.43.0


From 20a214f89098634c7ba2da15764548e9b6768d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 47/73] fix: compare quantum Tanner codes to each other, rather
 than to themselves

---
 qldpc/codes/quantum.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index a24d067..dfd78b8 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1155,11 +1155,11 @@ class QTCode(CSSCode):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, QTCode)
-            and other.code_a == other.code_a
-            and other.code_b == other.code_b
-            and other.complex.subset_a == other.complex.subset_a
-            and other.complex.subset_b == other.complex.subset_b
-            and other.complex.bipartite == other.complex.bipartite
+            and self.code_a == other.code_a
+            and self.code_b == other.code_b
+            and self.complex.subset_a == other.complex.subset_a
+            and self.complex.subset_b == other.complex.subset_b
+            and self.complex.bipartite == other.complex.bipartite
         )
 
     @staticmethod
-- 
2.43.0


From 78fd5ca2cc420fce6e7a968431cf90bacbd73082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 48/73] fix: load quantum Tanner codes whose seed codes have no
 checks

---
 qldpc/codes/quantum.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index dfd78b8..311567b 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1296,21 +1296,18 @@ class QTCode(CSSCode):
         field = ast.literal_eval(lines[-2].split(":")[-1])
         bipartite = ast.literal_eval(lines[-1].split(":")[-1])
 
-        # load integer arrays separated by comments
-        arrays = []
-        last_index = 0
-        for index, line in enumerate(lines):
-            if line.startswith("#"):
-                if index > last_index + 1:
-                    array = np.genfromtxt(lines[last_index + 1 : index], dtype=int, ndmin=2)
-                    arrays.append(array)
-                last_index = index
+        # load integer arrays, each of which is preceded by a comment (and may have no rows)
+        comments = [index for index, line in enumerate(lines) if line.startswith("#")][-6:]
+        arrays = [
+            np.array([line.split() for line in lines[start + 1 : stop]], dtype=int)
+            for start, stop in zip(comments[:4], comments[1:5])
+        ]
 
         # construct subsets and generating codes
         subset_a = set(abstract.GroupMember(gen) for gen in arrays[0])
         subset_b = set(abstract.GroupMember(gen) for gen in arrays[1])
-        code_a = ClassicalCode(arrays[2], field)
-        code_b = ClassicalCode(arrays[3], field)
+        code_a = ClassicalCode(arrays[2].reshape(-1, len(subset_a)), field)
+        code_b = ClassicalCode(arrays[3].reshape(-1, len(subset_b)), field)
         return QTCode(subset_a, subset_b, code_a, code_b, bipartite=bipartite)
 
 
-- 
2.43.0


From d603986a1fcbb4493486edd1e799e0e44e83feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 49/73] fix: Tanner graphs without a field order describe codes
 over the default field

---
 qldpc/codes/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 3154282..2badb22 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -290,7 +290,7 @@ class ClassicalCode(AbstractCode):
         """Convert a Tanner graph into a parity check matrix."""
         num_bits = sum(node.is_data for node in graph.nodes())
         num_checks = len(graph.nodes()) - num_bits
-        field = getattr(graph, "order", DEFAULT_FIELD_ORDER)
+        field = graph.order if isinstance(graph.order, int) else DEFAULT_FIELD_ORDER
         matrix = galois.GF(field).Zeros((num_checks, num_bits))
         for node_c, node_b, data in graph.edges(data=True):
             matrix[node_c.index, node_b.index] = data.get("val", 1)
@@ -820,7 +820,7 @@ class QuditCode(AbstractCode):
         for node_check, node_qudit, data in graph.edges(data=True):
             op = data.get(QuditOperator) or data.get(Pauli)
             matrix[node_check.index, :, node_qudit.index] = op.value
-        field = getattr(graph, "order", DEFAULT_FIELD_ORDER)
+        field = graph.order if isinstance(graph.order, int) else DEFAULT_FIELD_ORDER
         return galois.GF(field)(matrix.reshape(num_checks, 2 * num_qudits))
 
     def get_strings(self) -> list[str]:
-- 
2.43.0


From 2144657232f7a0037938fe145484c4ce746aeab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 50/73] fix: products of Tanner graphs must keep nodes without
 edges

---
 qldpc/codes/quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 311567b..1bb17fe 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -772,6 +772,7 @@ class HGPCode(CSSCode):
 
         # fix edge orientation, and tag each edge with a QuditOperator
         graph = nx.DiGraph()
+        graph.add_nodes_from(graph_product.nodes())
         for node_fst, node_snd, data in graph_product.edges(data=True):
             # identify the sectors of two nodes
             sector_fst = HGPCode.get_sector(*node_fst)
-- 
2.43.0


From 0d0de27c56ed0412cd3b0648c9a35e333a3b4723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 51/73] fix: products of Tanner graphs without edge values or
 field orders

---
 qldpc/codes/quantum.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 1bb17fe..3ce4802 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -767,6 +767,8 @@ class HGPCode(CSSCode):
     def get_graph_product(graph_a: nx.DiGraph, graph_b: nx.DiGraph) -> nx.DiGraph:
         """Hypergraph product of two Tanner graphs."""
 
+        field = galois.GF(graph_a.order if isinstance(graph_a.order, int) else DEFAULT_FIELD_ORDER)
+
         # start with a cartesian products of the input graphs
         graph_product = nx.cartesian_product(graph_a, graph_b)
 
@@ -787,7 +789,7 @@ class HGPCode(CSSCode):
                 node_qudit, sector_qudit = node_snd, sector_snd
 
             # start with an X-type operator
-            op = QuditOperator((data.get("val", 0), 0))
+            op = QuditOperator((field(data.get("val", 1)), 0))
 
             # switch to Z-type operator for check qudits in the (0, 1) sector
             if sector_check == (0, 1):
@@ -805,12 +807,11 @@ class HGPCode(CSSCode):
         graph = nx.relabel_nodes(graph, node_map)
 
         # remember order of the field, and use Pauli operators if appropriate
-        if hasattr(graph_a, "order"):
-            graph.order = graph_a.order
-            if graph.order == 2:
-                for _, __, data in graph.edges(data=True):
-                    data[Pauli] = Pauli(data[QuditOperator].value)
-                    del data[QuditOperator]
+        graph.order = field.order
+        if graph.order == 2:
+            for _, __, data in graph.edges(data=True):
+                data[Pauli] = Pauli(data[QuditOperator].value)
+                del data[QuditOperator]
 
         return graph
 
-- 
2.43.0


From e9617d74d8a9c03c155cafc76b81f7ee0fa3aec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 52/73] fix: building a Tanner code must not modify the graph
 it is built from

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index 98ea1c3..cd942b2 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -248,7 +248,7 @@ class TannerCode(ClassicalCode):
             edge = frozenset([node_a, node_b])
             directed_subgraph.add_edge(node_a, edge)
             directed_subgraph.add_edge(node_b, edge)
-            if (sort_data := edge_data.pop("sort", None)) is not None:
+            if (sort_data := edge_data.get("sort", None)) is not None:
                 directed_subgraph[node_a][edge]["sort"] = sort_data[node_a]
                 directed_subgraph[node_b][edge]["sort"] = sort_data[node_b]
         return directed_subgraph
-- 
2.43.0


From 794be30f1fe1c4711d4edf6162fbe3121f88c7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 53/73] fix: order the qudits of a quantum Tanner code
 independently of the order of its subsets

---
 qldpc/codes/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 3ce4802..1e821a5 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1222,7 +1222,7 @@ class QTCode(CSSCode):
             for aa, bb in itertools.product(subset_a, subset_b):
                 aa_gg, gg_bb = aa * gg, gg * bb
                 aa_gg_bb = aa_gg * bb
-                face = frozenset([gg, aa_gg, gg_bb, aa_gg_bb])
+                face = tuple(sorted([gg, aa_gg, gg_bb, aa_gg_bb]))
                 subgraph_x.add_edge(gg, face, sort=(aa, bb))
                 subgraph_z.add_edge(aa_gg, face, sort=(~aa, bb))
 
-- 
2.43.0


From b470b38062dc5a25bfe184651e1a4193e54570bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 54/73] fix: reject qudit codes that are passed to circuit
 methods by keyword

---
 qldpc/circuits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index 598a373..2efbeb1 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -34,7 +34,8 @@ def restrict_to_qubits(func: Callable[..., stim.Circuit]) -> Callable[..., stim.
 
     @functools.wraps(func)
     def qubit_func(*args: object, **kwargs: object) -> stim.Circuit:
-        if any(isinstance(arg, codes.QuditCode) and arg.field.order != 2 for arg in args):
+        all_args = (*args, *kwargs.values())
+        if any(isinstance(arg, codes.QuditCode) and arg.field.order != 2 for arg in all_args):
             raise ValueError("Circuit methods are only supported for qubit codes")
         return func(*args, **kwargs)
 
-- 
2.43.0


From d3ff50ac8accc10b8cffe13fc8e2a132e07f42c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 55/73] fix: find the code deformations that preserve logical
 operators

---
 qldpc/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index 2efbeb1..821fb7f 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -206,7 +206,7 @@ def get_transversal_automorphism_group(
     deformations for which the logical Pauli group of the original QuditCode is a valid choice of
     logical Pauli group for the deformed QuditCode.
     """
-    parity_checks = code.matrix if not deform_code else symplectic_conjugate(code.get_logical_ops())
+    parity_checks = code.matrix if not deform_code else code.get_logical_ops()
     matrix_x = parity_checks.reshape(-1, 2, len(code))[:, 0, :]
     matrix_z = parity_checks.reshape(-1, 2, len(code))[:, 1, :]
     if not local_gates or local_gates == {"H"}:
-- 
2.43.0


From efd2d4aa586f26b5513d994e2a55c3279769a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 56/73] fix: transversal automorphism groups of codes whose
 automorphisms are trivial or fix some bits

---
 qldpc/circuits.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index 821fb7f..cdf032a 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -242,7 +242,8 @@ def get_transversal_automorphism_group(
             for ss in range(num_sectors - 1)
             for qq in range(len(code))
         ]
-    group_gates = abstract.Group(*map(abstract.GroupMember, column_perms))
+    identity = abstract.GroupMember(range(len(instrumental_code)))
+    group_gates = abstract.Group(identity, *map(abstract.GroupMember, column_perms))
 
     # intersect the groups above to find the group generated by a transversal gate set
     group_aut_gens = _sympy_group_intersection_generators(group_code, group_gates)
@@ -257,7 +258,16 @@ def _sympy_group_intersection_generators(
     group_a: abstract.Group, group_b: abstract.Group
 ) -> tuple[tuple[int, ...], ...]:
     """Get the generators of the intersection of two Sympy permutation groups."""
-    group_sympy = group_a.to_sympy().subgroup_search(group_b.to_sympy().contains)
+    # make both groups act on the same set of points
+    degree = max(group.to_sympy().degree for group in (group_a, group_b))
+    sympy_a, sympy_b = (
+        abstract.Group(abstract.GroupMember(range(degree)), *group.generators).to_sympy()
+        for group in (group_a, group_b)
+    )
+    if sympy_a.order() == 1:
+        group_sympy = sympy_a  # SymPy fails to search a trivial group
+    else:
+        group_sympy = sympy_a.subgroup_search(sympy_b.contains)
     return abstract.Group(group_sympy).hashable_generators()
 
 
-- 
2.43.0


From 24296a6c3fa6a8d12634caac1cc82761f53d7019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 57/73] fix: transversal circuits for codes without logical
 qubits

---
 qldpc/circuits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index cdf032a..b012790 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -483,7 +483,8 @@ def get_transversal_circuits(
     physical_circuits = [None] * len(logical_circuits_or_tableaus)
 
     # convert logical Cliffords into tableaus
-    identity = stim.Circuit(f"I {code.dimension - 1}")  # to ensure circuits address all qubits
+    identity = stim.Circuit()
+    identity.append("I", range(code.dimension))  # to ensure circuits address all qubits
     logical_tableaus = [
         (
             logical_circuit_or_tableau
-- 
2.43.0


From a64fced2014806c6d1b53b6f2dbe805061557a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 58/73] fix: automorphism groups of codes without parity checks

---
 qldpc/codes/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 2badb22..627b4f4 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -566,6 +566,9 @@ class ClassicalCode(AbstractCode):
         preserve the code space.
         """
         matrix = self.canonicalized.matrix.view(np.ndarray)
+        if len(matrix) == 0:
+            # there are no parity checks, so every permutation of bits preserves the code space
+            return abstract.SymmetricGroup(len(self))
         checks_str = ["[" + ",".join(map(str, line)) + "]" for line in matrix]
         matrix_str = "[" + ",".join(checks_str) + "]"
         code_str = f"CheckMatCode({matrix_str}, GF({self.field.order}))"
-- 
2.43.0


From 0bc57c06f1ce5dbac4ec2d31593f5c13e122fba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 59/73] fix: read cached results at most once, as they may get
 evicted at any time

---
 qldpc/cache.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/qldpc/cache.py b/qldpc/cache.py
index d4f217d..a46c9bf 100644
--- a/qldpc/cache.py
+++ b/qldpc/cache.py
@@ -17,6 +17,7 @@ limitations under the License.
 
 from __future__ import annotations
 
+import enum
 import functools
 import os
 import sys
@@ -27,6 +28,12 @@ import diskcache
 import platformdirs
 
 
+class _Marker(enum.Enum):
+    """Special values that cannot be confused with anything that is passed to a cached function."""
+
+    MISSING = enum.auto()  # a cache has no entry for a given key
+
+
 def get_disk_cache(cache_name: str, *, cache_dir: str | None = None) -> diskcache.Cache:
     """Retrieve a dictionary-like cache object."""
     if running_with_pytest():
@@ -56,8 +63,10 @@ def use_disk_cache(
                 key = key_func(*args, **kwargs)
             else:
                 key = args + tuple(kwargs.items())
-            if key in cache:
-                return cache[key]
+            # (a single read of the cache, because entries may get evicted at any time)
+            cached_result = cache.get(key, _Marker.MISSING)
+            if cached_result is not _Marker.MISSING:
+                return cached_result
 
             # compute results and save to cache
             result = function(*args, **kwargs)
-- 
2.43.0


From 247c0c49dea11339be70ecc60fb525e9afcee824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 60/73] fix: do not confuse positional arguments with keyword
 arguments in the keys of a disk cache

---
 qldpc/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/cache.py b/qldpc/cache.py
index a46c9bf..e1e1402 100644
--- a/qldpc/cache.py
+++ b/qldpc/cache.py
@@ -32,6 +32,7 @@ class _Marker(enum.Enum):
     """Special values that cannot be confused with anything that is passed to a cached function."""
 
     MISSING = enum.auto()  # a cache has no entry for a given key
+    KWARGS = enum.auto()  # separates positional arguments from keyword arguments in a key
 
 
 def get_disk_cache(cache_name: str, *, cache_dir: str | None = None) -> diskcache.Cache:
@@ -62,7 +63,7 @@ def use_disk_cache(
             if key_func is not None:
                 key = key_func(*args, **kwargs)
             else:
-                key = args + tuple(kwargs.items())
+                key = args + ((_Marker.KWARGS, *sorted(kwargs.items())) if kwargs else ())
             # (a single read of the cache, because entries may get evicted at any time)
             cached_result = cache.get(key, _Marker.MISSING)
             if cached_result is not _Marker.MISSING:
-- 
2.43.0


From e616968b183b7ca5952eb5509bf550578b858227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:50 +0000
Subject: [PATCH 61/73] fix: canonical forms of polynomials with nontrivial
 coefficients or a single term

---
 qldpc/codes/quantum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 1e821a5..5c6b3eb 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -310,15 +310,15 @@ class QCCode(TBCode):
 
         # canonialize and add one term ata time
         new_poly = sympy.core.numbers.Zero()
-        for term in poly.args:
+        for term in sympy.Add.make_args(poly.as_expr()):
             coeff, exponents = self.get_coefficient_and_exponents(term)
 
-            new_term = sympy.core.numbers.One()
+            new_term = sympy.Integer(coeff)
             for symbol, order in zip(self.symbols, orders):
                 new_exponent = exponents.get(symbol, 0) % order
                 if new_exponent > order / 2:
                     new_exponent -= order
-                new_term *= coeff * symbol**new_exponent
+                new_term *= symbol**new_exponent
 
             new_poly += new_term
 
-- 
2.43.0


From 8a26872995add11890bf36cd121f46bb48b62fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:50 +0000
Subject: [PATCH 62/73] fix: toric layouts of bivariate bicycle codes with
 single-term polynomials

---
 qldpc/codes/quantum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 5c6b3eb..63d66da 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -500,8 +500,10 @@ class BBCode(QCCode):
             return []
 
         # identify individual monomials (terms without their coefficients) in the polynomials
-        monomials_a = [term.as_coeff_Mul()[1] for term in self.poly_a.as_expr().args]
-        monomials_b = [term.as_coeff_Mul()[1] for term in self.poly_b.as_expr().args]
+        terms_a = sympy.Add.make_args(self.poly_a.as_expr())
+        terms_b = sympy.Add.make_args(self.poly_b.as_expr())
+        monomials_a = [term.as_coeff_Mul()[1] for term in terms_a]
+        monomials_b = [term.as_coeff_Mul()[1] for term in terms_b]
 
         # identify collections of monomials that can be combined to obtain a toric layout
         toric_params = []
-- 
2.43.0


From 361e163f430d9749542c9b4940b4b19d3171cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:04 +0000
Subject: [PATCH 63/73] fix: express toric layouts in the symbol order that a
 bivariate bicycle code assigns orders in

---
 qldpc/codes/quantum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 63d66da..b42c670 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -542,6 +542,12 @@ class BBCode(QCCode):
                 gen_g, gen_h, shifted_poly_a, shifted_poly_b
             )
 
+            # a BBCode built from this data assigns orders to its symbols in alphabetical order
+            if self.symbols != tuple(sorted(self.symbols, key=str)):
+                exchange = dict(zip(self.symbols, self.symbols[::-1]))
+                new_poly_a = new_poly_a.subs(exchange, simultaneous=True)
+                new_poly_b = new_poly_b.subs(exchange, simultaneous=True)
+
             # add new generating data
             generating_data = (orders, new_poly_a, new_poly_b)
             if generating_data not in toric_layout_generating_data:
-- 
2.43.0


From 4347b8c18aa49e0f098af5065c0b7399d53e8a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 64/73] fix: do not expose the local database of groups to
 modification

---
 qldpc/external/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 6185b9f..73a2867 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -35,7 +35,7 @@ def get_generators(group: str) -> GENERATORS_LIST:
     """Retrieve GAP group generators."""
 
     if generators := KNOWN_GROUPS.get(group):
-        return generators
+        return [list(cycles) for cycles in generators]  # copy, to protect the local database
 
     generators = get_generators_with_gap(group)
     if generators is not None:
-- 
2.43.0


From 99850183fb9c8f16c631b0616d18d4f1a92bc6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 65/73] fix: do not mistake groups constructed from a
 SmallGroup for that SmallGroup

---
 qldpc/external/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 73a2867..d74f288 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -140,7 +140,7 @@ def get_generators_from_groupnames(group: str) -> GENERATORS_LIST | None:
     """Retrieve GAP group generators from GroupNames.org."""
 
     # extract order and index of a SmallGroup
-    match = re.match(r"SmallGroup\(([0-9]+),([0-9]+)\)", group)
+    match = re.fullmatch(r"SmallGroup\(([0-9]+),([0-9]+)\)", group)
     if match:
         order, index = map(int, match.groups())
     else:
-- 
2.43.0


From 5fceba80dd6ee18e115f0fb4b73b9d58f4b39337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:11 +0000
Subject: [PATCH 66/73] fix: embed idempotent coefficients in a subfield into
 the base field

---
 qldpc/external/groups.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index d74f288..4ea9905 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -271,13 +271,15 @@ def get_primitive_central_idempotents(
         for ring_term_match in re_ring_term.finditer(ring_member_match.group()):
             coefficient_string, cycles_string = ring_term_match.group().split("*")
 
-            # convert "Z(p^k)^m" into galois.GF(field)(galois.GF(p**k).primitive_element ** m)
+            # convert "Z(p^k)^m" into an element of galois.GF(field), in which the powers of
+            # Z(p^k) = Z(field) ** ((field - 1) / (p^k - 1)) make up a subfield of order p^k
             coefficient_match = re_coefficient_components.match(coefficient_string)
             assert coefficient_match is not None
             pp = int(coefficient_match.group(1))
             kk = int(coefficient_match.group(2) or 1)
             mm = int(coefficient_match.group(3) or 1)
-            coefficient = galois.GF(field)(galois.GF(pp**kk).primitive_element ** mm)
+            exponent = mm * ((field - 1) // (pp**kk - 1))
+            coefficient = galois.GF(field).primitive_element ** exponent
 
             # extract and 0-index cycles
             cycles = tuple(
-- 
2.43.0


From 60d0ed803fc2cb81333ad4e2ca42fc4ada004461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:11 +0000
Subject: [PATCH 67/73] fix: read all primitive central idempotents reported by
 GAP, or fail

---
 qldpc/external/groups.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 4ea9905..0a81b1f 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -253,12 +253,18 @@ def get_primitive_central_idempotents(
         "Print(idempotents);",
     )
 
+    # remove whitespace, which GAP uses to align the integers in a permutation
+    idempotents_str = "".join(idempotents_str.split())
+
     coefficient_pattern = r"\(Z\(\d+(?:\^\d+)?\)(?:\^\d+)?\)"
     cycle_pattern = r"\(\d+(?:,\d+)*\)|\(\)"
     cycles_pattern = f"(?:{cycle_pattern})+"
     ring_term_pattern = rf"{coefficient_pattern}\*{cycles_pattern}"
     ring_member_pattern = rf"(?:{ring_term_pattern})(?:\+{ring_term_pattern})*"
 
+    if not re.search(rf"\[{ring_member_pattern}(?:,{ring_member_pattern})*\]$", idempotents_str):
+        raise ValueError(f"Cannot extract idempotents from string: {idempotents_str}")
+
     re_ring_term = re.compile(ring_term_pattern)
     re_ring_member = re.compile(ring_member_pattern)
     re_cycle = re.compile(cycle_pattern)
-- 
2.43.0


From 8e95a4103507e69984aade79cb44db8bf5d94c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:13 +0000
Subject: [PATCH 68/73] fix: reject incomplete permutations in the output of
 GAP

---
 qldpc/external/groups.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 0a81b1f..03cc2c9 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -118,11 +118,13 @@ def get_generators_with_gap(group: str) -> GENERATORS_LIST | None:
 
     # collect generators
     generators = []
-    for line in generators_str.splitlines():
-        if not line.strip():
+    for line in map(str.strip, generators_str.splitlines()):
+        if not line:
             continue
 
         # extract list of cycles, where each cycle is a tuple of integers
+        if not re.fullmatch(r"(\([0-9, ]*\))+", line):
+            raise ValueError(f"Cannot extract cycles from string: {line}")
         cycles_str = line[1:-1].split(")(")
         try:
             cycles = [tuple(map(int, cycle.split(","))) for cycle in cycles_str if cycle]
-- 
2.43.0


From addfdbc4d579f7e9887b40aaebf352403f618bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:13 +0000
Subject: [PATCH 69/73] fix: fail as documented when losing access to
 GroupNames.org

---
 qldpc/external/groups.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 03cc2c9..099124d 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -154,7 +154,11 @@ def get_generators_from_groupnames(group: str) -> GENERATORS_LIST | None:
     if group_url is None:
         # we cannot access the webapage
         return None
-    group_page = urllib.request.urlopen(group_url)
+    try:
+        group_page = urllib.request.urlopen(group_url)
+    except (urllib.error.URLError, urllib.error.HTTPError):
+        # we cannot access the webapage
+        return None
     group_page_html = group_page.read().decode("utf-8")
 
     # extract section with the generators we are after
-- 
2.43.0


From 32231e5c71dbe6eb81a92ca065ba6494a6d5f284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:44 +0000
Subject: [PATCH 70/73] fix: installing a GAP package with git no longer counts
 as failed because git reports its progress

---
 qldpc/external/gap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/external/gap.py b/qldpc/external/gap.py
index c336a87..24468b1 100644
--- a/qldpc/external/gap.py
+++ b/qldpc/external/gap.py
@@ -78,12 +78,13 @@ def require_package(name: str) -> None:
             commands = [
                 "git",
                 "clone",
+                "--quiet",  # otherwise git reports progress to stderr
                 f"https://github.com/gap-packages/{name.lower()}",
                 os.path.join(GAP_ROOT, "pkg", name.lower()),
             ]
             print(" ".join(commands))
             install_result = subprocess.run(commands, capture_output=True, text=True)
-            if install_result.stderr:
+            if install_result.returncode or install_result.stderr:
                 raise ValueError(f"Failed to install {name}\n\n{install_result.stderr}")
         else:
             raise ValueError("Cannot proceed without the required package")
-- 
2.43.0


From 97a3fba618c700a13da95b6708f169c9f2f73aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:42 +0000
Subject: [PATCH 71/73] fix: TrivialGroup.to_ring_array keeps the entries of a
 matrix over an extension field

---
 qldpc/abstract.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index d8c7735..2584492 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1140,11 +1140,13 @@ class TrivialGroup(Group):
         field = type(data).order if isinstance(data, galois.FieldArray) else None
         group = TrivialGroup()
         ring = GroupRing(group, field)
-        zero = ring.zero
-        one = ring.one
-
-        array = np.asarray(data, dtype=int)
-        terms = [val * one if val else zero for val in array.ravel()]
+        if isinstance(data, galois.FieldArray):
+            array = data
+        else:
+            array = ring.field(np.asarray(data, dtype=int) % ring.field.characteristic)
+        terms = [
+            RingMember(ring, (val, group.identity)) if val else ring.zero for val in array.ravel()
+        ]
         return RingArray(np.array(terms, dtype=object).reshape(array.shape))
 
 
-- 
2.43.0


From 4257c7bcffd2b50b2f4ebbe5a39128e8dfbad794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:45 +0000
Subject: [PATCH 72/73] fix: the distance of a binary code with more than 255
 bits can be computed

---
 qldpc/codes/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/distance.py b/qldpc/codes/distance.py
index aef6d44..037a688 100644
--- a/qldpc/codes/distance.py
+++ b/qldpc/codes/distance.py
@@ -277,7 +277,7 @@ def get_distance_quantum(
     bufs = [np.empty_like(arrayf) for _ in range(nbuf)]
 
     # Min weight of the part containing logical ops
-    weights = weight_func(arrayf[2**num_stabilizers :])
+    weights = weight_func(arrayf[2**num_stabilizers :]).astype(np.uint)
     min_weight = _inplace_rowsum(weights).min(initial=num_bits)
 
     for li in range(1, 2 ** len(int_logical_ops)):
-- 
2.43.0


From 9853ef5add632e2b2c3c76fb7548fc81cdf0dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:18 +0000
Subject: [PATCH 73/73] fix: stabilizer rows of the standard form of a
 subsystem code are stabilizers

---
 qldpc/codes/common.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 627b4f4..276153a 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1158,15 +1158,11 @@ class QuditCode(AbstractCode):
             matrix_z = _with_permuted_qudits(matrix_z, np.argsort(permutation_z))
 
             """
-            Row reducing the combiner stabilizer + gauge matrices added gauge ops to stabilizers to
-            zero out entries above the gauge-pivot columns.  Remove the added gauge operators.
+            Row reducing the combined stabilizer + gauge matrices added gauge ops to stabilizers to
+            zero out entries above the gauge-pivot columns.  Restore the original stabilizers.
             """
-            matrix_x[:num_stabs_x] += (
-                stabilizers_x[:num_stabs_x, pivots_gx] @ matrix_x[num_stabs_x:]
-            )
-            matrix_z[:num_stabs_z] += (
-                stabilizers_z[:num_stabs_z, pivots_gz] @ matrix_z[num_stabs_z:]
-            )
+            matrix_x[:num_stabs_x] = stabilizers_x
+            matrix_z[:num_stabs_z] = stabilizers_z
 
             # full parity check matrix in standard form
             matrix = np.vstack([matrix_x, np.hstack([np.zeros_like(matrix_z), matrix_z])])
-- 
2.43.0

